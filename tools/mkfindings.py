"""Writes known_findings.txt: hash prefix of a fix commit -> properties and what failed before it."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = '''
54074fe C01 pipelined requests and bodies arriving with or apart from their header were lost, cut or mixed up
7a4b5f2 C01,C33 query parameters whose names have uppercase letters, and those after a second "?", could not be looked up
e722fc7 C03 the announced persistence (Connection header) differed from what the server did, close requests in other letter case or on later requests were ignored
ab9efa8 C02 bodies were compressed although this request's Accept-Encoding did not list the coding or the handler had encoded them already
1337325 C02 responses to HEAD requests carried a body
934607e C04 a client disconnecting before its response was sent killed the process (SIGPIPE)
42581d2 C37,C04 Strings::trim of an empty or blank string read out of bounds
d1e7e3a C37 Strings::endsWith was wrong for strings in which the ending also occurs earlier
85b52a0 C37 Strings::join dropped separators after leading empty items
dd95da1 C37 Strings::replaceAll of an empty substring never ended
12d34f4 C29,C04 decoding empty or unpadded base64 read and wrote out of bounds
6bb46c3 C29 hex decoding accepted characters that are no hexadecimal digits
916fc85 C29 encodeURIComponent left control and non-ASCII characters unescaped
059fed7 C36 passwords with colons were cut, malformed Basic credentials disturbed the request
acc704e C05 negative, overflowing and non-numeric Content-Length values reached the handler
5c80907 C04 the body of a request with a transfer encoding was taken for the next request
b0a2340 C31,C06 serialised JSON strings and property names were not escaped correctly
c62883c C32 assigning to a JSON property leaked the previous value
85ee8ee C31,C32 JSON escapes, numbers, empty containers and unterminated texts were parsed wrong or out of bounds
940865d C06 exception messages got into HTML error pages unescaped
b6b130a C07,C08 connection sockets were used and closed by several threads without synchronisation
7ba99ab C08 stopping the listener raced with accept and could use a closed or foreign descriptor
d208e99 C10 the sub-second part of connection timeouts was dropped (below one second: no timeout at all)
b25bbdc C08 instance state was shared between threads without synchronisation
c33c3ea C03,C09 connections stayed open after their worker was done
c324c33 C09 the connection limit was off and could not be disabled
04ba6da C09 one failed accept ended the service
fb3e4e5 C09 a worker thread that could not be created ended the service
187535d C31 (build dependency introduced by b0a2340 and removed again)
5efd1e1 C07,C11 id generators were used by several threads without synchronisation
4b58a40 C08 a client that sends or reads slowly delayed shutdown without bound
d8d415b C13,C15 WebSocket frames split into segments at certain places were misread, large declared lengths allocated at once
cf50186 C13,C15 fragmented messages and control frames between fragments were not handled as the protocol requires
56dc552 C14 messages got between header and payload of pings and pongs
0e75c57 C13,C15 clients sending an unsolicited pong were dropped
b6e34cf C13,C14 the message queue and connection state were used by several threads without synchronisation
9a5449e C15 closing a WebSocket whose connection was gone threw out of a destructor and ended the process
dfe25e7 C14 later fragments of a message were sent as new messages
69af63b C14 frames were sent after the close frame
50bd928 C14 after a partial send, later data was sent into the middle of the cut frame
2fc16bb C16 multi-line event data broke the event stream
086fbfb C17,C18 a path that cannot be looked up (too long, zero byte) terminated the process
f7f7602 C18 a file removed between lookup and reading gave an error instead of 404
6a3189f C18 the not-found page showed the path unescaped
f2e4d3b C40,C18 uppercase file extensions had no media type
a71e2f6 C18 a file that cannot be read gave an error instead of 404
4fb4041 C33 IPv6 hosts were cut at their first colon
72f3128 C35 request cookies with uppercase names could not be read
fe1ca93 C35 copying or moving a cookie jar lost the cookies set on it
89373e0 C35 deleted cookies had a malformed expiration attribute
39efd1a C32 parsing took time and memory proportional to text size times nesting depth
b29e180 C26 one-shot zlib functions failed when the output ended exactly at a buffer border
7093661 C28 brotli data followed by other data was accepted
cbdc51a C27 streams failed when data ended exactly at a buffer border or with empty chunks
7b81083 C27 gzip compressors leaked their memory
15a17db C27 move-assigning gzip streams leaked the previous stream
e51cd5e C27 a stream whose initialisation fails leaked
4154c1b C27 streams without data could not be ended
38a234a C19 store files in the current directory could not be opened
a83cfa4 C19 a store that cannot be loaded leaked its data
56b6f6e C21 a store with an incomplete last record could not be opened again
621ec6c C21 a crash while opening (compacting) a store lost all of its content
63ba112 C19 keys over 65535 bytes made the store unreadable
04dcd8c C19 failed writes were not reported, the data in memory was changed nevertheless
ef2d401 C20 existence tests and counts were not synchronised
5e9fe99 C21 (621ec6c replaced links and dropped file permissions)
ca6a28a C22,C25 moving a file onto itself deleted it, statistics were wrong after moves and moves of missing files, and changed outside the lock
1f13add C22 creation and modification times were swapped in file information and listings
23fc3cc C22,C23,C24 statistics did not include loaded files
68f43ad C23,C24,C25 writing a tar header wrote past its version field (aborts with fortified libc)
3e598a9 C23 files whose size is a multiple of 512 bytes (above 512) were followed by an extra zero block that ends the archive for other tools
9e33791 C23 archives with non-ASCII names had wrong checksums and could not be loaded
e1b1de1 C23 any file extension was accepted for snapshots
0d470f0 C23,C24,C25 the snapshot queue was used by two threads without synchronisation and could fail with "No associated state"
9fa0657 C25 statistics were read without synchronisation
83b9a1b C24 loading took time quadratic in the number of files
51d8a94 C25 a failing save could wait forever for its writer
32467b8 C23,C24 tar.gz archives whose content compresses badly could not be loaded, skipping padding went past the end of the buffer
4c1d4d9 C24 a corrupted size field made the loader allocate gigabytes
48435b9 C23 the prefix field of ustar names was ignored
4b67695 C23 regular files of the types NUL and 7 were ignored and their content taken for headers
f99621c C23,C24 the content of entries other than files was taken for headers, a long name could be given to a later file
7e204da C23 long names of other tools kept their terminating zero byte
ea2d2ee C23 failing snapshot writes were not reported
632163d C23 a file with an empty name ended the snapshot silently, losing all files after it
802e024 C24 bytes after a zero byte in the name field became part of the name
adbf641 C12 a handler that dealt with a failed WebSocket handshake itself had its answer dropped, the client got none
8f24ab9 C33 user@host lost the user name, serialisation lost credentials of which one part was empty
30382dc C42 a signal arriving during a socket read or write lost the connection (EINTR taken for a failure, partial sends not continued)
f252690 C43,C44 control characters in the request line and headers reached the handler, and forged lines in the request log
66bb07d C44 line breaks in header values, cookies and status texts set by a handler (or echoed from Origin) started new header lines and responses
4a7733c C02 responses with status 204 or 304 were followed by body bytes, which clients take for the next response
866deaa C48 cleaning a request path of backslashes or dots took time quadratic in its length
be98e24 C48 replacing many matches in a text took time quadratic in its length
ca6008e C48 rendering a template with many placeholders took time quadratic in its length
5339968 C48 parsing JSON copied every value once per enclosing array or object
69e65a3 C15 a WebSocket opened while no thread could be started never got a reader: its handler saw no messages and no end
0d6ae70 C09 a server that could not start its service thread was constructed without an error and never served
aa6142f C28 a zlib stream that needs a preset dictionary was taken by the streaming decompressor without an error or an end
03e2e1f C02 responses with an informational status (1xx) were followed by body bytes, which clients take for the next response
ecb1f42 C51 the text and fields of a Date whose timestamp has no calendar form came from memory that was never written
84cb3d6 C53 an allocation that fails inside of the brotli encoder or decoder set-up made the null instance be used (SEGV)
3927bfa C53 setItem that ran out of memory after its record had been written reported an error but the value was there after the next start
1f2516f C53 a store whose initial data could not be kept for want of memory leaked its driver, file handle included
e38b05e C53 renaming a file that ran out of memory took the file out of the VFS and lost it
68a5ba2 C53 an entry that could not be added while an archive was loaded was counted in the statistics
a68b871 C53 valid credentials counted as missing when there was no memory to decode them
'''
have = dict(l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
out = ['# Findings of this work in maddsua/lambda. "known:" lines (none so far) are suppressed by their key; "fixed:" lines suppress nothing.']
seen = set()
for l in F.strip().split('\n'):
    h, props, what = l.split(' ', 2)
    assert h in have and have[h].startswith('fix:'), h
    seen.add(h)
    for p in props.split(','):
        out.append('fixed: property=%s %s %s' % (p, h, what))
for h, s in have.items():
    if s.startswith('fix:') and h not in seen:
        raise SystemExit('not listed: %s %s' % (h, s))
open(os.path.join(V, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
print(len(out) - 1)
