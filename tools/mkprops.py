import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
T1='core/http/transport_v1.cpp'
CN='core/network/tcp/connection.cpp'
IN='core/server/instance.cpp'
WK='core/server/worker.cpp'
p('C01','Every HTTP request reaches the handler once, in order, unaltered',
 'However the bytes of a sequence of well-formed HTTP/1.1 requests (with Content-Length bodies) are split into TCP segments, and whether the requests are pipelined or sent one at a time on a kept-alive connection, the handler is invoked exactly once per request in the order sent. Each invocation sees the method, path, query parameters, every header value (names case-insensitive, repeated headers in order, surrounding whitespace trimmed), and body bytes the client sent, and nothing of another request.',
 ['inputs','histories','schedules'],'all sequences of valid requests, all segmentations of the byte stream, all binary bodies within the size limit',
 'No test opens an HTTP connection at all; the bug surface is the product of request contents and segmentation/pipelining, which only generated streams reach.',
 [T1,CN,WK],[('header accumulation and body read','awaitNext in '+T1),('read buffer carry-over between requests','m_readbuff')],['handler entry (echo of what it received)','response stream at the client socket'],
 [dict(name='m_readbuff',meaning='bytes received but not yet consumed by a request',where=T1)])
p('C02','Response on the wire equals what the handler returned',
 'For every handler response the client receives exactly one HTTP/1.1 message with the handler\'s status code, all header values the handler set (except those the server itself owns: date, server, content-length and x-request-id) and a Content-Length equal to the number of body bytes sent. The server applies a Content-Encoding only if compression is enabled, this very request\'s Accept-Encoding lists that coding as acceptable and the handler did not set an encoding itself; under these conditions it always applies one to a non-empty textual body (textual by its content type, in any letter case) if the list is plain (separated by comma and space, without weights). Undoing the encoding yields the handler\'s body byte for byte. A HEAD request gets no body bytes, nor does a response with status 1xx, 204 or 304.',
 ['inputs','histories','configurations'],'all statuses, header sets, bodies, accept-encoding lists and request histories on one connection',
 'Tests never read an HTTP response from the server; the guarantee depends on combinations of request headers, response headers and earlier requests.',
 [T1,'core/http/response.cpp','core/http/body.cpp','core/server/handlers.hpp'],[('response serialisation, content negotiation','respond in '+T1)],['client socket'])
p('C03','Connection persistence matches what the server announces',
 'After each response the TCP connection stays usable exactly when that response said "connection: keep-alive" and is closed by the server exactly when it said "connection: close" (event streams end with their connection). With connection reuse enabled, a client asking for close (in any letter case, on any request of the connection) gets close, and one asking for keep-alive or sending no Connection header gets keep-alive. A server with connection reuse disabled always announces and performs close, and a handler-set Connection header wins. (A client that goes on sending after the request that ended its connection may have the rest of the answers cut off.)',
 ['inputs','histories','configurations'],'all sequences of requests with any connection header, both reuse settings, handler-provided connection headers',
 'No test performs more than zero HTTP exchanges; persistence is a property of request histories.',
 [T1,WK],[('keep-alive state machine','m_keepalive in '+T1)],['client socket: response header plus subsequent open/EOF state'],
 [dict(name='m_keepalive',meaning='persistence decision for the connection',where=T1)])
p('C04','No byte stream from a client can corrupt or kill the server',
 'Whatever bytes a client sends on a connection, in whatever pieces, and whenever it disconnects or resets, the server process performs no invalid memory access or undefined behaviour, does not terminate or hang, and keeps answering valid requests on other connections correctly. Malformed requests end in an error status or a closed connection, never in a handler call with invented content.',
 ['inputs','fault_sequences','schedules'],'all byte streams including malformed, mutated and truncated requests, all disconnect points',
 'Tests send no hostile input; memory errors and process death need specific malformed bytes or a disconnect at a specific moment.',
 [T1,CN,WK,'core/http/auth.cpp','core/http/urlsearchparams.cpp','core/encoding/base64.cpp','core/polyfill/strings.cpp'],[('protocol errors and worker exception barrier',WK),('request parser',T1)],['sanitizer reports','process liveness','canary requests','handler log'])
p('C05','Requests over the size limit are rejected before the handler',
 'A request whose header or header-plus-declared-body size exceeds the configured maximum request size is answered with status 413 and a closed connection (or just closed), without the handler being invoked and without the server reading or allocating the declared body, and a request that fits within the limit is never rejected for its size. An absurd, negative or non-numeric Content-Length never reaches the handler.',
 ['inputs','configurations'],'all limits, header sizes, declared and actual body sizes, segmentations',
 'The limit is never exercised by tests; boundary and arithmetic errors appear only near the limit or at extreme declared values.',
 [T1,'core/http/transport.hpp'],[('maxRequestSize checks','awaitNext in '+T1)],['client socket','handler log','process memory high-water mark'])
p('C06','A failing handler costs one error response and nothing else',
 'When the handler throws anything (std::exception or not) or returns no response, the client receives a 500 response in the configured error format whose text carries the exception message, escaped so that the page/JSON stays well-formed, and the same connection and all others keep working. The exception never reaches the server\'s threads or terminates the process.',
 ['inputs','histories','configurations'],'all exception types and messages, all positions in a keep-alive request sequence, all three error formats',
 'No test makes a handler fail under a live server.',
 [WK,'core/server/errorpage.cpp'],[('handler exception barrier',WK),('error page renderer','core/server/errorpage.cpp')],['client socket','process liveness'])
p('C07','Concurrent connections are isolated and race-free',
 'With any number of clients active at the same time, every client receives only the responses to its own requests, in its own request order and with its own connection and body content, whatever other clients do. The server\'s request path has no data race.',
 ['schedules','histories'],'all interleavings of many clients with mixed request types, disconnects and slow reads',
 'Tests are single-threaded with respect to HTTP traffic; cross-talk and races need concurrent load under a race detector.',
 [WK,IN,T1,CN,'core/crypto/uid.cpp','core/utils/syncout.cpp'],[('thread per connection',IN),('shared id generator and log sink','core/crypto/uid.cpp, core/utils/syncout.cpp')],['tagged responses at clients','ThreadSanitizer reports'])
p('C08','Shutdown stops, joins and releases everything, at any moment',
 'With the thread-list mode on, calling shutdown and awaiting (or destroying the instance) at any moment, under any traffic, returns within a bound set by the running handlers and connection timeouts, without throwing or crashing. Afterwards no handler is running or gets started, all connections and the port are released so that a new instance can start on it at once (with fast port reuse), and no memory, thread or descriptor is leaked.',
 ['schedules','histories','configurations'],'all moments of shutdown relative to accept, request processing and connection end; repeated start/stop cycles',
 'instance_restart stops an idle server only; races between accept, worker exit and shutdown need traffic at the moment of shutdown.',
 [IN,WK,'core/server/worker.hpp','core/network/tcp/listener.cpp'],[('terminate / awaitFinished / destructor',IN),('listener stop','core/network/tcp/listener.cpp')],['handler start/end log versus destructor return','fd and thread counts','sanitizer and TSan reports'],
 [dict(name='shutdownFlag, finished, m_terminated',meaning='cross-thread lifecycle flags',where='core/server')])
p('C09','The connection limit is enforced exactly and slots come back',
 'In thread-list mode the server serves at most the configured maximum number of simultaneous connections: as long as fewer connections are open a new one is accepted and served, and once the maximum is reached a further one is closed without service. Every slot is reusable once its connection has ended, however many connections came and went before, and a transient failure to accept one connection or to start its thread does not stop the service. A server object that was constructed without an error serves: a construction that cannot get the resources it needs reports that.',
 ['histories','schedules','fault_sequences','configurations'],'all open/close/connect histories around the limit, injected accept failures',
 'No test opens more than zero connections.',
 [IN],[('connection counter and worker garbage collection',IN)],['client sockets: served or closed','number of concurrently served connections'],
 [dict(name='m_connections_count',meaning='live worker slots',where=IN)])
p('C10','Inactive connections are closed on time, active ones are not',
 'A connection on which the client sends nothing, or stops in the middle of a request, for longer than the configured receive timeout (any value, including below one second) is closed by the server without the handler seeing the incomplete request. A client that keeps sending with pauses shorter than the timeout is never cut off by it.',
 ['inputs','schedules','configurations'],'all timeout values, stall positions and pacing patterns',
 'Timeouts need a stalling peer and elapsed time; no test has one.',
 [CN,'core/network/tcp/listener.cpp',T1],[('socket timeouts','setTimeouts in '+CN)],['time of EOF at the client','handler log'])
p('C11','Every exchange carries a unique, matching correlation id',
 'Each response\'s x-request-id is the connection id and the request id that the handler saw for that very request, the connection id is constant over a connection, and no two exchanges of one server run share the same pair of ids, under any concurrency. Generated ids of all kinds are well-formed (a short id is eight hexadecimal digits denoting its value) and repeat no more often than random values of their size do.',
 ['schedules','histories'],'all interleavings of id generation from many threads and connections',
 'Uniqueness under concurrency is invisible to a single sampled id.',
 ['core/crypto/uid.cpp','core/crypto/crypto.hpp',T1,WK],[('id generators','core/crypto/uid.cpp')],['response headers vs handler context','ids from many threads, TSan'])
p('C12','WebSocket handshake follows RFC 6455',
 'A request with "Upgrade: websocket" and a key that the handler upgrades is answered with exactly one 101 response whose Sec-WebSocket-Accept is the RFC 6455 digest of that key and with upgrade headers, for every key value. A request lacking the requirements is answered with an HTTP error (400-class) and is never switched - unless the handler deals with the failed switch itself, in which case the client gets the handler\'s own answer. WebSocket data sent in the same segment as the handshake is either delivered or the handshake is refused with an error, but it is never silently lost.',
 ['inputs'],'all keys, header spellings and segmentations of handshake plus first frames',
 'Tests contain no WebSocket traffic.',
 ['core/websocket/websocket.cpp','core/crypto/sha1.cpp','core/encoding/base64.cpp',WK],[('handshake','WebsocketContext constructor')],['client socket'])
p('C13','Client WebSocket messages arrive once, in order, unaltered',
 'Every text or binary message a conforming client sends, of any size up to the limit, masked with any key, fragmented in any way with control frames interleaved, and cut into TCP segments in any way, is delivered to the handler exactly once, in order, with identical content and type. A fragmented message may be delivered as its fragments, in order and all but the last marked as partial. Nothing else is delivered.',
 ['inputs','schedules','histories'],'all message sequences, frame fragmentations, mask keys and segmentations',
 'No test sends a frame; correctness depends on where segment borders fall inside frames.',
 ['core/websocket/transport.cpp','core/websocket/websocket.cpp'],[('frame parser and message queue','core/websocket/transport.cpp')],['messages returned by the server-side API vs messages sent'],
 [dict(name='m_queue',meaning='received messages not yet taken',where='core/websocket')])
p('C14','Server WebSocket frames form a valid stream under concurrency',
 'Whatever the handler sends, from any number of threads, while pings are answered concurrently, the client receives a well-formed sequence of unmasked frames in which each message appears exactly once with its content and type intact, messages of one thread in order, and every ping is answered by a pong with the same payload. Closing from the handler sends a close frame.',
 ['schedules','inputs'],'all message sizes, sender threads and interleavings with incoming control frames',
 'Interleaving of writers needs concurrent load and a frame-level oracle.',
 ['core/websocket/websocket.cpp','core/websocket/transport.cpp',CN],[('frame serialisation and write lock','core/websocket')],['frame parser at the client','TSan reports'])
p('C15','Hostile or vanishing WebSocket peers are contained',
 'Any byte sequence after the handshake - invalid opcodes, oversize or absurd declared lengths, truncated frames, sudden disconnects or resets at any point, a peer that answers no pings - leads at most to that WebSocket being closed: no invalid memory access, undefined behaviour, crash or hang, and no allocation beyond the data actually sent. Other connections keep working, the handler learns of the closure within bounded time (also when the server is short of threads at the upgrade), and server shutdown ends open WebSockets. Frames that break the protocol (unknown opcodes, reserved bits, no mask, fragmented or oversize control frames, continuations out of place, anything after a close) or exceed the size limit, and whatever follows them, are not delivered, and the server closes that WebSocket.',
 ['inputs','fault_sequences','schedules'],'all byte streams after the upgrade and all disconnect moments',
 'No hostile WebSocket input in tests.',
 ['core/websocket/transport.cpp','core/websocket/websocket.cpp',WK],[('frame limits and connection-closed handling','core/websocket')],['sanitizer reports','canary requests','handler log of closure'])
p('C16','Server-sent events arrive exactly as pushed',
 'For every sequence of pushed events (any data including multi-line text, optional event name, id and retry) a standards-conforming event-stream parser at the client obtains the same sequence of events (line breaks in data normalised), after a 200 response with content type text/event-stream that allows the origin the request came from. An event name or id containing a line break never injects fields or events. A push after the client has gone is reported to the handler as failure within bounded time instead of crashing the process.',
 ['inputs','histories','fault_sequences'],'all event contents and sequences, all client disconnect moments',
 'No test opens an event stream.',
 ['core/sse/writer.cpp','core/sse/sse.hpp'],[('event serialisation','core/sse/writer.cpp')],['event stream parsed at the client','handler log'])
p('C17','The static file server never serves anything outside its root',
 'For every request path (any mix of "..", encoded or raw separators, backslashes, absolute paths, empty segments, odd bytes) the static file server only ever returns content of regular files located under its root directory by path; everything else is answered with an error status.',
 ['inputs'],'all request paths and all placements of files around the root',
 'No test serves a file; containment must hold for every path string.',
 ['extra/staticserver/staticserver.cpp'],[('path normalisation','extra/staticserver/staticserver.cpp')],['response body versus canary files outside the root'])
p('C18','Static files are served complete, fresh and correctly typed',
 'A GET for an existing file under the root (ordinary URL-safe names) returns 200 with exactly the file\'s current bytes and the content type of its extension, a directory path (ending in a slash, or without a dot in its last segment) serves its index page, and a missing one returns 404 with a page that shows the requested path only as escaped text. While files are atomically replaced or removed every response is one complete version or a 404. No path, however long or odd, and no concurrent change of the tree makes the server crash.',
 ['inputs','histories','schedules'],'all trees, file contents and request paths including over-long names',
 'Not covered by any test.',
 ['extra/staticserver/staticserver.cpp','core/polyfill/mimetype.cpp'],[('file lookup and read','extra/staticserver/staticserver.cpp')],['response vs filesystem content'])
p('C19','The key-value store behaves as a map and survives reopening',
 'After any sequence of set, get, remove and clear operations with arbitrary string keys and values, every read, existence test and count returns what an in-memory map would return, and closing and reopening the file (any number of times) yields exactly the same content. Operations that cannot be stored (keys over 65535 bytes, failing writes) are rejected with an error and leave the store readable and unchanged.',
 ['inputs','histories'],'all operation sequences with arbitrary binary keys/values and reopen points',
 'The storage test checks a few fixed keys; the property quantifies over histories and contents.',
 ['extra/kvstorage/driver.cpp','extra/kvstorage/interface.cpp'],[('append log and replay','extra/kvstorage/driver.cpp')],['public API results vs model','re-opened store'],
 [dict(name='m_data',meaning='in-memory index',where='extra/kvstorage')])
p('C20','Concurrent key-value operations are linearizable',
 'Operations issued on one store from many threads behave as if executed one at a time in some order consistent with real time, the content after reopening equals the final in-memory content, and there is no data race.',
 ['schedules','histories'],'all interleavings of reads and writes by several threads',
 'The storage test is single-threaded.',
 ['extra/kvstorage/interface.cpp','extra/kvstorage/driver.cpp'],[('store mutex','extra/kvstorage/interface.cpp')],['call/return history at the API','TSan reports'])
p('C21','A crash loses at most the unfinished key-value write',
 'If the process dies at any point (any prefix of the bytes written to the store file, including its header and including during reopening/compaction), reopening the store succeeds and yields the content after some prefix of the issued operations that includes every operation completed before the crash, so that at most the one being written is missing.',
 ['crash_points','histories'],'all byte-prefix crash points of the store file for operation sequences, and all crash points between file operations during open',
 'No test interrupts a write.',
 ['extra/kvstorage/driver.cpp'],[('log replay of a truncated tail, rewrite on open','extra/kvstorage/driver.cpp')],['file truncated at every byte and reopened','process killed at every file system call'])
p('C22','The virtual file system behaves as a flat map of files',
 'After any sequence of write, read, move, remove, file information and listing calls, contents, listing, sizes, existence results, creation and modification times and the file count and total size statistics (names plus contents) are what a map from case-insensitive names to contents would give, also when snapshots are loaded in between. Moving a missing file fails and changes nothing, and moving a file (also onto an existing name or itself) keeps its content.',
 ['inputs','histories'],'all operation sequences over arbitrary names and contents',
 'The vfs test runs one fixed script.',
 ['extra/vfs/interface.cpp','extra/vfs/vfs.hpp'],[('file map and statistics','extra/vfs/interface.cpp')],['API results vs model'],
 [dict(name='m_stats',meaning='entry count and total size',where='extra/vfs/interface.cpp')])
p('C23','VFS snapshots round-trip and interoperate with tar',
 'Saving any file set (names non-empty and without zero bytes, of any length) to a .tar, .tar.gz or .tgz snapshot and loading it back restores every file name, content and the statistics of the restored set; the snapshot is a valid ustar archive that standard tar tools read to the same file set. Ustar archives that standard tools write load to the same names (lower-cased), contents and modification times, entries that are not files being skipped. Whatever cannot be saved or loaded (unsupported extension, unusable name, unwritable or missing file, failing write) is reported as an error.',
 ['inputs'],'all file sets: names of any permitted length, any byte contents, sizes around block and buffer borders, both formats',
 'The vfs test round-trips one small set; padding and chunk-border errors need generated sizes.',
 ['extra/vfs/format_tar.cpp','extra/vfs/formats.hpp','extra/vfs/interface.cpp','extra/vfs/syncqueue.cpp'],[('tar writer/reader and queue','extra/vfs')],['re-loaded VFS','archive parsed by an independent tar implementation'])
p('C24','Hostile or truncated archives cannot corrupt the process',
 'Loading any byte string as a .tar or .tar.gz snapshot either succeeds or reports an error: no invalid memory access, undefined behaviour, deadlock, process termination, leak or memory use beyond the size of the data, whatever is truncated or altered. Files loaded from a truncated archive are complete files of it, an entry that claims more data than there is or whose header fails its checksum is reported and not loaded, and afterwards the file system is consistent and usable.',
 ['inputs','crash_points'],'all byte strings, in particular all truncations and mutations of valid archives',
 'No corrupted archive in tests.',
 ['extra/vfs/format_tar.cpp','extra/vfs/syncqueue.cpp','core/compression/zlib_stream_decompress.cpp'],[('tar/gzip reader','extra/vfs/format_tar.cpp')],['sanitizer reports, completion of the load call'])
p('C25','Concurrent use of one virtual file system is safe and atomic',
 'Reads, writes, moves, removes, listings, statistics and snapshot saves issued on one virtual file system from many threads have no data race or crash and behave as if executed one at a time in some order consistent with real time: every read returns the complete content of some write, no write is lost, and every snapshot holds the files of one moment. Snapshots loaded at the same time have no data race either, and lose no file.',
 ['schedules','histories'],'all interleavings',
 'The vfs test is single-threaded.',
 ['extra/vfs/interface.cpp','extra/vfs/syncqueue.cpp'],[('vfs mutex','extra/vfs/interface.cpp')],['call/return history','TSan reports'])
p('C26','One-shot compression is lossless and interoperable',
 'For every byte string and every quality level, gzip, deflate and brotli compression followed by the matching decompression returns the same bytes (empty input maps to empty output and back). The output for non-empty input is readable by any conforming decoder, and conforming single-member compressed data produced elsewhere is decoded correctly.',
 ['inputs'],'all inputs (empty, tiny, chunk-border sizes, incompressible, large), all qualities',
 'The tests compress one short text.',
 ['core/compression/zlib_oneshot.cpp','core/compression/brotli.cpp'],[('one-shot coders','core/compression')],['return values vs independent codec'])
p('C27','Streaming compression gives the same data for any chunking',
 'Feeding any data to the streaming compressor in any sequence of chunks (also empty ones) and finishing produces a stream that decodes to exactly that data, and the streaming decompressor yields exactly the original data for any chunking of its input and reports completion exactly at the end of the stream. What is given to either after the end of its stream is refused until it is reset. Neither leaks memory however it is used or abandoned.',
 ['inputs','histories'],'all data, all chunkings, all points of abandonment',
 'Streaming coders are not tested.',
 ['core/compression/zlib_stream_compress.cpp','core/compression/zlib_stream_decompress.cpp','core/compression/compression.hpp'],[('zlib stream wrappers','core/compression')],['output vs independent codec','LeakSanitizer'])
p('C28','Corrupt compressed data is reported, never returned as valid',
 'Decompressing truncated data, or data that is not in the expected format or fails its checksum, ends in an error and never in wrong or partial output being returned as success, in memory errors or in a hang. Unused data after a complete stream may be ignored for gzip and deflate and is an error for brotli.',
 ['inputs','crash_points'],'all truncations, bit flips and arbitrary inputs',
 'No corrupted input in tests.',
 ['core/compression/zlib_oneshot.cpp','core/compression/brotli.cpp','core/compression/zlib_stream_decompress.cpp'],[('error handling of the decoders','core/compression')],['return values vs independent codec','sanitizers'])
p('C29','Base64, hex and URI encodings are exact and safe',
 'For every byte string, encoding gives the standard (RFC 4648 / RFC 3986 percent) representation and decoding that representation gives the bytes back. For every input string whatsoever decoding either returns the standard result or rejects it with an error (malformed percent sequences, hex or base64 digits are rejected; missing base64 padding may be accepted), reading and writing no memory out of bounds.',
 ['inputs'],'all byte strings up to a length bound, all malformed strings',
 'The encoding test uses a handful of well-formed strings.',
 ['core/encoding/base64.cpp','core/encoding/hex.cpp','core/encoding/url.cpp'],[('codecs','core/encoding')],['return values vs independent codec','sanitizers'])
p('C30','SHA-1 is the standard digest for any chunking',
 'For every byte string and every way of feeding it in pieces, the computed digest is the standard SHA-1 digest, and an object can be used for successive messages as its interface promises.',
 ['inputs','histories'],'all messages and chunkings, lengths around block borders',
 'Not tested.',
 ['core/crypto/sha1.cpp'],[('SHA1 block function and padding','core/crypto/sha1.cpp')],['digest vs independent implementation'])
p('C31','JSON values survive stringify and parse; output is valid JSON',
 'For every value built from null, booleans, signed 32-bit integers (of any C++ integer type that holds them), finite floats, strings (any valid UTF-8 text), arrays and maps, nested up to 500 levels, the serialised text is valid JSON denoting the same value to any standard parser, and parsing it back gives an equal value (floats to six decimals). Parsing any standard JSON text with values in that range, in any whitespace layout, gives the value it denotes, numbers without fraction and exponent being integers.',
 ['inputs'],'all values and all JSON texts in the supported range',
 'The json test prints results without checking any of them.',
 ['core/json/parse.cpp','core/json/stringify.cpp','core/json/property.cpp'],[('parser, serialiser, value container','core/json')],['results vs independent JSON implementation'])
p('C32','Arbitrary text cannot break the JSON parser',
 'Parsing any text whatsoever either returns a value or reports an error: no invalid memory access, undefined behaviour, stack exhaustion, leak or hang, and time and memory stay in proportion to the text. Copying, assigning and moving values keeps content intact and frees everything exactly once.',
 ['inputs','histories'],'all texts incl. deep nesting and mutations; all sequences of value operations',
 'Only well-formed documents in tests.',
 ['core/json/parse.cpp','core/json/property.cpp'],[('recursive parser','core/json/parse.cpp'),('value ownership','core/json/property.cpp')],['sanitizer reports, LeakSanitizer'])
p('C33','URLs and query strings are split and rebuilt faithfully',
 'Parsing a URL composed of any valid protocol, user name and password, host (also IPv6 literals), port, path, query and fragment yields exactly those components (query values verbatim as written, looked up regardless of parameter-name case). Serialising a parsed URL and parsing it again yields the same components (an empty fragment being none), and any other string is handled without memory errors or crashes.',
 ['inputs'],'all component combinations, all strings',
 'The url test prints a few fixed URLs.',
 ['core/http/url.cpp','core/http/urlsearchparams.cpp','core/encoding/url.cpp'],[('URL parser','core/http/url.cpp'),('query parser','core/http/urlsearchparams.cpp')],['components vs generated ones'])
p('C34','Header containers are case-insensitive ordered multimaps',
 'Under any sequence of set, append, delete, copy, move and lookup operations, header and parameter containers behave as a map from case-insensitive names to ordered value lists: get returns the first value, getAll and entries all of them in order, set replaces, and del removes. Size is the number of distinct names, and size and has agree with entries.',
 ['inputs','histories'],'all operation sequences',
 'The headers test checks a fixed script.',
 ['core/http/kvcontainer.cpp'],[('container','core/http/kvcontainer.cpp')],['API results vs model'])
p('C35','Cookies are parsed and set exactly',
 'Every cookie of a Cookie request header (unique non-empty names, non-empty values, separated by "; ") can be read back with its exact value under its name in any letter case. Every cookie set or deleted on a cookie jar or response, also after copying or moving the jar, produces exactly one well-formed Set-Cookie value per cookie with its name, value and attributes; deleting gives it an expiration date in the past.',
 ['inputs','histories'],'all cookie names, values, attribute lists and jar operation sequences',
 'The cookie test prints one fixed jar.',
 ['core/http/cookies.cpp','core/http/request.cpp','core/http/response.cpp'],[('cookie jar','core/http/cookies.cpp')],['API results vs model'])
p('C36','Basic credentials are recognised exactly',
 'A Basic Authorization header made from any user name (without colon) and any password yields exactly that pair, as parsed credentials and in the request URL seen by the handler. Any other Authorization value (other schemes, bad base64, no colon; without control characters) yields no credentials and never disturbs the request.',
 ['inputs'],'all credentials and all header values',
 'Not tested.',
 ['core/http/auth.cpp',T1],[('basic auth parser','core/http/auth.cpp')],['API result','request URL at the handler'])
p('C37','String helpers match their plain definitions',
 'For every input string, split, join, trim, letter-case conversion, replace, replaceAll, includes, startsWith and endsWith return what their plain definitions give (split gives no final empty piece; split and join are inverse for non-empty items not containing the separator) and terminate without touching memory out of bounds.',
 ['inputs'],'all strings and separators up to a length bound, exhaustive over a small alphabet',
 'The strings test prints two examples.',
 ['core/polyfill/strings.cpp'],[('helpers','core/polyfill/strings.cpp')],['API results vs reference definitions'])
p('C38','Template rendering substitutes each placeholder once, verbatim',
 'Rendering any template with any property set replaces exactly the placeholders (`{{ name }}`) for known names with their values and those for unknown names with nothing, leaves all other text byte for byte, and never re-expands placeholder-like text that came in through a value. No template or value causes a memory error or hang.',
 ['inputs'],'all templates, property names and values',
 'Not tested.',
 ['core/html/renderer.cpp'],[('template renderer','core/html/renderer.cpp')],['API result vs reference renderer'])
p('C39','Log records from concurrent threads never mix or get lost',
 'Every record logged through the synchronised console output from any number of threads appears exactly once as one contiguous line with its content intact, on the right stream, and records of one thread appear in order.',
 ['schedules','histories'],'all interleavings of logging threads',
 'Not tested; interleaving needs concurrent writers.',
 ['core/utils/syncout.cpp','core/utils/utils.hpp'],[('console mutex','core/utils/syncout.cpp')],['captured stdout/stderr lines','TSan'])
p('C40','Dates, media types and byte-order helpers are exact',
 'For every timestamp in the years 1000 to 9999 the UTC/GMT/ISO renderings and calendar fields are the standard representation of that moment, the media type of every extension is found regardless of letter case, and every byte-order conversion is exact and self-inverse for every value.',
 ['inputs'],'all timestamps in the representable range, all file names, all integers',
 'Not tested.',
 ['core/polyfill/date.cpp','core/polyfill/mimetype.cpp','core/utils/byteswap.cpp'],[('formatters and tables','core/polyfill, core/utils')],['API results vs independent computation'])

LS='core/network/tcp/listener.cpp'
p('C41','TCP connections and listeners carry bytes intact and end cleanly',
 'Used directly, a TCP connection delivers the bytes written at either end complete, unaltered and in order: each read returns between one and the requested number of next bytes, whole writes of several threads do not interleave, a read ends with empty data and a closed connection after the peer has finished, with a network error (or empty data, when so configured) after a reset, and with empty data after the receive timeout, which closes the connection unless configured otherwise. A write to a closed connection, or one that cannot be completed in time, raises an error, and nothing written later may follow an incomplete write. Ending, destroying or assigning over a connection from any thread wakes its pending operations, stopping a listener wakes a pending accept, and every descriptor is closed exactly once; addresses and timeouts are reported as they are, also after moves.',
 ['inputs','schedules','histories','fault_sequences'],'all sequences of reads, writes, timeouts, resets, ends and moves by several threads, all sizes and peer behaviours',
 'The TCP tests exchange one short message over a healthy connection.',
 [CN,LS,'core/network/tcp/connection.hpp'],[('read, write and end of a connection',CN),('accept and stop of a listener',LS)],['both ends of the byte stream','outcome and time of each operation','descriptor count','TSan reports'],
 [dict(name='hSocket, m_shutdown_mtx',meaning='the descriptor and who may close it',where=CN)])
p('C42','Signals and cut system calls do not disturb connections',
 'When signals with handlers arrive at any of the process\'s threads at any time, and whenever a socket call returns early or with less than asked for because of that, no connection is lost and no data is lost, repeated or reordered: HTTP exchanges, WebSocket messages, event streams and plain TCP transfers complete as if nothing had happened, and timeouts still fire at their time, neither never nor early.',
 ['schedules','fault_sequences'],'all arrival times of signals at all threads relative to the socket calls',
 'No test sends a signal while a connection is in use.',
 [CN,LS],[('socket reads and writes',CN),('accept loop',LS)],['client sockets','timing of closes','count of interrupted and cut calls'])
p('C43','The request log tells what happened, once',
 'With request logging on, every request a handler has answered is logged in exactly one line with its id, peer, method, path and response status, every upgrade and every failed handler call in one line as well; with transport logging on, every connection has exactly one opening and one closing record with its id. No other lines appear and nothing a client sends can make a record look like several; with logging off nothing is logged.',
 ['inputs','histories','schedules','configurations'],'all request contents and mixes of concurrent connections, all log settings',
 'Tests do not look at the log.',
 [WK,'core/utils/syncout.cpp',T1],[('request and transport records',WK)],['captured stdout and stderr matched with the exchanges at the clients'])
p('C44','Values never turn into header lines, responses or requests',
 'Whatever bytes a handler puts into header values or names, cookies or a status text, the client sees no header line, status line or body that was not set as such, and the connection continues with the next response. Whatever control characters a request contains, neither does the server\'s answer show header lines made from them nor does a handler see line breaks or zero bytes within a header, the target or the method.',
 ['inputs'],'all values with line breaks and other control characters at every place',
 'Tests use well-behaved values and never look at a response on the wire.',
 [T1,'core/http/response.cpp','core/http/cookies.cpp','core/sse/writer.cpp'],[('header serialisation and parsing',T1)],['header block on the wire','request seen by the handler'])
p('C45','Long operation does not use up resources',
 'However many connections of any kind (complete, failing, aborted, refused, upgraded) a server has handled, in either worker mode, once they have ended the number of its threads and open descriptors is the same as at the start and the memory in use does not grow with their number, and it serves new connections as before.',
 ['histories','fault_sequences','configurations'],'all histories of connections of all kinds',
 'Tests make no connections; leaks per connection only show over many.',
 [IN,WK,CN,T1,'core/websocket/transport.cpp'],[('worker ends and joins',IN),('release of per-connection state',WK)],['threads, descriptors and live heap at quiet points'])
p('C46','Server instances in one process are independent',
 'Several instances in one process each serve their own port with their own handler and configuration (compression, persistence, size limit, error format, timeout, connection limit, logging). Starting, loading, shutting down or destroying one does not change or interrupt the others, and an attempt to use a port that is taken fails with an error and without harm.',
 ['histories','schedules','configurations'],'all histories of starting, using and stopping differently configured instances',
 'Tests run one instance at a time.',
 [IN,WK,T1],[('per-instance state',IN)],['answers, errors, limits and timeouts seen at each port','threads and descriptors after the last one is gone'])
p('C47','The library may be used from several threads at once',
 'Calls of the library\'s functions made by several threads at the same time, each with its own objects, have exactly the outcomes they have when made one after another, also when they are the first calls in the process. Objects that several threads only read (URLs, headers, cookies, JSON values, requests, responses, templates, a static file server) give every one of them the same answers as a single reader. Neither has a data race.',
 ['schedules','inputs'],'all interleavings of calls of all functions, including the first of a process',
 'Tests make every call from one thread.',
 ['core/json/parse.cpp','core/html/renderer.cpp','core/compression','core/crypto','core/polyfill','core/http','extra/staticserver/staticserver.cpp'],[('static tables and const members','core')],['outcome of each call vs the same call alone','TSan reports'])
p('C48','Work stays proportional to the input',
 'The processor time spent on a request, its header, body and pipelined followers, a WebSocket conversation, an event stream, a static file path, JSON text, a template, a text replacement, cookies, query parameters, an encoding, a compressed stream, an archive or a store file grows no faster than about proportionally to its size, whatever its shape. No short input keeps a thread busy for long.',
 ['inputs'],'all shapes and sizes of input',
 'Tests use inputs of a few bytes, on which quadratic work does not show.',
 ['extra/staticserver/staticserver.cpp','core/json/parse.cpp','core/html/renderer.cpp','core/polyfill/strings.cpp',T1,'core/websocket/transport.cpp'],[('single-pass processing','core/polyfill/strings.cpp'),('receive buffers',T1)],['processor time for inputs of two sizes'])
p('C49','HTTP value types hold what they are given',
 'Bodies, statuses, methods, requests, responses and handler results contain, however they were constructed, assigned, copied or moved, exactly the bytes, code, phrase, method, headers and URL parts they were given; copies are independent of their originals. Every standard status code has its standard phrase and class unless given another phrase, and unknown codes and methods are refused, while methods are recognised in any letter case and with surrounding spaces and compare equal accordingly. A result made from text or bytes is a response with status 200 and that body.',
 ['inputs','histories'],'all values and sequences of constructions, assignments, copies, moves and changes',
 'Tests construct a few responses with text bodies.',
 ['core/http/status.cpp','core/http/method.cpp','core/http/body.cpp','core/http/request.cpp','core/http/response.cpp','core/server/handlers.hpp'],[('constructors and assignments','core/http')],['all readable fields vs a model'])
p('C50','Moving the system clock does not disturb connections',
 'When the wall clock of the system is set forward or back while a server is running, receive and send timeouts still take effect at their time (neither early nor late nor never), paced clients and slow readers are served, event streams go on, WebSockets neither end nor get more pings than usual as long as their clients answer, and silent clients are still dropped. The Date header always tells the current time of the clock.',
 ['fault_sequences','schedules'],'all jumps of the clock at all moments of a connection',
 'The clock does not jump during tests.',
 [CN,'core/websocket/transport.cpp',T1],[('operation timer',CN),('ping timer','core/websocket/transport.cpp')],['client sockets','time of closes by the monotonic clock','Date header'])
p('C51','No outcome depends on memory that was never written',
 'No result, error, decision, address or byte that is returned, sent to a client or written to a file depends on memory that nothing was ever written to, whatever the input, also when errors, cut connections and partial reads leave values unset. The compression libraries are never made to read or write outside of the buffers they are given.',
 ['inputs','histories','fault_sequences'],'all inputs and histories of every part of the library',
 'Such memory is usually zero in tests, and ASan and UBSan do not follow it.',
 [T1,'core/websocket/transport.cpp','core/polyfill/date.cpp','core/compression','core/crypto/sha1.cpp','extra/vfs/format_tar.cpp','extra/kvstorage/driver.cpp'],[('headers and contexts filled field by field','extra/vfs/format_tar.cpp'),('value initialisation','core/polyfill/polyfill.hpp')],['memcheck reports: branches, addresses, system calls and returned values made of unwritten bytes'])
p('C52','The guarantees do not depend on how the library was built',
 'What the library returns, sends and stores is the same in every build that readme.md describes: optimised without assertions, and without compression, which builds and links without zlib and brotli. A build without compression sends every body unencoded and whatever the client accepts, and answers the saving and loading of compressed snapshots with an error that changes no file.',
 ['inputs','histories','configurations'],'all inputs and histories of every part of the library, in each documented build configuration',
 'The tests run on one build, and a side effect within an assertion, a branch that only exists without compression, or code whose meaning the optimiser may change is not in it.',
 ['buildopts.hpp',T1,'extra/vfs/format_tar.cpp','extra/vfs/formats.hpp','core/core.mk'],[('LAMBDA_BUILDOPTS_ENABLE_COMPRESSION','buildopts.hpp'),('PlainFSReader and PlainFSWriter','extra/vfs/format_tar.cpp'),('assertions','extra/vfs/format_tar.cpp')],['results, responses and files of each build, judged by the oracles of the other properties','whether it builds and links'])
p('C53','Running out of memory is an error like any other',
 'When memory cannot be had within a call that reports errors by exceptions, the call fails with an exception or gives its usual result, frees what it had taken, including files, and later calls give the results they would have given anyway. A store or a virtual file system on which an operation failed that way keeps all other entries, shows the failed operation either as done or as not done, and shows the same after the file is opened again.',
 ['inputs','histories','fault_sequences'],'every allocation of every call of the compression, encoding, JSON, template, storage and snapshot functions, including those the libraries below make',
 'Tests do not run out of memory, and which allocation fails decides what is left behind.',
 ['core/compression','extra/kvstorage/interface.cpp','extra/kvstorage/driver.cpp','extra/vfs','core/json','core/encoding'],[('stream owners','core/compression/brotli.cpp'),('setItem','extra/kvstorage/interface.cpp')],['results and exceptions of calls whose allocations fail','memory and files left behind','contents of stores and file systems afterwards'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,x['title']
    # at most three sentences
print(len(P))
