# id: (monitors and oracle, bounds, seconds of the quick check)
O = {
'C01': ("The harness handler echoes what it was given (method, path, parameters, every header value, body digest and bytes) and logs every entry; the client compares the echoes, one by one and in order, with the requests it generated, and the number of handler entries with the number of requests. Injected short reads in `recv` make the server see segmentations the kernel would merge.", "Streams of 1-8 requests, bodies up to some hundred kilobytes.", 12),
'C02': ("A textual response specification travels in the request and is executed by the handler through the public response API; the client reads the wire bytes with its own strict HTTP parser, undoes codings with Python's zlib and a brotli decoder that is independent of /repo's wrapper, and compares status, every header, length and body; the negotiation model states when a coding is forbidden and when it is mandatory.", "Bodies up to 5 MB.", 11),
'C03': ("Client-side automaton per connection: announced persistence, then whether another request is served or the stream ends; the policy model (request header, configuration, handler header) says what had to be announced.", "Up to 9 requests per connection.", 11),
'C04': ("Sanitizer reports and process death are violations; canary requests on fresh connections must be answered exactly; malformed requests must never reach the handler log; after a phase the server must return to its idle thread count and shut down in time.", "About 2,000 hostile streams in quick.", 12),
'C05': ("Sizes are computed from the bytes sent; over the limit nothing may reach the handler log and the answer is 413 or a close, within the limit the request must be served; the peak resident memory of the process bounds what was allocated for refused bodies.", "Four limits, sizes off by one and more on both sides.", 20),
'C06': ("The error response is compared by format: plain text exactly, JSON through Python's parser, HTML through an HTML parser whose element structure must equal that of a harmless message; further requests on the same and on other connections must be served.", "11 kinds of failure, random messages.", 8),
'C07': ("Every request carries an unguessable tag, the answer must be the one for that tag (echo, compressed body, big body, error page); TSan watches the server; id pairs must not repeat between clients.", "Up to 32 clients at once; interleavings are counted as handler overlaps.", 25),
'C08': ("Lifecycle monitor: each of shutdown/await/destroy is timed; handler entries after its return are violations; threads, descriptors and live heap are compared over the cycles; the next instance must bind the same port.", "About 150 cycles with traffic in random states (long pipelines, arrivals during the end, abrupt closes), also with random delays injected at every mutex operation; ASan, TSan.", 30),
'C09': ("Slot model: number of connections held open versus the limit; a client below the limit must be served, one above it must be closed without service; `accept` is made to fail with the transient errors of accept(2), and the descriptor limit is really exhausted once.", "Limits 50-60.", 15),
'C10': ("Close times are measured at the client; handler log must not show an incomplete request; pacing clients must be served.", "Timeouts of 150 to 2900 ms.", 38),
'C11': ("Ids seen by the client must equal those the handler logged for that exchange; pairs are unique over the run; 16 generator threads produce ids under TSan whose repetition is compared with chance.", "A few hundred thousand ids.", 15),
'C12': ("Sec-WebSocket-Accept is recomputed with hashlib; the handler log says which connections were switched; frames in the same segment must be delivered or refused with a 4xx.", "About 800 handshakes.", 5),
'C13': ("Sent message history versus the recorded delivery log (concatenated pieces, type, order, partial flag), byte for byte through digests.", "Messages up to the configured size limit; about 100 MB in quick; a TSan configuration with random delays at every mutex operation.", 25),
'C14': ("Strict frame parser at the client (minimal lengths, no masks, no reserved bits), per-thread order and exactly-once of numbered messages, pong for every ping, one close frame at the end and nothing after it.", "Up to 6 sending threads, messages up to 250 kB; one configuration delays every mutex operation at random.", 25),
'C15': ("As C04, for frames; of a protocol breach and after it nothing may be delivered and the connection has to end; the handler must be told about the end of its connection within a bound; peak memory bounds declared lengths; a peer that stops answering pings must be dropped.", "One silent-peer case takes about 35 s.", 35),
'C16': ("Independent event-stream parser (per the HTML specification) at the client; pushed sequence versus decoded sequence; the handler-side log must show failing pushes after the client is gone.", "", 18),
'C17': ("Every file inside and around the root has unique content, so each 200 response identifies its file; a file outside the root (or a directory listing of one) is a violation.", "All paths of up to a few segments from a hostile alphabet, plus random ones; the server runs on a scratch tree.", 10),
'C18': ("Response body, type, length and status compared with the file system (index pages, missing files, directories); under concurrent atomic replacement the body must be one of the versions.", "", 15),
'C19': ("Map model with the documented results of each operation; reopening must show the same map; failed writes must leave the old value.", "Histories of up to 80 operations.", 15),
'C20': ("Wing-Gong style search (vlib/linear.py) over the recorded invocation/response history of a map; final content and reopened content must equal a linearization's final state.", "Up to 8 threads.", 12),
'C21': ("A preloaded library ends the process before or inside the n-th file-changing call (write, ftruncate, rename, unlink...), for every n of a history; the reopened content must be one of the states between the last finished and the interrupted operation; cut store files must open to a prefix state or be refused.", "Every crash point of each generated history.", 20),
'C22': ("Map model with names, sizes, contents, creation and modification windows on a virtual clock; listings must be complete and ordered as documented.", "", 18),
'C23': ("Archives written by the library are read by an own strict ustar reader, Python tarfile and GNU tar, and loaded back; archives by those writers are loaded and compared.", "", 13),
'C24': ("Outcome of every load versus the strict reader: what it accepts must load equally; otherwise only safety, completeness of reported files and a usable file system are demanded; largest single allocation is bounded relative to the input.", "", 20),
'C25': ("Linearizability search as in C20 over files, where snapshots are reads of the whole map.", "Up to 8 threads.", 20),
'C26': ("Decompressed output of every compressor through Python zlib/brotli equals the input and vice versa; leaks and allocations are counted.", "Up to tens of megabytes.", 25),
'C27': ("The concatenated output of a stream equals what independent codecs give for the concatenated input, for any chunking, reset or move.", "", 30),
'C28': ("Independent decoder's verdict (complete and valid, or not) versus outcome: valid must decode equally, others must be refused with an error.", "Time limit per call.", 35),
'C29': ("Python's base64/binascii/urllib reference results; invalid input must be refused.", "All strings up to length 2 and generated ones.", 15),
'C30': ("hashlib.sha1.", "Messages up to 4 GiB + 123 bytes.", 15),
'C31': ("Python's json as strict parser of serialized text; node-by-node comparison of parsed values.", "Nesting up to 500.", 30),
'C32': ("Sanitizers, time limit, allocation accounting; value-semantics model of copies, moves and assignments.", "", 20),
'C33': ("Composition oracle: the parts a URL was composed of; serialise-parse must be a fixpoint.", "", 15),
'C34': ("Reference multimap in Python.", "", 12),
'C35': ("Reference jar in Python; Set-Cookie parser per RFC 6265.", "", 12),
'C36': ("Credentials the value was made from.", "", 12),
'C37': ("Reference definitions in Python.", "Exhaustive for short strings over a small alphabet.", 15),
'C38': ("Composition oracle.", "", 15),
'C39': ("Captured output split into lines must be exactly the multiset of logged records, each contiguous, each thread's in order.", "2-16 threads.", 12),
'C40': ("Python datetime, system registries, byte reversal.", "", 10),
'C41': ("Model of a connection (what was sent, what may still arrive, which operations are pending and why they must return) driven over an RPC pipe; both ends' byte streams are compared by position-dependent patterns; the descriptor count must return to its start.", "Endings of listener and connection are also raced from several threads under plain, ASan and TSan builds.", 50),
'C42': ("The same oracles as C07, C13, C16, C10 and C41, with the number of interrupted and cut calls counted in the interposed socket functions.", "", 30),
'C43': ("Every request carries a number; the captured log must have exactly one record (id, peer, method, path, status) for every request that was answered, one for each upgrade and failure, one opening and one closing record for each connection, and no line that is not one of these.", "", 9),
'C44': ("The same client-side parsers as C02 and C16, for handlers that put line breaks, NUL and other control characters into every value they can set: what arrives is one response with only header lines the handler set, or a refusal; no forged line, response or event shows up.", "", 11),
'C45': ("Series of identical rounds of mixed connections (finished, aborted, failing, upgraded); live heap, threads, descriptors and resident memory after each quiet point must not grow from round to round.", "6 rounds of 350 connections.", 40),
'C46': ("Each instance answers with its own name; what one does (stops, is destroyed, runs out of slots, has a slow handler) must not show in the others' answers, and a stopped one's port, threads and descriptors must be free.", "Up to 4 instances.", 10),
'C47': ("The same list of calls made alone in the same process afterwards: every outcome (value or error) made by any thread must be the same; for shared objects, all readers' answers must equal those of a single reader of an equal object. ThreadSanitizer and ASan watch.", "2-8 threads, 13 kinds of shared objects.", 36),
'C48': ("Every library operation (80 shapes of input: repetition, nesting, escapes, junk) and server workload (pipelining, dripped headers, fragmented and tiny frames, event series, many connections) is run on 64 KB and on 4 MB (headers: up to their limit), and the processor time it took is compared: 64 times the input may take at most 256 times as long plus half a second. A limit on processor time ends what runs away.", "4 MB (16 MB thorough).", 18),
'C49': ("A model of plain values (bytes, code and phrase, name, header multimap, URL parts) for registers of each type, compared after copies, moves and changes; the phrases of RFC 9110 and its predecessors.", "4 registers of each of 6 types, up to 60 steps; all codes to 1100.", 6),
'C50': ("The expectations of C10 (times of closes), C13 and C15 (echoes, pings, dropping of silent clients), C16 (events) and C09 (slow and dead readers), measured by the clients' clock, which is not moved; the Date header must follow the moved clock.", "Jumps from a second to 150 years, several hundred per session.", 19),
'C51': ("Valgrind memcheck follows every bit that was never written through the library, libstdc++, zlib and brotli and reports a branch, an address or a system call (send, write) that depends on one; the driver additionally tests every value it is handed back (client request), and names the call. The workloads are those of 40 other checks, from their own generators, with a fraction of their size.", "About 3,400 calls and 3,400 connections and scripts per run (12 times smaller workloads; 3 times in thorough runs); one thread at a time.", 70),
'C52': ("The oracles of the reused checks (models, independent codecs, strict HTTP and tar readers) judge 30 workloads on a build with -O3 -DNDEBUG and 20 on a build of the documented configuration without compression, which is made from a copy of the working tree with the switch in buildopts.hpp commented out and core/compression removed, under ASan+UBSan and without linking zlib and brotli; scripts of compressed snapshots on the latter must fail and leave the files alone.", "About 400,000 calls, responses and scripts per run (8 times smaller workloads; 2 times in thorough runs).", 60),
'C53': ("A preloaded library makes the k-th allocation of a call fail (alone, with the next one, or with everything above a size), for k = 1, 2, ... until the call no longer gets there; the inputs are those of 18 other checks. The call must throw or give its usual result, repeated failures must not raise the allocated bytes, and the call without failures must give its usual result again. Scripts on stores and file systems with failing steps are compared with the set of states in which each failed operation happened or not, through reopening; failed openings must leave no memory and no descriptor.", "About 5,500 failed allocations in 900 calls of 49 kinds, 1,200 store, 800 snapshot and 600 renaming scripts.", 25),
}
