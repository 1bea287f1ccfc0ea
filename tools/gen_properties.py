import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Bencode values survive an encode/decode round trip",
 "Any value built from integers, byte strings, lists and string-keyed dictionaries, of any size and nested up to several thousand levels deep, encodes without error to text that decodes back to an equal value, and the prefix decoder reports exactly the encoded length as consumed even when other bytes follow. A value that contains anything else at any depth (including an absent value) is refused with an error: encoding never panics and never returns partial text with success.",
 ["inputs"],"all finite trees of int / byte string / list / dict, and all trees with one foreign leaf",
 "The codec tests (outside the stable suite) try a dozen short ASCII literals; they never use binary strings, colons inside strings, extreme integers, deep nesting or foreign types.",
 ["misc/beancode.go"],[("EncodeDict/EncodeSlice/encodeItem recursion","misc/beancode.go:109-227"),("decodeItem recursion with explicit next index","misc/beancode.go:193-205")],
 observe=["return values of the exported encoders and decoders"])
p("C02","Bencode decoders accept exactly bencode and never crash",
 "Decoding any byte string either returns the value it denotes or an error; it never panics and never returns neither. Truncated or ill-formed input (unterminated containers or numbers, short strings, non-string keys, leading zeros or minus zero or a plus sign in numbers, numbers or lengths out of range) is always an error, and so are trailing bytes, except for the prefix decoder, which returns the first value and how many bytes it occupies.",
 ["inputs"],"all byte strings, for each of the five exported decoders",
 "Existing tests feed about twenty fixed strings; truncation points, overflowing lengths and adversarial mutations form an unbounded input space.",
 ["misc/beancode.go"],[("bounds and terminator checks in the recursive decoders","misc/beancode.go:16-107,154-299")],
 observe=["return values and panics of the exported decoders, against an independent reference parser"])
p("C03","Bencode encoding is canonical and deterministic",
 "The encoding of a value is its one canonical bencoding: decimal integers without padding, exact byte lengths, list items in order, and dictionary entries in ascending raw byte order of their keys. Equal values therefore always encode to identical bytes.",
 ["inputs","histories"],"all encodable values, encoded repeatedly",
 "One encoder test asserts fixed literals for two-key dictionaries and is flaky for that reason; nothing checks canonical form in general.",
 ["misc/beancode.go"],[("EncodeDict ranges over the map","misc/beancode.go:207-227"),("EncodeInteger/EncodeString/EncodeSlice","misc/beancode.go:12-125")],
 observe=["bytes returned by the encoders, against a reference encoder"])
p("C04","Typed field access on messages is faithful and total",
 "Reading a field of a received message by key or index yields the stored value exactly when it is present with the requested type; otherwise a strict read raises the library's own reportable error (never a runtime fault) and a defaulting read returns the caller's default. Presence tests agree with strict reads for every key and every index (negative and past-the-end included), list membership tests ignore only letter case, and no read modifies the message.",
 ["inputs"],"all messages, keys, indexes, requested types and defaults",
 "The accessor tests check one dictionary and one list; the failure-path tests fail at this commit and are not in the stable suite.",
 ["misc/types.go","misc/errors.go"],[("Dict and List getters raising PanicBizErr","misc/types.go:7-125")],
 observe=["return values and recovered panic values of the exported accessors"])

p("M01","The shared key/value registry is linearizable",
 "Concurrent put, get and delete calls on the shared registry behave as if they were executed one at a time in some order consistent with their real-time order, per key. No mix of concurrent calls crashes the process or performs an unsynchronised memory access.",
 ["schedules","histories"],"all interleavings of put/get/delete from any number of goroutines",
 "No test touches the registry concurrently, and delete is never called by any test.",
 ["misc/syncmap.go"],[("one mutex around every map access","misc/syncmap.go:14-38")],
 state=[("mapping","current binding of every key","misc/syncmap.go:7")],
 observe=["call/return history recorded at the caller, checked with porcupine; race detector reports"])
p("M02","Pooled buffers have exactly one owner and the right size",
 "A buffer obtained from the buffer pool has exactly the requested length and belongs to that caller alone until the caller returns it, for every mix of sizes, of buffers returned after being shortened, and of concurrent callers. Getting and returning never block, and the pool keeps no more than its configured number of idle buffers per size.",
 ["schedules","inputs","histories"],"all sequences and interleavings of get / get-by-size / put",
 "The only test gets and puts two buffers sequentially.",
 ["misc/bytespool.go"],[("bounded channel per capacity, non-blocking select","misc/bytespool.go:28-70")],
 state=[("chanMapping","idle buffers per capacity","misc/bytespool.go:9")],
 observe=["addresses, lengths and contents of buffers at get and put, against an ownership table"])
p("M03","The worker pool runs every accepted job exactly once",
 "Every job a running pool accepts is executed exactly once, at most pool-size jobs run at the same time, all pool-size workers can be busy at once, and a pool of one worker runs jobs in submission order. This holds for any number of concurrent submitters and any job durations.",
 ["schedules","histories"],"all interleavings of submitters and workers, all pool sizes",
 "The tests submit at most three jobs to a two-worker pool from one goroutine (and live in a package outside the stable suite).",
 ["misc/workpool.go"],[("buffered queue and worker goroutines","misc/workpool.go:24-53")],
 state=[("queue","accepted jobs not yet started","misc/workpool.go:17")],
 observe=["submit/start/end events of uniquely numbered jobs"])
p("M04","Worker pool shutdown loses nothing, ends promptly and is reentrant",
 "Once shutdown of a pool has begun, later submissions are refused loudly, while every job accepted before still runs exactly once. Shutdown returns as soon as those jobs have finished, releasing the workers, or at its timeout if they have not, and any number of concurrent or repeated shutdowns, also by cancelling the pool's context, are harmless.",
 ["schedules","histories","fault_sequences"],"all interleavings of submitters, running jobs, shutdown calls and context cancellation",
 "Tests observe one sequential shutdown after at most three jobs and never check when it returns or whether workers end.",
 ["misc/workpool.go"],[("status value plus closed channel broadcast, wait group of workers","misc/workpool.go:34-94")],
 state=[("status","running / shutting down / shut down","misc/workpool.go:19")],
 observe=["job events, refusal of submit, shutdown return order relative to job ends, goroutine count after shutdown"])
p("M05","Each registered cleanup runs exactly once at shutdown",
 "When the process is told to stop (SIGINT, SIGTERM or cancellation of the controlling context), every cleanup registered before that, from any goroutine, is run exactly once and none runs earlier. Waiting for shutdown returns when all cleanups have finished, or at the timeout even if some cleanup hangs, and reports running, shutting down and shut down in that order.",
 ["schedules","histories","fault_sequences"],"all sets of cleanups, registration interleavings, trigger kinds and hanging cleanups",
 "The three shutdown tests register at most three cleanups from one goroutine.",
 ["misc/shutdown.go"],[("cleanup list, goroutine per cleanup, select on done/timeout","misc/shutdown.go:46-93")],
 state=[("cleans","registered cleanups","misc/shutdown.go:41")],
 observe=["cleanup run events, status reads, order of the waiter's return"])
p("M06","Logging is level-faithful, whole-line and panics when it says so",
 "With the console logger, a record is written if and only if its severity is at or above the level currently configured, whether the logger was obtained before or after the level was set, and it appears exactly once, as one uninterrupted line carrying its severity, prefix, message and every context entry, under any concurrency. Panic-severity logging always raises, at every configured level.",
 ["schedules","configurations","inputs"],"all levels, severities, prefixes, contexts and interleavings of loggers and level changes",
 "The logger test prints five lines and asserts nothing.",
 ["misc/logger.go","main.go"],[("level comparison per severity method","misc/logger.go:146-193"),("logger cache and level","misc/logger.go:46-87")],
 state=[("bufferedLoggers.level","configured level","misc/logger.go:49")],
 observe=["the bytes written to standard output, panics raised"])

p("M07","Structured log files hold every due record once, whole",
 "With the structured file logger (the one the discovery log uses), a record is written to the file of the logger's name if and only if its severity is at or above the configured level (DEBUG, INFO, WARN, ERROR or PANIC, in that order; trace records always), exactly once, as one line holding one JSON record with its severity, prefix, message and every context entry, whatever characters they contain, however many loggers and goroutines write, and after what the file already held. Panic-severity logging always raises, at every configured level.",
 ["schedules","configurations","inputs"],"all levels, severities, prefixes, contexts, message contents and concurrent writers",
 "No test writes through the structured logger.",
 ["misc/zap.go"],[("level translation and core per logger","misc/zap.go:78-112"),("message prefix and context fields","misc/zap.go:20-76")],
 observe=["the lines of the log files, panics raised"])

p("K01","Every well-formed query gets exactly one matching reply",
 "A query datagram with a transaction id and query type, sent to the RPC server by any of many concurrent clients, is answered with exactly one reply datagram: to the address and port it came from, carrying the same transaction id, and holding what the handler produced for that very query. Queries are never answered twice, dropped by the server, or answered with another client's or another query's content.",
 ["schedules","inputs","histories"],"all interleavings of concurrent clients, colliding transaction ids, handler durations",
 "Tests call the handler function directly on one hand-made dictionary; no test sends a query over UDP or runs two at once.",
 ["dht/krpc/server.go","dht/krpc/udp.go"],[("receive loop, worker pool, per-packet handling, reply to the packet's source","dht/krpc/server.go:35-48,111-144; dht/krpc/udp.go:48-107")],
 observe=["datagrams at the client sockets, kernel drop counters"])
p("K02","Hostile datagrams neither stop the server nor provoke replies",
 "Whatever datagrams arrive (random bytes, truncated or mutated messages, deep nesting, huge length fields, wrong field types, empty or oversized packets), and even when the handlers they reach panic, the RPC server keeps running and keeps answering well-formed queries. A datagram that is not a complete bencoded query carrying a textual transaction id and query type - garbage, a truncated message, a response or an error message - is never answered.",
 ["inputs","histories"],"all datagram sequences",
 "No test sends a malformed datagram to the server.",
 ["dht/krpc/server.go","misc/beancode.go"],[("recover in the packet handler, dispatch on message kind","dht/krpc/server.go:111-144")],
 observe=["replies at the attacking sockets, probe queries after each burst, process liveness"])
p("K03","Invalid queries get a well-formed error reply that leaks nothing",
 "A query with an unsupported type, no registered handler, a missing or malformed argument section, a sender id that is not 20 bytes, or arguments its handler rejects, is answered with exactly one error reply carrying the same transaction id, the protocol error code and a text. That text never contains stack traces, file names or memory addresses, and the reply is at most 256 bytes larger than the query.",
 ["inputs"],"all invalid queries",
 "The one error-path test fails at this commit (the reply carries a stack trace) and is not in the stable suite.",
 ["dht/krpc/server.go","dht/krpc/messages.go","misc/errors.go"],[("recover and convert to an error response","dht/krpc/server.go:175-207"),("error text","misc/errors.go:25-35")],
 observe=["reply datagrams at the client"])
p("K04","A response reaches the handler of the query it answers, once",
 "A response datagram that carries the transaction id of an outstanding query is delivered to that query's own handler, together with that query, the response's exact content and the responder's address. Each query's handler runs at most once however often and concurrently responses for it arrive, in any order; responses with unknown transaction ids, malformed responses and error messages run no handler and do not use up the query.",
 ["schedules","inputs","histories"],"all orders, duplications and interleavings of responses to any set of outstanding queries",
 "Tests call a handler by hand; nothing sends a query and routes responses.",
 ["dht/krpc/server.go","misc/syncmap.go"],[("request registry keyed by transaction id","dht/krpc/server.go:94-109,155-172")],
 state=[("requestMapping","outstanding queries","dht/krpc/server.go:19")],
 observe=["handler invocations with request and response content, against the responses sent"])
p("K05","Middleware chains run each stage exactly once, in order, isolated",
 "For every request and every response, each registered middleware and finally the handler run exactly once, in registration order, nested so that code after a stage's call to the next stage runs in reverse order, whether or not a stage calls the next one explicitly. Concurrent messages never see each other's stages, handler, request or response.",
 ["schedules","inputs","configurations"],"all chain lengths, all patterns of explicit continuation, concurrent messages",
 "Tests run chains of length zero and two, one message at a time, all stages continuing explicitly.",
 ["dht/krpc/middleware.go","dht/krpc/server.go"],[("index loop in Next","dht/krpc/middleware.go:23-28"),("per-message chain copy","dht/krpc/server.go:65-80")],
 observe=["per-message stage trace recorded by instrumented middleware"])
p("K06","Received data stays intact however long it is kept",
 "Every datagram of up to 1024 bytes is delivered byte for byte, once, with its true source address. Packets not yet consumed, and request and response contents kept by handlers, are never altered by later traffic, whatever its volume and concurrency.",
 ["schedules","histories","inputs"],"all traffic histories following a retained message",
 "The UDP test exchanges one packet; nothing retains data while the receive buffers are reused.",
 ["dht/krpc/udp.go","dht/krpc/server.go","misc/bytespool.go"],[("buffer taken per receive, returned after handling, decode on a copy","dht/krpc/udp.go:96-106; dht/krpc/server.go:111-121")],
 observe=["retained packets and message fields compared with what was sent, after further traffic"])
p("K07","Closing the server is idempotent, safe and releases the socket",
 "A server can be closed any number of times, from any goroutines and under load, each time without crashing and reporting no error. Once close has returned, the address can be bound again, its receiving loop ends, further sends return an error, and nothing arriving there later reaches the closed server's handlers.",
 ["schedules","histories","fault_sequences"],"all interleavings of close with receive, handling and send",
 "Tests close once at the end and check nothing afterwards.",
 ["dht/krpc/udp.go","dht/krpc/server.go"],[("closed flag, connection close, receive loop exit","dht/krpc/udp.go:30-47,96-106")],
 observe=["bind attempts after close, errors of sends, handler calls, process liveness"])

p("K08","Messages leave exactly as they were given, once, to the right address",
 "Each query given to the RPC server leaves as exactly one datagram to exactly the given address, and each response or error message a handler produces as exactly one datagram to the querier. The datagram is one bencoded dictionary holding the transaction id, the message kind and exactly the query type and arguments, the result, or the error code and text that were given, whatever bytes they contain and however many are sent at once, up to the size a datagram can carry; the message constructors use the argument names of the DHT protocol. A query that cannot be encoded or sent is reported as an error to the caller and puts nothing on the wire. An answer that cannot be encoded never puts anything but a complete message on the wire.",
 ["inputs","schedules","fault_sequences"],"all messages, addresses and interleavings of senders, and all failing sends",
 "Tests compare the dictionaries of a few hand-made messages before encoding; nothing looks at a sent datagram.",
 ["dht/krpc/server.go","dht/krpc/messages.go","dht/krpc/udp.go","dht/messgaes.go"],[("query encoding and sending","dht/krpc/server.go:93-109"),("reply sending","dht/krpc/server.go:133-141"),("message forms","dht/krpc/messages.go:48-148; dht/messgaes.go:9-59"),("socket write","dht/krpc/udp.go:46-64")])

p("D01","The routing table never loses, invents or corrupts contacts",
 "After any sequence of additions, the table holds exactly its own contact plus every distinct contact whose addition was reported successful: each of these is found by its exact id, with the address it was added with, ids never added are not found, and the reported size equals the number of contacts held. A refused or repeated addition changes nothing, contacts whose ids differ in any bit are distinct, and a success is never reported for a contact that was not stored.",
 ["inputs","histories"],"all sequences of additions, including repeated, equal-id, case-variant and adversarially clustered ids",
 "Tests add three contacts, or a thousand random ones while checking only the own contact and a count.",
 ["dht/routetable.go","dht/node.go"],[("bucket insertion, duplicate check and split","dht/routetable.go:112-203"),("contact equality","dht/node.go:49-57")],
 state=[("nodeMap","buckets by shared prefix length","dht/routetable.go:90"),("size","number of contacts","dht/routetable.go:91")],
 observe=["results of the exported add / find / size / full-listing calls against a reference model"])
p("D02","The routing table admits contacts by the Kademlia bucket rule",
 "The table keeps at most k contacts for each shared-prefix distance that has been split off, and at most k in the remaining nearest range; a new contact is admitted exactly when its range has room, where the nearest range alone may be split, one bit at a time, up to the configured number of splits. The number of contacts is therefore bounded by k times one more than the configured splits, whatever contacts the network offers.",
 ["inputs","histories","configurations"],"all addition sequences, all k and split limits, ids clustered at any distance from the own id",
 "Tests use k=2 and one random sequence and do not check admission at all.",
 ["dht/routetable.go"],[("split on overflow of the last bucket","dht/routetable.go:154-203"),("prefix length","dht/routetable.go:139-145,225-233")],
 state=[("lastBucketIndex","number of splits so far","dht/routetable.go:93")],
 observe=["acceptance decisions of the exported add call and full listings, against a reference model"])
p("D03","The routing table is linearizable under concurrent use",
 "Concurrent additions, lookups, listings and size queries on the routing table behave as if executed one at a time: an addition that returned success is visible to every later lookup, duplicates added concurrently are stored once, sizes never decrease, and the final table is one some sequential order produces. No interleaving performs an unsynchronised memory access or crashes.",
 ["schedules","histories"],"all interleavings of add, find, closest and size calls",
 "All routing table tests are single-threaded, while the running crawler adds from thousands of workers.",
 ["dht/routetable.go"],[("table-wide read/write lock, bucket locks","dht/routetable.go:112-223")],
 observe=["recorded call/return history, final listing, race detector reports"])
p("D04","Closest-contact lookups return real, distinct, sufficient contacts",
 "A lookup of the contacts closest to an id returns only contacts currently held, each at most once and never an empty entry, includes every held contact in the same distance range as the target, and returns at least as many as were asked for, or all when fewer are held. Iterating a bucket visits exactly the contacts stored in it.",
 ["inputs","histories"],"all tables, target ids and requested counts",
 "Tests ask twice, for the own id and for one stored id.",
 ["dht/routetable.go"],[("walk over buckets from the target's","dht/routetable.go:126-137"),("bucket iteration","dht/routetable.go:39-45")],
 observe=["results of the exported lookup and bucket calls against the model's contents"])
p("D05","Compact contact lists are exact and aligned",
 "Encoding contacts with 20-byte ids and IPv4 addresses into a reply produces exactly 26 bytes per contact (6 per peer address): id, address bytes, port in network order, in list order. A contact or peer that has no such form never shifts or corrupts the others, and a received list of contacts is read back to exactly those ids, addresses and ports, ignoring a trailing fragment.",
 ["inputs"],"all lists of contacts, including IPv6, unspecified and oversized-id ones, and all received byte strings",
 "Tests round-trip one recorded list and one peer.",
 ["dht/node.go","dht/messgaes.go","dht/resphandler.go"],[("26-byte and 6-byte records","dht/node.go:67-118")],
 observe=["the nodes/values fields of the exported reply builders; datagrams the crawler sends after a find_node response"])
p("D06","Transaction ids do not repeat within the protocol's window",
 "Any 65536 consecutively issued transaction ids are pairwise distinct, from any starting point and across any number of goroutines asking concurrently, including across wrap-around. Every id is a non-empty string of the same fixed length.",
 ["schedules","inputs"],"all starting values and interleavings of callers",
 "The test prints three ids.",
 ["dht/node.go"],[("mutex-protected counter","dht/node.go:14-35")],
 state=[("txId","last issued value","dht/node.go:16")],
 observe=["ids collected from concurrent callers"])
p("D07","DHT queries are answered as the protocol requires",
 "The running crawler answers ping, find_node, get_peers and announce_peer queries from any node with a response carrying the query's transaction id and the crawler's own fixed 20-byte id, plus a list of nodes for find_node and a token and node list for get_peers. A get_peers or announce_peer query lacking its required arguments, or giving them the wrong type, gets an error reply instead and has no other effect.",
 ["inputs","histories","schedules"],"all query contents and orders from concurrent nodes",
 "No test runs the crawler's handlers.",
 ["dht/requesthandler.go","dht/dht.go","dht/messgaes.go"],[("handler registration and the four handlers","dht/dht.go:22-43; dht/requesthandler.go:11-44")],
 observe=["reply datagrams of the real program"])
p("D08","The crawl queries every newly learned contact exactly once",
 "When a find_node response brings contacts, the running crawler sends one find_node query to each contact its routing table newly admits, at exactly the advertised address, with its own id, a 20-byte target and a transaction id of its own; contacts already known or refused are not queried again. Hence in any network of nodes that answer truthfully, even ones that keep repeating the same contacts, the number of queries is bounded by the number of contacts and the crawl reaches every admitted contact.",
 ["inputs","histories","schedules","fault_sequences"],"all response contents, network shapes, repetitions and losses",
 "No test exercises the crawl; a repeated contact needs a multi-step exchange.",
 ["dht/resphandler.go","dht/dht.go","dht/routetable.go"],[("recursive find_node on admitted contacts","dht/resphandler.go:38-51"),("bootstrap query","dht/dht.go:46-58")],
 observe=["datagrams received by a simulated network of DHT nodes, against the routing table model"])
p("D09","Every observed info-hash is logged exactly once, correctly",
 "Each accepted get_peers and announce_peer query adds exactly one line to the discovery log: a complete JSON record with the kind of query, the sender's address, the info-hash in lowercase hexadecimal and, for announcements, the announced port. Rejected queries and other traffic add none, and concurrent queries never garble lines.",
 ["inputs","schedules","histories"],"all query sequences and interleavings",
 "No test looks at the log.",
 ["dht/requesthandler.go","misc/zap.go"],[("info-hash logger calls in the handlers","dht/requesthandler.go:23-44"),("JSON file logger","misc/zap.go:72-90")],
 observe=["lines of logs/infohash.log of the real program"])
p("D10","Every announcement triggers one fetch from the announced peer",
 "Each accepted announce_peer leads to exactly one connection to the announcing host, at the announced port or, when the announcement says to use the implied port, at the UDP source port, over IPv4 and IPv6 alike, and the handshake there asks for the announced info-hash. No announcement is lost or duplicated while the queue has room, even when many arrive at once and some peers are unreachable or slow.",
 ["inputs","schedules","histories","fault_sequences"],"all announcement sequences, ports, implied-port values and peer behaviours",
 "One test computes one IPv4 address; the queue and fetch pool are never exercised.",
 ["dht/requesthandler.go","dht/fetchtorrent.go"],[("queue of announcements and fetch worker pool","dht/requesthandler.go:42-43; dht/fetchtorrent.go:14-59")],
 state=[("recvInfoHash","accepted announcements not yet fetched","dht/fetchtorrent.go:14")],
 observe=["TCP connections and handshakes at simulated peers"])

p("P01","Fetched metadata always matches the requested hash",
 "A metadata fetch returns data only if the SHA-1 of that data is the info-hash asked for; in every other case, whatever the peer sends, it returns an error and no data. This holds also when many fetches run at once.",
 ["inputs","fault_sequences","schedules"],"all peer behaviours",
 "The only fetch tests need hosts on the internet and are not run.",
 ["dht/peerwire/bep9.go"],[("checksum comparison before returning","dht/peerwire/bep9.go:140-160")],
 observe=["return values of the exported fetch call against SHA-1"])
p("P02","A fetch from any cooperative peer succeeds byte for byte",
 "A peer that follows the protocol and delivers all pieces promptly always leads to the exact metadata being returned: for every metadata size from one byte to the accepted maximum, however TCP splits or joins the messages, in whatever order the pieces come, with keep-alives and other peer messages in between, and whatever extension id the peer chose for metadata exchange.",
 ["inputs","schedules","fault_sequences"],"all sizes, segmentations, piece orders, interleaved messages and extension ids",
 "Message parsing tests use fixed strings; segmentation and multi-piece transfers are never exercised.",
 ["dht/peerwire/bep9.go","dht/peerwire/bep3.go","dht/peerwire/bep10.go","dht/peerwire/peer.go"],[("length-prefixed framing","dht/peerwire/bep3.go:136-159"),("piece bookkeeping","dht/peerwire/bep9.go:163-253; dht/peerwire/peer.go:37-44")],
 observe=["return value of the exported fetch call with scripted TCP peers"])
p("P03","Hostile peers cannot hang, crash or exhaust the fetcher",
 "Whatever a peer sends or withholds (bad handshakes, absurd or negative sizes and piece numbers, malformed messages, endless chatter, silence, never reading), a fetch ends with an error within 30 seconds, never panics to its caller, closes its connection, leaves no goroutine behind, and never holds more than 128 MiB of memory.",
 ["inputs","fault_sequences"],"all peer behaviours",
 "No test connects to a misbehaving peer.",
 ["dht/peerwire/bep9.go","dht/peerwire/bep3.go"],[("deadlines, recover, size checks","dht/peerwire/bep9.go:122-160; dht/peerwire/bep3.go:136-159")],
 observe=["return of the fetch call, connection closure seen by the peer, goroutine and allocation counters"])
p("P04","Concurrent fetches do not disturb each other",
 "Any number of fetches running at once, from different peers and for different info-hashes, each return exactly their own metadata if their own peer is cooperative, no matter how messages of the different connections interleave and how other peers misbehave. Returned data is never altered afterwards by later fetches, and no unsynchronised memory access occurs.",
 ["schedules","histories"],"all interleavings of concurrent fetches",
 "No test runs two fetches.",
 ["dht/peerwire/bep9.go","dht/peerwire/bep3.go","misc/bytespool.go"],[("pooled read buffers and piece storage","dht/peerwire/bep3.go:136-159; dht/peerwire/bep9.go:170-253")],
 observe=["return values, re-hashed after later fetches; race detector reports"])
p("P05","The fetcher speaks the peer protocol correctly on the wire",
 "To every peer the fetcher first sends one 68-byte handshake with the protocol name, the extension-support bit, the info-hash and its peer id, then one extension handshake announcing metadata exchange. After the peer's extension handshake it requests every piece from zero to the last exactly once, in well-formed messages using the peer's own extension id for metadata exchange, and nothing else.",
 ["inputs","histories"],"all metadata sizes and peer extension ids",
 "Tests compare single messages with fixed strings and never a whole conversation.",
 ["dht/peerwire/bep3.go","dht/peerwire/bep9.go","dht/peerwire/bep10.go"],[("handshake, extension handshake and request construction","dht/peerwire/bep3.go:75-108; dht/peerwire/bep10.go:20-70; dht/peerwire/bep9.go:65-95,205-240")],
 observe=["bytes received by scripted TCP peers, parsed by an independent parser"])

p("F01","Stored torrent files are complete, correctly named and atomic",
 "For every announcement whose peer supplies matching metadata, the running crawler stores exactly that metadata in the torrent directory under the lowercase hexadecimal info-hash, creating the directory if necessary. At every moment, whenever the process might be killed, each torrent file visible there is complete and hashes to its name, also when the same info-hash is fetched several times at once; failed fetches leave no file.",
 ["crash_points","schedules","histories","fault_sequences"],"all announcement histories, concurrent stores and kill points",
 "No test stores a file.",
 ["dht/fetchtorrent.go"],[("file write after a verified fetch","dht/fetchtorrent.go:27-44,61-73")],
 observe=["the torrent directory polled by a concurrent reader, and after killing the program"])
p("X01","The torrent tool reports every stored file exactly once",
 "Given a metadata file, the torrent command prints one line with its name, file name, length and piece length, using its documented placeholders for absent or differently typed fields; given a directory it prints one such line for every .torrent file in it and for nothing else. An unreadable or malformed file is reported as a failure and never as a success line, however the file is damaged.",
 ["inputs","configurations"],"all metadata files and directory contents",
 "No test runs the command.",
 ["cmd/torrent.go","misc/beancode.go"],[("directory walk and field printing","cmd/torrent.go:12-42")],
 observe=["standard output and exit status of the real program"])
p("G01","Configuration settings take effect and omitted ones default",
 "Every setting given in the configuration file is used with the given value and every omitted one takes its documented default, for any subset and any letter case of keys. When no file exists, one holding exactly the defaults is written and reads back to them; a file named on the command line is honoured for every setting; an unparsable file stops the program with an error instead of running with other settings.",
 ["configurations","inputs"],"all configuration files",
 "No test covers configuration.",
 ["config/config.go","cmd/root.go"],[("viper defaults, read and cache","config/config.go:46-116"),("command-line file","cmd/root.go:36-40")],
 state=[("configMap","cached sections","config/config.go:20")],
 observe=["values returned by the exported configuration calls; behaviour of the real program"])
p("S01","The crawler stops cleanly on request, even under load",
 "On SIGINT or SIGTERM at any moment after start-up, idle or under heavy traffic with fetches in progress, the crawler releases its UDP port and exits with status zero, no later than its shutdown grace period plus scheduling delay. It never exits, crashes or stops serving without being told to.",
 ["schedules","crash_points","histories"],"all moments of the signal and all traffic",
 "No test runs the program.",
 ["misc/shutdown.go","cmd/root.go","dht/dht.go"],[("signal wait, cleanup registration","cmd/root.go:49-52; dht/dht.go:36-40; misc/shutdown.go:46-68")],
 observe=["exit status and port of the real program"])
p("A01","No network input can take the crawler down",
 "No sequence of datagrams to its UDP port and no behaviour of the DHT nodes and peers it contacts, malformed, hostile or merely unlucky, makes the running crawler terminate, stop answering well-formed queries, or stop fetching from well-behaved peers.",
 ["inputs","histories","schedules","fault_sequences"],"all network behaviour",
 "No test runs the program against a network.",
 ["dht/krpc/server.go","dht/resphandler.go","dht/fetchtorrent.go","dht/peerwire/bep9.go"],[("recover around packet and fetch handling, deadlines","dht/krpc/server.go:111-118; dht/fetchtorrent.go:29-33; dht/peerwire/bep9.go:128-140")],
 observe=["liveness probes (query and fetch) of the real program during and after attack phases"])
p("L01","Sustained traffic does not accumulate resources",
 "Whatever traffic the running crawler has handled - queries valid or not, unasked-for responses, garbage, and announcements of peers that serve, lie, misbehave, stay silent or cannot be reached - once that traffic has ended and the time limits of the fetches have passed it holds no more open descriptors, goroutines, threads or live memory than before, so that it can run indefinitely: every connection it opens is closed, everything it starts ends, and nothing is remembered per packet or per announcement.",
 ["histories","inputs","fault_sequences"],"all histories of traffic of any length",
 "No test runs the program, let alone for long.",
 ["dht/fetchtorrent.go","dht/peerwire/bep9.go","dht/krpc/server.go","dht/krpc/udp.go","dht/requesthandler.go","misc/bytespool.go"],[("connections closed after each fetch, buffers returned, bounded queues and pools","dht/fetchtorrent.go; dht/peerwire/bep9.go; dht/krpc/server.go")],
 observe=["open descriptors, threads, goroutines and live heap of the real program, read when idle after each of several equal rounds of traffic"])
p("R01","Concurrent operation is free of data races",
 "No schedule of the crawler's concurrent activities - receiving, handling queries and responses, sending, routing-table updates, announcement queueing, metadata fetching, logging, level changes, registry, buffer-pool and worker-pool use, cleanup registration and shutdown - performs conflicting unsynchronised memory accesses.",
 ["schedules","histories"],"all interleavings of the shared services and of the running program",
 "The test suite is never run under the race detector and is nearly sequential.",
 ["misc/syncmap.go","misc/bytespool.go","misc/workpool.go","misc/shutdown.go","misc/logger.go","dht/routetable.go","dht/node.go","dht/krpc/server.go","dht/krpc/udp.go","dht/krpc/middleware.go","dht/peerwire/bep9.go","dht/fetchtorrent.go"],
 [("mutexes, channels and atomics of each shared service","misc/*.go, dht/*.go, dht/krpc/*.go")],
 observe=["Go race detector reports from instrumented builds of the services and of the whole program"])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,S)
print(len(P))
