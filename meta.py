#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 meta.py rewrites both."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
L = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=None, hook=None):
    L.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, na=na, note=note, hook=hook))

SCH, FLT, INP, HIS, CFG, CRA = 'schedules', 'fault_sequences', 'inputs', 'histories', 'configurations', 'crash_points'

P('C01', 'Mutex exclusion, recursion depth and scoped release',
  'At most one thread at a time is inside sections guarded by the same mutex, plain or recursive; a recursive mutex stays with its owner until it has been unlocked as often as it was locked, and unlocking one the caller does not hold fails and changes nothing. '
  'A scoped lock or synchronized block runs its body exactly when the lock was acquired, releases exactly what it acquired on every exit path (fall-through, return, break, exception), and every release lets a waiting thread in.',
  [SCH, HIS], 'all schedules of any number of threads locking, recursively locking, scoped-locking and unlocking, with stalls',
  'The only tests are single-threaded instantiations; exclusion and wake-up are properties of all interleavings.',
  ['src/concurrent/mutex.cpp', 'src/concurrent/mutex_impl.h', 'src/concurrent/lock.h'],
  [('pthread mutex wrapper; recursive mutex built from holder id and count', 'src/concurrent/mutex.cpp'), ('scoped_lock / synchronized', 'src/concurrent/lock.h')],
  [('cnt, holder', 'lock depth and owner of a recursive mutex', 'src/concurrent/mutex_impl.h')], ['mutex', 'r_mutex', 'scoped_lock', 'synchronized'])
P('C02', 'Condition waits: no lost wake-up, mutex and depth restored, timeouts',
  'A thread waiting on a condition is woken by a notification that follows the start of its wait (notify-all wakes every waiter, notify at least one), and when a wait returns, the mutex is held again by the caller exactly as deep as before, including recursive mutexes. '
  'A timed wait that is not notified reports failure not before and promptly after its timeout, and one that is notified in time reports success; waiting on a mutex the caller does not hold returns without effect.',
  [SCH, FLT], 'all schedules of waiters and notifiers, spurious wake-ups, stalls, timeouts of any length and clock phase',
  'Wake-up and timeout races need specific interleavings and clock values; the tests only exercise one uncontended path.',
  ['src/concurrent/condition.cpp', 'src/concurrent/condition.h', 'src/concurrent/internal.cpp', 'src/concurrent/mutex.cpp'],
  [('wait releases and restores a recursive mutex', 'src/concurrent/condition.cpp'), ('absolute deadline computation', 'src/concurrent/internal.cpp')], (), ['condition::wait', 'condition::notify', 'condition::notify_all'])
P('C03', 'Read-write lock: exclusion, sharing and timed attempts',
  'A writer never overlaps another holder, while readers may hold the lock together; an attempt that succeeds holds the lock and one that fails holds nothing. '
  'A timed attempt succeeds if the lock is or becomes available before its deadline (with a zero, negative or tiny timeout: if it is available now) and otherwise fails at its deadline, neither early nor late; scoped forms release exactly what they acquired and a waiting writer is not starved by a stream of readers.',
  [SCH, INP], 'all schedules of readers, writers and timed attempts; all timeouts',
  'No test uses the lock from two threads or with a timeout.',
  ['src/concurrent/rwmutex.cpp', 'src/concurrent/rwmutex.h', 'src/concurrent/internal.cpp'],
  [('pthread rwlock with writer preference; try-lock for non-positive timeouts', 'src/concurrent/rwmutex.cpp')], (), ['rw_mutex', 'scoped_rlock', 'scoped_wlock', 'rlock', 'wlock'])
P('C04', 'Thread life cycle: started functions run exactly once, join waits',
  'Each successful start runs the given function exactly once in a new thread, on state that stays alive until it finishes even when the thread object is destroyed or detached meanwhile; join returns success only after that function returned, with its effects visible, and no ended thread keeps resources once its object is gone. '
  'Starting a running thread, joining one that is not running (or itself), and starting when the system refuses a thread all fail without side effects and leave the object usable; concurrent threads have distinct ids and sleep never reports success early.',
  [SCH, FLT, HIS], 'all sequences of start/join/detach/destroy, schedules, thread-creation failures, interrupted sleeps',
  'The tests start and join one thread once; failure injection and destruction races are not reached.',
  ['src/concurrent/thread.cpp', 'src/concurrent/thread.h'],
  [('start copies the function to the heap for the new thread', 'src/concurrent/thread.cpp'), ('running flag guards start/join/detach', 'src/concurrent/thread.cpp')], (), ['thread::start', 'thread::join', 'thread::detach', 'thread::sleep', 'thread::id'])
P('C05', 'Producer/consumer buffer is a linearizable bounded FIFO',
  'Concurrent pushes, pops, timed pushes and pops, clears and size queries on a bounded buffer behave as if executed one at a time on a FIFO queue of that capacity: nothing is lost, duplicated, invented or reordered, and the capacity is never exceeded. '
  'A push blocks only while the buffer is full and a pop only while it is empty, so whenever an operation becomes possible some waiting thread proceeds. An operation that ends with an exception because copying an element or allocating memory failed has no effect.',
  [SCH, HIS], 'all schedules and histories of any number of producers and consumers, stalls and spurious wake-ups',
  'The buffer test is one producer and one consumer under whatever schedule the OS gives.',
  ['src/concurrent/pcbuf.h'], [('one mutex, one condition, predicate loops, notify_all after every change', 'src/concurrent/pcbuf.h')], [('q', 'queued elements', 'src/concurrent/pcbuf.h')], ['pcbuf'])
P('C06', 'Timed buffer operations respect their deadline and report truthfully',
  'A timed push or pop that fails does so not before and promptly after its timeout counted from the call, however often it is woken in between, and has no effect on buffer or destination. '
  'It succeeds if the operation is possible at once (even with a zero or negative timeout) or becomes and stays possible before the deadline, and success means the element was moved exactly once.',
  [SCH, INP, FLT], 'all timeouts, clock phases, disturbing wake-ups, stealing competitors and schedules',
  'The timed test uses one timeout and a real clock.', ['src/concurrent/pcbuf.h', 'src/concurrent/condition.cpp', 'src/system/time_util.cpp'],
  [('remaining time recomputed after each wake-up', 'src/concurrent/pcbuf.h')], (), ['pcbuf::push(value, second)', 'pcbuf::pop(value, second)'])
P('C07', 'Multiplexing channel: every endpoint sees every element, in one order',
  'Every element written to a channel group is delivered exactly once to every endpoint that existed before the write, all endpoints see the writes in one common order, and an endpoint created or destroyed while others are active never causes loss, duplication or reordering for anyone. '
  'Per endpoint, reads (which block only while it is empty), un-gets (which come back first), size and emptiness behave as on a private FIFO queue. A read, un-get or duplication that ends with an exception because copying an element or allocating memory failed has no effect, and a write that ends so reaches each endpoint at most once.',
  [SCH, HIS], 'all schedules of writers, readers, duplication and destruction of endpoints',
  'No test uses a channel from two threads.', ['src/concurrent/chan.h'], [('writes go to all endpoints under the group lock', 'src/concurrent/chan.h')], (), ['chan::write', 'chan::read', 'chan::unget', 'chan::dup'])
P('C08', 'Synchronising variable (mvar) is a linearizable one-place box',
  'Concurrent take, put, read, swap, try-take, try-put and emptiness queries behave as if executed one at a time on a box that is empty or holds one value; no value is lost or seen twice and a swap never lets others see the box empty. '
  'Take, read and swap block only while the box is empty and put only while it is full, so whenever an operation becomes possible a waiting thread that can proceed does; try operations never block. An operation that ends with an exception because copying a value or allocating memory failed has no effect.',
  [SCH, HIS], 'all schedules and histories', 'No concurrent test exists.', ['src/concurrent/mvar.h'], [('one mutex and condition with predicate loops', 'src/concurrent/mvar.h')], (), ['mvar'])
P('C09', 'Quantity semaphore conserves its units',
  'At no time have more units been granted than the initial quantity plus the units returned, waiting for n units takes exactly n at once, and returning n adds exactly n. '
  'A wait blocks only while fewer than the wanted units are available, so no waiter stays blocked when enough units are there; lock and unlock are wait and signal of one unit.',
  [SCH, HIS], 'all schedules and quantities', 'No test uses it.', ['src/concurrent/qsem.h'], [('quantity guarded by a mutex and condition', 'src/concurrent/qsem.h')], [('quantity', 'units available', 'src/concurrent/qsem.h')], ['qsem'])
P('C10', 'A process-wide singleton is constructed once and never seen half-built',
  'However many threads ask first and at the same time, exactly one instance of each type is successfully constructed, every caller gets that same instance, and nobody gets it before its construction completed. '
  'If construction throws, that caller sees the exception and a later request constructs it.',
  [SCH, FLT], 'all schedules of first uses, failing constructors', 'No concurrent test exists.', ['src/lang/singleton.h'], [('lock around the first construction', 'src/lang/singleton.h')], (), ['singleton<T>::instance'])

P('C11', 'Stream sockets deliver exactly the bytes written, in order',
  'Over a healthy connection, whatever mixture of writes, line writes and flushes one side makes (any sizes, any byte values), the other side reads exactly those bytes in that order with any mixture of block, byte and line reads, however the network splits and delays them and system calls are interrupted. '
  'Destroying a socket sends what was written but not flushed, and once the peer has closed, reads return what remains and then report the end, after which the socket is not connected.',
  [INP, SCH, FLT], 'all payloads and read/write sizes, all segmentations, delays, interrupted calls and socket buffer sizes',
  'The tests send one short line over loopback, where segmentation and interruption never occur.',
  ['src/network/socket.cpp', 'src/network/socket.h'], [('8 KiB read and write buffers over send/recv loops', 'src/network/socket.cpp'), ('getline / puts', 'src/network/socket.cpp')],
  [('rdbuf_p, rdbuf_end, wrbuf_size', 'buffered bytes', 'src/network/socket.h')], ['stream_socket::read', 'write', 'flush', 'getc', 'getline', 'puts'])
P('C12', 'Connection failures are reported truthfully and stay contained',
  'When the peer closes, resets or stops, a write, line write or flush reports success only for bytes handed to the system, reads return every byte that arrived and then the end, the socket reports itself disconnected and stays so, and no descriptor leaks. '
  'Connecting tries the resolved addresses in order and succeeds exactly when one accepts, with the remote address and port of that one; a failure of resolution, socket creation or every address is reported as failure, and a socket connected again carries nothing over from its previous connection.',
  [FLT, SCH, HIS], 'all points and kinds of failure (close, reset, half-close, refusal, unreachable, resolver and system call failures) in all schedules',
  'No test breaks a connection.', ['src/network/socket.cpp', 'src/network/dns.cpp'],
  [('send_all and recv clear the connected flag on error', 'src/network/socket.cpp'), ('connect loop over resolved addresses', 'src/network/socket.cpp')], [('connected, sock', 'connection state', 'src/network/socket.h')], ['stream_socket::connect', 'is_connected', 'remote_addr', 'shutdown'])
P('C13', 'Socket timeouts bound blocking operations, and only at the set time',
  'With a receive, send or accept timeout set (on the socket itself, or on the server socket for the connections it accepts), a read, write, connect or accept whose peer stays silent gives up not before and promptly after that long without progress, returning what had arrived until then, and a peer that makes progress within the timeout never makes it fail. '
  'Negative timeouts are refused and change nothing, a zero timeout removes the limit, and an accept that timed out leaves the server usable.',
  [INP, SCH, FLT], 'all timeouts, peer timings and interrupted calls', 'Timeout tests would need real waiting; none exist.', ['src/network/socket.cpp'],
  [('SO_RCVTIMEO / SO_SNDTIMEO on stream sockets', 'src/network/socket.cpp'), ('select before accept', 'src/network/socket.cpp')], (), ['set_timeout', 'set_recv_timeout', 'set_send_timeout', 'server_socket::set_timeout'])
P('C14', 'Server sockets listen, accept each client once and clean up',
  'Creating a server socket succeeds exactly when every system step succeeds, and then it listens on the port it reports; a failed creation leaves nothing open and a dead object, and one created again first gives up its old port. '
  'Every client that connects is handed out to exactly one accept call with its own address, port and data, whatever number of threads accept; a failed accept returns nothing and leaves the server alive, and closing ends listening.',
  [FLT, SCH], 'all system call failures, clients and accepting threads', 'No test makes a system call fail or accepts from two threads.', ['src/network/socket.cpp'],
  [('create / accept / close of the listening descriptor', 'src/network/socket.cpp')], (), ['server_socket::create', 'accept', 'close', 'port', 'is_alive'])
P('C15', 'A socket stream behaves as an iostream over its connection',
  'Whatever formatted and unformatted output one end of a socket stream produces, the other end\'s extraction, peek, get, read, getline and ignore give the same values and stream states as on an in-memory stream holding the same bytes. '
  'Failures appear in the stream state (a failed connect, a write or flush that could not be handed over, the end of input), a stream that was never connected fails cleanly, and one connected again or given another socket carries nothing over from the previous connection.',
  [INP, SCH, FLT], 'all operation sequences, payloads, segmentations and failures', 'The tests use one formatted exchange on loopback.', ['src/network/iostream.h', 'src/network/socket.cpp'],
  [('basic_socketstreambuf over stream_socket', 'src/network/iostream.h')], [('buf', 'peeked byte', 'src/network/iostream.h')], ['socketstream'])

P('C16', 'A remote call returns its own result and runs exactly once',
  'A remote call that returns gives exactly the value its own function produced for exactly the arguments that were passed, whatever other clients, threads and calls are active, and that function ran exactly once for it; a call that ends with an error ran at most once. '
  'Over a healthy network every call to a running server succeeds, and after connection failures end, the same client object works again.',
  [INP, SCH, FLT], 'all argument values and arities, numbers of clients and server threads, schedules, segmentations and connection failures',
  'The tests make a few calls over an undisturbed loopback; no failure is injected.', ['src/network/rpc/base.cpp', 'src/network/rpc/caller.h', 'src/network/rpc/invoker.h', 'src/network/rpc.h', 'src/data/serialization'],
  [('ping handshake, then one request and one reply per call', 'src/network/rpc/base.cpp'), ('argument and result (de)serialization', 'src/network/rpc/caller.h')], [('ss', 'cached connection of a client', 'src/network/rpc/base.h')], ['RPC_GEN client call_*', 'rpc_client::call', 'set_* handlers'])
P('C17', 'A failed remote call ends with the matching exception, never a value or a hang',
  'Calling an unknown function, with a different interface version, with nobody listening, or a function that throws, and calls whose peer breaks off or answers with an error at any byte of the handshake or reply, end with the matching exception carrying the right name or versions (a general RPC error when the connection breaks while the request is still being sent), and never with a value or a hang. '
  'A call refused for its name or version executes nothing, the server keeps serving everybody, and the next call on the same client works.',
  [INP, SCH, FLT], 'all kinds and points of failure, schedules and segmentations', 'The tests provoke two of the errors once each, on a healthy connection.', ['src/network/rpc/base.cpp', 'src/network/rpc/caller.h', 'src/network/rpc/invoker.h', 'src/network/rpc/exception.h'],
  [('error replies and their translation to exceptions', 'src/network/rpc/caller.h'), ('connection check and reconnect', 'src/network/rpc/base.cpp')], (), ['method_not_found', 'version_mismatch', 'cannot_get_connection', 'rpc_error'])
P('C18', 'RPC server life cycle: start, stop, wait, restart, idle timeout',
  'A server reports running exactly from a successful start until stop; stop makes it end whatever its clients do (once they end their connections), waiters return only after every worker and function has ended and then all of them, a stopped server answers nobody, and it can be started again or destroyed at once. '
  'A start that fails at any step reports failure and leaves the server stopped with nothing open; with an idle timeout, a client that stays silent for that long loses its connection, and not earlier, freeing the worker.',
  [SCH, FLT, HIS], 'all schedules of clients, stoppers, waiters and restarts; failing system calls and thread creation; timeouts', 'The tests start and stop one server with well-behaved clients.', ['src/network/rpc/base.cpp', 'src/network/rpc/base.h'],
  [('state machine running/stopping/stopped under a mutex', 'src/network/rpc/base.cpp'), ('termination requests wake accepting workers', 'src/network/rpc/base.cpp')], [('state, num_running_threads', 'life cycle state', 'src/network/rpc/base.h')], ['rpc_server::start', 'stop', 'serv', 'wait_until_stopped', 'is_running', 'is_stopping', 'is_stopped'])
P('C19', 'RPC endpoints survive arbitrary bytes from the other side',
  'Whatever a client sends (requests cut off at any byte, corrupted bytes, absurd lengths, garbage, abrupt ends), the server does not crash, hang or allocate memory out of proportion, executes only requests that arrived completely and with the arguments sent, and keeps serving other clients with all its workers. '
  'A client whose server answers with such bytes gets an RPC error instead of a value, a crash or a hang.',
  [INP, SCH, FLT], 'all byte sequences and cut points, with resets, delays and schedules', 'The tests only use the matching client and server.', ['src/network/rpc/base.cpp', 'src/network/rpc/invoker.h', 'src/network/rpc/caller.h', 'src/data/serialization/base.h', 'src/data/serialization/string.h', 'src/data/serialization/vector.h', 'src/data/serialization/map.h'],
  [('stream state checked between the parts of a request', 'src/network/rpc/base.cpp'), ('length-prefixed deserialization', 'src/data/serialization')], (), ['rpc_server', 'rpc_client'])

P('C20', 'The caching name resolver answers what its resolver said, within its limits',
  'Every answer of a caching resolver is one that the underlying resolver gave for that name and port at most the expiry time ago, a name that is cached and not expired causes no lookup, and at most the maximum number of entries is kept, the least recently used going first (with maximum zero nothing is cached). '
  'Deleting an entry or clearing forces a fresh lookup, a lookup that fails yields no address, the results of lookups are released, concurrent users of one resolver get correct answers without waiting for lookups of other names by others, and sockets resolve through the resolver that was installed.',
  [SCH, HIS, FLT], 'all sequences and schedules of resolutions, deletions and clears, changing name data, expiry times, sizes and failing lookups',
  'The tests resolve a handful of names sequentially; expiry needs time to pass and concurrency is not tested.', ['src/network/dns.cpp', 'src/network/dns.h', 'src/data/lru.h'],
  [('LRU map of results with their time under a mutex', 'src/network/dns.cpp')], [('cache', 'resolved names', 'src/network/dns.h')], ['cached_dns_resolver::resolve', 'delete_cache', 'clear_cache', 'stream_socket::set_dns_resolver'])
P('C21', 'HTTP messages arrive as sent and bodies end exactly where they end',
  'A request or response sent over a connection is received with the same start line, headers and body bytes, one after the other on the same connection, and the wire forms of others (bodies by length, in chunks of any size with extensions and trailers, or until close; folded headers; any line ends, lines within 4096 bytes) are read exactly, however the network splits and delays them. '
  'Malformed start lines are refused, malformed chunks put the body stream into an error state, and messages cut off, corrupted or hostile (absurd lengths or chunk sizes) never yield body bytes that were not sent, a crash, a hang or an allocation out of proportion, and sending reports success only if everything was handed over.',
  [INP, SCH, FLT], 'all messages, body encodings, segmentations, cut points, corruptions and connection failures', 'No test sends a message over a connection.', ['src/network/http/base.cpp', 'src/network/http/stream.h', 'src/network/socket.cpp', 'src/network/iostream.h'],
  [('chunked and length-delimited body streams', 'src/network/http/base.cpp'), ('header parser', 'src/network/http/base.cpp')], [('chunk_rest, rest', 'bytes left of chunk or body', 'src/network/http/base.cpp')], ['http::request', 'http::response', 'http::httpstream'])
P('C22', 'The stand-alone CGI server handles each request once, with its own data',
  'Every well-formed request to the stand-alone web server (set up by arguments, command line or on a given socket; query strings, forms and multipart uploads with any content) is handled exactly once, by a handler copy no other request uses at the same time, which sees that request\'s own method, parameters, files, headers and environment; the client receives exactly the status, headers and body that handler produced. '
  'Clients that send garbage, break off, go silent (with a timeout set) or never read, requests that are too long, incomplete or whose multipart body is malformed (never handled), and handlers that throw do not keep the server from serving the others.',
  [INP, SCH, FLT], 'all requests, numbers of threads and clients, schedules, segmentations and misbehaving clients', 'The web server has no tests at all.', ['src/network/cgi/server.cpp', 'src/network/cgi/base.cpp', 'src/network/http/base.cpp'],
  [('accepting threads with one handler copy each', 'src/network/cgi/server.cpp'), ('query and multipart parsing', 'src/network/cgi/base.cpp')], [('query, multi_query, file, head', 'per-request handler state', 'src/network/cgi/base.h')], ['cgi::run', 'run_server'])

P('C23', 'Database transactions are all or nothing, statements run once, values survive',
  'When a commit (explicit, or at the end of a transaction block) reports success, every statement of the transaction that reported success is stored exactly once and none that failed is; after a rollback, a block left by an exception, or a connection dropped within a transaction, nothing of it is stored; a commit that fails or cannot be confirmed throws, and leaves all of the transaction or nothing. '
  'Lost connections and refused statements at any point are reported as database errors, are never papered over by repeating a statement or by going on without the first part of a transaction, and the same connection object works again once the server does, without leaking sessions, statements or results. '
  'Values of every supported type, null included, stored through any number of parameters and through statements prepared side by side, come back as the same rows and values; asked for as another type they are converted without loss or refused.',
  [FLT, INP, HIS, SCH], 'all sequences of transactions, statements and fetches on PostgreSQL and MySQL connections, with connections lost before or after a statement took effect, refused reconnections and server restarts', 'The database layer has no tests beyond including its headers.',
  ['src/database/util.h', 'src/database/statement.h', 'src/database/postgresql/connection.cpp', 'src/database/mysql/connection.cpp'],
  [('scoped transactions', 'src/database/util.h'), ('reconnection', 'src/database/postgresql/connection.cpp'), ('reconnection and retry', 'src/database/mysql/connection.cpp'), ('value conversion', 'src/database/postgresql/value.cpp'), ('value conversion', 'src/database/mysql/value.cpp')], [('conn', 'client library connection', 'src/database/mysql/connection_def.h')], ['connection', 'statement', 'transaction'])

P('C24', 'Mapped files, file streams and temporary streams survive failing system calls',
  'A memory-mapped file shows exactly the bytes of the file, writes through it reach the file, and opening, closing, moving and swapping mapped files always leave each object either closed and empty or mapping its whole file; an open that fails (missing or empty file, failing system call) says so and leaves the object as it was. '
  'File and temporary-file streams give back what was written, report every failing or incomplete read or write instead of hiding it, and streams stored in archives come back byte for byte or the archive reports failure. '
  'No descriptor, mapping or temporary file is leaked, closed twice or released twice on any path.',
  [FLT, INP, HIS], 'all sequences of operations, file sizes, interrupted and short transfers, full disks, failing open, stat, map and temporary-file calls', 'The tests map one small file with no failing call.', ['src/system/mmapper.cpp', 'src/system/mmapper.h', 'src/system/file.cpp', 'src/system/file.h', 'src/data/serialization/iostream.h'],
  [('map / unmap and ownership', 'src/system/mmapper.cpp'), ('descriptor-backed stream', 'src/system/file.h'), ('streams spooled through temporary files', 'src/data/serialization/iostream.h')], [('fd, ptr, length', 'the mapping an object owns', 'src/system/mmapper.h')], ['mmapper', 'fd_stream', 'tmpstream', 'serialization::stream'])
P('C25', 'Archives give back what was stored, or report failure',
  'Values of every serializable type (numbers, strings, containers, interning tables, nested user types) written one after another to an archive over a file or connection and read back are equal to the originals whatever the target held before, and each one is available as soon as its own bytes are there. '
  'If the data ends early, the connection breaks, the disk fails or the writer crashes, every value that was completely written (and flushed) is still read correctly, and the archive tests false from the first value it cannot read or write onwards. '
  'Damaged data never crash the reader, corrupt memory, or make it use time or memory out of proportion to the size of the data.',
  [INP, CRA, FLT, SCH], 'all values and types, segmentations, crash and truncation points, disk errors and damaged bytes', 'The tests serialize a few values to an intact string.', ['src/data/serialization/base.h', 'src/data/serialization/vector.h', 'src/data/serialization/map.h', 'src/data/serialization/string.h', 'src/data/intern.h', 'src/system/endian_util.h'],
  [('archives over standard streams', 'src/data/serialization/base.h'), ('containers stop at a failed archive', 'src/data/serialization/vector.h'), ('interning table rebuilt from ids', 'src/data/intern.h')], (), ['binary_iarchive', 'binary_oarchive'])
P('C26', 'JSON texts arrive complete over connections, and damaged ones fail cleanly',
  'JSON values printed to a stream in any style (plain, pretty, escaped or not) and parsed from it, one after another over one connection and in any segmentation, come back as the same values through every interface (parser, stream operator, callbacks), and each text is returned as soon as its last character has arrived, without waiting for more (a bare number ends with the character after it). '
  'A text that is cut off is reported as an error, never as a value, after all complete texts before it were returned; damaged texts and failing memory give a value or an exception, never a crash, a hang or a leak. '
  'Values shared or parsed by several threads at once do not disturb each other.',
  [INP, SCH, FLT], 'all values and texts, segmentations, cuts, resets, damaged bytes, failing allocations and schedules', 'The tests parse a few intact strings that are completely in memory.', ['src/text/json/parser.cpp', 'src/text/json/parser.h', 'src/text/json/base.h', 'src/network/iostream.h'],
  [('character-wise parser with one character of look-ahead', 'src/text/json/parser.h'), ('printing and escaping', 'src/text/json/base.h')], [('cbuf', 'look-ahead character', 'src/text/json/parser.h')], ['json_parser::parse', 'json_parser::parse_stream', 'operator>>', 'operator<<'])

P('C27', 'FastCGI and plain CGI programs answer each request once, with its own data',
  'A handler run as a FastCGI or plain CGI program is called exactly once for every complete request, sees exactly that request\'s method, parameters, uploaded files (nested ones too) with their descriptions, headers and environment whatever the requests before it contained, and the web server receives exactly the status, headers and body it produced, finished before the next request begins. '
  'Requests whose body ends early or is a malformed multipart body are never handled and are answered with an error; a client that goes away while the answer is written disturbs neither the program nor the requests after it; the program ends when the web server has no more requests.',
  [INP, HIS, FLT], 'all sequences of requests, environments, bodies, truncations and clients that disappear', 'FastCGI and CGI have no tests at all.', ['src/network/cgi/fcgi.cpp', 'src/network/cgi/cgi.cpp', 'src/network/cgi/base.cpp'],
  [('accept loop over the FastCGI library', 'src/network/cgi/fcgi.cpp'), ('one request from standard input and the environment', 'src/network/cgi/cgi.cpp')], [('query, multi_query, file, head', 'per-request handler state', 'src/network/cgi/base.h')], ['run_fcgi', 'run_cgi'])

P('C28', 'Every generated XHTML page is well formed and is its own request\'s page',
  'A page built by a handler with the XHTML builder and served by the web server (indented or compact) contains exactly the elements, attributes and texts that its own request\'s handler produced, nested as they were opened and properly closed, with every character that has a meaning in markup escaped. '
  'Handlers running at the same time, clients that go away, and handlers that fail while elements are still open (their client gets an error status, never part of a page as a success) leave no trace in any other page.',
  [INP, SCH, FLT, HIS], 'all pages, handler failures, schedules and client failures', 'The tests build one fixed page and look at it once.', ['src/text/xhtml.cpp', 'src/text/xhtml.h', 'src/network/cgi/xhtml_cgi.h', 'src/network/cgi/base.cpp'],
  [('tags opened and closed by scope', 'src/text/xhtml.h'), ('serialisation and escaping', 'src/text/xhtml.cpp')], [('stack of open elements', 'where the next node goes', 'src/text/xhtml.h')], ['xhtml_builder', 'xhtml_cgi::run'])

P('C29', 'CSV rows and configuration texts are read exactly, however they arrive',
  'CSV tables read from a stream, a string or memory come back row by row and field by field exactly as written whatever their size, quoting and segmentation, each row as soon as it has arrived completely, through every interface, kept and copied positions included; configuration texts give exactly the values they state, or an error naming the line. '
  'When the data is cut off or the connection fails, every row that was complete is still returned and nothing is invented; damaged tables are read to the end, identically from every source, without touching foreign memory, looping or using memory out of proportion.',
  [INP, SCH, FLT], 'all tables and configuration texts, segmentations, cuts, resets and damage', 'The tests read a few intact small strings.', ['src/text/csv.h', 'src/text/csv.cpp', 'src/data/config_file.cpp', 'src/network/iostream.h'],
  [('row buffer that grows while a row is read', 'src/text/csv.h'), ('line-wise configuration parser', 'src/data/config_file.cpp')], [('line buffer, field pointers', 'the current row', 'src/text/csv.h')], ['csv_parser::next', 'csv_iterator', 'parse_csv', 'config_file'])

P('C30', 'MessagePack calls return their own result, at most once, or the matching error',
  'A MessagePack remote call runs its function at most once with exactly the arguments passed and returns exactly its result, or ends with the matching exception: unknown function, wrong types, the function\'s own error, a time limit without an answer, or a failed connection, after which the next call of the same client uses a new one. '
  'Late, foreign, incomplete or malformed messages from either side are never taken for a call\'s arguments or result, and never end or disturb a server, its other connections, its workers or its stopping. A server that cannot start reports it, leaves no thread or descriptor behind and can be started later.',
  [INP, SCH, FLT, HIS], 'all calls, schedules, connection failures, delays and messages of the peer', 'The tests need the msgpack library and call a few functions on sound connections.', ['src/network/mprpc/rpc_server.cpp', 'src/network/mprpc/rpc_client.cpp', 'src/network/mprpc/rpc_stream.cpp', 'src/network/mprpc/object_stream.cpp', 'src/network/mprpc/caller.h', 'src/network/mprpc/invoker.h', 'src/network/mprpc/argument.h', 'src/network/mprpc/socket.cpp'],
  [('message framing over a stream of objects', 'src/network/mprpc/object_stream.cpp'), ('matching answers to calls', 'src/network/mprpc/rpc_stream.cpp'), ('worker loop', 'src/network/mprpc/rpc_server.cpp')], [('seqid', 'message id of the next call', 'src/network/mprpc/rpc_stream.h'), ('ss', 'connection of the client', 'src/network/mprpc/rpc_client.h')], ['rpc_client::call', 'rpc_server::run', 'rpc_server::stop'],
  note='Samples seeded simulated runs of the real code; a clean batch is evidence, not proof. The msgpack library is not installed: a stand-in with the same interface and encoding takes its place.')

P('C31', 'Clock and calendar times are exact, for every thread, zone and clock jump',
  'Reading the clock gives the wall-clock time of that moment to the microsecond whatever jumps it makes, and sums, differences and comparisons of times are exact and normalised. '
  'Converting a time to calendar fields and back, or from fields to a time, gives the right date, weekday, day of the year and daylight-saving flag and the same instant in every zone, across changes to and from daylight saving, whatever other threads convert at the same time.',
  [INP, SCH, FLT], 'all instants, zones, clock jumps and schedules', 'The tests convert a few dates in one thread and one zone.', ['src/system/time_util.cpp', 'src/system/time_util.h'],
  [('conversion through the C library', 'src/system/time_util.cpp'), ('carry in sums and differences', 'src/system/time_util.h')], [('sec, usec', 'an instant', 'src/system/time_util.h')], ['clock_time', 'calendar_time', 'get_clock_time'])

P('C32', 'Objects shared between threads live exactly as long as somebody owns them',
  'An object held through shared owners in any number of threads is destroyed exactly once, by the deleter given for it, not before its last owner lets go and not later; every owner, copy, cast and owner obtained from the object itself refers to that same object. '
  'An observer gives an owner whenever the object still has one, and otherwise reports that it is gone (nothing, or an exception for the constructor), never a destroyed object.',
  [SCH, HIS], 'all schedules of copying, dropping and observing', 'The tests run in one thread; whether an observer meets the last owner letting go is decided by the schedule.', ['src/lang/shared_ptr.h', 'src/lang/weak_ptr.h', 'src/lang/enable_shared_from_this.h'],
  [('owner made from an observer', 'src/lang/weak_ptr.h'), ('owner made from the object', 'src/lang/enable_shared_from_this.h')], [('reference count', 'owners and observers', 'src/lang/shared_ptr.h')], ['shared_ptr', 'weak_ptr::lock', 'shared_from_this'])

P('C33', 'System statistics are those of the kernel\'s tables',
  'The load average, total memory and free memory (free and cached, a kilobyte counted as thousand bytes) reported are exactly those in the kernel\'s tables at the time of the call, whatever their size, layout and further lines and however the tables are delivered, for any number of threads and calls. '
  'When a table cannot be opened or read nothing more than the table holds is reported, and no call leaves a descriptor behind.',
  [INP, FLT, SCH], 'all table contents, read sizes and failures', 'The only test prints the values of the machine it runs on.', ['src/system/sysstat.cpp'],
  [('parsing of the tables', 'src/system/sysstat.cpp')], [('none', 'reads the tables on each call', 'src/system/sysstat.cpp')], ['get_sysstat'])

P('C34', 'Typed values sent as JSON documents arrive equal, or the mismatch is reported',
  'Values of user-defined types written as JSON documents and read back, one after another over one connection and in any segmentation, are equal to those written whatever the variable held before; a document that is cut off, malformed or of another shape is reported by an exception, leaves a list or map it was meant for unchanged, and the next document is read correctly. '
  'Reading with defaults takes exactly what is present and fits and leaves the rest as it was, optional members included. '
  'Failing memory gives an exception without a leak, and documents and values shared by several threads convert as if each thread were alone.',
  [INP, SCH, FLT, HIS], 'all values, document shapes, segmentations, cuts, failing allocations and schedules', 'The tests convert a few fixed values held in memory by one thread.', ['src/text/json/cast.h', 'src/text/json/serialization.h', 'src/text/json/base.h', 'src/data/optional.h'],
  [('conversion of documents to values', 'src/text/json/cast.h'), ('archives over streams', 'src/text/json/serialization.h')], [('none', 'conversions keep no state', 'src/text/json/cast.h')], ['json_cast', 'from_json', 'json_cast_with_default', 'via_json', 'json_iarchive', 'json_oarchive'])

P('C35', 'Containers stay whole when memory runs out or an element cannot be copied',
  'An operation on a cache, a dictionary of numbered words, an optional or any-typed value or a JSON tree that fails because memory ran out or an element refused to be copied reports that by an exception and leaves the object as it was (a cache may have forgotten its least recently used entries), without a leak. '
  'Everything done afterwards behaves exactly by that content: which keys are there and with which values, which entry is forgotten next, which number the next word gets, and which word a number stands for. '
  'Operations that do not fail follow the same model, also when a value is stored that is itself kept in the object.',
  [INP, FLT, HIS], 'all operation sequences, failing allocations and failing copies', 'No test makes an allocation or a copy fail.', ['src/data/lru.h', 'src/data/intern.h', 'src/data/optional.h', 'src/lang/any.h', 'src/text/json/base.h'],
  [('entries and their order of use', 'src/data/lru.h'), ('words and their numbers', 'src/data/intern.h'), ('holders', 'src/lang/any.h')], [('cache', 'entry map and access order', 'src/data/lru.h'), ('dictionary', 'word table and list', 'src/data/intern.h')], ['lru', 'intern', 'optional', 'any', 'json'])

P('C36', 'Matrices and coded numbers kept in files come back complete or are refused',
  'A matrix opened from its files has exactly the rows, columns and values that were appended before the writer was closed, in whatever order and form they are asked for, and the same holds for a transposed matrix whatever amount of free memory decides how many pieces it is made in, and for numbers stored with any mixture of the integer codes. '
  'When anything fails while the files are written or read (opening, sizes, short or interrupted transfers, I/O errors, a full disk) or the writing process dies at any point, opening them afterwards either is refused or gives one complete matrix that was written, never a mixture, a part or rows left over from an earlier one. '
  'Storing and opening coded numbers is neither reported as done when it failed nor refused when nothing did; no descriptor is left behind.',
  [INP, FLT, CRA, HIS], 'all matrices, number sequences, memory sizes, failing system calls and crash points', 'The tests write and read one random matrix on a working disk of a machine with plenty of memory.', ['src/data/sparse_matrix/sparse_matrix.cpp', 'src/data/code/code.cpp', 'src/system/file.cpp'],
  [('rows and their table', 'src/data/sparse_matrix/sparse_matrix.cpp'), ('codes', 'src/data/code/code.cpp')], [('files', 'coded rows and the table of rows', 'src/data/sparse_matrix/sparse_matrix.cpp')], ['sparse_matrix_writer', 'sparse_matrix_reader', 'matrix_transpose', 'encoder', 'decoder'])

P('C37', 'Codecs, searches and generators are undisturbed by other threads',
  'Base64, MD5, URI, UTF-8, address, splitting, searching, sequence-comparison, Fourier, random-number and conversion functions give each caller exactly the result its own arguments determine, whatever other threads do with the same functions at the same time, from the first use in the process on. '
  'A search automaton or pattern matcher may be used by several threads at once. '
  'When memory runs out within such a call it reports that by an exception, never by a wrong or shortened result, leaves nothing allocated behind, and later calls are right again.',
  [SCH, FLT, INP], 'all schedules, arguments and failing allocations', 'The tests call each function alone, in one thread, with memory at hand.', ['src/data/encoding/base64.cpp', 'src/data/digest/md5.cpp', 'src/network/uri.cpp', 'src/data/string/aho_corasick.cpp', 'src/data/string/ustring.cpp', 'src/data/string/kmp.h', 'src/data/string/utility.h', 'src/data/string/algorithm.h', 'src/math/fft.h', 'src/math/random/mersenne_twister.cpp', 'src/lang/cast.h', 'src/data/fenwick_tree.h'],
  [('digest table', 'src/data/digest/md5.cpp'), ('shared automaton', 'src/data/string/aho_corasick.cpp')], [('tables', 'tables common to all calls', 'src/data/digest/md5.cpp')], ['base64_encode', 'md5sum', 'uri_encode', 'string_to_ustring', 'aho_corasick', 'kmp', 'fft', 'mtrand', 'lexical_cast'])

# --- not applicable: pure functions ---------------------------------------
PURE = 'A pure function of its arguments: no schedule, clock, fault, I/O or second party for a simulation to decide; running it in a simulator would only be ordinary input generation.'
def N(id, title, statement, files, na=PURE):
    P(id, title, statement, [INP], 'all inputs', 'Input spaces are unbounded; tests sample a few values.', files, [('implementation', files[0])], (), [], na=na)
N('C81', 'Codecs are exact: Base64, MD5, URI escaping, character encodings',
  'Decoding what was encoded gives the input back for every byte string, digests match their standard, and malformed encodings are rejected or decoded as documented.',
  ['src/data/encoding/base64.cpp', 'src/data/digest/md5.cpp', 'src/network/uri.cpp', 'src/data/string/ustring.cpp'])
N('C82', 'Hash containers and the Fenwick tree behave as their models',
  'The hash containers and the Fenwick tree give the same answers as a naive model for every sequence of operations by one thread.',
  ['src/data/unordered_map.h', 'src/data/fenwick_tree.h'])
N('C83', 'String search and string utilities find exactly what is there',
  'Aho-Corasick and KMP search report exactly the occurrences of their patterns, and splitting, trimming and edit distance match their definitions for every input.',
  ['src/data/string/aho_corasick.cpp', 'src/data/string/kmp.h', 'src/data/string/utility.h', 'src/data/string/algorithm.h'])
N('C84', 'Numeric code computes what it claims',
  'The FFT inverts itself within rounding, rational and vector arithmetic obey their laws, and the random generators produce the reference sequence for their seed.',
  ['src/math/fft.h', 'src/math/ratio.h', 'src/math/vector.h', 'src/math/random/mersenne_twister.cpp'])
N('C85', 'Function wrappers, casts and type utilities follow their models',
  'Function objects, bindings, dynamic values, scoped pointers and casts forward exactly what they were given and destroy what they hold exactly once.',
  ['src/lang/scoped_ptr.h', 'src/lang/function.h', 'src/lang/bind.h', 'src/lang/any.h', 'src/lang/cast.h'], 'Thin wrappers around the C++ standard library whose own (atomic) code decides any concurrent behaviour; the code in this repository is a pure forwarding layer.')

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in L:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']], 'observe_at': list(p['observe']), 'hook_needed': p['hook']}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 verif.py setup', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed in /repo: the simulator interposes the libc and pthread interface at link time and compiles the unmodified sources with memory-access instrumentation'},
         'checks': [], 'not_applicable': []}
    for p in L:
        if p['na']: m['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 verif.py check ' + p['id'], 'thorough_cmd': 'python3 verif.py check %s --thorough' % p['id'],
            'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults',
            'level': 'exploration',
            'level_note': p['note'] or 'Samples seeded simulated runs of the real code; a clean batch is evidence, not proof. Assumes sequentially consistent memory and that the simulated primitives behave as POSIX specifies.'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
if __name__ == '__main__': main()
