#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a program so the JSON stays valid).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

TESTS = "The repository's tests drive a handful of fixed request sequences against one server process (or call the parsers directly)"

p("C01", "Text protocol commands behave as documented after every history",
  "After any sequence of text protocol commands on one or more keys, from one or two connections, every reply (stored value, flags, counter result, STORED/NOT_STORED/EXISTS/NOT_FOUND/DELETED/TOUCHED/OK/LOCKED/error line) is the one the memcached text protocol and the yrmcds documentation prescribe for the preceding commands. Commands given noreply have the same effect and produce no reply. Arithmetic works on unsigned 64-bit decimals, wrapping on increment and stopping at zero on decrement.",
  ["histories", "inputs"], "all command sequences up to the stated depth over a small alphabet of commands, keys, values, flags, expiry times and two connections",
  TESTS + "; they cannot cover all short command histories, and each test only looks at the reply it expects.",
  ["src/memcache/sockets.cpp", "src/memcache/memcache.cpp", "src/memcache/object.cpp", "cybozu/hash_map.hpp"],
  [("text command dispatch", "src/memcache/sockets.cpp cmd_text"), ("request parsing", "src/memcache/memcache.cpp text_request"), ("object mutation", "src/memcache/object.cpp")],
  ["bytes received by a client connection"])
p("C02", "Binary protocol commands and quiet variants behave as documented",
  "After any sequence of binary protocol commands, every response carries the status, value, key, flags and CAS the protocol and the yrmcds documentation prescribe, echoes the request's opcode and opaque, and mutates the store exactly as prescribed. Quiet variants have the same effect as the loud ones, send nothing on success (quiet gets: nothing on a miss) and still report errors. A non-zero CAS in a request makes the command succeed only if it equals the object's current CAS.",
  ["histories", "inputs"], "all binary command sequences up to the stated depth over a small alphabet",
  TESTS + "; combinations of quiet variants, CAS values, initial values and object states are far more than they enumerate.",
  ["src/memcache/sockets.cpp", "src/memcache/memcache.cpp", "src/memcache/object.cpp"],
  [("binary command dispatch", "src/memcache/sockets.cpp cmd_bin"), ("request parsing", "src/memcache/memcache.cpp binary_request"), ("response encoding", "src/memcache/memcache.cpp binary_response")],
  ["bytes received by a client connection"])
p("C03", "Replies do not depend on how the byte stream is cut",
  "However the bytes of a pipeline of valid text, binary or counter requests are cut into segments and however their arrival interleaves with processing, the connection receives exactly one correct reply per request that asks for one, in request order, with nothing lost, repeated or swallowed. A request that is still incomplete has no effect until its last byte arrives.",
  ["inputs", "schedules"], "all ways to cut the listed pipelines into up to three segments, and all schedules within the bound in which a segment arrives while the previous one is being processed",
  "Tests send whole requests; the kernel decides the segmentation, practically always one segment per request.",
  ["src/memcache/sockets.cpp", "src/memcache/memcache.cpp", "src/counter/sockets.cpp", "src/counter/counter.cpp", "cybozu/tcp.cpp", "cybozu/dynbuf.hpp"],
  [("pending request buffer", "src/memcache/sockets.cpp m_recvjob"), ("incremental parsing", "src/memcache/memcache.cpp"), ("busy flag and re-arming of readable sockets", "cybozu/reactor.cpp add_readable")],
  ["bytes received by a client connection"])
p("C04", "Malformed input is answered with an error and harms nobody",
  "Any malformed, truncated, oversized or out-of-range request is answered with an error reply (or the connection is closed) without changing stored data, and later well-formed requests on the same connection that begin at the next request boundary are served. No input makes the server crash, read or write outside its buffers, hang, or disturb other connections.",
  ["inputs"], "all byte strings over a protocol-token alphabet up to the stated length, and all single-field corruptions of binary and counter request headers",
  "Parser tests list a few malformed lines; the space of malformed requests is only reachable by enumeration.",
  ["src/memcache/memcache.cpp", "src/memcache/sockets.cpp", "src/counter/counter.cpp", "src/counter/sockets.cpp"],
  [("validity checks in the parsers", "src/memcache/memcache.cpp"), ("length limits", "src/memcache/sockets.cpp m_recvjob"), ("counter body validation", "src/counter/counter.cpp")],
  ["bytes received by the offending and by another connection", "process liveness", "memory accesses"])
p("C05", "Concurrent commands on a key are linearizable",
  "For commands issued concurrently from several connections, on the same key or on keys sharing a hash bucket, and with garbage collection running at the same time, there is a single order of the commands, consistent with real time, in which every reply is the one a sequential server would give. No acknowledged update is lost and no value is ever observed half-written.",
  ["schedules", "histories"], "all schedules within the deviation bound of two or three connections each issuing one or two commands from the alphabet, with and without a concurrent collection",
  "Tests use one connection at a time; interleavings inside a few microseconds are never reached on purpose.",
  ["src/memcache/sockets.cpp", "src/memcache/gc.cpp", "cybozu/hash_map.hpp", "src/memcache/object.hpp"],
  [("per-bucket lock held during the whole command", "cybozu/hash_map.hpp apply/remove_if"), ("collection takes the bucket lock", "cybozu/hash_map.hpp gc")],
  ["client replies"])
p("C06", "A compare-and-swap never overwrites an update it did not see",
  "A conditional update (text cas, or a binary command carrying a CAS) succeeds only if the object has not been modified, deleted and re-created, or replaced since the CAS identifier was obtained; every successful modification changes the identifier. Of any set of concurrent conditional updates carrying the same identifier at most one succeeds.",
  ["histories", "schedules"], "all modification histories up to the stated depth between reading and using an identifier, and all schedules within the bound of competing conditional updates",
  "Tests check that the identifier changes after one update and that a wrong one fails; they do not look at every kind of modification or at races.",
  ["src/memcache/object.hpp", "src/memcache/object.cpp", "src/memcache/sockets.cpp"],
  [("CAS identifier assignment", "src/memcache/object.cpp"), ("comparison under the bucket lock", "src/memcache/sockets.cpp")],
  ["client replies"])
p("C07", "Locks are mutually exclusive and protect the object",
  "At any time at most one connection holds the lock of an object; while it is held every modification, lock or unlock attempt by another connection is refused and leaves the object unchanged, reads succeed, and the object is neither expired, flushed nor evicted. The holder can modify, delete, unlock or replace-and-unlock it.",
  ["schedules", "histories"], "all command histories up to the stated depth from two connections over lock and modification commands, and all schedules within the bound of competing lockers",
  TESTS + "; they never contend for a lock nor combine locks with expiry, flush and collection.",
  ["src/memcache/object.hpp", "src/memcache/sockets.cpp", "src/memcache/sockets.hpp", "src/memcache/gc.cpp"],
  [("lock owner recorded in the object", "src/memcache/object.hpp"), ("ownership checks", "src/memcache/sockets.cpp")],
  ["client replies", "object presence after collection"])
p("C08", "A connection's locks end with the connection, and only then",
  "When a connection ends in any way (quit, reset, server-side failure while sending, timeout of the peer) every lock it holds is released without further client action, and no other connection's lock is released or inherited, even if the operating system reuses descriptor numbers. Until then the locks stay held.",
  ["schedules", "fault_sequences", "histories"], "all schedules within the bound of a lock holder that disconnects in each way while requests are in flight, followed by new connections reusing the descriptor",
  "Tests close connections cleanly and look at the lock some time later; disconnection racing with processing is not exercised.",
  ["src/memcache/sockets.cpp", "src/memcache/sockets.hpp", "src/memcache/object.hpp", "cybozu/tcp.cpp", "cybozu/reactor.cpp"],
  [("release on connection end", "src/memcache/sockets.cpp unlock_all and destructor"), ("lock context", "src/memcache/object.hpp g_context")],
  ["client replies", "process liveness"])
p("C09", "Expiry is exact: expired objects are absent, others stay",
  "Once an object's expiry time has been reached (and it is not locked) it is treated by every command exactly like an absent object, whether or not collection has removed it yet; before that time it is never removed by collection. Touch and get-and-touch move the expiry time, relative times count from the request, times above thirty days are absolute, zero means never.",
  ["histories", "inputs", "configurations"], "all histories up to the stated depth of storing, touching, reading and letting time pass with collection before or after each use",
  "Tests wait one or two seconds for a single expiry; they cannot enumerate (command x expired-but-not-collected) combinations.",
  ["src/memcache/object.hpp", "src/memcache/sockets.cpp", "src/memcache/gc.cpp", "src/memcache/memcache.cpp"],
  [("expiry predicate", "src/memcache/object.hpp expired"), ("collection predicate", "src/memcache/gc.cpp")],
  ["client replies over virtual time"])
p("C10", "flush_all takes effect exactly at its time and hits exactly once",
  "After flush_all (immediate, or delayed once its time has come) every object stored before and not locked is gone for all clients, and soon afterwards the cache accepts new objects that stay. A flush acknowledged to a client is never lost, whatever else (collection, another flush) runs at the same time; before a delayed flush is due nothing is removed.",
  ["schedules", "histories"], "all schedules within the bound of flush commands racing with a running collection and with stores, and all short histories of stores, flushes and delays",
  "Tests flush once on an idle server.",
  ["src/memcache/gc.cpp", "src/memcache/sockets.cpp", "src/memcache/object.hpp", "src/memcache/handler.cpp"],
  [("flush time consulted on access", "src/memcache/object.hpp expired"), ("flush collection", "src/memcache/gc.cpp gc")],
  ["client replies over virtual time"])
p("C11", "Objects are evicted only under memory pressure, and it works",
  "An unexpired, unflushed object is evicted only while accounted memory exceeds the configured limit; locked objects are never evicted and, when old and recently used objects compete, recently used ones survive while the others go. While the limit is exceeded by unlocked objects, collections keep removing objects until memory use is below the limit again.",
  ["histories", "configurations"], "all access patterns up to the stated depth over a few objects around the memory limit, with the collection interval passing in between",
  "Tests never fill the cache.",
  ["src/memcache/gc.cpp", "src/memcache/object.hpp", "src/memcache/handler.cpp"],
  [("eviction age", "src/memcache/gc.cpp"), ("ageing", "src/memcache/object.hpp survive")],
  ["object presence", "stats"])
p("C12", "Replicas converge to the master's content",
  "Whenever updates pause, replaying the byte stream sent to a connected replica yields exactly the master's live objects (keys, values, flags, expiry), also when the replica joined while updates were in progress. Updates to one key appear in the stream in the order they took effect, complete and uninterrupted. With `initial_repl_sleep_delay_usec` the initial copy proceeds at the configured pace, commands are served meanwhile, and the result is the same.",
  ["schedules", "histories"], "all schedules within the bound of clients updating shared keys while a replica joins and receives its initial copy, for every kind of modification",
  "No test covers replication under concurrency; the interesting windows (joining vs. updating vs. collection) are microseconds wide.",
  ["src/memcache/replication.cpp", "src/memcache/gc.cpp", "src/memcache/handler.cpp", "src/sync.hpp", "src/memcache/sockets.cpp"],
  [("stream written under the bucket lock", "src/memcache/replication.cpp"), ("new replicas wait until every worker was idle once", "src/memcache/handler.cpp make_repl_socket, src/sync.hpp"), ("initial copy by collection", "src/memcache/gc.cpp")],
  ["bytes received by a virtual replica", "master content read back by a client"])
p("C13", "A replica applies the stream faithfully and serves it after promotion",
  "A server in replica mode that received any replication stream, cut into arbitrary segments, holds exactly the objects (keys, values, flags, expiry) obtained by applying the stream's commands in order, including empty and large values; after it is promoted it serves exactly those. A lost master leads to promotion or to a fresh resynchronisation, never to a mixture or a crash.",
  ["inputs", "histories", "fault_sequences"], "all replication command sequences up to the stated depth, all cuts into two segments, all points at which the master connection ends",
  "No test runs a server in replica mode.",
  ["src/memcache/replication.cpp", "src/memcache/sockets.cpp", "src/memcache/handler.cpp", "src/server.cpp"],
  [("stream application", "src/memcache/replication.cpp repl_recv"), ("clearing before resynchronisation", "src/memcache/handler.cpp on_slave_start"), ("promotion", "src/server.cpp serve")],
  ["client replies after promotion", "connections the server opens"])
p("C14", "Output is delivered intact and in order under any backpressure",
  "Whatever the peer's receive window and however the operating system splits or refuses writes, the bytes delivered on a connection are exactly the concatenation of complete replies in order, each once; data held back is sent as soon as the peer reads, and nothing stays unsent when the connection is otherwise idle. This holds for client, replica and counter connections, also when several threads write to one connection.",
  ["schedules", "fault_sequences"], "all placements of up to the stated number of short or refused writes and all schedules within the bound of writers against the event loop",
  "Tests read replies promptly over loopback, so writes are never short.",
  ["cybozu/tcp.cpp", "cybozu/tcp.hpp", "cybozu/reactor.cpp", "src/memcache/sockets.cpp"],
  [("send buffers", "cybozu/tcp.cpp _send/_sendv/_flush"), ("write readiness", "cybozu/tcp.cpp on_writable, write_pending_data")],
  ["bytes delivered to the peer"])
p("C15", "Every request is eventually answered: no deadlock, no lost wakeup",
  "As long as the server runs, every complete request on an open connection is answered within bounded time, whatever the interleaving of connections, workers and collection and however many more connections than workers there are. No combination of clients that keep reading their replies can stall another one, except by the documented use of locks.",
  ["schedules"], "all schedules within the bound of more connections than workers, with requests arriving while a connection or all workers are busy, with collection and with replicas",
  "A lost wakeup needs an exact interleaving of event loop and worker; tests would just be slow or flaky once in a blue moon.",
  ["cybozu/reactor.cpp", "cybozu/worker.hpp", "src/memcache/sockets.cpp", "src/counter/sockets.cpp", "cybozu/hash_map.hpp"],
  [("busy flags and readable list", "cybozu/reactor.cpp"), ("worker hand-off", "cybozu/worker.hpp")],
  ["client replies", "blocked threads"])
p("C16", "Shutdown always completes cleanly",
  "After a termination signal the server stops within bounded time with a successful exit status, whatever requests, blocked writers, collections or replica transfers are in progress at that moment.",
  ["schedules", "crash_points"], "the signal arriving at every scheduling point of busy scenarios, with all schedules within the bound afterwards",
  "Tests do not stop a busy server.",
  ["src/server.cpp", "cybozu/worker.hpp", "cybozu/reactor.cpp", "cybozu/tcp.cpp", "src/memcache/handler.cpp", "src/counter/handler.cpp"],
  [("stop sequence", "src/server.cpp serve_master"), ("worker stop", "cybozu/worker.hpp"), ("invalidation unblocks writers", "cybozu/tcp.cpp")],
  ["process termination and status"])
p("C17", "Closed connections are reclaimed once, after their last use",
  "For every way a connection or replica link can end and every timing, the server never touches memory or a descriptor after releasing it, never releases one twice, and eventually releases all of them: after all peers are gone the number of open descriptors returns to its initial value and connection objects are freed.",
  ["schedules", "fault_sequences"], "all schedules within the bound of connections ending (quit, reset, send failure, half-close) while workers, collection or other connections use them",
  "Use-after-free and leaks need an ending that races with use; tests close idle connections.",
  ["cybozu/reactor.cpp", "cybozu/reactor.hpp", "cybozu/tcp.cpp", "src/sync.hpp", "src/server.cpp", "src/memcache/handler.cpp"],
  [("deferred destruction after a synchronisation round", "src/server.cpp, cybozu/reactor.cpp"), ("descriptor closed by the event loop only", "cybozu/reactor.cpp")],
  ["heap and descriptor monitors"])
p("C18", "Threads share data only under synchronisation",
  "In every execution, any two conflicting accesses to shared memory by different threads (event loop, workers, collector) are ordered by locks, atomics or thread start/join.",
  ["schedules"], "all schedules within the bound of scenarios that together use every command class, collection, replicas, disconnection and the counter service",
  "Tests run uninstrumented and mostly single-connection.",
  ["cybozu/reactor.cpp", "cybozu/tcp.cpp", "src/memcache/sockets.cpp", "src/memcache/handler.cpp", "src/counter/sockets.cpp", "cybozu/hash_map.hpp"],
  [("locks and atomics", "cybozu/*.hpp, src/**")],
  ["happens-before monitor on every instrumented access"])
p("C19", "Key listing and collection visit every object exactly once",
  "A listing of keys, with or without prefix, on an otherwise quiet server returns exactly the live keys with that prefix, each once, whatever the bucket count and chain layout; under concurrent updates it returns each key that stays present throughout exactly once and none that stays absent. A collection likewise examines every object: none due survives it and none not due is lost.",
  ["histories", "schedules", "configurations"], "all subsets of a key universe over several bucket counts, all removal orders, and all schedules within the bound of listing or collecting against updates",
  "Tests list a couple of keys in a huge table, where chains practically never form.",
  ["cybozu/hash_map.hpp", "cybozu/hash_map.cpp", "src/memcache/sockets.cpp", "src/memcache/gc.cpp"],
  [("bucket iteration and removal", "cybozu/hash_map.hpp")],
  ["keys replies", "gets after collection"])
p("C20", "Values are equal wherever they are stored",
  "Every command (arithmetic aside, which applies only to values kept in memory) behaves identically whether the value is below, at or above the threshold for keeping values in files, and when it crosses the threshold in either direction by set, append or prepend; values above the size limit are refused without effect. Files used for values are released when the value goes away.",
  ["histories", "inputs"], "all command sequences up to the stated depth over value sizes around the threshold and around the size limit",
  "Tests store one large object.",
  ["src/memcache/object.cpp", "src/tempfile.cpp", "src/tempfile.hpp"],
  [("file-backed values", "src/memcache/object.cpp"), ("temporary files", "src/tempfile.cpp")],
  ["client replies", "open files"])
p("C21", "With secure erase, removed values do not remain in released memory",
  "With secure erase enabled, when the value of an object kept in memory is deleted, replaced, expired, evicted or changed in length, every heap block in which the object held the value, or made a copy of it, is overwritten before it is released: released memory of the store never contains it. (Network buffers and values kept in files are outside this guarantee.)",
  ["histories"], "all command sequences up to the stated depth that end with the value removed, with inspection of every block the server released",
  "Tests do not look at memory contents.",
  ["cybozu/dynbuf.hpp", "cybozu/util.cpp", "src/memcache/object.cpp"],
  [("erasing buffer", "cybozu/dynbuf.hpp"), ("clear_memory", "cybozu/util.cpp")],
  ["heap blocks at release"])
p("C22", "Counter commands behave as documented after every history",
  "After any sequence of counter requests from any connections, acquire, release, get and dump reply as documented for the preceding requests: an acquire succeeds exactly when the consumption plus the request stays within the given maximum (in exact arithmetic), a release never returns more than the connection holds, and each consumption equals the sum held by open connections. Replies echo opcode and opaque.",
  ["histories", "inputs"], "all request sequences up to the stated depth over a small alphabet of names, amounts (including extreme 32-bit values) and two connections",
  "Counter tests cover single requests with small numbers.",
  ["src/counter/sockets.cpp", "src/counter/counter.cpp", "src/counter/object.hpp", "src/counter/handler.cpp"],
  [("acquire/release arithmetic", "src/counter/object.hpp"), ("request parsing", "src/counter/counter.cpp")],
  ["bytes received by a client connection"])
p("C23", "Counters never over-grant and always return what a gone client held",
  "Under any concurrency the amount granted to open connections never exceeds the maximum given by the acquiring requests, and no grant or release is lost. When a connection ends in any way, everything it holds is returned exactly once, without affecting others.",
  ["schedules", "fault_sequences"], "all schedules within the bound of two or three connections acquiring, releasing and disconnecting, with counter collection",
  "Tests use one connection at a time.",
  ["src/counter/sockets.cpp", "src/counter/object.hpp", "src/counter/gc.cpp", "src/counter/handler.cpp"],
  [("bucket lock around acquire and release", "src/counter/sockets.cpp"), ("release at connection end", "src/counter/sockets.cpp")],
  ["client replies"])
p("C24", "Counter housekeeping drops only unused counters and keeps peaks right",
  "Counters in use are never removed by housekeeping; unused ones eventually are. The reported peak consumption is the maximum reached within the current or last statistics period.",
  ["histories", "configurations"], "all request and time-passing sequences up to the stated depth over the statistics period",
  "The statistics period is at least ten seconds and by default a day; tests do not wait.",
  ["src/counter/gc.cpp", "src/counter/object.hpp", "src/counter/handler.cpp"],
  [("counter collection", "src/counter/gc.cpp"), ("peak tracking", "src/counter/object.hpp")],
  ["dump replies"])
p("C25", "Connection and replica limits are enforced and capacity is given back",
  "With a connection limit configured, a connection is served if and only if fewer than the limit are open, excess connections are closed at once, and every connection that ends frees its place. At most five replicas are served at once and a departed one frees its place.",
  ["histories", "schedules"], "all histories up to the stated depth of connecting and disconnecting in each way around the limit",
  "Tests open a few connections without limits.",
  ["src/memcache/handler.cpp", "src/counter/handler.cpp", "src/memcache/sockets.cpp", "cybozu/tcp.cpp"],
  [("admission", "src/memcache/handler.cpp make_memcache_socket, make_repl_socket"), ("connection count", "src/memcache/sockets.cpp")],
  ["connections accepted or closed"])
p("C26", "Role changes follow the virtual address",
  "A server owning the virtual address serves clients as master; one that does not never serves clients, replicates from the master, and becomes master only once it owns the address. A master that lost the address stops serving by terminating itself, and a replica that lost its master waits some seconds for the address, keeping its data and becoming master if it obtains it, and only then discards its data and resynchronises.",
  ["histories", "fault_sequences"], "all sequences up to the stated depth of address gains and losses, master connection ends and refused connections",
  "No test moves the virtual address.",
  ["src/server.cpp", "src/memcache/handler.cpp", "src/memcache/gc.cpp", "cybozu/ip_address.cpp"],
  [("role loop", "src/server.cpp serve"), ("address check", "cybozu/ip_address.cpp has_ip_address")],
  ["client replies", "outgoing connections", "process termination"])
p("C27", "Silent replicas are dropped, live ones are kept",
  "A replica from which nothing has been received for longer than the configured timeout is disconnected; one that keeps sending heartbeats within the timeout is never disconnected for silence, and a server in replica mode sends heartbeats often enough to stay connected, also while applying a long stream.",
  ["histories", "schedules"], "all heartbeat timings around the timeout up to the stated depth",
  "Tests have no replicas.",
  ["src/memcache/handler.cpp", "src/memcache/sockets.hpp", "src/memcache/sockets.cpp"],
  [("timeout check", "src/memcache/handler.cpp on_master_interval"), ("heartbeat", "src/memcache/handler.cpp on_slave_interval")],
  ["replica connections over virtual time"])
p("C28", "A failing connection never harms other connections or the server",
  "Whatever error the operating system reports on one client, replica or counter connection (accept, receive, send, at any point), the server keeps running and other connections keep getting correct replies. Only the failing connection is closed. While no descriptor is left for new connections, earlier ones are served as before, and the waiting ones are accepted as soon as descriptors are free.",
  ["fault_sequences", "schedules"], "every single system-call fault position (and pairs) with every error the call can return, and all schedules within the bound",
  "Tests never inject system-call errors.",
  ["cybozu/tcp.cpp", "cybozu/reactor.cpp", "src/memcache/sockets.cpp", "src/counter/sockets.cpp", "cybozu/thread.hpp"],
  [("error handling around recv/send/accept", "cybozu/tcp.cpp, src/memcache/sockets.cpp"), ("invalidate on error", "cybozu/tcp.hpp")],
  ["process liveness", "replies to other connections"])
p("C29", "Configuration files are read as documented or rejected",
  "Every configuration file is either loaded with each option having exactly the documented value (units, defaults, white space and comments handled as documented) or rejected with an error; no out-of-range value is silently accepted, truncated or wrapped.",
  ["inputs", "configurations"], "all option/value combinations over a boundary alphabet for every documented option and all short lines over the syntax alphabet",
  "Tests load two or three sample files.",
  ["src/config.cpp", "cybozu/config_parser.cpp", "cybozu/config_parser.hpp"],
  [("option validation", "src/config.cpp"), ("line parser", "cybozu/config_parser.cpp")],
  ["effective settings", "load errors"])
p("C30", "Statistics tell the truth",
  "The reported number of connections equals the open ones, hit, miss, CAS and per-command counts equal what clients did, and object, size-class, memory, expiry and eviction figures after a collection equal the store's content; figures never go negative or drift.",
  ["histories", "schedules"], "all command histories up to the stated depth followed by every statistics command, and all schedules within the bound of connections ending",
  "Tests check that the statistics commands answer.",
  ["src/memcache/stats.cpp", "src/memcache/sockets.cpp", "src/memcache/gc.cpp", "src/counter/sockets.cpp"],
  [("counters", "src/memcache/stats.hpp"), ("collection totals", "src/memcache/gc.cpp")],
  ["stats replies"])

p("C31", "The server listens exactly on the configured addresses",
  "With bind_ip the memcached port is open on every listed address and, if set, on the virtual IP, and on no other; without it on every address, and replication and counter ports are open only while the process is master (counters only if enabled), on the addresses configured for them. A connection to any of those addresses is served. If an address cannot be listened on, the server does not run on without it.",
  ["inputs"], "all combinations of the listening options over small sets of addresses, each of them with every kind of failure to bind",
  "Tests start the server with one set of addresses.",
  ["src/memcache/handler.cpp", "src/counter/handler.cpp", "cybozu/tcp.cpp", "src/config.cpp"],
  [("listening sockets", "src/memcache/handler.cpp"), ("binding", "cybozu/tcp.cpp")],
  ["bound addresses", "whether connections are served"])

p("C32", "The log is complete, ordered and follows rotation",
  "A message at the configured severity or above is written exactly once, whole, on a line of its own, messages of one thread in the order it produced them, and no message below that severity is written. The severity can be changed at run time with the verbosity command, and SIGUSR1 writes the server's status to the log. After the log file is moved away and the server receives SIGHUP, earlier messages stay in the old file and all later ones are in the new one; no message is lost between.",
  ["schedules", "fault_sequences"], "all interleavings up to the stated preemption bound of threads logging, of the severity changing and of the file being reopened, with short and interrupted writes at every point",
  "Tests write a handful of messages from one thread.",
  ["cybozu/logger.hpp", "cybozu/logger.cpp", "src/main.cpp", "src/server.cpp"],
  [("log records", "cybozu/logger.cpp"), ("signals", "src/server.cpp")],
  ["log files"])

p("C33", "What one connection can make the server hold in memory is bounded",
  "A request that does not become complete is refused after about 30 MiB and its connection closed, replies that a client does not read, and replicated data that a replica does not read, occupy only a bounded buffer while the rest waits, and all of this memory is given back when the request is complete, the data has been read or the connection has ended. Other clients are served afterwards.",
  ["inputs", "histories"], "every kind of incomplete, large and unread exchange, cut in every one of the stated ways, with memory measured after every segment",
  "Tests send small requests and read all replies.",
  ["src/memcache/sockets.cpp", "src/counter/sockets.cpp", "cybozu/tcp.cpp", "cybozu/dynbuf.hpp", "cybozu/worker.hpp"],
  [("request length limit", "src/memcache/sockets.cpp"), ("pending output", "cybozu/tcp.cpp")],
  ["memory in use", "closed connections", "replies"])

p("C34", "The program starts as its arguments and configuration say",
  "-h and -v print the usage and the version and end with status 0 without serving; -f names the configuration file, and if it is missing, unreadable or malformed the program ends with a non-zero status without serving; without -f the default file is used if it exists. Started as root with user or group set, the program serves with exactly those ids; if they cannot be obtained, or memory cannot be locked as configured, or the log file cannot be opened, it ends with a non-zero status and never opens a port; started by another user those two options have no effect. The log file and threshold are in effect and every start uses another hash key.",
  ["inputs", "fault_sequences"], "all listed argument lists with every kind of default file; all combinations of the start options with every failure of the privileged calls",
  "Tests do not run the program's main function.",
  ["src/main.cpp", "src/config.cpp", "cybozu/siphash.cpp", "cybozu/hash_map.hpp"],
  [("start", "src/main.cpp"), ("hash key", "cybozu/hash_map.hpp")],
  ["exit status", "listening ports", "user and group ids", "log file"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
