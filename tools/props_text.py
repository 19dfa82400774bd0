p("C01", "Key operations behave as a map",
  "Every sequence of store, conditional store, load, load-and-update and delete operations returns exactly the outcome, value, flags and expiration that a plain key/value map would return after the same history. A conditional, cancelled or failed operation leaves the previous entry (value, flags, expiration, version) completely unchanged.",
  ["histories", "inputs"], "all sequences of engine operations up to a depth over colliding keys, every conditional option and callback answer",
  "The repository's tests put, get and delete distinct keys once; conditional stores, cancelled callbacks, in-place updates and their interaction with expired entries are only reached by particular histories.",
  ["src/pogocache.c", "src/pogocache.h"],
  [("storeop: insert first, then put back the old entry when a condition fails", "src/pogocache.c:storeop"), ("loadop/deleteop callbacks", "src/pogocache.c:loadop,deleteop"), ("robin-hood map", "src/pogocache.c:map_insert,map_delete,delbkt")],
  observe=["pogocache_store/load/delete return values and callbacks"])
p("C02", "Expiration is exact",
  "An entry with an expiration is served strictly before that instant and is never visible to any operation at or after it, and an entry without one never expires. Rewriting, touching or updating an entry keeps, replaces or drops its expiration exactly as the operation specifies, including for extreme ttl values.",
  ["histories", "inputs"], "all operation sequences interleaved with clock steps to just before, at and after each expiration, with boundary and overflowing ttls",
  "Tests sleep on the wall clock for one ttl; the instants around expiry, overwritten ttls, keep-ttl over an expired entry and clamped values are never visited.",
  ["src/pogocache.c", "src/cmds.c", "src/util.c"],
  [("alive test expires==0||expires>now", "src/pogocache.c:entry_alive_exp"), ("ttl and keepttl handling", "src/pogocache.c:storeop"), ("command expiry conversion", "src/cmds.c:cmdSET,cmdSETEX,cmdEXPIRE,expiry_seconds_time")])
p("C03", "Concurrent operations are linearizable and race free",
  "Operations issued by several threads on one cache behave as if each took effect atomically at one instant between its call and its return, whether or not the keys share a shard. No schedule leads to a data race, a use of freed memory, a deadlock or an endless wait.",
  ["schedules"], "all interleavings of 2-3 threads with 1-3 operations each, up to a preemption bound, at every atomic operation",
  "The tests issue one request at a time; an interleaving bug needs a switch inside a critical section or lock hand-off that no sequential test performs.",
  ["src/pogocache.c"],
  [("per-shard spinlock", "src/pogocache.c:lock,ACQUIRE_FOR_KEY_AND_EXECUTE"), ("atomic reference counts", "src/pogocache.c:entry_free,entry_clone")])
p("C04", "Read-modify-write commands are atomic across clients",
  "INCR, DECR, APPEND, PREPEND, conditional SET, SET with GET, EXPIRE and the other read-modify-write commands take effect atomically with respect to commands of other connections: no update is lost or applied twice and no intermediate value is visible. A group of operations executed in one engine batch is isolated from all other threads until the batch ends.",
  ["schedules"], "all interleavings of the command handlers of 2-3 connections up to a preemption bound, and of engine batches against single operations",
  "The only concurrency test in the tree needs an external server and samples a handful of schedules by sleeping.",
  ["src/cmds.c", "src/pogocache.c"],
  [("batch around load+store", "src/cmds.c:execINCRDECR,cmdAPPEND"), ("batch locking", "src/pogocache.c:pogocache_begin,pogocache_end,lock")])
p("C05", "Compare-and-store never loses an update",
  "A compare-and-store succeeds exactly when the entry exists, is alive and has not been modified since the version it names was read; every successful modification gives the entry a version it never had before. When versioning is disabled a compare-and-store never overwrites an existing entry.",
  ["histories", "schedules"], "all operation histories with every version ever observed replayed as the compare value; all bounded interleavings of racing compare-and-stores",
  "Version reuse only shows after particular delete, re-create, failed-store, update or clear sequences, or under a race; tests exercise one successful and one failing exchange.",
  ["src/pogocache.c", "src/cmds.c"],
  [("per shard version counter", "src/pogocache.c:storeop,loadop"), ("casop comparison", "src/pogocache.c:storeop"), ("gets/cas and SET CAS", "src/cmds.c:cmdMGET,cmdSET")])
p("C06", "Scans report every live key exactly once",
  "A full iteration, KEYS, or a SCAN cursor loop without intervening writes reports every live key that matches exactly once, no expired key, and nothing else, for every table layout. Deleting during iteration removes exactly the chosen entries, and a sweep removes exactly the expired entries and reports exact kept and swept counts; any cursor value a client sends is handled safely.",
  ["histories", "inputs"], "all small table layouts (including displaced and wrapped-around entries) x expired subsets x delete/stop decisions x cursors and COUNT values",
  "Errors appear only for layouts where removal shifts entries around the end of the table, or for cursors no well-behaved client sends.",
  ["src/pogocache.c", "src/cmds.c"],
  [("bucket walks with backward-shift deletion", "src/pogocache.c:iterop,sweepop,entryiter,delbkt"), ("cursor encoding", "src/pogocache.c:pogocache_entry_iter"), ("KEYS and SCAN", "src/cmds.c:cmdKEYS,cmdSCAN")])
p("C07", "Counts, sizes and memory are accounted exactly",
  "After every history the reported entry count and entry memory size equal those of the entries actually held, and the cumulative total counts each stored new entry once and nothing else. Every allocation is released exactly once: nothing leaks, nothing is freed twice, and an entry retained by a caller stays readable and unchanged until that caller releases it.",
  ["histories"], "all operation sequences up to a depth with an exact allocation ledger, including entries retained across deletes, replacements and clears",
  "Drift only appears after lazily expired, updated, cancelled or swept entries, and nothing in the tests reads the figures back.",
  ["src/pogocache.c"],
  [("entsize/count/total bookkeeping", "src/pogocache.c:map_insert,delbkt,delentry_at_bkt,loadop"), ("reference counting", "src/pogocache.c:entry_free,pogocache_entry_retain")])
p("C08", "Change notifications mirror the cache exactly",
  "Replaying the change notifications onto an empty map reproduces the cache contents after every operation: inserts, replacements and deletions are each reported exactly once with the right old and new entries, and unchanged keys are never reported. The eviction callback fires exactly once for each entry removed by expiration, low memory or clearing, with the right reason and the entry's own data.",
  ["histories"], "all operation sequences up to a depth, including expirations discovered by each kind of operation and low-memory evictions",
  "No test registers the callbacks; wrong or missing events need an expired entry to be discovered by a particular operation.",
  ["src/pogocache.c"],
  [("notify", "src/pogocache.c:notify"), ("every mutation site", "src/pogocache.c:storeop,loadop,deleteop,iterop,sweepop,clearop,entryiter,auto_evict_entry")])
p("C09", "Allocation failure leaves the cache intact",
  "If any single allocation, or every allocation from some point on, fails, the operation reports an out-of-memory failure or completes correctly, and the cache keeps its previous contents, stays usable and leaks nothing. Creating a cache fails cleanly in the same situation.",
  ["fault_sequences", "histories"], "every operation history up to a depth x every allocation index failing once or from then on",
  "The tests never make an allocation fail.",
  ["src/pogocache.c"],
  [("nomem paths", "src/pogocache.c:storeop,map_insert,resize,clearop,loadop,pogocache_new,pogocache_begin,tryshrink")])
p("C10", "Low-memory mode bounds the cache as configured",
  "While the system is low on memory and eviction is enabled, storing a new key removes at most one other entry of the same shard and never the entry just stored, preferring an expired entry and otherwise the less recently used of the candidates considered. With eviction disabled, stores are refused with an out-of-memory answer and nothing is changed or evicted.",
  ["histories", "configurations"], "all histories of stores, touches and expirations before a low-memory store, with eviction enabled and disabled, in the engine and through every protocol",
  "Low memory is decided by a background ticker from process memory, so the tests never enter that mode.",
  ["src/pogocache.c", "src/cmds.c", "src/main.c"],
  [("two candidate eviction", "src/pogocache.c:auto_evict_entry,storeop"), ("lowmem flag on stores", "src/cmds.c:execSET"), ("evict option", "src/main.c:main")])
p("C11", "Growing, shrinking and collisions never lose entries",
  "Whatever the order of insertions and deletions, whatever the hash collisions, and through every growth and shrinkage of the table, each stored key stays retrievable with its own value, and deleted keys stay deleted. Memory reported for the table follows its size back down when shrinking is enabled.",
  ["histories", "inputs"], "all insertion/deletion patterns over keys whose positions collide, cluster and wrap around, at every load factor and across every resize threshold",
  "Random keys in a large table almost never produce long displaced runs or a deletion that shifts across the table end; these layouts have to be constructed.",
  ["src/pogocache.c"],
  [("robin-hood displacement", "src/pogocache.c:map_insert,resize"), ("backward shift delete", "src/pogocache.c:delbkt"), ("tryshrink", "src/pogocache.c:tryshrink,needsshrink")])
p("C12", "Keys and values of any bytes and length round-trip",
  "Any byte string is usable as key and any byte string as value: it is returned byte for byte, distinct keys never collide with each other, and flags and expiration survive, at every length. Key compression, versioning and shard count settings never change what a client observes.",
  ["inputs", "configurations"], "every length around each internal size boundary x every byte class, all short keys over a boundary alphabet, all pairs of keys distinct, under every combination of settings",
  "Tests use random alphanumeric keys of ordinary length; packing boundaries and size-field boundaries are hit only by specific lengths and bytes.",
  ["src/pogocache.c"],
  [("sixpack key packing", "src/pogocache.c:sixpack,unsixpack"), ("entry layout", "src/pogocache.c:entry_new,entry_extract,entry_compare")])
p("C13", "Message fragmentation never changes behaviour",
  "For every protocol, splitting a client's byte stream at any points, or coalescing any number of requests into one delivery, yields exactly the same replies and the same cache contents. A complete request is always answered without waiting for further bytes.",
  ["inputs"], "every request of a corpus covering all protocols x every split into two and three pieces, byte-by-byte delivery, and all pairs of pipelined requests",
  "Clients in the tests deliver each request in one write on loopback, so partial reads never occur.",
  ["src/parse.c", "src/resp.c", "src/memcache.c", "src/http.c", "src/postgres.c", "src/conn.c"],
  [("protocol sniffing", "src/parse.c:sniff_proto"), ("incremental parsers", "src/resp.c,src/memcache.c,src/http.c,src/postgres.c"), ("packet accumulation", "src/conn.c:evdata")])
p("C14", "Memcache text protocol semantics",
  "Every sequence of memcache text commands (set, add, replace, append, prepend, cas, get, gets, delete, incr, decr, touch, flush_all, version) gets the replies the memcached protocol prescribes and leaves the cache as prescribed, including the outcome lines for failed stores and the exptime rules. A request marked noreply produces no reply and never shifts later replies.",
  ["histories", "inputs"], "all command sequences up to a depth over a small key, value, exptime and numeric alphabet, against a reference model",
  "The only automatically run protocol test is HTTP; the memcache tests need modules that are absent and cover one path per command.",
  ["src/memcache.c", "src/cmds.c", "src/conn.c"],
  [("command translation", "src/memcache.c:parse_memcache"), ("reply formatting", "src/cmds.c:execSET,get_entry,execINCRDECR,cmdAPPEND,cmdDEL,cmdEXPIRE")])
p("C15", "RESP command semantics",
  "Every sequence of RESP commands (SET with all options, SETEX, GET, MGET, MGETS, DEL, EXISTS, TTL, PTTL, EXPIRE, TOUCH, the INCR/DECR family, APPEND, PREPEND, DBSIZE, FLUSH, KEYS, SCAN, ECHO, PING and the rest) receives the documented, correctly framed reply and has the documented effect; wrong arguments give an error and change nothing. Replies never contain bytes that break RESP framing, whatever the client sent.",
  ["histories", "inputs"], "all command sequences up to a depth over small argument alphabets, and every option combination of each command, against a reference model",
  "The RESP tests need absent modules, and cover one example per command rather than option combinations and histories.",
  ["src/resp.c", "src/cmds.c", "src/conn.c", "src/util.c"],
  [("parser", "src/resp.c"), ("handlers", "src/cmds.c"), ("reply writers", "src/conn.c")])
p("C16", "HTTP semantics",
  "For every combination of method, path, query parameters (ttl, nx, xx, flags, cas, auth), headers and body, an HTTP request gets exactly one well-formed response with the documented status and body, and has exactly the documented effect on the cache. A request that is malformed, unauthorised or unsupported changes nothing.",
  ["inputs", "histories"], "all combinations of methods, parameter sets, header sets and bodies over small alphabets, and sequences of them, against a reference model",
  "TestHTTP only issues well-formed PUT, GET and DELETE requests without parameters.",
  ["src/http.c", "src/cmds.c", "src/conn.c"],
  [("request parser", "src/http.c:parse_http"), ("responses", "src/conn.c:conn_write_http")])
p("C17", "Postgres wire protocol semantics",
  "Startup, simple queries and extended-protocol message sequences (parse, bind, describe, execute, sync, terminate) produce the reply messages the protocol prescribes, correctly framed, with parameters substituted and quoted strings unescaped exactly; after an error in an extended sequence everything up to the next sync is skipped. Prepared statements and portals are independent of each other, and the text or binary output directives and errors affect only their own session.",
  ["histories", "inputs"], "all message sequences up to a depth over two statement names, two portals and a statement alphabet; all short quoted strings",
  "The Postgres tests need absent modules and drive one client library's fixed message pattern.",
  ["src/postgres.c", "src/args.c", "src/hashmap.c"],
  [("message parser", "src/postgres.c"), ("statement and portal tables", "src/postgres.c,src/hashmap.c"), ("replies", "src/postgres.c:pg_respond,pg_write_*")])
p("C18", "Malformed input is harmless",
  "No byte sequence sent by any client, in any protocol and any fragmentation, makes the server read or write out of bounds, crash or stop responding; it gets an error reply or a closed connection. Input rejected as malformed never changes the cache and never affects another connection.",
  ["inputs"], "all byte strings up to a length over a token alphabet per protocol, every truncation and single-byte mutation of each valid request, under memory-safety instrumentation",
  "Tests only send what well-behaved client libraries produce.",
  ["src/parse.c", "src/resp.c", "src/memcache.c", "src/http.c", "src/postgres.c", "src/conn.c", "src/args.c"],
  [("length and bounds checks in the parsers", "src/resp.c,src/memcache.c,src/http.c,src/postgres.c"), ("error recovery", "src/conn.c:evdata,src/parse.c")])
p("C19", "Nothing is served without authentication",
  "When a password is configured, no command of any protocol reads or changes the cache or server state on a connection that has not presented exactly that password, and every such attempt is refused with an authentication error. After a correct password everything works (the memcache protocol has no way to present one), authentication is per connection, and a later wrong attempt never grants access elsewhere.",
  ["histories", "inputs", "configurations"], "all sequences of authentication attempts and commands up to a depth, on two connections, for every protocol and every way to present the password, with prefix and extended wrong passwords",
  "No test configures a password.",
  ["src/cmds.c", "src/http.c", "src/postgres.c", "src/conn.c"],
  [("gate in the dispatcher", "src/cmds.c:evcommand,cmdAUTH"), ("HTTP authorisation", "src/http.c"), ("password message", "src/postgres.c")])
p("C20", "Save and load round-trip the data set",
  "Saving a cache and loading the file into an empty cache reproduces every live key, value and flags, with each expiration at the same wall-clock instant regardless of how the machine's clocks moved, and no entry that is expired at load time. This holds for every number of shards, entry size, thread count and mode, and loading over existing data replaces exactly the keys in the file.",
  ["inputs", "histories", "configurations"], "all small data sets over boundary sizes, flags and ttls x shard counts on each side x fast and slow modes x clock movements between save and load",
  "No test saves or loads.",
  ["src/save.c", "src/cmds.c", "src/main.c"],
  [("block format", "src/save.c"), ("expiry conversion to wall-clock", "src/save.c"), ("load at start", "src/main.c:listening")])
p("C21", "A crash or error during SAVE never harms the saved file",
  "Wherever a save is cut off, by a process kill, a power failure that loses unsynced writes, or an I/O error, the file at the target path is afterwards either the complete previous snapshot or the complete new one. A save that could not complete is reported as failed, and a save reported as successful is durable; leftover work files are removed at the next start and nothing else is.",
  ["crash_points", "fault_sequences"], "every prefix of the file-system operations of a save x every loss pattern of unsynced data x every single I/O error and short write",
  "Crashing and power failure cannot be expressed in the request/response tests.",
  ["src/save.c", "src/main.c"],
  [("write to a work file then rename", "src/save.c:save"), ("work file cleanup", "src/save.c:cleanwork")])
p("C22", "A damaged snapshot is never loaded silently",
  "Loading a file that has been truncated, or has any bit of a block flipped, or is not a snapshot, reports failure instead of success, never crashes or reads out of bounds, and never inserts an entry that was not saved. An intact file loads however the system divides the reads. Cutting the file anywhere, including exactly between blocks, counts as damage. A server that cannot read its snapshot at start does not start.",
  ["inputs", "fault_sequences"], "every truncation length and every single-bit flip of snapshots, every short read and read error",
  "No test loads a file, let alone a damaged one.",
  ["src/save.c", "src/lz4.c"],
  [("block header with magic, sizes and checksum", "src/save.c"), ("decompression", "src/lz4.c")])
p("C23", "Parallel save and load finish and cover everything",
  "Under every schedule of the worker threads, a save or load with any number of threads terminates, processes every shard and every block exactly once, and reports success or failure correctly, also when a thread cannot be started or a worker fails. Commands running meanwhile on other connections are neither blocked forever nor corrupted.",
  ["schedules", "fault_sequences"], "all bounded-preemption interleavings of reader, workers and a concurrent writer at every lock, condition and atomic operation, with thread-creation and I/O faults",
  "Worker hand-off bugs (lost wakeups, early termination) depend on the schedule, and no test saves or loads.",
  ["src/save.c", "src/cmds.c"],
  [("block queue with mutex and condition variables", "src/save.c:load"), ("per shard workers", "src/save.c:save"), ("fast flush and sweep workers", "src/cmds.c:flushfast,sweepfast")])
p("C24", "Pipelined replies keep request order",
  "Each connection receives exactly one reply per request, in request order, even when a request is executed in the background (KEYS, FLUSH, SAVE, LOAD, SWEEP, PURGE and the like) and more requests arrive before it finishes. Closing a connection at any moment, including while a background request runs, releases everything exactly once and affects no other connection.",
  ["schedules", "histories"], "all pipelines up to a length mixing foreground and background requests x all completion times of the background work relative to further data arrival and close",
  "The tests use one outstanding request per connection, so background completion never overlaps with further input.",
  ["src/conn.c", "src/net.c", "src/cmds.c"],
  [("pause while background work is pending", "src/conn.c:evdata,conn_bgwork"), ("completion hand-off", "src/net.c:net_conn_bgwork,bgdone")])
p("C25", "The network layer delivers bytes exactly and in order",
  "For every pattern of partial reads, partial writes, would-block answers, resets and simultaneous connections, each connection's handler sees exactly the bytes the peer sent, in order, and the peer receives exactly the bytes the handler wrote, in order, before an orderly close. Open, data and close events are delivered once per connection with no cross-talk, descriptors are closed exactly once, and connections above the limit are refused while others keep working.",
  ["fault_sequences", "schedules"], "all environment answers (short counts, EAGAIN, EINTR, EOF, errors, readiness orders) within a deviation bound over several connections",
  "Loopback sockets in the tests practically never return short counts or errors.",
  ["src/net.c"],
  [("event loop stages", "src/net.c:qaccept,qattach,qread,qprocess,qwrite,qclose"), ("flush", "src/net.c:flush_conn"), ("connection map", "src/net.c:cmap_*")])
p("C26", "Bulk operations are safe against concurrent writers",
  "A flush, sweep, iteration or count running while other threads write affects each key at one instant: a flush removes every key present throughout and none stored after it returned, an iteration reports each key present throughout exactly once and never a value that was not stored, and a sweep never removes a live entry. Reported counts are consistent with some point of each shard's history.",
  ["schedules"], "all bounded-preemption interleavings of one bulk operation with writer threads over several shards",
  "Requires a writer to run in the middle of the bulk operation, which sequential tests cannot arrange.",
  ["src/pogocache.c", "src/cmds.c"],
  [("per shard locking of scans", "src/pogocache.c:pogocache_iter,pogocache_clear,pogocache_sweep"), ("deferred freeing", "src/pogocache.c:aquireclearop")])
p("C27", "MONITOR shows each command once and never secrets",
  "While a client monitors, each command executed on any connection is shown to it exactly once, as one line from which the exact argument bytes can be recovered unambiguously, and passwords are never shown. Monitoring never changes the replies of the monitored connections, and ends cleanly when the monitoring client leaves.",
  ["inputs", "histories"], "all argument bytes 0-255 in every position class, all commands, and all start/stop orders of two monitors",
  "No test uses MONITOR; escaping errors need particular bytes.",
  ["src/monitor.c", "src/cmds.c"],
  [("line formatting", "src/monitor.c:monitor_cmd"), ("registration", "src/monitor.c:monitor_start,monitor_stop")])
p("C28", "Glob patterns match exactly what they denote",
  "For every pattern and every string, matching decides exactly the documented glob language (*, ?, escapes and literals, including arbitrary bytes and empty strings), always terminates within bounded work, and never reads outside either string.",
  ["inputs"], "all patterns and strings up to a length over an alphabet with every metacharacter, against an independently written matcher",
  "Tests try one prefix and one suffix pattern.",
  ["src/util.c", "src/cmds.c"],
  [("match", "src/util.c:match")])
p("C29", "The hash table used for sessions behaves as a map",
  "Every sequence of insertions, replacements, lookups, deletions, clears and scans on the hash table returns what a plain map would, for every hash collision pattern and through growth and shrinkage, and a failed allocation leaves it intact. Each element is released exactly once.",
  ["histories", "fault_sequences"], "all operation sequences up to a depth over fully and partially colliding hashes, with every allocation failing",
  "The unit test uses random elements with a good hash; adversarial collisions and failures at each allocation are sampled at most.",
  ["src/hashmap.c"],
  [("robin-hood table", "src/hashmap.c")])
p("C30", "Numbers are parsed, computed and printed exactly",
  "Every numeric argument and stored number is accepted exactly when it is the decimal form of a value in the command's range, and increments and decrements give the exact mathematical result or the documented overflow behaviour (error, or wrap/floor for memcache) without changing the entry on error. Printed numbers parse back to the same value.",
  ["inputs"], "all short strings over a digit, sign and junk alphabet, and all values around each power of ten and type limit, in every numeric position",
  "Tests use a handful of values; limits, signs, whitespace and empty strings are not enumerated.",
  ["src/util.c", "src/cmds.c"],
  [("parse and format", "src/util.c:parse_i64,parse_u64,u64toa,i64toa"), ("arithmetic", "src/cmds.c:execINCRDECR")])
p("C31", "Command line options take effect as documented",
  "Every documented program option, in both spellings and in any order, has exactly its documented effect on the running server and no effect on unrelated settings; out-of-range numbers are clamped, and invalid yes/no, memory-size, port and allocator values are refused at start.",
  ["configurations"], "all single options with each of their values and all pairs of options, observed through the resulting server behaviour",
  "The tests start the server with one fixed pair of options.",
  ["src/main.c", "src/net.c"],
  [("flag parsing", "src/main.c:main"), ("memory sizes", "src/main.c:calc_memlimit"), ("socket options", "src/net.c:listen_tcp,qaccept,setquickack")])

p("C32", "STATS counters are exact",
  "The counters that STATS reports over RESP, memcache and PostgreSQL are exact: once a command is answered, the counters of gets, sets, deletes, touches, increments and decrements with their hits and misses, of flushes, authentications and their errors, of stores refused for their size or for lack of memory, and of items ever stored have moved by exactly what the command did, whichever protocol, pipelining, connection or event loop carried it, and no other counter has moved; the numbers of items, their bytes, connections, time and uptime are the actual ones.",
  ["inputs", "histories", "schedules"], "every pair of commands of all protocols from 27 contents, delivered whole, byte by byte and pipelined, and every bounded schedule of the network layer that adds the counters up",
  "The tests look at no counter.",
  ["src/stats.c", "src/cmds.c", "src/net.c", "src/memcache.c", "src/http.c"],
  [("report", "src/cmds.c:stats"), ("counters", "src/stats.c"), ("per connection counters", "src/net.c:sumstats,sumstats_global"), ("memcache touch", "src/cmds.c:cmdEXPIRE")])

p("C33", "Stopping the server keeps everything acknowledged",
  "When SIGTERM or SIGINT stops a server that has a snapshot path, every change acknowledged before the signal arrived is in the snapshot when the process ends with success, whatever other connections do meanwhile, and each shard is saved as it was at one moment; when that save fails, the process ends with failure and a complete file. A signal that arrives before the snapshot was loaded leaves it as it is, and a second signal ends the process at once, leaving the old or the complete new file.",
  ["schedules", "crash points"], "all bounded interleavings of the signal, the thread that saves, its worker threads, and commands of other connections, with each file operation and thread creation failing, of a second signal with all of that, and of a signal with the start of the server",
  "The tests never stop a server that has data.",
  ["src/main.c", "src/save.c"],
  [("signals", "src/main.c:sigterm,sigtermticker"), ("start", "src/main.c:listening"), ("parallel save", "src/save.c:save")])
