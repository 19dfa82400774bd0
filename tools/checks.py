"""Which explorers decide which property."""
CHECKS = {}
NOT_APPLICABLE = {}
def check(pid, rule, jobs, technique, note, **kw):
    CHECKS[pid] = dict(rule=rule, jobs=jobs, technique=technique, note=note, **kw)

# ------------------------------------------------------------ engine
SEQRULE = 'every operation sequence up to the depth over the alphabet, in every configuration; each executed on the real engine and compared step by step with the reference model; distinct = different sequences of answers'
SEQTECH = 'bounded exhaustive enumeration of operation sequences on the real engine against a reference model'
SEQNOTE = 'Every sequence over a small alphabet (keys forced into one shard and, in some configurations, one hash) up to the stated depth, from several starting contents, in every configuration; the real pogocache.c under AddressSanitizer with an injected clock and allocator. Nothing is claimed beyond the alphabet and depth.'
def seq(**k): return dict(bin='eng', mode='seq', **k)
def eng(mode, **k): return dict(bin='eng', mode=mode, **k)
for p in ('C01', 'C02', 'C05', 'C07', 'C08', 'C10'):
    check(p, SEQRULE, [seq()], SEQTECH, SEQNOTE)
check('C09', SEQRULE + '; every allocation index failed once and from there on', [seq(), eng('defaults', parts=1)],
      'exhaustive enumeration of allocation failure points over all bounded operation sequences', SEQNOTE + ' Every allocation index is failed, alone and from there on.')
check('C06', SEQRULE, [eng('layout'), eng('oneshard'), eng('cursor')], 'exhaustive enumeration of table layouts, deletion choices and cursors on the real engine against a reference model', SEQNOTE)
for p in ('C01', 'C02', 'C05', 'C07', 'C08'): CHECKS[p]['jobs'].append(eng('oplayout'))
CHECKS['C01']['jobs'].append(eng('samehash'))
for p in ('C01', 'C02', 'C05', 'C07', 'C08'): CHECKS[p]['jobs'].append(eng('storeopts'))
check('C11', SEQRULE, [eng('toggle'), eng('resize'), eng('samehash')], 'exhaustive enumeration of insert/delete histories with forced collisions and resizes on the real engine', SEQNOTE)
check('C12', SEQRULE, [eng('bytes'), eng('samehash')], 'exhaustive enumeration of short keys/values and of boundary lengths on the real engine in lockstep configurations', SEQNOTE)

# ------------------------------------------------------- concurrency
def conc(mode, **k): return dict(bin='conc', mode=mode, **k)
CONCRULE = 'every program of 2-3 threads over the operation alphabet, every interleaving of its synchronisation operations up to the preemption bound; each execution checked for races, use after free, deadlock and linearizability; distinct = different sets of answers and final contents'
CONCTECH = 'stateless model checking of the real engine under a controlled scheduler (preemption bounded), happens-before race detection and brute-force linearizability'
CONCNOTE = 'The real pogocache.c runs as fibers; every interleaving of its atomic operations up to the preemption bound (quick 2, thorough 3; one less for 3 threads) of every 2-3 thread program over the alphabet. Accesses between synchronisation operations are covered by a vector-clock race detector that honours the memory orders; executions are otherwise sequentially consistent.'
check('C03', CONCRULE, [conc('pairs'), conc('batch'), conc('low')], CONCTECH, CONCNOTE)
check('C26', CONCRULE, [conc('bulk')], CONCTECH, CONCNOTE)
CHECKS['C05']['jobs'].append(conc('cas'))

# ------------------------------------------------------------ protocols
def proto(mode, **k): return dict(bin='proto', mode=mode, **k)
PNOTE = ' The whole server (every src/*.c except net.c) runs in one process under AddressSanitizer with an injected clock, the network layer replaced by one that feeds exactly sized deliveries, and a leak check after every case. Nothing is claimed beyond the alphabet and bounds.'
CHECKS['C06']['jobs'].append(proto('scan'))
CHECKS['C06']['rule'] += '; and KEYS and SCAN loops over RESP and PostgreSQL: every subset of 7 keys and of the expired ones among them, every population of up to 220 (thorough: 700) keys, all page sizes around it, 1-5 shards, 8 patterns, reads and refused writes between the pages'
CHECKS['C10']['jobs'] += [eng('lowlayout'), proto('lowmem')]
CHECKS['C10']['rule'] += '; every insertion order of up to 6 (thorough: 7) keys with forced neighbouring home buckets, the last 1-3 of them under low memory, every expired subset, three orders of use; and every command of every protocol under low memory, from all contents of four keys (absent, text, number, expiring, expired), with and without eviction, against a twin with enough memory'
CROSS = '; the same keys through all four protocols on the whole server: '
for p, m, t in (('C01', 'cross', 'every sequence of 3 commands (about 90 letters twice, then a core of 26) and of 4 of the core, replies and contents compared with the map'),
                ('C02', 'ttl', 'every start (absent, permanent, expiring, expired, at the nanosecond before, at and after) x about 95 commands that set, keep, replace or drop a lifetime x the instants around the end of the lifetime, clock jumps and a year x about 45 commands that look; and with a second such command before'),
                ('C05', 'casx', 'every sequence of 3 commands (about 70 letters) and of 4 of a core, with the current, every earlier, the next and foreign versions, versioning on and off'),
                ('C12', 'settings', 'every key of 1 byte, 2 bytes and 3 bytes over the boundary characters of the packing, every length up to 300 (thorough: 1100) and boundary lengths, a script of all commands over all protocols, and all pairs of commands, in all 8 settings of versioning, compression and shards')):
    CHECKS[p]['jobs'].append(proto(m)); CHECKS[p]['rule'] += CROSS + t
    CHECKS[p]['note'] += ' The server part runs every src/*.c except net.c in one process, connections being objects the explorer feeds.'
def pseq(what): return 'every sequence of %s up to the depth over the alphabet, from an empty cache, in every listed configuration; each request is executed by the real server code and its exact reply and the whole cache contents are compared with the reference model; distinct = different sequences of replies' % what
check('C13', 'every request and every sequence of two (thorough: three) requests of each protocol, delivered one by one, in one piece, byte by byte, and cut at every pair (thorough: triple for single requests) of positions; replies, contents and promptness compared with the one-by-one delivery; distinct = different reply streams',
      [proto('split')], 'exhaustive enumeration of all cuts and joins of bounded request streams on the real server code', 'All single and double cut positions of all short streams, no sampling.' + PNOTE)
check('C14', pseq('memcache commands'), [proto('mc')], 'bounded exhaustive enumeration of command sequences on the real server code against a reference model', 'All sequences of 3 commands over about 90 letters and of 4 over the storage core, with and without versioning; every written form of the numbers.' + PNOTE)
check('C15', pseq('RESP commands'), [proto('resp')], 'bounded exhaustive enumeration of command sequences on the real server code against a reference model', 'All pairs over about 190 letters, triples core-full-core, administrative commands with every subset of their worker threads refused, plus every byte value and boundary length in every argument position; replies are also parsed by an independent RESP reader.' + PNOTE)
check('C16', 'every combination of method, path, version, up to two (thorough: three) query parameters and headers, body length, credentials and starting contents, every query string of up to 5 (thorough: 6) of 11 pieces, parameter values holding equals signs, and all sequences of 4 (thorough: 5) requests with time passing; status, body, framing and cache contents compared with the expectation computed from the parts; distinct = different responses',
      [proto('http')], 'exhaustive enumeration of request part combinations on the real server code against a reference model', 'A product of parts, each carrying its meaning, so the expectation does not parse the request.' + PNOTE)
check('C17', 'every sequence of 4 (thorough: 5) messages over 30 letters (parse, bind, describe, execute, sync, simple query, terminate over several statements and portals), deeper over a core, over two connections, all command pairs in four quotings, every text of 5 (thorough: 6) characters over the quoting alphabet, every code point escape, every startup variant; replies compared byte by byte with a reference model; distinct = different reply streams',
      [proto('pg')], 'bounded exhaustive enumeration of message sequences and query texts on the real server code against a reference model of session and cache', 'Independent tokenizer, session and command models.' + PNOTE)
check('C28', 'every pattern up to 6 (thorough: 7) characters of {a b * ? backslash} with every string up to 5 (6) characters of the same, longer star patterns, every pair of byte values, shapes that make naive matchers explode; decided against dynamic programming over the documented meaning, in exactly sized buffers; distinct = different answer vectors of a pattern',
      [proto('match')], 'exhaustive enumeration of bounded patterns and strings on the real matcher against a reference decision', 'The same matcher serves KEYS and SCAN in every protocol (C15, C17).' + PNOTE)
check('C29', 'every sequence of 3-4 (thorough: 4-5) operations (set, delete, clear, bulk growth and shrinkage) for all 256 assignments of colliding, neighbouring and wrapping hashes to four keys, three backgrounds and several capacities and load factors; each allocation failed alone and from there on; distinct = different answer sequences',
      [proto('hashmap')], 'bounded exhaustive enumeration of operation sequences, hash collisions and allocation failures on the real table against a map model', 'All lookups, counts, scans and iterations are compared after every operation.' + PNOTE)
check('C30', 'every text of up to 5 (thorough: 6) characters over a numeric alphabet, all boundary numbers in all written forms, the product of stored texts, deltas and arithmetic commands, and every text in every numeric argument; distinct = different answers',
      [proto('num')], 'exhaustive enumeration of bounded texts and of boundary products on the real code against 128-bit arithmetic', 'Products of about 110 boundary texts.' + PNOTE)
check('C19', 'every command of every protocol before, between and after wrong and right passwords; every sequence of 5 (thorough: 6) letters of passwords and commands over four protocols and over two connections of one protocol; every single byte change, extension and cut of several passwords in every protocol; refusals, unchanged contents, and replies equal to those of a twin without a password that saw only the authorised commands; distinct = different reply sequences',
      [proto('auth')], 'bounded exhaustive enumeration of authentication and command sequences on the real server code against a twin run', 'The twin oracle needs no model of the commands.' + PNOTE)
check('C18', 'for about 110 requests of the four protocols: every byte replaced by every value, removed, inserted, repeated, every truncation, close pairs (thorough: all pairs) of replacements, every 16 and 32 bit field overwritten by boundary values; every string of up to 4 (thorough: 5) tokens of each protocol; every message type with boundary lengths; in exactly sized deliveries under AddressSanitizer, byte by byte for the shorter ones, with four other connections in the middle of a request; distinct = different beginnings of replies',
      [proto('fuzz')], 'exhaustive enumeration of bounded mutations and token strings on the real server code', 'Rejected input must leave the contents unchanged, bystanders must be served, and nothing may leak or hang.' + PNOTE)
check('C27', 'every sequence of 4 (thorough: 5) events (two monitors starting, pinging, leaving in several ways; commands of four protocols), every command under 1, 2 and 4 monitors, every byte and many pairs (thorough: all) in arguments, boundary lengths, every way to present a password; each shown line is parsed back to its arguments, and replies are compared with a run without monitors; distinct = different reply and line sequences',
      [proto('monitor')], 'bounded exhaustive enumeration of monitor and command events on the real server code against the executed commands and a twin run', 'The monitors run on real threads that only run while the explorer waits.' + PNOTE)
MEMFS = ' The file system is in memory behind link-time wrapping of the file functions; the threads of a load really run, those of a save run one after the other (their schedules are C23).'
check('C20', 'every entry of about 140 kinds (key and value sizes at the length boundaries, flags, lifetimes) alone, every set of up to 4 (thorough: 6) of 11 entries x 4 shard counts x thread counts x block splitting x clock movements between save and load (reboot, jump, the nanosecond before, at and after each expiration) x contents of the loading cache; every sequence of 4 (thorough: 5) events, and 5 (6) of a core, of a server life (commands, SAVE, LOAD, stop, kill, restart, clock changes); distinct = different loaded contents',
      [proto('roundtrip'), proto('life')], 'exhaustive enumeration of bounded data sets, configurations, clock movements and server lives on the real save and load code against a reference model', 'Expirations are compared to the nanosecond.' + MEMFS + PNOTE)
check('C21', 'every effect of a save (eight ways to save, old contents, shard and thread counts, other files around) x process kill, also in the middle of a write, and power loss with every subset of the unsynced directory operations and every lost, kept, torn or length-only unsynced write; the same after every single fault of every file operation (errors and short counts) every pair, thorough: every triple; after each crash the next start of the real server is executed; distinct = different effect logs',
      [proto('crash')], 'exhaustive enumeration of crash points, loss patterns and I/O faults of the real save code', 'After each crash the file must be the old bytes or load as the complete new data set, and the real start-up code must load it and remove exactly the work files.' + MEMFS + PNOTE)
check('C22', 'for four snapshots: every truncation, every flipped bit, bytes replaced, zeroed, removed and inserted, pairs of bits, boundary values in all header fields, trailing data; short and patterned files that are no snapshots; every block with correct checksum and up to 6 (thorough: 7) bytes of content over a boundary alphabet and boundary values in every field; every read fault and pair; distinct = different results',
      [proto('damage', env={'ASAN_OPTIONS': 'max_allocation_size_mb=256'})], 'exhaustive enumeration of bounded damage on the real load code', 'Failure must be reported, nothing that was not saved may be stored, nothing may crash, and the server must refuse to start.' + MEMFS + PNOTE)
def sconc(mode, **k): return dict(bin='sconc', mode=mode, **k)
SCTECH = 'stateless model checking of the whole server under a controlled scheduler (preemption bounded), with a happens-before race detector, against all sequential executions of the same code'
SCNOTE = 'Every src/*.c except net.c runs as fibers; connection handlers and all threads they start are scheduled at every atomic, lock, condition, thread and file operation; each execution starts from the same server memory. Plain accesses between these points are covered by a vector-clock race detector; executions are otherwise sequentially consistent.'
check('C04', 'all pairs of about 40 RESP commands, 13 memcache, 5 HTTP and 5 PostgreSQL requests (and across protocols) from five starting contents, preemption bound 3 (thorough: unbounded); two commands against one (bound 2, thorough: 5), three connections (bound 2, thorough: 3), thorough: two against two (bound 3); engine batches against single operations and batches; replies and final contents must be those of a sequential order that respects real time, where the multi-key commands count as their single-key parts; distinct = different replies and contents of a program',
      [sconc('cmds'), conc('batch')], SCTECH, SCNOTE)
check('C23', 'SAVE, LOAD, FLUSHALL, SWEEP, plain, FAST and ASYNC, with 1-3 shards x 1-3 worker threads x 0-3 blocks, alone, against one and two commands of another connection and against each other, with each thread creation and each file operation failing; preemption bound 2 for the small ones (thorough: 3), else 1; replies, file contents and cache must be those of the per-shard (per-entry) parts in some order; distinct = different replies, files and contents of a program',
      [sconc('par')], SCTECH, SCNOTE + ' Blocks are split at 48 bytes.')
CHECKS['C26']['jobs'].append(sconc('bulk'))
CHECKS['C26']['rule'] += '; FLUSHALL, SWEEP (plain and FAST), KEYS, DBSIZE, flush_all and SCAN of the whole server, alone, against each other, against one and two commands of one or two connections, with expired entries lying around, 1-3 shards, 1-2 worker threads, preemption bound 1-3 (thorough: up to 4), against all sequential orders of their per-shard parts'
CHECKS['C26']['note'] += ' SCAN runs there for its memory safety and its effect on others; its result is not judged against concurrent writers.'
def snet(mode, **k): return dict(bin='snet', mode=mode, **k)
SNTECH = 'stateless model checking of the real network layer under a controlled scheduler and a simulated kernel (delay bounded)'
SNNOTE = ' The real net.c runs with its event loop and background threads as fibers against sockets and epoll sets in memory, in a Linux build without TLS and io_uring; peers are fibers too. Deviations (a thread delayed, a call answered short, would-block or with an error, another order of readiness) are bounded together.'
check('C25', 'about 1100 programs of 1-3 peers (pieces of input, half close, close, reset, staying open; TCP and unix sockets) x 1-2 event loops x event queue sizes x connection limits x socket buffer sizes x background threads that cannot start; every execution with up to 4 deviations (two peers 2, three 1; thorough one more) of schedule and kernel; the handler must see exactly the input of its connection, the peer exactly its replies, every connection one open and one close event, all counters must be right and nothing may leak; plus peers that read late, every history of opening and closing up to 4 connections of one bucket of the connection map (depth 8, thorough 10), up to 110 connections closed in several orders, and the connection limit; distinct = different outcomes',
      [snet('net'), snet('stall'), snet('map')], SNTECH, 'A recording handler stands for the server.' + SNNOTE)
check('C24', 'pipelines of up to 3 requests in RESP, memcache and PostgreSQL (with all background commands: KEYS, FLUSHALL, SAVE, LOAD, SWEEP, PURGE) and HTTP requests, sent together, one by one and cut, x ways to end (read all, half close, close, reset), background threads that cannot start, a second connection with its own pipeline on the same or another loop; every execution with up to 3 (pairs 2, longer ones 1; thorough one more) deviations of schedule and kernel; the peer must receive exactly the replies to its requests one at a time, in order, and the connection must be served to its end; distinct = different outcomes',
      [snet('pipe')], SNTECH, 'The whole server runs on the real net.c; the expected replies are those of the same server to the requests sent one at a time.' + SNNOTE)
check('C31', 'every option with each of about 15-140 values in both spellings, alone and with one shard; all pairs of about 70 forms, every form with and after about 35 core forms, all triples of core forms (thorough: all triples of the 70, quadruples of the core), options without value; each sequence is parsed by the real main(); what the cache, the network layer, the helper threads, the sockets and a client get is compared with the documented meaning; distinct = different settings',
      [snet('opts')], 'exhaustive enumeration of bounded option sequences on the real start-up code against the documented meaning, with the sockets seen by a simulated kernel', 'The whole server starts: main() parses, the cache and helper threads are run, net_main() opens its sockets in the simulated kernel and serves a client.')

check('C32', 'about 120 commands of RESP, memcache, HTTP and PostgreSQL, alone (whole and byte by byte) from 27 contents of text, number and expired entries with 1-3 shards, and all pairs from 5 (thorough: 27) contents, one by one and pipelined, thorough: all triples from one; the same with a password for right and wrong passwords; the change of all 19 counters is compared with what the command did; uptime, time, bytes, items, the same values in three protocols, stores refused for memory; per connection counters on the real network layer over 1-2 event loops, connection limits and every way to end, up to 3 (two and more peers 1; thorough one more) deviations of schedule and kernel; distinct = different changes',
      [proto('stats'), proto('statsauth'), snet('counts')], 'bounded exhaustive enumeration of command sequences on the real server code against a reference model of the counters, and of schedules of the real network layer', 'An increment of an absent key over RESP, and counters of requests that are not commands, are left open.' + PNOTE)

check('C33', 'SIGTERM and SIGINT against none, one and two commands of one or two connections, after a command of the same connection, with 1-3 shards x 1-3 worker threads, each thread creation and each file operation failing (preemption bound 2 or 1; thorough: 3); a second signal at every point of that; one and two signals at every point of the start of a server that loads 1-3 blocks (delay bound 1 to 3, thorough one more); exit status, file contents at the end of the process and afterwards, replies and cache must be those of the per-shard parts in an order that real time allows; distinct = different outcomes',
      [sconc('term')], SCTECH, SCNOTE + ' The thread that saves is the one that main() itself started, found by its behaviour; its exit() is the end of the process.')

for p in ('C01', 'C02', 'C05', 'C15'):
    CHECKS[p]['jobs'].append(proto('setopts')); CHECKS[p]['rule'] += '; and every combination of the options of SET (condition, GET, KEEPTTL, lifetime, flags, version) in three orders, in every state of the key'
