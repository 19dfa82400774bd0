// RESP: every command sequence against a reference model.
#include "rmodel.h"
// every sequence taking its i-th command from the i-th alphabet (f = all commands, c = the core)
extern "C" { extern int verb, nshards; }
extern int mc_nprocs;
static void explore(bool cas, int shards, const char *shape, int verbosity = 0, int procs = 1) {
    verb = verbosity; mc_nprocs = procs; nshards = shards;
    usecas = cas; srv_popts.usecas = cas; srv_popts.nshards = shards;
    static std::vector<Args> F = alphabet(false), C = alphabet(true), A = admin();
    int depth = strlen(shape); uint64_t idx = 0;
    std::vector<const std::vector<Args> *> S;
    for (const char *p = shape; *p; p++) S.push_back(*p == 'f' ? &F : *p == 'a' ? &A : &C);
    std::vector<int> v(depth, 0);
    while (1) {
        if ((int)(idx++ % mc_nparts) == mc_part) {
            mc_tick();
            RRun r;
            for (int i = 0; i < depth; i++) { const Args &a = (*S[i])[v[i]]; if (a[0][0] == '@') r.advance(atoll(a[0].c_str() + 1)); else r.step(a); }
            r.end();
        }
        int i = depth - 1;
        while (i >= 0 && ++v[i] == (int)S[i]->size()) v[i--] = 0;
        if (i < 0) break;
    }
    if (mc_part == 0) mc_note(vfmt("sequences_%s", shape).c_str(), idx);
}
// arguments of every byte value and boundary lengths, in every command position that echoes or stores them
static void bytes() {
    srv_popts.usecas = usecas = true; srv_popts.nshards = 2;
    int n = 0;
    for (int b1 = 0; b1 < 256; b1++) for (int b2 : { -1, 0, 10, 13, 32, 34, 92, 127, 255 }) {
        if (n++ % mc_nparts != mc_part) continue;
        mc_tick();
        std::string x(1, (char)b1); if (b2 >= 0) x += (char)b2;
        RRun r;
        r.step({ "SET", x, x }); r.step({ "GET", x }); r.step({ "ECHO", x }); r.step({ "PING", x }); r.step({ "KEYS", "*" }); r.step({ x, x }); r.step({ "GET", x, x });
        r.step({ "SET", "k", "v", x }); r.step({ "SET", "k", "v", "EX", x.size() == 1 && isdigit(x[0]) ? "5" : x }); r.step({ "SCAN", "0", "TYPE", x }); r.step({ "SCAN", x }); r.step({ "DEBUG", x }); r.step({ "APPEND", x, x }); r.step({ "MGETS", x, "k" }); r.step({ "EXPIRE", x, x == "0" ? "1" : x }); r.step({ "DEL", x });
        r.end();
    }
    for (size_t l : { 0, 1, 7, 8, 9, 63, 64, 127, 128, 129, 255, 256, 257, 4095, 4096, 65535, 65536, 300000 }) {
        if (n++ % mc_nparts != mc_part) continue;
        mc_tick();
        std::string x(l, 'k'), y(l, '\n');
        RRun r;
        r.step({ "SET", x, y }); r.step({ "GET", x }); r.step({ "SET", y, x, "FLAGS", "9" }); r.step({ "MGETS", y, x }); r.step({ "KEYS", "*" }); r.step({ "SCAN", "0" }); r.step({ "ECHO", y }); r.step({ x, y }); r.step({ y, x }); r.step({ "SCAN", "0", "TYPE", y }); r.step({ "APPEND", x, y }); r.step({ "PREPEND", x, y }); r.step({ "DEL", x, y });
        r.end();
    }
    // many arguments
    if (mc_part == 0) { RRun r; Args a = { "MGET" }, d = { "DEL" }; for (int i = 0; i < 500; i++) { std::string k = "k" + std::to_string(i); r.step({ "SET", k, k }); a.push_back(k); d.push_back(k); mc_tick(); } r.step(a); r.step({ "KEYS", "*" }); r.step({ "SCAN", "0", "COUNT", "7" }); r.step({ "SCAN", "0", "MATCH", "k1*", "COUNT", "3" }); r.step({ "DBSIZE" }); r.step(d); r.step({ "DBSIZE" }); r.end(); }
}
// every set of threads that cannot be started, for the commands that start some
static void threads() {
    usecas = srv_popts.usecas = true; uint64_t n = 0;
    static const char *T[] = { "flush", "flushall fast", "flushdb fast async", "flush async", "flushall delay 3", "sweep", "sweep fast", "sweep async", "purge", "purge async", "keys *", "save to /mcfs/d/s", "save to /mcfs/d/s fast", "load from /mcfs/d/f", "load from /mcfs/d/f fast", "load from /mcfs/d/bad fast", "debug populate 7 p 2", "debug detach", "get k" };
    for (const char *t : T) for (int procs = 1; procs <= 4; procs++) for (int sh = 1; sh <= 5; sh++) for (int mask = 0; mask < 64; mask++) for (int nobg = 0; nobg < 2; nobg++) {
        if (mask >> (procs + 1)) continue;
        if ((int)(n++ % mc_nparts) != mc_part) continue;
        mc_tick(); mc_nprocs = procs; nshards = srv_popts.nshards = sh;
        RRun r; Args a = words(t); bool load = a[0] == "load";
        r.step({ "SET", "f0", "from the file" }); r.step({ "SET", "f1", "from the file", "EX", "2" }); r.step({ "SET", "f2", "x", "PX", "10" }); r.step({ "SAVE", "TO", "/mcfs/d/f" }); r.step({ "FLUSHALL" });
        mfs_put("/mcfs/d/bad", mfs_get("/mcfs/d/f") + "damaged");
        for (const char *k : { "a", "b", "c", "d", "e", "f1" }) r.step({ "SET", k, k }); r.step({ "SET", "x", "y", "PX", "10" }); r.advance(20000000);
        cur += vfmt(" | %s with %d processors, threads %x failing, background %s", t, procs, mask, nobg ? "failing" : "ok");
        Map before = r.M.m; std::vector<std::string> keys; std::string want = r.M.handle(a, &keys), got; Map after = r.M.m; auto files = r.M.files;
        size_t work = mfs.names.size();
        srv_realthreads = load; srv_thread_n = 0; srv_thread_mask = mask; srv_thread_fail = nobg;
        got = srv_req(r.c, resp(a));
        srv_realthreads = false; srv_thread_mask = 0; srv_thread_fail = false; mc_transitions++;
        if (resp_value(got, 0, 0) != got.size()) mc_fail("framing", "the reply to %s is not one well framed value: %s", t, esc(got).c_str());
        bool err = got[0] == '-';
        if (err && !mask && !nobg && want != ERR) mc_fail("reply", "%s was answered with %s although every thread started", t, esc(got).c_str());
        if (!err && want == ERR) mc_fail("reply", "%s was answered with %s but must fail", t, esc(got).c_str());
        if (!err && want == OK && got != OK) mc_fail("reply", "%s was answered with %s", t, esc(got).c_str());
        if (!err && want == "keys") { auto g = bulks(got, 0); std::sort(g.begin(), g.end()); if (g != keys) mc_fail("reply", "%s was answered with %s", t, esc(got).c_str()); }
        bool damaged = std::string(t).find("bad") != std::string::npos;
        Map d = srv_dump(), must = err ? before : after;
        if (damaged) { if (!err) mc_fail("reply", "%s was answered with %s but the file is damaged", t, esc(got).c_str()); for (auto &e : before) if (!d.count(e.first)) mc_fail("state", "%s removed %s", t, e.first.c_str()); }
        else if (!(d == must)) mc_fail("state", "after %s, answered %s, the cache is %s but must be %s", t, esc(got).c_str(), showdump(d).c_str(), showdump(must).c_str());
        if (mfs_openfds()) mc_fail("fd", "%s left %d descriptors open", t, mfs_openfds());
        if (r.c->closed) mc_fail("closed", "%s closed the connection", t);
        // a saved file holds the cache
        r.M.m = d; if (damaged) for (auto &e : d) { r.M.m[e.first] = e.second; r.M.everkeys.insert(e.first); }
        for (auto &e : d) { r.M.everkeys.insert(e.first); r.M.seen[e.first].insert(e.second.cas); }
        if (a[0] == "save") {
            if (err && mfs_exists("/mcfs/d/s")) mc_fail("file", "%s failed but made the file", t);
            if (mfs.names.size() != work + (err ? 0 : 1)) mc_fail("file", "%s left other files", t);
            if (!err) { r.M.files = files; r.M.files["/mcfs/d/s"] = before; r.step({ "FLUSHALL" }); r.step({ "LOAD", "FROM", "/mcfs/d/s" }); }
        }
        r.step({ "PING" }); r.step({ "SET", "k", "after" }); r.step({ "GET", "k" }); r.step({ "KEYS", "*" }); r.step({ "DEL", "k" }); r.step({ "FLUSHALL", "FAST" });
        r.end();
    }
    nshards = 2; mc_nprocs = 1;
}
static Reg r1("resp", { "--shards=2", "--cas=yes" }, [] {
    explore(true, 1, "ff"); explore(false, 2, "ff"); explore(true, 2, "cfc"); explore(false, 1, "ccc");
    explore(true, 2, "cac", 3, 2); explore(false, 3, "aca", 1, 4); explore(true, 1, "af", 0, 1); explore(true, 2, "fc", 3, 3);
    if (mc_thorough) { explore(true, 3, "aaa", 0, 3); explore(false, 2, "caca", 2, 2); }
    verb = 0; mc_nprocs = 1;
    if (mc_thorough) { explore(true, 2, "fff"); explore(true, 1, "cccc"); explore(false, 1, "cfc"); explore(true, 1, "ccfc"); }
    bytes(); threads();
});

// every combination of the options of SET in two orders, in every state of its key
static void setopts() {
    verb = 0; mc_nprocs = 1; uint64_t n = 0;
    static const char *EX[] = { "", "ex 2", "px 1500", "exat 1700000012", "exat 1", "px 1" }, *ST[] = { "", "set k s", "set k s flags 3", "set k s ex 4 flags 3", "set k s px 1" }, *CA[] = { "", "cas %cur", "cas %old", "cas 99999" };
    for (int cas = 0; cas < 2; cas++) for (int st = 0; st < 5; st++) for (int cond = 0; cond < 4; cond++) for (int get = 0; get < 2; get++) for (int keep = 0; keep < 2; keep++) for (int ex = 0; ex < 6; ex++) for (int fl = 0; fl < 2; fl++) for (int ca = 0; ca < 4; ca++) for (int ord = 0; ord < 3; ord++) {
        if (ca && (get || cond & 1)) continue; // what GET shows when the version differs, and NX with a version, are not documented
        if ((int)(n++ % mc_nparts) != mc_part) continue;
        std::vector<std::string> o = { cond == 1 ? "nx" : cond == 2 ? "xx" : cond == 3 ? "nx xx" : "", get ? "get" : "", keep ? "keepttl" : "", EX[ex], fl ? "flags 7" : "", CA[ca] };
        if (ord == 1) std::reverse(o.begin(), o.end()); if (ord == 2) std::rotate(o.begin(), o.begin() + 3, o.end());
        std::string t = "set k v"; for (auto &x : o) if (x.size()) t += " " + x;
        usecas = srv_popts.usecas = cas; nshards = srv_popts.nshards = 1 + st % 2; mc_tick();
        RRun r; r.step(words("set j other")); r.step(words("set k z")); r.step(words("set k y")); if (st == 0) r.step(words("del k")); else r.step(words(ST[st]));
        r.advance(20000000); r.step(words(t.c_str())); r.step(words("mgets k j")); r.step(words("pttl k")); r.advance(1600000000); r.step(words("set k w xx keepttl get")); r.step(words("pttl k")); r.step(words("mgets k j"));
        r.end();
    }
    nshards = 2; if (mc_part == 0) mc_note("set_option_combinations", n);
}
static Reg r2("setopts", { "--shards=2", "--cas=yes" }, [] { setopts(); });
