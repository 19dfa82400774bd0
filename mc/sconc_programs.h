// The programs explored by sconc.cc.
std::string arr(const std::vector<std::string> &a) { std::string r = vfmt("*%zu\r\n", a.size()); for (auto &x : a) r += vfmt("$%zu\r\n", x.size()) + x + "\r\n"; return r; }
std::string R(const std::string &line) { // words to a RESP request; _ stands for the empty word
    std::vector<std::string> v; size_t i = 0; while (i < line.size()) { size_t e = line.find(' ', i); if (e == std::string::npos) e = line.size(); std::string w = line.substr(i, e - i); v.push_back(w == "_" ? "" : w); i = e + 1; }
    return arr(v);
}
Cmd at(const std::string &send) { Cmd c; c.send = send; return c; }
long long num(const std::string &r) { return atoll(r.c_str() + 1); }
Cmd multi(const std::string &name, const std::vector<std::string> &keys) {
    Cmd c; std::string l = name; for (auto &k : keys) l += " " + k; c.send = R(l);
    if (name == "MGET") { for (auto &k : keys) c.parts.push_back({ R("GET " + k), 0 }); size_t n = keys.size(); c.join = [n](const std::vector<std::string> &v) { std::string r = vfmt("*%zu\r\n", n); for (auto &x : v) r += x; return r; }; }
    else { for (auto &k : keys) c.parts.push_back({ R(name + " " + k), 0 }); c.join = [](const std::vector<std::string> &v) { long long n = 0; for (auto &x : v) n += num(x); return vfmt(":%lld\r\n", n); }; }
    return c;
}
// a command that clears the shards one after the other, in any order
Cmd pershard(const std::string &send, int shards, std::function<void(int)> fn, const std::string &reply) {
    Cmd c; c.send = send; c.anyorder = true; for (int i = 0; i < shards; i++) c.parts.push_back({ "", [fn, i] { fn(i); return std::string(); } });
    c.join = [reply](const std::vector<std::string> &) { return reply; }; return c;
}
void clear1(int s) { struct pogocache_clear_opts o = {}; o.time = MONO; o.oneshard = true; o.oneshardidx = s; pogocache_clear(cache, &o); }
void sweep1(int s) { struct pogocache_sweep_opts o = {}; o.time = MONO; o.oneshard = true; o.oneshardidx = s; size_t a, b; pogocache_sweep(cache, &a, &b, &o); }
void run_cmds() {
    std::vector<Cmd> A; size_t core;
    for (const char *l : { "INCR a", "DECRBY a 3", "APPEND a 7", "PREPEND a 1", "SET a 9 NX", "SET a 8 XX", "SET a 6 GET", "GET a", "DEL a", "EXPIRE a 100" }) A.push_back(at(R(l)));
    core = A.size();
    for (const char *l : { "SET a 4", "TTL a", "EXISTS a", "SETEX a 10 2", "SET a 3 KEEPTTL", "UINCRBY a 2", "TOUCH a", "SET b 5", "INCR b", "DBSIZE", "SET a 5 NX GET", "DECR a", "UINCR a", "SET a 1 PX 5000 XX", "EXPIRE a 0", "UDECRBY a 9", "INCRBY a x", "FLUSHALL", "SWEEP", "PURGE", "ECHO x" }) A.push_back(at(R(l)));
    { Cmd c = at(R("KEYS *")); c.sorted = true; A.push_back(c); }
    A.push_back(multi("MGET", { "a", "b" })); A.push_back(multi("DEL", { "b", "a" })); A.push_back(multi("EXISTS", { "a", "b", "a" }));
    std::vector<std::vector<std::string>> pres = { { R("SET a 5"), R("SET b x") }, { }, { R("SETEX a 50 12"), R("SET b 3") }, { R("SET a hello") }, { R("SET a 1 PX 1") , R("SET b 2 PX 1") } };
    std::vector<Cmd> M; std::vector<Cmd> W; 
    for (const char *l : { "set a 0 0 1\r\n7\r\n", "add a 0 0 1\r\n8\r\n", "replace a 1 0 1\r\n6\r\n", "append a 0 0 1\r\n3\r\n", "prepend a 0 0 1\r\n2\r\n", "incr a 4\r\n", "decr a 3\r\n", "get a\r\n", "delete a\r\n", "touch a 100\r\n", "cas a 0 0 1 CAS\r\n5\r\n", "incr a 1 noreply\r\n", "flush_all\r\n" }) M.push_back(at(l));
    for (const char *l : { "PUT /a HTTP/1.1\r\nContent-Length: 1\r\n\r\n7", "PUT /a?nx HTTP/1.1\r\nContent-Length: 1\r\n\r\n8", "PUT /a?xx HTTP/1.1\r\nContent-Length: 1\r\n\r\n6", "GET /a HTTP/1.1\r\n\r\n", "DELETE /a HTTP/1.1\r\n\r\n" }) W.push_back(at(l));
    auto pgq = [](const std::string &q) { std::string b = q + std::string(1, 0); uint32_t n = __builtin_bswap32(b.size() + 4); return "Q" + std::string((char *)&n, 4) + b; };
    std::string b = std::string("\0\3\0\0user", 8) + std::string(1, 0) + "u" + std::string(2, 0); uint32_t n = __builtin_bswap32(b.size() + 4); std::string pghello = std::string((char *)&n, 4) + b;
    std::vector<Cmd> G; for (const char *l : { "INCR a", "APPEND a 4", "SET a 3 NX", "GET a", "DEL a" }) G.push_back(at(pgq(l)));
    int B = mc_thorough ? -1 : 3, B2 = mc_thorough ? 5 : 2;
    for (size_t pi = 0; pi < pres.size(); pi++) {
        Program p; p.pre = pres[pi];
        auto run = [&](std::vector<Thread> th, int bound, bool quick, std::vector<std::string> hello = {}, bool cas = false) {
            if (!quick && !mc_thorough) { idx++; return; }
            p.th = th; p.bound = bound; p.hello = hello; p.cas = cas; p.shards = 1; go(p);
        };
        bool q0 = pi < 3;
        for (size_t i = 0; i < A.size(); i++) for (size_t j = i; j < A.size(); j++) run({ { A[i] }, { A[j] } }, B, q0 || i < core);
        for (size_t i = 0; i < core; i++) for (size_t j = 0; j < core; j++) for (size_t k = 0; k < core; k++) run({ { A[i], A[j] }, { A[k] } }, B2, pi == 0);
        for (size_t i = 0; i < core; i++) for (size_t j = 0; j < core; j++) for (size_t k = i; k < core; k++) for (size_t l = 0; l < core; l++) run({ { A[i], A[j] }, { A[k], A[l] } }, 3, false);
        for (size_t i = 0; i < core; i++) for (size_t j = i; j < core; j++) for (size_t k = j; k < core; k++) run({ { A[i] }, { A[j] }, { A[k] } }, mc_thorough ? 3 : 2, pi == 0);
        for (int cas = 0; cas < 2; cas++) {
            // the cas value of a as the preparation left it is always that of the first stored entry
            std::vector<Cmd> m = M; for (auto &c : m) { size_t x = c.send.find("CAS"); if (x != std::string::npos) c.send.replace(x, 3, cas ? "1" : "0"); }
            for (size_t i = 0; i < m.size(); i++) for (size_t j = i; j < m.size(); j++) run({ { m[i] }, { m[j] } }, B, q0 && (cas || pi == 0), {}, cas);
            for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < core; j++) run({ { m[i] }, { A[j] } }, B, pi == 0 && cas, {}, cas);
        }
        for (size_t i = 0; i < W.size(); i++) { for (size_t j = i; j < W.size(); j++) run({ { W[i] }, { W[j] } }, B, q0); for (size_t j = 0; j < core; j++) run({ { W[i] }, { A[j] } }, B, pi == 0); for (size_t j = 0; j < M.size(); j++) run({ { W[i] }, { M[j] } }, B, pi == 0 && j < 6); }
        for (size_t i = 0; i < G.size(); i++) { for (size_t j = i; j < G.size(); j++) run({ { G[i] }, { G[j] } }, B, q0, { pghello, pghello }); for (size_t j = 0; j < core; j++) run({ { G[i] }, { A[j] } }, B, pi == 0, { pghello, "" }); for (size_t j = 0; j < M.size(); j++) run({ { G[i] }, { M[j] } }, B, pi == 0 && j < 4, { pghello, "" }); }
    }
}
std::string uq(const std::string &k, const std::string &v, int64_t ttl = 0, uint32_t fl = 0) { return std::string(1, 0) + vi(k.size()) + k + vi(v.size()) + v + vi(ttl) + vi(fl) + vi(9); }
struct LE { std::string k, v; int64_t ttl; uint32_t fl; };
const auto savecmd = [](const std::string &file, bool fast, int shards) {
    Cmd c; c.send = R("SAVE TO " + file + (fast ? " FAST" : "")); c.file = file; c.anyorder = true; c.canfail = true;
    for (int i = 0; i < shards; i++) c.parts.push_back({ "", [i] { return dumpstr(dump(i)); } });
    c.join = [](const std::vector<std::string> &v) { std::vector<std::string> e; for (auto &s : v) { size_t i = 0; while (i < s.size()) { size_t x = s.find(';', i); e.push_back(s.substr(i, x + 1 - i)); i = x + 1; } } std::sort(e.begin(), e.end()); std::string r = "+OK\r\n"; for (auto &x : e) r += x; return r; };
    return c;
};
const auto image = [](const std::vector<std::vector<LE>> &blocks) { std::string r; for (auto &b : blocks) { std::string p = vi(REAL); for (auto &e : b) p += uq(e.k, e.v, e.ttl, e.fl); r += block(p); } return r; };
void run_term() {
    bool T = mc_thorough; Program p; p.term = 1; int B = T ? 3 : 2;
    auto run = [&](std::vector<Thread> th, int bound, bool quick) { if (!quick && !T) { idx++; return; } p.th = th; p.bound = bound; p.hello.clear(); go(p); };
    auto term = [](const char *sig, int shards) { Cmd c = savecmd(TPATH, true, shards); c.send = sig; c.join = [f = c.join](const std::vector<std::string> &v) { std::string r = f(v); return r.substr(r.find('\n') + 1); }; return c; };
    std::vector<Cmd> W; for (const char *l : { "SET a 7", "DEL a", "INCR a", "SET b 8", "FLUSHALL", "APPEND c q", "SET n 1 NX", "EXPIRE b 0", "GET a" }) W.push_back(at(R(l)));
    size_t fa = 4; Cmd second = at("SECOND"), start = at("START"); second.async = true;
    for (int shards = 1; shards <= 3; shards++) for (int procs = 1; procs <= 3; procs++) {
        p.shards = shards; p.procs = procs; int nth = std::min(procs, shards); if (nth == 1) nth = 0; bool small = nth < 3;
        p.pre = { R("SET a 1"), R("SET b xyz EX 50"), R("SET c 3"), R("SET d 4 PX 1000"), R("SET e " + std::string(30, 'e')) }; p.dead = { "y" }; p.files = { { TPATH, "old" } };
        W[fa] = shards == 1 ? at(R("FLUSHALL")) : pershard(R("FLUSHALL"), shards, clear1, "+OK\r\n");
        Cmd s = term("SIGTERM", shards), i = term("SIGINT", shards);
        for (int k = 0; k <= nth; k++) { p.failcreate = k; run({ { s } }, small ? B : B - 1, true); if (k == 0) run({ { i } }, 1, true); for (size_t w = 0; w < W.size(); w++) run({ { s }, { W[w] } }, k == 0 && nth < 2 ? B : 1, (k == 0 && (nth < 2 || w < 4)) || w < 1); }
        p.failcreate = 0;
        for (size_t w = 0; w < W.size(); w++) for (size_t x = 0; x < W.size(); x++) run({ { s }, { W[w], W[x] } }, 1, nth < 2 && procs == 1 && w < 5);
        for (size_t w = 0; w < W.size(); w++) for (size_t x = w; x < W.size(); x++) run({ { s }, { W[w] }, { W[x] } }, 1, procs == 1 && shards < 3 && w < 3);
        // one write before the signal, on the same connection: it must be there
        for (size_t w = 0; w < W.size(); w++) for (size_t x = 0; x < W.size(); x++) run({ { W[w], s }, { W[x] } }, 1, procs == 1 && shards < 3 && x < 5);
        run({ { s }, { second } }, B, true); run({ { s }, { second }, { W[0] } }, 1, procs == 1);
        if (procs == 1) { run({ { s }, { savecmd(TPATH, false, shards) } }, B, true); run({ { savecmd(TPATH, false, shards) }, { s }, { second } }, 1, shards < 3); } // SAVE to the same file meanwhile
        for (int op = 1; op <= 12 + 2 * shards; op++) for (int how = 0; how < 2; how++) { p.faults = { { op, how } }; run({ { s } }, nth < 2 ? B - 1 : 1, shards < 3); run({ { s }, { second } }, 1, shards < 3 && nth < 2); }
        p.faults.clear();
        p.files.erase(TPATH); run({ { s } }, B - 1, true); run({ { s }, { second } }, 1, nth < 2); run({ { s }, { W[0] } }, 1, nth < 2);
        // the signal while the server starts and loads
        p.term = 2; p.pre = { "PING\r\n" }; p.dead.clear();
        std::vector<std::string> imgs = { image({ { { "a", "1", 0, 0 } } }), image({ { { "a", "1", 0, 0 } }, { { "b", "22", 50 * SEC, 3 } } }), image({ { { "a", "1", 0, 0 } }, { { "b", "22", 50 * SEC, 3 } }, { { "c", "3", 0, 0 }, { "d", "4", 0, 0 } } }) };
        for (auto &im : imgs) { p.files[TPATH] = im; Cmd q = at("SIGTERM"); q.anyreply = true; if (procs + nth > 4) continue; int b = (procs == 1 ? 3 : 2) + T; run({ { start }, { q } }, b, shards <= procs); if (procs + nth < 4) run({ { start }, { q }, { second } }, b - 1, shards <= procs); }
        p.term = 1;
    }
}
void run_par() {
    const std::string F0 = "/mcfs/d/f", F1 = "/mcfs/d/g";
    auto loadcmd = [](const std::string &file, bool fast, const std::vector<LE> &es) {
        Cmd c; c.send = R("LOAD FROM " + file + (fast ? " FAST" : "")); c.anyorder = true; c.canfail = true; c.reads = true; // a short read of a file means that it is damaged
        for (auto &e : es) c.parts.push_back({ "", [e] { struct pogocache_store_opts o = {}; o.time = MONO; o.flags = e.fl; o.ttl = e.ttl; o.cas = 9; pogocache_store(cache, e.k.data(), e.k.size(), e.v.data(), e.v.size(), &o); return std::string(); } });
        c.join = [](const std::vector<std::string> &) { return "+OK\r\n"; };
        return c;
    };
    std::vector<LE> E = { { "a", "1", 0, 0 }, { "b", "22", 50 * SEC, 3 }, { "c", "333", 0, 0 }, { "d", "4", 0, 1 } };
    auto flat1 = [](const std::vector<std::vector<LE>> &b) { std::vector<LE> r; for (auto &x : b) for (auto &e : x) r.push_back(e); return r; };
    std::vector<std::vector<std::vector<LE>>> imgs = { { }, { { E[0] } }, { { E[0], E[1] } }, { { E[0] }, { E[1] } }, { { E[0] }, { E[1] }, { E[2] } }, { { E[0], E[1] }, { E[2] }, { E[3] } } };
    std::vector<Cmd> W; for (const char *l : { "SET a 7", "DEL a", "INCR a", "GET a", "SET b 8", "FLUSHALL" }) W.push_back(at(R(l)));
    size_t nw = W.size();
    std::vector<std::string> pre1 = { R("SET a 1"), R("SET b xyz EX 50"), R("SET c 3"), R("SET d 4 PX 1000"), R("SET e " + std::string(30, 'e')) };
    Program p; p.files[F1] = "old";
    auto run = [&](std::vector<Thread> th, int bound, bool quick) { if (!quick && !mc_thorough) { idx++; return; } p.th = th; p.bound = bound; p.hello.clear(); go(p); };
    int B = mc_thorough ? 3 : 2; 
    for (int shards = 1; shards <= 3; shards++) for (int procs = 1; procs <= 3; procs++) {
        p.shards = shards; p.procs = procs;
        bool small = shards * procs <= 4;
        // ---- save
        p.pre = pre1;
        for (int fast = 0; fast < 2; fast++) {
            if (!fast && procs > 1) continue;
            Cmd s = savecmd(F0, fast, shards);
            int nth = fast ? std::min(procs, shards) : 0; if (nth == 1) nth = 0;
            for (int k = 0; k <= nth; k++) { p.failcreate = k; run({ { s } }, small ? B : B - 1, true);
                if (k <= 1) for (size_t w = 0; w < nw - 1; w++) run({ { s }, { W[w] } }, small && k == 0 && nth < 2 ? B : 1, k == 0 || w < 2); }
            p.failcreate = 0;
            for (size_t w = 0; w < 3; w++) for (size_t x = 0; x < nw - 1; x++) run({ { s }, { W[w], W[x] } }, nth < 2 ? B - 1 : 1, procs == 2 && shards == 2 && w == 0);
            Cmd fl = pershard(R("FLUSHALL FAST"), shards, clear1, "+OK\r\n");
            if (procs < 3) run({ { s }, { fl } }, mc_thorough || procs == 1 ? 1 : 0, shards < 3); // at most 7 threads at once
            if (procs < 3) run({ { s }, { savecmd(F1, fast, shards) } }, mc_thorough || procs == 1 ? 1 : 0, shards < 3);
            // two saves to the same file: whichever comes last, the file is whole
            if (procs < 3) { run({ { s }, { s } }, procs == 1 ? B : mc_thorough, shards < 3); if (procs == 1) { run({ { s, s }, { s } }, 1, shards < 3); for (int op = 1; op <= 24 + 4 * shards; op++) for (int how = 0; how < 2; how++) { p.faults = { { op, how } }; run({ { s }, { s } }, 1, shards < 2); } p.faults.clear(); } }
            // single faults of every file operation of the save
            for (int op = 1; op <= 12 + 2 * shards; op++) for (int how = 0; how < 2; how++) { p.faults = { { op, how } }; run({ { s } }, nth < 2 ? B - 1 : 1, shards < 3); }
            p.faults.clear();
        }
        // ---- load
        p.pre = { R("SET a old"), R("SET z kept") };
        for (size_t im = 0; im < imgs.size(); im++) {
            std::string img = image(imgs[im]); p.files[F0] = img; auto es = flat1(imgs[im]); int nb = imgs[im].size();
            for (int fast = 0; fast < 2; fast++) {
                if (!fast && procs > 1) continue;
                Cmd l = loadcmd(F0, fast, es); int nth = fast ? procs : 1;
                for (int k = 0; k <= nth; k++) { p.failcreate = k; run({ { l } }, nth < 3 ? B : B - 1, shards < 3 || im == 3); }
                p.failcreate = 0;
                if (nth < 4) for (size_t w = 0; w < nw - 1; w++) run({ { l }, { W[w] } }, nth < 2 ? B : 1, shards < 3 && (nth < 3 || w < 2));
                if (im == 2 || im == 3) for (size_t w = 0; w < 3; w++) for (size_t x = 0; x < nw - 1; x++) run({ { l }, { W[w], W[x] } }, 1, shards == 2 && procs == 2 && w == 0);
                if (procs < 3 && nb < 3) { Cmd fl = pershard(R("FLUSHALL FAST"), shards, clear1, "+OK\r\n"); int b0 = mc_thorough || procs == 1 ? 1 : 0; run({ { l }, { fl } }, b0, shards == 2 && nb > 0); run({ { l }, { l } }, b0, shards == 2); run({ { l }, { savecmd(F1, fast, shards) } }, b0, shards == 2 && nb > 0); }
                // faults while reading, and every damaged block
                for (int op = 1; op <= 2 + 2 * nb; op++) for (int how = 0; how < 2; how++) { p.faults = { { op, how } }; run({ { l } }, nth < 2 ? B : B - 1, shards == 1); }
                p.faults.clear();
            }
        }
        p.files[F0] = "";
        // ---- flush and sweep
        p.pre = pre1;
        for (int fast = 0; fast < 2; fast++) {
            if (!fast && procs > 1) continue;
            for (const char *n : { "FLUSHALL", "FLUSHALL ASYNC", "SWEEP", "SWEEP ASYNC" }) {
                std::string l = n; bool as = l.find("ASYNC") != std::string::npos; if (fast) l += " FAST"; if (as && fast && n[0] == 'S') continue; // SWEEP takes one option
                p.pre = n[0] == 'S' ? std::vector<std::string>{ R("SET a 1"), R("SET b 2"), R("SET c 3"), R("SET d 4") } : pre1;
                Cmd f = pershard(R(l), shards, n[0] == 'S' ? sweep1 : clear1, "+OK\r\n"); int nth = fast ? std::min(procs, shards) : 0;
                if (as) { // nothing waits for it, so it comes last on its connection
                    f.async = f.canfail = true; p.hello.clear();
                    for (int k = 0; k <= nth + 1; k++) { p.failcreate = k; run({ { f } }, B, true); if (k < 2) run({ { f }, { W[0] } }, 1, shards < 3); }
                    p.failcreate = 0;
                    for (size_t w = 0; w < nw; w++) { run({ { f }, { W[w] } }, nth < 2 && shards < 3 ? B : 1, shards < 3); run({ { W[w], f } }, B, shards < 3);
                        for (size_t x = 0; x < nw - 1; x++) { run({ { f }, { W[w], W[x] } }, 1, shards == 2 && !fast); run({ { W[w], f }, { W[x] } }, 1, shards == 2 && !fast && w < 3); } }
                    run({ { f }, { f } }, 1, shards < 3 && !fast);
                    Cmd sy = pershard(R(n[0] == 'S' ? "SWEEP" : "FLUSHALL"), shards, n[0] == 'S' ? sweep1 : clear1, "+OK\r\n"); run({ { f }, { sy } }, 1, shards < 3 && !fast);
                    continue;
                }
                for (int k = 0; k <= nth; k++) { p.failcreate = k; run({ { f } }, B, true); for (size_t w = 0; w < nw - 1; w++) run({ { f }, { W[w] } }, nth < 2 ? B : 1, shards < 3 && (k < 2 || w < 1)); }
                p.failcreate = 0;
                for (size_t w = 0; w < 3; w++) for (size_t x = 0; x < nw - 1; x++) run({ { f }, { W[w], W[x] } }, 1, shards == 2 && procs == 2 && w == 0);
                if (procs < 3) run({ { f }, { f } }, 1, shards < 3);
            }
        }
    }
}

// Commands over all keys against writers: what they do to each shard happens at one moment.
void run_bulk() {
    auto keys1 = [](int s) { std::string r; for (auto &x : dump(s)) r += x.first + "\n"; return r; };
    auto held1 = [](int s) { struct pogocache_count_opts o = {}; o.time = MONO; o.oneshard = true; o.oneshardidx = s; return std::to_string(pogocache_count(cache, &o)); };
    auto keyscmd = [&](const std::string &send, int shards) {
        Cmd c; c.send = send; c.anyorder = true; c.sorted = true; for (int i = 0; i < shards; i++) c.parts.push_back({ "", [keys1, i] { return keys1(i); } });
        c.join = [](const std::vector<std::string> &v) { std::vector<std::string> k; for (auto &s : v) { size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); k.push_back(s.substr(i, e - i)); i = e + 1; } } Cmd q; q.sorted = true; return canon(q, arr(k)); };
        return c;
    };
    auto countcmd = [&](int shards) { Cmd c; c.send = R("DBSIZE"); c.anyorder = true; for (int i = 0; i < shards; i++) c.parts.push_back({ "", [held1, i] { return held1(i); } }); c.join = [](const std::vector<std::string> &v) { long long n = 0; for (auto &x : v) n += atoll(x.c_str()); return vfmt(":%lld\r\n", n); }; return c; };
    std::vector<Cmd> W; for (const char *l : { "SET a 7", "SET x 8", "DEL a", "GET x", "INCR a", "SET x 5 NX", "EXPIRE b 0", "SET b 1 XX", "APPEND n q", "DEL x" }) W.push_back(at(R(l)));
    for (const char *l : { "set x 0 0 1\r\n7\r\n", "add x 0 -1 1\r\n7\r\n", "touch b -1\r\n" }) W.push_back(at(l));
    W.push_back(multi("MGET", { "a", "x" })); W.push_back(multi("DEL", { "b", "x" }));
    { Cmd c = at(R("SCAN 0")); c.anyreply = true; W.push_back(c); }
    std::vector<std::string> live = { R("SET a 1"), R("SET b xyz EX 50"), R("SET c 3") };
    struct Pre { std::vector<std::string> live, dead; } pres[] = { { live, { "x", "y" } }, { live, {} }, { {}, { "x", "y", "z", "a" } } };
    for (int shards = 1; shards <= 3; shards++) for (int procs = 1; procs <= 2; procs++) for (auto &pre : pres) {
        int B = mc_thorough ? 4 : shards < 3 && &pre != &pres[1] ? 3 : 2;
        Program p; p.shards = shards; p.procs = procs; p.pre = pre.live; p.dead = pre.dead; 
        auto run = [&](std::vector<Thread> th, int bound, bool quick) { for (auto &t : th) for (auto &c : t) if ((c.send[0] == '*') != (t[0].send[0] == '*')) quick = false, bound = -2; // one protocol a connection
            if (bound == -2 || (!quick && !mc_thorough)) { idx++; return; } p.th = th; p.bound = bound; p.hello.clear(); go(p); };
        std::vector<Cmd> X;
        if (procs == 1) { X = { pershard(R("FLUSHALL"), shards, clear1, "+OK\r\n"), pershard(R("SWEEP"), shards, sweep1, "+OK\r\n"), keyscmd(R("KEYS *"), shards), countcmd(shards), pershard("flush_all\r\n", shards, clear1, "OK\r\n") }; Cmd c = at(R("SCAN 0 COUNT 2")); c.anyreply = true; X.push_back(c); }
        else X = { pershard(R("FLUSHALL FAST"), shards, clear1, "+OK\r\n"), pershard(R("SWEEP FAST"), shards, sweep1, "+OK\r\n") };
        bool first = &pre == &pres[0], many = procs > 1 && shards > 1;
        for (size_t x = 0; x < X.size(); x++) {
            run({ { X[x] } }, B, true);
            for (size_t w = 0; w < W.size(); w++) run({ { X[x] }, { W[w] } }, many ? B - 1 : B, true);
            for (size_t y = x; y < X.size(); y++) run({ { X[x] }, { X[y] } }, many ? 1 : B - 1, true);
            for (size_t w = 0; w < W.size(); w++) for (size_t v = 0; v < W.size(); v++) run({ { X[x] }, { W[w], W[v] } }, many ? 1 : 2, first && shards == 2 && (!many || w < 3));
            for (size_t w = 0; w < W.size(); w++) for (size_t v = w; v < W.size(); v++) run({ { X[x] }, { W[w] }, { W[v] } }, 1, first && shards < 3 && !many && w < 4);
            for (size_t w = 0; w < W.size(); w++) run({ { W[w], X[x] }, { W[0], W[1] } }, many ? 1 : 2, first && shards == 2);
        }
    }
}
