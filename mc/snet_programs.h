// The programs explored by snet.cc.
Op send_(const std::string &s) { return { P_SEND, s, 0 }; }
// How a peer ends: E waits for all replies and closes, S says it is done sending
// and waits for the end, X closes at once, R resets at once, O stays open.
PeerP mk(const std::vector<std::string> &chunks, char end, const std::string &expect, bool un = false) {
    PeerP p; p.unixsock = un; p.ops.push_back({ P_CONNECT, "", 0 }); p.expect = expect; p.show = un ? "unix " : "";
    for (auto &c : chunks) { p.ops.push_back(send_(c)); p.sent += c; p.show += esc(c) + "|"; }
    p.show += end;
    switch (end) {
    case 'E': p.ops.push_back({ P_EXPECT, "", (int)expect.size() }); p.ops.push_back({ P_CLOSE, "", 0 }); break;
    case 'S': p.ops.push_back({ P_SHUT, "", 0 }); p.ops.push_back({ P_EOF, "", 0 }); p.ops.push_back({ P_CLOSE, "", 0 }); break;
    case 'X': p.ops.push_back({ P_CLOSE, "", 0 }); p.early = true; break;
    case 'R': p.ops.push_back({ P_RST, "", 0 }); p.early = true; break;
    case 'O': p.ops.push_back({ P_EXPECT, "", (int)expect.size() }); p.staysopen = true; break;
    case 'P': for (size_t i = 0; i < chunks.size(); i++) ; break;
    }
    return p;
}
PeerP hp(const std::vector<std::string> &chunks, char end, bool un = false) { std::string s; for (auto &c : chunks) s += c; return mk(chunks, end, answer(s), un); }
void run_net() {
    bool T = mc_thorough; Program p;
    auto run = [&](std::vector<PeerP> ps, int bound, bool quick) { if (!quick && !T) { idx++; return; } p.peers = ps; p.bound = bound; go(p); };
    const char *ch[] = { "", "a", "ab", "aC", "Cb", "B", "aBc", "BB", "L", "LBa", "N", "aBC" };
    const char ends[] = "ESXRO";
    // one connection: one and two pieces, every end
    for (const char *a : ch) for (char e : std::string(ends)) if (*a || e != 'O') run({ hp({ a }, e) }, T ? 5 : 4, true);
    for (const char *a : ch) for (const char *b : ch) for (char e : std::string(ends)) if (*a && *b) run({ hp({ a, b }, e) }, T ? 4 : !b[1] || !strcmp(b, "aC") ? 3 : 2, true);
    run({ hp({ "a" }, 'E', true) }, 3, true); run({ hp({ "aBc" }, 'S', true) }, 3, true);
    p.sockfaults = true; for (const char *a : { "a", "aC" }) for (char e : std::string(ends)) for (bool un : { false, true }) { run({ hp({ a }, e, un) }, T ? 3 : 2, true); run({ hp({ a }, e, un), hp({ "b" }, 'E') }, 1, true); }
    p.sockfaults = false;
    // background threads that cannot start
    p.failcreate = 1; for (const char *a : { "B", "aBc", "BB", "aBC" }) for (char e : std::string(ends)) run({ hp({ a }, e) }, 2, true);
    p.failcreate = 0;
    // small socket buffers
    for (size_t cap : { 1, 3 }) { p.cap = cap; for (const char *a : { "a", "ab", "aBc", "L", "aC" }) for (char e : std::string("ES")) run({ hp({ a }, e) }, 2, true); }
    p.cap = 1 << 20;
    // two connections on one and two loops, small and large event queues, the limit
    for (int th = 1; th <= 2; th++) for (int q : { 1, 2, 8 }) for (int lim : { 100, 1 }) {
        p.threads = th; p.queue = q; p.maxconns = lim;
        const char *two[] = { "", "a", "aBc", "aC", "L" };
        for (const char *a : two) for (const char *b : two) for (char e : std::string("ESXRO")) for (char f : std::string("ESXRO"))
            run({ hp({ a }, e), hp({ b }, f) }, T ? 3 : q == 8 && (e == 'E' || f == 'E') && e != 'R' && f != 'R' ? 2 : 1, (*a || e != 'O') && (*b || f != 'O') && (*a || *b) && (q == 8 || (e == 'E' && f != 'R')));
        for (const char *a : { "a", "aBc" }) for (char e : std::string("EX")) for (char f : std::string("EX")) for (char g : std::string("EX"))
            run({ hp({ a }, e), hp({ "b" }, f, true), hp({ "c" }, g) }, T ? 2 : 1, true);
    }
    p.queue = 8; p.maxconns = 100;
    for (int th = 1; th <= 2; th++) { p.threads = th; for (const char *a : { "a", "aBc", "aC" }) for (const char *b : { "b", "aBc" }) for (char e : std::string("EX")) for (char f : std::string("EX")) run({ hp({ a }, e), hp({ b }, f) }, 3, false); }
}
// for the counters: few inputs, every end, connections beyond the limit and over two loops
void run_counts() {
    bool T = mc_thorough; Program p; auto run = [&](std::vector<PeerP> ps, int bound) { p.peers = ps; p.bound = bound; go(p); };
    for (const char *a : { "a", "ab", "aBc", "L", "aC", "aBC" }) for (char e : std::string("ESXRO")) { run({ hp({ a }, e) }, T ? 4 : 3); run({ hp({ a, "ba" }, e) }, T ? 3 : 2); }
    for (int th = 1; th <= 2; th++) for (int lim : { 100, 1 }) for (int q : { 1, 8 }) {
        p.threads = th; p.maxconns = lim; p.queue = q;
        for (const char *a : { "ab", "aBc", "L" }) for (const char *b : { "a", "abaC" }) for (char e : std::string("ESXO")) for (char f : std::string("ESX")) run({ hp({ a }, e), hp({ b }, f) }, T ? 2 : 1);
        for (char e : std::string("EX")) run({ hp({ "ab" }, e), hp({ "b" }, 'E', true), hp({ "aBc" }, 'E') }, 1);
    }
}
// one peer does not read its replies until another one was served
void run_stall() {
    Program p; p.bound = 1; 
    for (int th = 1; th <= 2; th++) for (size_t cap : { 1, 3, 40 }) for (const char *a : { "L", "LB", "BL", "LBL" }) for (const char *b : { "a", "aB" }) for (char e : std::string("ESX")) {
        PeerP x = hp({ a }, 'E'); x.ops.insert(x.ops.begin() + 2, { P_WAITPEER, "", 1 }); x.show += " after the other";
        p.threads = th; p.cap = cap; p.peers = { x, hp({ b }, e) }; go(p);
    }
}
// Histories of the connection map: one driver opens, uses and closes many
// connections; the descriptors may all fall into one bucket.
struct Script {
    Program p; std::vector<int> alive;
    void open(bool un = false) { int i = p.peers.size(); PeerP x; x.unixsock = un; p.peers.push_back(x); p.script.push_back({ i, { P_CONNECT, "", 0 } }); alive.push_back(i); use(i); p.show += vfmt("+%d", i); }
    void use(int i, const char *w = "a") { PeerP &x = p.peers[i]; x.sent += w; x.expect = answer(x.sent); p.script.push_back({ i, send_(w) }); p.script.push_back({ i, { P_EXPECT, "", (int)x.expect.size() } }); }
    void gone(int k) { alive.erase(alive.begin() + k); }
    void close(int k) { int i = alive[k]; p.script.push_back({ i, { P_CLOSE, "", 0 } }); p.script.push_back({ i, { P_SETTLE, "", 0 } }); gone(k); p.show += vfmt("-%d", i); }
    void kick(int k) { int i = alive[k]; p.peers[i].sent += "C"; p.script.push_back({ i, send_("C") }); p.script.push_back({ i, { P_SETTLE, "", 0 } }); p.script.push_back({ i, { P_CLOSE, "", 0 } }); gone(k); p.show += vfmt("!%d", i); }
    void all() { for (int i : alive) use(i); }
    void end() { for (int i : alive) { p.peers[i].staysopen = true; } }
};
void run_map() {
    bool T = mc_thorough;
    for (size_t nb : { 64, 128 }) {
        bucket.clear(); for (int i = 20; i < 900; i++) if ((uint32_t)mix13(BASE + i) % nb == (uint32_t)mix13(BASE + 20) % nb) bucket.push_back(i);
        // every history of a few colliding connections
        int D = T ? 10 : nb == 64 ? 8 : 7;
        std::function<void(Script &, int)> rec = [&](Script &s, int d) {
            if (d == D) { Script q = s; q.all(); q.end(); q.p.bound = 0; q.p.threads = 1; go(q.p); return; }
            if (s.alive.size() < 4) { Script q = s; q.open(); rec(q, d + 1); }
            for (size_t k = 0; k < s.alive.size(); k++) { Script q = s; q.close(k); q.all(); rec(q, d + 1); if (d == D - 1 || T) { Script r = s; r.kick(k); r.all(); rec(r, d + 1); } }
        };
        for (int pre : { 0, nb == 128 ? 60 : 3 }) { Script s; s.p.maxconns = 200; s.p.onebucket = true; for (int i = 0; i < pre; i++) { s.open(); if (pre > 3 && i > 3) s.alive.pop_back(), s.p.peers[i].staysopen = true; } rec(s, pre == 3 ? 1 : nb == 128 ? D - 3 : 0); }
    }
    // many connections, closed in several orders
    for (int n = 1; n <= (T ? 200 : 110); n += n < 40 || (n > 60 && n < 90) ? 7 : 1) for (int th = 1; th <= 2; th++) for (int q : { 1, 8 }) for (int order = 0; order < 4; order++) for (int dev = 0; dev <= (n < 12 ? 1 : 0); dev++) {
        Script s; s.p.maxconns = 250; s.p.threads = th; s.p.queue = q; s.p.bound = dev; s.p.onebucket = false;
        for (int i = 0; i < n; i++) s.open(i % 5 == 4);
        s.all();
        for (int i = 0; i < n - 1; i++) { int a = s.alive.size(); int k = order == 0 ? 0 : order == 1 ? a - 1 : order == 2 ? (i * 7) % a : a / 2; if (i % 3 == 2) s.kick(k); else s.close(k); if (i % 16 == 0) s.all(); }
        s.open(); s.all(); s.end(); go(s.p);
    }
    // the limit: as many as allowed stay open, the next are refused, and room returns
    for (int lim = 1; lim <= 4; lim++) for (int th = 1; th <= 2; th++) for (int extra = 1; extra <= 3; extra++) for (int freed = 1; freed <= lim; freed++) {
        Script s; s.p.maxconns = lim; s.p.threads = th; s.p.bound = T ? 2 : 1;
        for (int i = 0; i < lim; i++) s.open();
        for (int e = 0; e < extra; e++) { int i = s.p.peers.size(); PeerP x; x.sent = "a"; x.expect = "ab"; x.early = true; s.p.peers.push_back(x); s.p.script.push_back({ i, { P_CONNECT, "", 0 } }); s.p.script.push_back({ i, send_("a") }); s.p.script.push_back({ i, { P_SETTLE, "", 0 } }); s.p.script.push_back({ i, { P_CLOSE, "", 0 } }); s.p.show += "x"; }
        for (int f = 0; f < freed; f++) s.close(0);
        s.all(); for (int f = 0; f < freed; f++) s.open(); s.all(); s.end(); go(s.p);
    }
}
std::string W(const std::string &line) { std::string r; int n = 0; size_t i = 0; while (i <= line.size()) { size_t e = line.find(' ', i); if (e == std::string::npos) e = line.size(); r += vfmt("$%zu\r\n", e - i) + line.substr(i, e - i) + "\r\n"; n++; i = e + 1; } return vfmt("*%d\r\n", n) + r; }
// requests in pieces: together, one by one, the first alone, cut inside
PeerP pl(const std::vector<std::string> &reqs, int how, char end) {
    std::vector<std::string> c; std::string all; for (auto &r : reqs) all += r;
    if (how == 0) c = { all };
    else if (how == 1) c = reqs;
    else if (how == 2) { c = { reqs[0] + reqs[1].substr(0, reqs[1].size() / 2), all.substr(reqs[0].size() + reqs[1].size() / 2) }; }
    PeerP p = mk(c, end, ""); p.reqs = reqs; return p;
}
void run_pipe() {
    bool T = mc_thorough; Program p;
    auto run = [&](std::vector<PeerP> ps, int bound, bool quick) { if (!quick && !T) { idx++; return; } p.peers = ps; p.bound = bound; go(p); };
    std::vector<std::string> A; for (const char *l : { "SET a 1", "GET a", "KEYS *", "FLUSHALL", "SAVE TO /mcfs/d/f", "LOAD FROM /mcfs/d/f", "PURGE", "SWEEP", "NOPE" }) A.push_back(W(l));
    std::vector<std::string> M = { "set a 0 0 1\r\n1\r\n", "get a\r\n", "flush_all\r\n", "flush_all noreply\r\n", "set a 0 0 1 noreply\r\n2\r\n", "nope\r\n", "quit\r\n" };
    std::vector<std::string> X; for (const char *l : { "SWEEP ASYNC", "PURGE ASYNC", "FLUSHALL ASYNC", "QUIT", "SAVE", "LOAD", "FLUSHALL FAST", "ECHO x", "KEYS q*", "SAVE TO /mcfs/no/f", "LOAD FROM /mcfs/d/none" }) X.push_back(W(l));
    auto pg = [](char t, const std::string &b) { uint32_t n = __builtin_bswap32(b.size() + 4); return std::string(t ? 1 : 0, t) + std::string((char *)&n, 4) + b; };
    std::string z(1, 0);
    std::string hello = pg(0, std::string("\0\3\0\0user", 8) + z + "u" + z + z);
    auto q = [&](const std::string &s) { return pg('Q', s + z); };
    auto ext = [&](const std::string &s) { return pg('P', z + s + z + z + z) + pg('B', z + z + z + z + z + z + z + z) + pg('E', z + z + z + z + z) + pg('S', ""); };
    std::vector<std::string> G = { q("SET a 1"), q("GET a"), q("KEYS *"), q("FLUSHALL"), ext("KEYS *"), ext("GET a"), q("SAVE TO '/mcfs/d/f'"), q("KEYS *; ECHO x"), q("nope"), q("FLUSHALL; KEYS *; SET a 2; GET a") };
    auto isbg = [](const std::string &r) { for (const char *w : { "KEYS", "FLUSH", "flush", "SAVE", "LOAD", "PURGE", "SWEEP" }) if (r.find(w) != std::string::npos) return true; return false; };
    auto family = [&](const std::vector<std::string> &L, const std::vector<std::string> &pre, bool q3) {
        auto with = [&](std::vector<std::string> v) { v.insert(v.begin(), pre.begin(), pre.end()); return v; };
        for (auto &a : L) for (char e : std::string("ESXR")) run({ pl(with({ a }), 0, e) }, 3, true);
        for (auto &a : L) for (auto &b : L) for (int how = 0; how < 3; how++) for (char e : std::string("ESXR")) run({ pl(with({ a, b }), how, e) }, T ? 3 : 2, isbg(a) || isbg(b));
        for (auto &a : L) for (auto &b : L) for (auto &c : L) for (int how = 0; how < 3; how++) for (char e : std::string("ESX")) run({ pl(with({ a, b, c }), how, e) }, T ? 2 : 1, q3 && (how < 2 ? isbg(a) || isbg(b) : isbg(b)));
    };
    family(A, {}, true); family(M, {}, true); family(G, { hello }, false);
    for (auto &x : X) for (auto &y : X) for (int how = 0; how < 3; how++) for (char e : std::string("ESX")) run({ pl({ x, y, W("ECHO z") }, how, e) }, T ? 2 : 1, true);
    // protocols that close
    for (char e : std::string("ESXR")) for (const char *h : { "GET /a HTTP/1.1\r\n\r\n", "PUT /a HTTP/1.1\r\nContent-Length: 2\r\n\r\nxy", "GET / HTTP/1.0\r\n\r\n", "XYZ / HTTP/1.1\r\n\r\n" }) { run({ pl({ h }, 0, e) }, 3, true); run({ pl({ h, h }, 2, e) }, 2, true); }
    // threads that cannot start
    for (int k = 1; k <= 2; k++) { p.failcreate = k; for (auto &a : A) if (isbg(a)) for (auto &b : A) for (char e : std::string("EX")) run({ pl({ A[0], a, b }, 0, e) }, 1, true); for (auto &a : M) if (isbg(a)) for (auto &b : M) run({ pl({ a, b }, 0, 'E') }, 1, true); }
    p.failcreate = 0;
    // two connections; what one is answered does not depend on the other
    std::vector<std::vector<std::string>> B2 = { { W("ECHO p") }, { W("PURGE"), W("ECHO q") }, { W("ECHO r"), W("SWEEP"), W("ECHO s") }, { "quit\r\n" }, { W("SAVE TO /mcfs/d/g"), W("ECHO t") } };
    for (int th = 1; th <= 2; th++) for (int queue : { 1, 8 }) {
        p.threads = th; p.queue = queue;
        for (auto &b : B2) for (auto &a1 : A) for (auto &a2 : A) for (char e : std::string("EX")) for (char f : std::string("EX")) run({ pl({ a1, a2 }, 0, e), pl(b, 0, f) }, T ? 2 : 1, isbg(a1) && (queue == 8 || th == 1) && a1.find("LOAD") == std::string::npos);
        // keys to collect while the other connection sends
        for (auto &b : B2) for (const char *k : { "KEYS *", "KEYS a*", "KEYS ?" }) for (char e : std::string("EX")) for (char f : std::string("EX")) { run({ pl({ W("SET a 1"), W(k) }, 0, e), pl(b, 0, f) }, T ? 3 : 2, e == 'E' && queue == 8); run({ pl({ W("SET a 1"), W(k), W("ECHO y") }, 2, e), pl(b, 0, f) }, T ? 2 : 1, true); }
        for (auto &b : B2) for (auto &a1 : M) for (char e : std::string("EX")) for (char f : std::string("EX")) run({ pl({ a1, M[1] }, 0, e), pl(b, 0, f) }, T ? 2 : 1, true);
    }
}
