// The program options (C31): the real main() parses every sequence of options,
// what it hands to the cache and to the network layer is compared with the
// documented meaning, and a part of the sequences is run on to see the sockets.
struct Expect {
    std::string port = "9401", host = "127.0.0.1", unixsock, persist, auth, maxmemory = "80%", allocator = "stock";
    std::map<std::string, std::string> yn = { { "evict", "yes" }, { "reuseport", "no" }, { "tcpnodelay", "yes" }, { "keepalive", "yes" }, { "quickack", "no" }, { "cas", "no" }, { "sixpack", "yes" }, { "autosweep", "yes" }, { "uring", "yes" } };
    std::map<std::string, __int128> num = { { "threads", 0 }, { "shards", 0 }, { "backlog", 1024 }, { "queuesize", 128 }, { "maxconns", 1024 }, { "loadfactor", 75 }, { "seed", -1 } };
    int verb = 0; std::string mb; bool warm = true;
    int stop = -1;              // exit status of an option that ends the program
    bool vague = false;         // an invalid value that a later one replaced, and the like: not judged
};
struct Letter { std::vector<std::string> args; std::function<void(Expect &)> fn; std::string name; };
bool ynok(const std::string &v) { return v == "yes" || v == "no"; }
// the documented memory sizes
bool memsize(const std::string &v, long double sys, long double *r) {
    if (v == "unlimited") { *r = 1e30L; return true; }
    size_t i = 0; while (i < v.size() && isspace((unsigned char)v[i])) i++;
    size_t s = i; long double m = 0, f = 1; bool dig = false;
    if (i < v.size() && v[i] == '+') i++;
    while (i < v.size() && isdigit((unsigned char)v[i])) m = m * 10 + (v[i++] - '0'), dig = true;
    if (i < v.size() && v[i] == '.') { i++; while (i < v.size() && isdigit((unsigned char)v[i])) m += (v[i++] - '0') * (f /= 10), dig = true; }
    if (!dig || !(m > 0)) return false;
    (void)s;
    while (i < v.size() && isspace((unsigned char)v[i])) i++;
    std::string u; for (; i < v.size(); i++) u += tolower(v[i]);
    long double k;
    if (u == "") k = 1; else if (u == "%") k = sys / 100; else if (u == "k" || u == "kb") k = 1024; else if (u == "m" || u == "mb") k = 1048576; else if (u == "g" || u == "gb") k = 1073741824.0L; else if (u == "t" || u == "tb") k = 1099511627776.0L; else return false;
    *r = m * k; return true;
}
extern "C" { extern int verb; extern bool usetrackallocs, useauth, useevict, usetls; extern char *auth; extern size_t memlimit, sysmem; extern uint64_t seed; extern bool usesixpack; extern _Bool lowmem_dummy; }
extern "C" { extern std::atomic_bool lowmem; }
std::string pristined, pristineb;
jmp_buf optjmp; int optexit; bool optreached; struct pogocache_opts optp; std::vector<void *(*)(void *)> optboot; bool optphase;
jmp_buf tickjmp;
void tickout() { longjmp(tickjmp, 1); }
// the helper threads over several periods: the memory in use is set before each
// period, the low memory mode is compared after it
size_t tk_rss; bool tk_asked, tk_sweep; int tk_i, tk_n; unsigned tk_seq; std::string tk_err; bool tk_live;
extern "C" { void __real_sys_getmeminfo(void *); void __wrap_sys_getmeminfo(void *p) {
    struct { size_t virt, rss; } *q = (decltype(q))p; if (!tk_rss) { __real_sys_getmeminfo(p); return; } q->virt = q->rss = tk_rss; tk_asked = true; } }
void tickset() {
    size_t lim = memlimit > (size_t)1 << 61 ? (size_t)1 << 61 : memlimit; bool above = tk_seq >> 2 * tk_i & 1, far = tk_seq >> 2 * tk_i & 2;
    tk_rss = above ? (far ? lim * 2 : lim + 4096) : (far ? lim / 2 : lim > 8192 ? lim - 4096 : lim - 1); if (!tk_rss) tk_rss = 1; tk_asked = false;
    if (tk_sweep) { struct pogocache_store_opts ex; memset(&ex, 0, sizeof ex); if (tk_i) sx_skew += 10 * SEC; ex.time = MONO + sx_skew - SEC; ex.ttl = SEC / 2; for (int k = 0; k < 200; k++) { std::string key = vfmt("y%d", k); pogocache_store(cache, key.data(), key.size(), "v", 1, &ex); } }
}
bool tk_autosweep, tk_swept; int tk_clean, tk_best;
void tickstep() {
    if (tk_asked && tk_err.empty()) {
        bool want = memlimit <= (size_t)1 << 61 && tk_rss > memlimit, is = atomic_load(&lowmem);
        if (is != want) tk_err = vfmt("low memory mode is %d in period %d with %zu bytes in use and a limit of %zu", is, tk_i, tk_rss, memlimit);
    }
    if (tk_sweep) {
        struct pogocache_count_opts co; memset(&co, 0, sizeof co); co.time = MONO + sx_skew; size_t n = pogocache_count(cache, &co); if (n == 2) tk_swept = true, tk_clean++;
        if (n < 2 && tk_err.empty()) tk_err = vfmt("%zu entries are left of 2 living ones", n);
        if (tk_swept && !tk_autosweep && tk_err.empty()) tk_err = "expired entries are swept with --autosweep=no";
    }
    if (++tk_i >= tk_n) longjmp(tickjmp, 1);
    tickset();
}
const std::vector<const Letter *> *OS;
std::string oshow() { std::string s; if (OS) for (auto l : *OS) for (auto &a : l->args) s += " " + esc(a); return s; }
// what the kernel saw
struct LSeen { int domain = 0; std::string host, port, path; int backlog = -1; bool reuse = false; };
std::map<int, LSeen> seenl; std::string lasthost, lastport; std::map<int, std::map<std::pair<int, int>, int>> seenopts; int seenmax;
std::vector<std::map<std::pair<int, int>, int>> connopts; 
Expect *XE;
void optfail(const char *what, const std::string &g, const std::string &w) { mc_fail("option", "%s is %s, expected %s", what, esc(g).c_str(), esc(w).c_str()); }
void cmps(const char *what, const char *g, const std::string &w) { if (!g || w != g) optfail(what, g ? g : "(null)", w); }
void cmpn(const char *what, __int128 g, __int128 w) { if (g != w) optfail(what, vfmt("%lld", (long long)g), vfmt("%lld", (long long)w)); }
void o_thread(int i) {
    if (i) { peer(i - 1); return; }
    NO = nopts; NO.listening = none; NO.ready = none; NO.nowarmup = true;
    net_main(&NO); mc_fail("return", "net_main returned");
}
void o_setup() {
    memcpy(__start_srvdata, imgdata.data(), imgdata.size()); memcpy(__start_srvbss, imgbss.data(), imgbss.size());
    resetkernel(); seenl.clear(); seenopts.clear(); seenmax = 0; connopts.clear();
}
void o_finish() { for (size_t i = 0; i < P->peers.size(); i++) got[i] = kp(i) ? kp(i)->s2c : ""; }
void optrun(const std::vector<const Letter *> &ls, bool deep) {
    uint64_t i = idx++;
    if (only >= 0 ? (int)i != only : (int)(i % mc_nparts) != mc_part) return;
    mc_tick(); mc_traces++; mc_evals++; OS = &ls; Pindex = i; P = 0;
    Expect e; for (auto l : ls) { if (e.stop >= 0) { e.vague = e.vague || !l->args.empty(); } l->fn(e); }
    // what the sequence means as a whole
    bool refuse = e.unixsock.size() > 107;
    for (auto &y : e.yn) if (!ynok(y.second)) refuse = true;
    if (e.allocator != "stock") refuse = true;
    std::string mm = e.mb.size() ? e.mb + "M" : e.maxmemory; long double want = 0;
    bool noport = e.port.empty() || e.port == "0";
    if (!noport) { bool d = e.port.size() <= 6; for (char c : e.port) if (!isdigit((unsigned char)c)) d = false; if (!d || atoi(e.port.c_str()) > 65535) refuse = true; }
    if (noport && e.unixsock.empty()) refuse = true;
    // run
    memcpy(__start_srvdata, pristined.data(), pristined.size()); memcpy(__start_srvbss, pristineb.data(), pristineb.size());
    std::vector<std::string> st = { "pogocache" }; for (auto l : ls) for (auto &a : l->args) st.push_back(a);
    std::vector<char *> av; for (auto &s : st) av.push_back(strdup(s.c_str())); std::vector<char *> fr = av; av.push_back(0);
    optexit = -1; optreached = false; optboot.clear(); optphase = true; mfs_reset(); procs = 3; popts = pogocache_opts(); memset(&nopts, 0, sizeof nopts);
    static int nul = -1, err; if (nul < 0) { nul = open("/dev/null", O_WRONLY); err = dup(2); }
    dup2(nul, 2); sc_boot_create = [](pthread_t *th, void *(*fn)(void *), void *) { *th = 1; optboot.push_back(fn); return 0; };
    if (!setjmp(optjmp)) { pogocache_main(av.size() - 1, av.data()); optexit = -2; }
    dup2(err, 2); optphase = false; signal(SIGTERM, SIG_DFL); signal(SIGINT, SIG_DFL); sc_boot_create = 0;
    std::string out;
    if (e.stop >= 0 && !e.vague) { if (optreached || optexit != e.stop) mc_fail("option", "the program %s, expected to end with status %d", optreached ? "starts" : vfmt("ended with %d", optexit).c_str(), e.stop); out = vfmt("stop %d", optexit); }
    else if (e.vague) out = "vague";
    else {
        if (!refuse && !memsize(mm, sysmem, &want)) refuse = true;
        if (refuse) { if (optreached || optexit != 1) mc_fail("option", "the program %s although an option is invalid", optreached ? "starts" : vfmt("ended with %d", optexit).c_str()); out = "refused"; }
        else if (!optreached) mc_fail("option", "the program ended with status %d although all options are valid", optexit);
        else {
            auto clamp = [&](const char *n, __int128 lo, __int128 hi, __int128 dflt, bool isdflt) { __int128 v = e.num[n]; if (isdflt && v <= 0) return dflt; return v < lo ? lo : v > hi ? hi : v; };
            int th = clamp("threads", 1, 4096, 3, true), sh = clamp("shards", 1, 65536, 4096, true), qs = clamp("queuesize", 1, 4096, 0, false), mc = clamp("maxconns", 1, INT32_MAX, 1024, true), lf = clamp("loadfactor", 55, 95, 0, false), bl = clamp("backlog", INT32_MIN, INT32_MAX, 0, false);
            cmps("the host", nopts.host, e.host); cmps("the port", nopts.port, noport ? "" : e.port); cmps("the unix socket", nopts.unixsock, e.unixsock); cmps("the persistence file", persist, e.persist); cmps("the password", auth, e.auth);
            cmpn("the TLS port", nopts.tlsport && *nopts.tlsport, 0); cmpn("TLS", usetls, 0); cmpn("the use of a password", useauth, !e.auth.empty());
            cmpn("reuseport", nopts.reuseport, e.yn["reuseport"] == "yes"); cmpn("tcpnodelay", nopts.tcpnodelay, e.yn["tcpnodelay"] == "yes"); cmpn("keepalive", nopts.keepalive, e.yn["keepalive"] == "yes"); cmpn("quickack", nopts.quickack, e.yn["quickack"] == "yes");
            cmpn("the backlog", nopts.backlog, bl); cmpn("the queue size", nopts.queuesize, qs); cmpn("the number of threads", nopts.nthreads, th); cmpn("the limit of connections", nopts.maxconns, mc);
            cmpn("the warm up", !nopts.nowarmup, e.warm); cmpn("the verbosity", verb, e.verb);
            cmpn("the number of shards", popts.nshards, sh); cmpn("the load factor", popts.loadfactor, lf); cmpn("cas", popts.usecas, e.yn["cas"] == "yes"); cmpn("sixpack", !popts.nosixpack, e.yn["sixpack"] == "yes");
            bool unlimited = want >= 18446744073709549568.0L; 
            if (!unlimited) cmpn("evict", !popts.noevict, e.yn["evict"] == "yes");
            if (e.num["seed"] >= 0 && popts.seed != (uint64_t)e.num["seed"]) optfail("the seed", vfmt("%llu", (unsigned long long)popts.seed), vfmt("%llu", (unsigned long long)(uint64_t)e.num["seed"]));
            cmpn("shrinking", popts.allowshrink, 1); cmpn("thread batches", popts.usethreadbatch, 1);
            long double g = memlimit; if (unlimited ? memlimit < 1ull << 62 : g > want * 1.000001L + 1 || g < want * 0.999999L - 1) mc_fail("option", "the memory limit is %zu, expected %.0Lf", memlimit, want);
            out = vfmt("%d %d %d %d %d %d %zu", th, sh, qs, mc, lf, bl, memlimit);
            if (deep) {
                // the cache as the options made it
                if (pogocache_nshards(cache) != sh) optfail("the number of shards", vfmt("%d", pogocache_nshards(cache)), vfmt("%d", sh));
                struct pogocache_store_opts so; memset(&so, 0, sizeof so); so.time = MONO;
                static uint64_t cas; cas = 0; struct pogocache_load_opts lo; memset(&lo, 0, sizeof lo); lo.time = MONO;
                lo.entry = [](int, int64_t, const void *, size_t, const void *, size_t, int64_t, uint32_t, uint64_t c, struct pogocache_update **, void *) { cas = c; };
                pogocache_store(cache, "abcdefghijkl", 12, "v", 1, &so); pogocache_load(cache, "abcdefghijkl", 12, &lo);
                if ((cas != 0) != (e.yn["cas"] == "yes")) mc_fail("option", "entries have version %llu with --cas=%s", (unsigned long long)cas, e.yn["cas"].c_str());
                struct pogocache_size_opts zo; memset(&zo, 0, sizeof zo); zo.entriesonly = true;
                size_t z1 = pogocache_size(cache, &zo); pogocache_store(cache, "\1\2\3\4\5\6\7\x80\x81\x82\x83\x84", 12, "v", 1, &so); size_t z2 = pogocache_size(cache, &zo) - z1;
                if ((z1 < z2) != (e.yn["sixpack"] == "yes")) mc_fail("option", "a key of letters takes %zu, one of other bytes %zu bytes with --sixpack=%s", z1, z2, e.yn["sixpack"].c_str());
                nopts.listening(nopts.udata);
                // the helper threads: memory and sweeping
                struct pogocache_store_opts ex; memset(&ex, 0, sizeof ex); ex.time = MONO - 100 * SEC; ex.ttl = SEC;
                if (sh == 1) for (int k = 0; k < 60; k++) { std::string key = vfmt("x%d", k); pogocache_store(cache, key.data(), key.size(), "v", 1, &ex); }
                sx_sleephook = tickout;
                for (volatile size_t k = 0; k < optboot.size(); k++) if (!setjmp(tickjmp)) { dup2(nul, 2); optboot[k](0); }
                dup2(err, 2); sx_sleephook = 0;
                if (sh == 1) { struct pogocache_count_opts co; memset(&co, 0, sizeof co); co.time = MONO; size_t n = pogocache_count(cache, &co), wantn = e.yn["autosweep"] == "yes" ? 2 : 62; if (n != wantn) mc_fail("option", "%zu entries are held after the helper threads ran, expected %zu with --autosweep=%s", n, wantn, e.yn["autosweep"].c_str()); }
                bool low = atomic_load(&lowmem); if (want < 1000000 ? !low : want > 1e14L ? low : false) mc_fail("option", "low memory mode is %d with a limit of %.0Lf", low, want);
                // the same threads over 4 periods, with the memory in use below or above the limit in each
                for (volatile unsigned sq = 0; sq < 256; sq++) {
                    if (!mc_thorough && (idx % 8 || sh == 1) && sq % 5 && sq != 0xDD) continue; // quick: all far or all near in most runs
                    tk_best = 0;
                    for (volatile size_t k = 0; k < optboot.size(); k++) {
                        tk_clean = 0; tk_sweep = sh == 1 && sq == 0; tk_swept = false; tk_autosweep = e.yn["autosweep"] == "yes"; tk_err.clear(); tk_i = 0; tk_n = 4; tk_seq = sq; atomic_store(&lowmem, false); if (memlimit > 16) tickset(); else { tk_sweep = false; break; }
                        sx_sleephook = tickstep;
                        if (!setjmp(tickjmp)) { dup2(nul, 2); optboot[k](0); }
                        dup2(err, 2); sx_sleephook = 0; tk_rss = 0; sx_skew = 0; mc_evals++;
                        if (!tk_err.empty()) mc_fail("option", "%s", tk_err.c_str());
                        tk_best = std::max(tk_best, tk_clean);
                    }
                    if (tk_sweep && tk_autosweep && tk_best < tk_n) mc_fail("option", "with --autosweep=yes 200 new expired entries were swept in %d of %d periods", tk_best, tk_n);
                }
                atomic_store(&lowmem, false);
                // what a store does when memory is low
                atomic_store(&lowmem, true); so.lowmem = true; int r = pogocache_store(cache, "another", 7, "v", 1, &so);
                bool nomem = r == POGOCACHE_NOMEM; if (!unlimited && nomem != (e.yn["evict"] == "no")) mc_fail("option", "a store in low memory answers %d with --evict=%s", r, e.yn["evict"].c_str());
                atomic_store(&lowmem, false);
                pogocache_free(cache); cache = 0;
                if (th <= 6 && th * qs <= 2048) {
                    // the sockets
                    XE = &e; Program q; q.threads = th; q.maxconns = mc; q.script.clear(); bool tcp = !noport;
                    std::string hello = "*1\r\n$4\r\nPING\r\n";
                    for (int un = 0; un <= 1; un++) if (un ? !e.unixsock.empty() : tcp) { PeerP x; x.unixsock = un; int k = q.peers.size(); q.peers.push_back(x);
                        q.script.push_back({ k, { P_CONNECT, "", 0 } }); q.script.push_back({ k, send_(hello) }); q.script.push_back({ k, { P_SETTLE, "", 0 } });
                        if (e.auth.size()) { q.script.push_back({ k, send_(vfmt("*2\r\n$4\r\nAUTH\r\n$%zu\r\n", e.auth.size() + 1) + e.auth + "x\r\n" + hello) }); q.script.push_back({ k, { P_SETTLE, "", 0 } }); q.script.push_back({ k, send_(vfmt("*2\r\n$4\r\nAUTH\r\n$%zu\r\n", e.auth.size()) + e.auth + "\r\n" + hello) }); q.script.push_back({ k, { P_SETTLE, "", 0 } }); } }
                    imgdata.assign(__start_srvdata, __stop_srvdata - __start_srvdata); imgbss.assign(__start_srvbss, __stop_srvbss - __start_srvbss);
                    P = &q; pipemode = refrun = true; XP = { 2, o_setup, o_thread, o_finish }; sc_first(&XP); refrun = false;
                    bool st = false, su = false;
                    for (auto &s : seenl) { auto &l = s.second; cmpn("the backlog of the socket", l.backlog, bl);
                        if (l.domain == AF_UNIX) { su = true; cmps("the path of the socket", l.path.c_str(), e.unixsock); }
                        else { st = true; cmps("the host of the socket", l.host.c_str(), e.host); cmps("the port of the socket", l.port.c_str(), e.port); cmpn("reuseport of the socket", l.reuse, e.yn["reuseport"] == "yes"); } }
                    cmpn("a TCP socket", st, tcp); cmpn("a unix socket", su, !e.unixsock.empty());
                    if (seenmax) cmpn("the number of events asked for", seenmax, qs);
                    for (size_t k = 0; k < q.peers.size(); k++) {
                        const std::string &g = got[k]; bool good = e.auth.empty() ? g == "+PONG\r\n" : g.size() > 20 && g[0] == '-' && g.find("+OK\r\n+PONG\r\n") == g.size() - 12 && g.find("PONG") == g.size() - 6;
                        if (!good) mc_fail("option", "the client was answered %s with the password %s", esc(g).c_str(), esc(e.auth).c_str());
                        if (q.peers[k].unixsock) continue;
                        auto &o = connopts[kp(k) - &kc[0]]; auto is = [&](int a, int b) { auto f = o.find({ a, b }); return f != o.end() && f->second; };
                        cmpn("TCP_NODELAY of a connection", is(IPPROTO_TCP, TCP_NODELAY), e.yn["tcpnodelay"] == "yes"); cmpn("SO_KEEPALIVE of a connection", is(SOL_SOCKET, SO_KEEPALIVE), e.yn["keepalive"] == "yes"); cmpn("TCP_QUICKACK of a connection", is(IPPROTO_TCP, TCP_QUICKACK), e.yn["quickack"] == "yes");
                        for (auto &x : o) { auto kx = x.first; bool known = (kx.first == SOL_SOCKET && kx.second == SO_KEEPALIVE) || (kx.first == IPPROTO_TCP && (kx.second == TCP_NODELAY || kx.second == TCP_QUICKACK)) || (kx.first == IPPROTO_TCP && (kx.second == TCP_KEEPIDLE || kx.second == TCP_KEEPINTVL || kx.second == TCP_KEEPCNT)); if (!known) mc_fail("option", "socket option %d of level %d was set to %d", kx.second, kx.first, x.second); }
                    }
                }
            } else if (cache) { pogocache_free(cache); cache = 0; }
        }
    }
    for (char *p : fr) free(p);
    mc_state(mc_hash(&i, 8, 7)); mc_outcome(mc_hash(out.data(), out.size(), 1)); if (idx % 1009 == 1) mc_sample("%s: %s", oshow().c_str(), out.c_str());
}
void run_opts() {
    bool T = mc_thorough; pristined.assign(__start_srvdata, __stop_srvdata - __start_srvdata); pristineb.assign(__start_srvbss, __stop_srvbss - __start_srvbss);
    std::vector<Letter> full, mid, core;
    auto two = [&](std::vector<Letter> &to, const std::string &n, const std::string &v, int how, std::function<void(Expect &)> fn) { // how: 1 =, 2 space, 3 both
        if (how & 1) to.push_back({ { "--" + n + "=" + v }, fn, n }); if (how & 2) to.push_back({ { "--" + n, v }, fn, n }); };
    auto yn = [&](const std::string &n, const std::string &v, std::vector<Letter> &to, int how) { two(to, n, v, how, [=](Expect &e) { if (!ynok(e.yn[n])) e.vague = true; e.yn[n] = v; }); };
    const char *YN[] = { "evict", "reuseport", "tcpnodelay", "keepalive", "quickack", "cas", "sixpack", "autosweep", "uring" };
    for (auto n : YN) { for (const char *v : { "yes", "no", "", "y", "n", "YES", "No", "1", "0", "true", "yes ", " no", "yesno", "nope", "yess" }) yn(n, v, full, 3); yn(n, "yes", mid, 1); yn(n, "no", mid, 2); yn(n, "maybe", mid, 1); yn(n, "yes", core, 2); yn(n, "no", core, 1); }
    auto num = [&](const std::string &n, const std::string &v, std::vector<Letter> &to, int how) { __int128 x = 0; bool neg = v[0] == '-'; for (char c : v) if (isdigit((unsigned char)c)) x = x * 10 + (c - '0'); if (neg) x = -x; two(to, n, v, how, [=](Expect &e) { e.num[n] = x; }); };
    const char *NU[] = { "threads", "shards", "backlog", "queuesize", "maxconns", "loadfactor" };
    for (auto n : NU) {
        for (const char *v : { "-9999999999", "-2147483649", "-2147483648", "-4096", "-1", "0", "1", "2", "5", "54", "55", "56", "94", "95", "96", "127", "128", "129", "1023", "1024", "4095", "4096", "4097", "65535", "65536", "65537", "007", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967300", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999" }) num(n, v, full, 3);
        num(n, "3", mid, 1); num(n, "60", mid, 2); num(n, "0", mid, 1); num(n, "99999", mid, 2); num(n, "4", core, 1); num(n, "77", core, 2);
    }
    for (auto v : { "0", "1", "77", "18446744073709551615" }) num("seed", v, full, 3); num("seed", "9", mid, 1); num("seed", "10", core, 2);
    auto str = [&](const std::string &n, const std::string &v, std::vector<Letter> &to, int how, std::string Expect::*f) { two(to, n, v, how, [=](Expect &e) { e.*f = v; }); };
    auto sht = [&](const std::string &n, const std::string &v, std::vector<Letter> &to, std::string Expect::*f) { to.push_back({ { n, v }, [=](Expect &e) { e.*f = v; }, n }); };
    auto badport = [](const std::string &v) { if (v.empty() || v == "0") return false; if (v.size() > 6) return true; for (char c : v) if (!isdigit((unsigned char)c)) return true; return atoi(v.c_str()) > 65535; };
    for (const char *v : { "1", "80", "9401", "9402", "65535", "65536", "70000", "99999999999999999999", "x", "80x", "8 0", "-1", "" , "0", "12.5", "1e3", "0x50" }) for (int k = 0; k < 2; k++) { std::string s = v; auto f = [=](Expect &e) { if (badport(e.port)) e.vague = true; e.port = s; }; if (k) full.push_back({ { "-p", s }, f, "port" }); else two(full, "port", s, 3, f); if (s == "80" || s == "0" || s == "x") { if (k) mid.push_back({ { "-p", s }, f, "port" }); else two(mid, "port", s, 1, f); } if (s == "80" && k) core.push_back({ { "-p", s }, f, "port" }); if (s == "9402" && !k) two(core, "port", s, 1, f); }
    for (const char *v : { "localhost", "0.0.0.0", "::1", "", "--port" }) sht("-h", v, full, &Expect::host);
    for (const char *v : { "0.0.0.0", "--port" }) sht("-h", v, mid, &Expect::host); sht("-h", "10.0.0.1", core, &Expect::host);
    for (size_t n : { 1, 20, 106, 107 }) sht("-s", "/mcfs/" + std::string(n > 6 ? n - 6 : 1, 's'), full, &Expect::unixsock); sht("-s", "", full, &Expect::unixsock); sht("-s", "/mcfs/s", mid, &Expect::unixsock); sht("-s", "/mcfs/t", core, &Expect::unixsock);
    for (size_t n : { 108, 109, 200 }) sht("-s", "/mcfs/" + std::string(n - 6, 's'), full, &Expect::unixsock); // longer than the address of a socket
    for (const char *v : { "", "secret", "yes", "a=b", "--auth", "pass word" }) str("auth", v, full, 3, &Expect::auth); str("auth", "pw", mid, 1, &Expect::auth); str("auth", "--cas", mid, 2, &Expect::auth); str("auth", "q", core, 2, &Expect::auth);
    for (const char *v : { "", "/mcfs/d/file", "/mcfs/d/a=b", "-p" }) str("persist", v, full, 3, &Expect::persist); str("persist", "/mcfs/d/f", mid, 1, &Expect::persist); str("persist", "/mcfs/d/g", core, 2, &Expect::persist);
    for (const char *v : { "stock", "mimalloc", "jemalloc", "", "Stock", "stock ", "x" }) two(full, "allocator", v, 3, [=](Expect &e) { if (e.allocator != "stock") e.vague = true; e.allocator = v; }); for (const char *v : { "stock", "x" }) two(mid, "allocator", v, 1, [=](Expect &e) { if (e.allocator != "stock") e.vague = true; e.allocator = v; });
    auto mem = [&](const std::string &v, std::vector<Letter> &to, int how) { two(to, "maxmemory", v, how, [=](Expect &e) { long double r; if (!memsize(e.maxmemory, 100, &r)) e.vague = true; if (e.mb.size()) e.vague = true; e.maxmemory = v; }); };
    for (const char *n : { "1", "10", "80", "100", "1.5", "0.5", ".5", "0", "0.0", "-1", "-0", "", "x", "512", "123456", "16777215", "16777216", "17179869184", "99999999999999999999", "nan", "inf", "1000000000000000000000000000000000000000000" }) for (const char *u : { "", "%", "k", "K", "kb", "KB", "kB", "m", "MB", "g", "Gb", "t", "TB", "b", "kbb", "x", "%%", " %", " mb", "m b", " ", "kk", "pb", "e" }) mem(std::string(n) + u, full, 3);
    for (const char *v : { "unlimited", "Unlimited", "unlimited ", " 10mb", " 10 mb ", "\t1g", "+5g", "10,5g", "5g5" }) mem(v, full, 3);
    for (const char *v : { "unlimited", "1k", "100g", "50%", "bad" }) mem(v, mid, v[0] == '1' ? 2 : 1); mem("2k", core, 1); mem("unlimited", core, 2);
    auto mb = [&](const std::string &v, std::vector<Letter> &to) { to.push_back({ { "-m", v }, [=](Expect &e) { long double r; if (!memsize(e.maxmemory, 100, &r) || e.maxmemory != "80%") e.vague = true; if (e.mb.size() && !memsize(e.mb + "M", 1, &r)) e.vague = true; e.mb = v; }, "-m" }); };
    for (const char *v : { "1", "100", "0.25", "-5", "x", "0", "1k", "10m" }) mb(v, full); mb("64", mid); mb("x", mid); mb("32", core);
    for (int k = 1; k <= 3; k++) for (auto t : { &full, &mid, &core }) if (t != &core || k == 2) t->push_back({ { "-" + std::string(k, 'v') }, [=](Expect &e) { e.verb = k; }, "-v" });
    for (auto t : { &full, &mid, &core }) t->push_back({ { "-M" }, [](Expect &e) { if (!ynok(e.yn["evict"])) e.vague = true; e.yn["evict"] = "no"; }, "-M" });
    for (const char *v : { "3", "0", "5000" }) { __int128 x = atoi(v); auto f = [=](Expect &e) { e.num["threads"] = x; }; full.push_back({ { "-t", v }, f, "-t" }); if (*v == '3') mid.push_back({ { "-t", "2" }, [](Expect &e) { e.num["threads"] = 2; }, "-t" }); }
    two(full, "warmup", "no", 3, [](Expect &e) { e.warm = false; }); two(full, "warmup", "yes", 3, [](Expect &e) { e.warm = true; }); two(mid, "warmup", "no", 1, [](Expect &e) { e.warm = false; });
    // endings
    for (auto t : { &full, &mid }) { t->push_back({ { "--help" }, [](Expect &e) { if (e.stop < 0) e.stop = 0; }, "help" }); t->push_back({ { "--version" }, [](Expect &e) { if (e.stop < 0) e.stop = 0; }, "help" }); }
    for (const char *v : { "--nosuch", "--nosuch=1", "nosuch", "-x", "-vvvv", "", "--", "-", "--Threads=3", "--thread=3", "--threadss=3", "-threads", "threads=3", "--cas:yes", "--help=1", "--versions", "-P", "-v1", "-p80", "--evict=" }) if (std::string(v) != "--evict=") full.push_back({ { v }, [](Expect &e) { if (e.stop < 0) e.stop = 1; }, "unknown" });
    mid.push_back({ { "--nosuch" }, [](Expect &e) { if (e.stop < 0) e.stop = 1; }, "unknown" });
    std::vector<Letter> last; // only as the last option: its value is missing
    for (auto n : YN) last.push_back({ { std::string("--") + n }, [](Expect &e) { if (e.stop < 0) e.stop = 1; }, "missing" }); for (auto n : NU) last.push_back({ { std::string("--") + n }, [](Expect &e) { if (e.stop < 0) e.stop = 1; }, "missing" }); for (const char *n : { "-p", "-h", "-s", "--auth", "--persist", "--maxmemory", "--allocator", "--port", "--seed", "-t", "-m" }) last.push_back({ { n }, [](Expect &e) { if (e.stop < 0) e.stop = 1; }, "missing" });
    Letter one = { { "--shards=1" }, [](Expect &e) { e.num["shards"] = 1; }, "shards" };
    typedef std::vector<const Letter *> V;
    optrun(V{}, true); optrun(V{ &one }, true);
    for (auto &a : full) { optrun(V{ &a }, true); if (a.name != "shards") optrun(V{ &one, &a }, true); }
    for (auto &a : last) { optrun(V{ &a }, true); for (auto &b : mid) if (b.name != "help" && b.name != "unknown") optrun(V{ &b, &a }, false); }
    for (auto &a : mid) for (auto &b : mid) { optrun(V{ &a, &b }, false); optrun(V{ &one, &a, &b }, a.name != "shards" && b.name != "shards"); }
    for (auto &a : full) for (auto &b : core) { optrun(V{ &a, &b }, false); optrun(V{ &b, &a }, false); }
    for (auto &a : core) for (auto &b : core) for (auto &c : core) optrun(V{ &one, &a, &b, &c }, T);
    if (T) { for (auto &a : mid) for (auto &b : mid) for (auto &c : mid) optrun(V{ &one, &a, &b, &c }, false); for (auto &a : core) for (auto &b : core) for (auto &c : core) for (auto &d : core) optrun(V{ &one, &a, &b, &c, &d }, false); }
}
