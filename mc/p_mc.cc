// Memcache text protocol: every command sequence against a reference model.
#include "proto.h"
extern "C" { extern int verb; }
#include <set>
enum Kind { STORE, GET, DEL, INCR, TOUCH, FLUSH, RAW, ADV, VERSION };
struct Op {
    Kind k; std::string name, key, val, exp = "0", fl = "0"; bool noreply = false; int casref = 0;
    std::string expect; // RAW: exact, or prefix when it ends without newline
    int64_t ns = 0; std::string pre; // pre: written before the length, cas token or delta
};
static std::vector<Op> ops;
static bool usecas;
static const int64_t MONTH = 30LL * 24 * 3600;

// the instant for an exptime: 0 = never, otherwise a time of the engine's clock
static int64_t exptime(int64_t e) {
    if (e == 0) return 0;
    if (e < 0) return srv_mono;                          // gone at once
    if (e <= MONTH) return srv_mono + e * SEC;
    __int128 u = (__int128)e * SEC;
    if (u > INT64_MAX) u = INT64_MAX;                    // saturates
    if (u <= srv_real) return srv_mono;
    return clampadd((__int128)srv_mono + (u - srv_real));
}
static bool isnum(const std::string &s, uint64_t &x) {
    if (s.empty() || s.size() > 20) return false;
    unsigned __int128 v = 0;
    for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); }
    if (v > UINT64_MAX) return false;
    x = v; return true;
}
struct Model {
    Map m;
    std::map<std::string, std::set<uint64_t>> seen;     // every version a key ever had
    void prune() { for (auto i = m.begin(); i != m.end();) if (i->second.exp && i->second.exp <= srv_mono) i = m.erase(i); else ++i; }
};
static std::string ask(Op &o, const Model &M, uint64_t &token) {
    const char *nr = o.noreply ? " noreply" : "";
    Map d = srv_dump();
    if (o.k == STORE) {
        std::string cs;
        if (o.name == "cas") {
            token = 0;
            auto it = d.find(o.key);
            uint64_t now = it == d.end() ? 0 : it->second.cas;
            if (o.casref == 0) token = now;
            else if (o.casref == 1) { // the newest version that is not the current one
                auto s = M.seen.find(o.key); token = 77777;
                if (s != M.seen.end()) for (uint64_t x : s->second) if (x != now) token = x;
            } else if (o.casref == 2) token = now + 1;
            else token = 0;
            cs = vfmt(" %llu", (unsigned long long)token);
        }
        if (!cs.empty()) cs.insert(1, o.pre);
        return o.name + " " + o.key + " " + o.fl + " " + o.exp + " " + o.pre + std::to_string(o.val.size()) + cs + nr + "\r\n" + o.val + "\r\n";
    }
    if (o.k == GET) return o.name + " " + o.key + "\r\n";
    if (o.k == DEL) return "delete " + o.key + nr + "\r\n";
    if (o.k == INCR) return o.name + " " + o.key + " " + o.pre + o.val + nr + "\r\n";
    if (o.k == TOUCH) return "touch " + o.key + " " + o.exp + nr + "\r\n";
    if (o.k == FLUSH) return "flush_all" + (o.val.empty() ? "" : " " + o.val) + nr + "\r\n";
    if (o.k == VERSION) return "version\r\n";
    return o.val;
}
static std::string answer(Op &o, Model &M, uint64_t token, bool &prefix) {
    M.prune();
    auto it = M.m.find(o.key);
    bool have = it != M.m.end();
    prefix = false;
    switch (o.k) {
    case STORE: {
        Ent e; e.val = o.val; e.flags = strtoul(o.fl.c_str(), 0, 10); e.exp = exptime(strtoll(o.exp.c_str(), 0, 10));
        if (o.name == "add" && have) return "NOT_STORED\r\n";
        if (o.name == "replace" && !have) return "NOT_STORED\r\n";
        if (o.name == "append" || o.name == "prepend") {
            if (!have) return "NOT_STORED\r\n";
            it->second.val = o.name == "append" ? it->second.val + o.val : o.val + it->second.val;
            return "STORED\r\n";
        }
        if (o.name == "cas") {
            if (!have) return "NOT_FOUND\r\n";
            if (!usecas || it->second.cas != token) return "EXISTS\r\n";
        }
        M.m[o.key] = e; M.prune();
        return "STORED\r\n";
    }
    case GET: {
        std::string r, k; size_t p = 0;
        while (p <= o.key.size()) {
            size_t q = o.key.find(' ', p); if (q == std::string::npos) q = o.key.size();
            k = o.key.substr(p, q - p); p = q + 1;
            auto j = M.m.find(k);
            if (j == M.m.end()) continue;
            r += "VALUE " + k + " " + std::to_string(j->second.flags) + " " + std::to_string(j->second.val.size());
            if (o.name == "gets") r += " " + std::to_string(j->second.cas);
            r += "\r\n" + j->second.val + "\r\n";
        }
        return r + "END\r\n";
    }
    case DEL: if (!have) return "NOT_FOUND\r\n"; M.m.erase(it); return "DELETED\r\n";
    case INCR: {
        uint64_t d, v;
        if (!isnum(o.val, d)) { prefix = true; return "CLIENT_ERROR "; }
        if (!have) return "NOT_FOUND\r\n";
        if (!isnum(it->second.val, v)) { prefix = true; return "CLIENT_ERROR "; }
        v = o.name == "incr" ? v + d : v < d ? 0 : v - d;
        it->second.val = std::to_string(v);
        return it->second.val + "\r\n";
    }
    case TOUCH: if (!have) return "NOT_FOUND\r\n"; it->second.exp = exptime(strtoll(o.exp.c_str(), 0, 10)); M.prune(); return "TOUCHED\r\n";
    case FLUSH: M.m.clear(); return "OK\r\n";
    case VERSION: prefix = true; return "VERSION ";
    case RAW: prefix = o.expect.empty() ? false : o.expect.back() != '\n'; return o.expect;
    case ADV: return "";
    }
    return "";
}
static Op st(const char *n, const char *k, const char *fl, const char *ex, const char *v, int cr = 0, bool nr = false) { Op o; o.k = STORE; o.name = n; o.key = k; o.fl = fl; o.exp = ex; o.val = v; o.casref = cr; o.noreply = nr; return o; }
static Op get(const char *n, const char *ks) { Op o; o.k = GET; o.name = n; o.key = ks; return o; }
static Op del(const char *k, bool nr = false) { Op o; o.k = DEL; o.key = k; o.noreply = nr; return o; }
static Op inc(const char *n, const char *k, const char *d, bool nr = false) { Op o; o.k = INCR; o.name = n; o.key = k; o.val = d; o.noreply = nr; return o; }
static Op touch(const char *k, const char *e, bool nr = false) { Op o; o.k = TOUCH; o.key = k; o.exp = e; o.noreply = nr; return o; }
static Op raw(const char *t, const char *e) { Op o; o.k = RAW; o.val = t; o.expect = e; return o; }
static Op adv(int64_t ns) { Op o; o.k = ADV; o.ns = ns; return o; }
static Op flush(const char *v, bool nr = false) { Op o; o.k = FLUSH; o.val = v; o.noreply = nr; return o; }

static void run(const std::vector<int> &seq, const std::vector<Op> &al) {
    srv_fresh();
    net_conn *c = srv_open();
    Model M;
    cur = usecas ? "cas=yes" : "cas=no";
    uint64_t h = 0;
    for (int i : seq) {
        Op o = al[i];
        mc_transitions++;
        if (o.k == ADV) { srv_mono += o.ns; srv_real += o.ns; M.prune(); cur += vfmt(" | advance %lldns", (long long)o.ns); continue; }
        uint64_t token = 0;
        std::string q = ask(o, M, token);
        cur += " | " + q;
        bool prefix;
        Map before = M.m;
        std::string want = answer(o, M, token, prefix);
        bool isdelay = o.k == FLUSH && !o.val.empty() && o.val != "0";
        if (isdelay) { srv_deferthreads = true; srv_slept = -1; }
        std::string got = srv_req(c, q);
        if (isdelay) {
            // accepted now, carried out once the delay has passed
            srv_deferthreads = false;
            M.m = before; M.prune();
            check_dump(M.m, "before the flush delay has passed");
            int64_t d = atoll(o.val.c_str());
            srv_mono += d * SEC; srv_real += d * SEC;
            if (srv_rundeferred() != 1 || srv_slept != d) mc_fail("delay", "the flush was not scheduled after %lld seconds", (long long)d);
            M.m.clear();
        }
        if (o.noreply && !prefix) want = "";
        else if (o.noreply && prefix && o.k != RAW) { want = ""; prefix = false; }
        bool ok = prefix ? starts(got, want) && got.size() > want.size() + 1 && got.find("\r\n") == got.size() - 2 : got == want;
        if (!ok) mc_fail("reply", "the reply to %s is %s but must be %s%s", esc(q).c_str(), esc(got).c_str(), esc(want).c_str(), prefix ? "... (one line)" : "");
        if (c->closed) mc_fail("closed", "the connection was closed by %s", esc(q).c_str());
        Map d = srv_dump();
        if (!(d == M.m)) mc_fail("state", "after %s the cache is %s but must be %s", esc(q).c_str(), showdump(d).c_str(), showdump(M.m).c_str());
        for (auto &x : d) {
            Ent &e = M.m[x.first];
            bool changed = !before.count(x.first) || !(before[x.first] == x.second) || (o.k == STORE && want == "STORED\r\n" && o.key == x.first);
            if (usecas && x.second.cas != e.cas && M.seen[x.first].count(x.second.cas)) mc_fail("version", "key %s got version %llu again", esc(x.first).c_str(), (unsigned long long)x.second.cas);
            if (usecas && changed && before.count(x.first) && x.second.cas == before[x.first].cas && o.k != TOUCH && o.k != FLUSH)
                mc_fail("version", "key %s was modified but kept version %llu", esc(x.first).c_str(), (unsigned long long)x.second.cas);
            e.cas = x.second.cas; M.seen[x.first].insert(e.cas);
        }
        h = mc_hash(got.data(), got.size(), h);
    }
    uint64_t sh = 7;
    for (auto &x : M.m) { sh = mc_hash(x.first.data(), x.first.size(), sh); sh = mc_hash(x.second.val.data(), x.second.val.size(), sh); sh = mc_hash64(x.second.exp ^ ((uint64_t)x.second.flags << 40), sh); }
    mc_state(sh); mc_outcome(h);
    srv_close(c);
    srv_endcase();
    mc_traces++;
    if (mc_traces % 50000 == 1) mc_sample("%s", esc(cur).c_str());
}
static void explore(bool cas) {
    usecas = cas; srv_popts.usecas = cas; srv_popts.nshards = 1;
    std::vector<Op> A = {
        st("set", "k", "0", "0", "5"), st("set", "k", "7", "2", "abc"), st("set", "k", "0", "0", ""), st("set", "k", "4294967295", "0", "18446744073709551615"),
        st("set", "k", "0", "-1", "x"), st("set", "j", "1", "0", "j1"), st("set", "k", "3", "0", "n", 0, true), st("set", "k", "0", "2", "v\r\n"),
        st("set", "k", "0", "2592000", "m"), st("set", "k", "0", "2592001", "p"), st("set", "k", "0", "1700000009", "f"), st("set", "k", "0", "9223372036854775807", "h"),
        st("add", "k", "2", "0", "a"), st("add", "j", "2", "2", "b"), st("add", "k", "0", "0", "a", 0, true),
        st("replace", "k", "4", "0", "r"), st("replace", "k", "4", "2", "99", 0, true),
        st("append", "k", "9", "9", "0"), st("append", "k", "9", "-1", "zz", 0, true), st("prepend", "k", "9", "0", "1"), st("prepend", "k", "0", "0", ""),
        st("cas", "k", "5", "0", "c0", 0), st("cas", "k", "5", "2", "c1", 1), st("cas", "k", "0", "0", "c2", 2), st("cas", "k", "0", "0", "c3", 3), st("cas", "k", "6", "0", "8", 0, true), st("cas", "j", "6", "0", "8", 0),
        get("get", "k"), get("get", "j"), get("get", "k j k"), get("gets", "k"), get("gets", "j k"),
        del("k"), del("j"), del("k", true),
        inc("incr", "k", "3"), inc("incr", "k", "18446744073709551615"), inc("incr", "k", "1", true), inc("decr", "k", "3"), inc("decr", "k", "18446744073709551615"), inc("decr", "k", "1", true),
        inc("incr", "k", "x"), inc("incr", "k", "-1"), inc("decr", "j", "1"), inc("incr", "k", "18446744073709551616"),
        touch("k", "0"), touch("k", "2"), touch("k", "-1"), touch("k", "2592001"), touch("k", "1700000009"), touch("k", "5", true), touch("j", "1"),
        flush(""), flush("0"), flush("2"), flush("", true),
        adv(2 * SEC - 1), adv(1), adv(2 * SEC),
        raw("bogus\r\n", "ERROR\r\n"), raw("\r\n", "ERROR\r\n"), raw("get\r\n", "ERROR\r\n"), raw("set k 0 0\r\n", "ERROR\r\n"), raw("set k x 0 1\r\n", "CLIENT_ERROR "),
        raw("set k 0 x 1\r\n", "CLIENT_ERROR "), raw("set k 0 0 -1\r\n", "CLIENT_ERROR "), raw("set k 4294967296 0 1\r\n", "CLIENT_ERROR "), raw("set k -1 0 1\r\n", "CLIENT_ERROR "),
        raw("set k 0 0 2\r\nabXY", "CLIENT_ERROR "), raw("append k 0 0 1\r\nabc", "CLIENT_ERROR "), raw("cas k 0 0 1\r\n", "ERROR\r\n"), raw("cas k 0 0 1 x\r\n", "CLIENT_ERROR "),
        raw("incr k\r\n", "ERROR\r\n"), raw("touch k\r\n", "ERROR\r\n"), raw("delete\r\n", "ERROR\r\n"), raw("touch k x\r\n", "CLIENT_ERROR "), raw("flush_all x\r\n", "CLIENT_ERROR "),
        raw("set k\x01 0 0 1\r\n", "CLIENT_ERROR "),
        raw(("get " + std::string(251, 'k') + "\r\n").c_str(), "CLIENT_ERROR "),
    };
    Op v; v.k = VERSION; A.push_back(v);
    mc_note(cas ? "alphabet_cas" : "alphabet_nocas", mc_part == 0 ? A.size() : 0);
    each_seq(A.size(), 3, [&](const std::vector<int> &s) { run(s, A); });
    // deeper: the storage core
    std::vector<Op> B;
    for (size_t i = 0; i < A.size(); i++) {
        const Op &o = A[i];
        if (o.k == RAW || o.k == VERSION) continue;
        B.push_back(o);
    }
    std::vector<Op> C;
    for (auto &o : B) if (!o.noreply && (o.key == "k" || o.k == ADV || o.k == FLUSH) && !(o.k == STORE && o.exp.size() > 3) && !(o.k == INCR && (o.val == "x" || o.val == "-1"))) C.push_back(o);
    auto &D = mc_thorough ? B : C;
    each_seq(D.size(), 4, [&](const std::vector<int> &s) { if (s.size() == 4) run(s, D); });
    verb = 3; each_seq(A.size(), 2, [&](const std::vector<int> &s) { if (s.size() == 2) run(s, A); }); verb = 0; // a verbose server answers the same
    // every written form of the numbers in every storage command, on an absent and a present key
    int n = 0;
    for (const char *nm : { "set", "add", "replace", "append", "prepend", "cas" }) for (const char *f : { "0", "00", "1", "01", "010", "+1", "+0", "0000000007", "4294967295", "04294967295" }) for (const char *e : { "0", "00", "1", "01", "+2", "-1", "-01", "0010", "2592000", "02592000", "2592001", "01700000009", "+1700000009" })
        for (const char *p : { "", "0", "+", "00" }) for (int nr = 0; nr < 2; nr++) for (int pres = 0; pres < 2; pres++) for (const char *v : { "", "5", "0123456789" }) {
            if (n++ % mc_nparts != mc_part) continue;
            mc_tick();
            Op o = st(nm, "k", f, e, v, 0, nr); o.pre = p;
            Op inc1 = inc("incr", "k", "3"), dec1 = inc("decr", "k", "1", nr); inc1.pre = dec1.pre = p;
            std::vector<Op> L = { st("set", "k", "3", "0", "7"), o, get("gets", "k"), inc1, dec1, get("get", "k j"), adv(1 * SEC), get("get", "k"), touch("k", e, nr), get("gets", "k"), adv(2 * SEC), get("get", "k") };
            std::vector<int> q; for (size_t i = pres ? 0 : 1; i < L.size(); i++) q.push_back(i);
            run(q, L);
        }
    // keys and values of every boundary length, every flag width
    for (size_t kl : { 1, 2, 8, 63, 128, 129, 249, 250 }) for (size_t vl : { 0, 1, 2, 10, 255, 256, 4096, 70000 }) for (const char *f : { "0", "1", "255", "65536", "4294967295" }) {
        static std::string kk, vv; kk.assign(kl, 'q'); vv.assign(vl, 'z'); if (vl) vv[vl / 2] = '\r', vv[vl - 1] = '\n';
        std::vector<Op> L; Op o; o.k = STORE; o.name = "set"; o.key = kk; o.fl = f; o.val = vv; L.push_back(o); o.name = "append"; o.val = "\r\nEND"; L.push_back(o); o.k = GET; o.name = "gets"; L.push_back(o);
        mc_tick(); if (mc_part == (int)(kl % mc_nparts)) run({ 0, 2, 1, 2 }, L);
    }
}
static Reg r1("mc", { "--shards=1", "--cas=yes" }, [] { explore(true); explore(false); });
