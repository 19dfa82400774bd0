// Building blocks decided exhaustively within bounds: glob matching, the hash
// table of the sessions, and numbers (parsing, printing, arithmetic through
// the protocols).
#include "rmodel.h"
extern "C" {
#include "util.h"
#include "hashmap.h"
}
// ------------------------------------------------------------------------ match
static std::vector<std::string> strings(const char *al, int maxlen) {
    std::vector<std::string> r = { "" }; size_t st = 0; int na = strlen(al);
    for (int l = 1; l <= maxlen; l++) { size_t e = r.size(); for (size_t i = st; i < e; i++) for (int k = 0; k < na; k++) r.push_back(r[i] + al[k]); st = e; }
    return r;
}
static char *exact(const std::string &s) { char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); return s.size() ? p : p + 1; }
// decided by dynamic programming over all prefixes, from the documented meaning
static bool globref(const std::string &p, const std::string &s) {
    struct T { int kind; char c; }; std::vector<T> t;
    for (size_t i = 0; i < p.size(); i++) {
        if (p[i] == '*') t.push_back({ 2, 0 });
        else if (p[i] == '?') t.push_back({ 1, 0 });
        else if (p[i] == '\\') { if (++i == p.size()) return false; t.push_back({ 0, p[i] }); }
        else t.push_back({ 0, p[i] });
    }
    std::vector<char> d(s.size() + 1, 0); d[0] = 1;
    for (auto &x : t) {
        std::vector<char> n(s.size() + 1, 0); bool any = false;
        for (size_t j = 0; j <= s.size(); j++) {
            if (x.kind == 2) { any = any || d[j]; n[j] = any; }
            else if (j && d[j - 1] && (x.kind == 1 || s[j - 1] == x.c)) n[j] = 1;
        }
        d.swap(n);
    }
    return d[s.size()];
}
static void one(const std::string &p, const std::string &s, const char *pp, const char *sp, uint64_t *bits) {
    bool want = globref(p, s), got = match(pp, p.size(), sp, s.size(), 0);
    mc_transitions++; *bits = *bits * 3 + got + 1;
    if (got != want) { cur = "pattern [" + p + "] string [" + s + "]"; mc_fail("match", "pattern %s and string %s: %d but must be %d", esc(p).c_str(), esc(s).c_str(), got, want); }
}
static void pairs(const char *pal, int pl, const char *sal, int sl) {
    auto P = strings(pal, pl), S = strings(sal, sl);
    std::vector<char *> sp; for (auto &s : S) sp.push_back(exact(s));
    for (size_t i = 0; i < P.size(); i++) {
        if ((int)(i % mc_nparts) != mc_part) continue;
        mc_tick(); cur = "pattern [" + P[i] + "]";
        char *pp = exact(P[i]); uint64_t bits = 0;
        for (size_t k = 0; k < S.size(); k++) one(P[i], S[k], pp, sp[k], &bits);
        mc_outcome(bits); mc_state(mc_hash(P[i].data(), P[i].size(), 1)); mc_traces++;
        free(P[i].size() ? pp : pp - 1);
        if (i % 3001 == 7) mc_sample("pattern %s against %zu strings", esc(P[i]).c_str(), S.size());
    }
    for (size_t k = 0; k < S.size(); k++) free(S[k].size() ? sp[k] : sp[k] - 1);
}
static void single(const std::string &p, const std::string &s) {
    mc_tick(); cur = "pattern [" + (p.size() > 300 ? p.substr(0, 300) + "..." : p) + "]"; uint64_t b = 0; char *pp = exact(p), *sp = exact(s); one(p, s, pp, sp, &b); mc_outcome(b + 100); mc_traces++; free(p.size() ? pp : pp - 1); free(s.size() ? sp : sp - 1);
}
static void run_match() {
    if (mc_thorough) pairs("ab*?\\", 7, "ab*?\\", 6); else { pairs("ab*?\\", 6, "ab*?\\", 4); pairs("a*?", 6, "ab", 7); }
    pairs("a*", mc_thorough ? 14 : 12, "ab", mc_thorough ? 10 : 9);
    int n = 0;
    for (int a = 0; a < 256; a++) {
        if (n++ % mc_nparts != mc_part) continue;
        std::string A(1, (char)a);
        for (int b = 0; b < 256; b++) { std::string B(1, (char)b); single(A, B); single("\\" + A, B); single("*" + A, "x" + B); single("?" + A, A + B); single(A + "*" + B, A + B); single("[" + A + "]", B); }
    }
    // shapes that need much backtracking in a naive matcher, and many stars
    for (int k : { 1, 5, 20, 60, 126, 127, 128, 129, 130, 255, 256, 300, 1000 }) for (int m : { 0, 1, 30, 64, 127, 128, 1000, 3000 }) {
        if (n++ % mc_nparts != mc_part) continue;
        std::string p, q, r, s(m, 'a');
        for (int i = 0; i < k; i++) { p += "*a"; q += "*?"; r += "*"; }
        for (auto &x : { p + "*", p, p + "b", p + "*b", q, q + "b", r, r + "a", r + "b", r + "\\", p + "\\", "a" + p }) { single(x, s); single(x, s + "b"); single(x, "b" + s); }
    }
    if (mc_part == 0) { std::string L(200000, 'a'); single("*" + std::string(100, 'a') + "b", L); single("*a*a*a*a*b*", L); single("*aab", L + "ab"); std::string M(3000, 'a'); single("?" + M, M + "a"); single(M, M); single(M + "*", M); single(M + "?", M); }
}
static Reg r1("match", {}, run_match);
// ---------------------------------------------------------------------- hashmap
struct El { int key; int id; };
static int hpat[8]; static int bgpat; static int live_allocs, failat, nalloc; static bool failfrom;
static std::vector<char> released;
static uint64_t hhash(const void *it, uint64_t, uint64_t) {
    El e; memcpy(&e, it, sizeof e);
    uint64_t x = e.key < 8 ? hpat[e.key] : bgpat == 0 ? (uint64_t)(e.key * 7 + 3) : bgpat == 1 ? 15 : 14 + e.key % 3 + (uint64_t)(e.key << 6);
    return x | 0xABCD000000000000ull * (e.key & 1);          // the bits beyond 48 do not count
}
static int hcmp(const void *a, const void *b, void *ud) { if (ud != (void *)&hpat) mc_fail("udata", "the comparator got a wrong udata"); El x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); return x.key - y.key; }
static void rel(int id, const char *how) { if (id < 0 || id >= (int)released.size()) mc_fail("release", "an element that was never stored was released by %s", how); if (released[id]) mc_fail("release", "element %d was released twice (%s)", id, how); released[id] = 1; }
static void hfree(void *it) { El e; memcpy(&e, it, sizeof e); rel(e.id, "the element callback"); }
static void *amalloc(size_t n) { nalloc++; if (nalloc == failat || (failfrom && failat && nalloc > failat)) return 0; live_allocs++; return malloc(n); }
static void *arealloc(void *p, size_t n) { mc_fail("realloc", "unexpected"); return realloc(p, n); }
static void afree(void *p) { if (p) live_allocs--; free(p); }
struct HM {
    struct hashmap *h; std::map<int, int> m; uint64_t out = 0;
    bool open(size_t cap, int power, double lf) {
        nalloc = 0; live_allocs = 0; released.clear();
        h = hashmap_new_with_allocator(amalloc, arealloc, afree, sizeof(El), cap, 1, 2, hhash, hcmp, hfree, hpat);
        if (!h) { if (live_allocs) mc_fail("leak", "a failed creation leaked"); return false; }
        if (power) hashmap_set_grow_by_power(h, power);
        if (lf) hashmap_set_load_factor(h, lf);
        return true;
    }
    void set(int k) {
        El e = { k, (int)released.size() }; released.push_back(0);
        char *p = (char *)malloc(sizeof e); memcpy(p, &e, sizeof e);
        const void *r = hashmap_set(h, p); free(p);
        if (hashmap_oom(h)) { if (r) mc_fail("oom", "a failed set returned an element"); if (!failat) mc_fail("oom", "out of memory without a failure"); released[e.id] = 1; out = out * 7 + 1; return; }
        if ((r != 0) != m.count(k)) mc_fail("set", "set of %d returned %s", k, r ? "an element" : "nothing");
        if (r) { El o; memcpy(&o, r, sizeof o); if (o.key != k || o.id != m[k]) mc_fail("set", "set of %d returned element %d:%d but replaced %d", k, o.key, o.id, m[k]); rel(o.id, "replacement"); }
        m[k] = e.id; out = out * 7 + 2 + !!r;
    }
    void del(int k) {
        El e = { k, -1 }; const void *r = hashmap_delete(h, &e);
        if ((r != 0) != m.count(k)) mc_fail("delete", "delete of %d returned %s", k, r ? "an element" : "nothing");
        if (r) { El o; memcpy(&o, r, sizeof o); if (o.key != k || o.id != m[k]) mc_fail("delete", "delete of %d returned element %d:%d", k, o.key, o.id); rel(o.id, "deletion"); m.erase(k); }
        out = out * 7 + 4 + !!r;
    }
    static bool it(const void *p, void *ud) { El e; memcpy(&e, p, sizeof e); auto *v = (std::vector<El> *)ud; v->push_back(e); return true; }
    static bool it1(const void *, void *ud) { return ++*(int *)ud < 2; }
    void check() {
        if (hashmap_count(h) != m.size()) mc_fail("count", "count is %zu but must be %zu", hashmap_count(h), m.size());
        std::vector<El> v; if (!hashmap_scan(h, it, &v)) mc_fail("scan", "scan stopped");
        std::vector<El> w; size_t i = 0; void *item; while (hashmap_iter(h, &i, &item)) { El e; memcpy(&e, item, sizeof e); w.push_back(e); if (w.size() > 1000) break; }
        for (auto *x : { &v, &w }) { if (x->size() != m.size()) mc_fail("scan", "%zu elements seen but must be %zu", x->size(), m.size()); std::set<int> seen; for (auto &e : *x) if (!m.count(e.key) || m[e.key] != e.id || !seen.insert(e.key).second) mc_fail("scan", "element %d:%d seen", e.key, e.id); }
        int n = 0; bool full = hashmap_scan(h, it1, &n); if (full != (m.size() < 2) || n != (int)std::min<size_t>(m.size(), 2)) mc_fail("scan", "a stopped scan saw %d elements", n);
        for (int k = 0; k < 40; k++) {
            El e = { k, 0 }; const void *r = hashmap_get(h, &e);
            if ((r != 0) != m.count(k)) mc_fail("get", "get of %d returned %s", k, r ? "an element" : "nothing");
            if (r) { El o; memcpy(&o, r, sizeof o); if (o.key != k || o.id != m[k]) mc_fail("get", "get of %d returned element %d:%d but must be %d", k, o.key, o.id, m[k]); }
        }
    }
    void clear(bool upd) { hashmap_clear(h, upd); m.clear(); for (size_t i = 0; i < released.size(); i++) if (!released[i]) mc_fail("release", "element %zu was not released by clear", i); out = out * 7; }
    void close() { hashmap_free(h); for (size_t i = 0; i < released.size(); i++) if (!released[i]) mc_fail("release", "element %zu was never released", i); if (live_allocs) mc_fail("leak", "%d allocations were not released", live_allocs); }
    void letter(int l, int nk) {
        if (l < nk) set(l); else if (l < 2 * nk) del(l - nk);
        else switch (l - 2 * nk) {
        case 0: clear(false); break;
        case 1: clear(true); break;
        case 2: for (int k = 8; k < 18; k++) set(k); break;
        case 3: for (int k = 17; k >= 8; k--) del(k); break;
        case 4: for (int k = 8; k < 40; k++) set(k); break;
        }
    }
};
static void run_hashmap() {
    const int nk = 4, na = 2 * nk + 5; uint64_t idx = 0;
    static const int homes[] = { 15, 14, 0x100000f, 0 };     // wraps, neighbour, same slot but another hash, after the wrap
    struct Cfg { size_t cap; int power; double lf; int bg; } cfgs[] = { { 0, 0, 0, 0 }, { 0, 0, 0, 1 }, { 0, 0, 0, 2 }, { 0, 2, 0, 0 }, { 0, 0, 0.95, 2 }, { 17, 0, 0.5, 1 }, { 64, 3, 0, 2 } };
    int npat = 256;
    for (auto &c : cfgs) for (int pat = 0; pat < npat; pat++) {
        bool full = mc_thorough || pat == 0 || pat == 0b00011011 || pat == 0b10001000 || pat == 0b11100100 || pat == 0b00010001;
        int depth = mc_thorough ? (pat % 17 == 0 ? 5 : 4) : full ? 4 : 3;
        if (c.lf || c.power) depth--;
        bgpat = c.bg;
        for (int k = 0; k < 4; k++) hpat[k] = homes[pat >> (2 * k) & 3];
        std::vector<int> v(depth, 0);
        while (1) {
            if ((int)(idx++ % mc_nparts) == mc_part) {
                mc_tick();
                cur = vfmt("cap=%zu power=%d load=%g background=%d homes=%d,%d,%d,%d letters", c.cap, c.power, c.lf, c.bg, hpat[0], hpat[1], hpat[2], hpat[3]); for (int x : v) cur += vfmt(" %d", x);
                failat = 0; HM H; H.open(c.cap, c.power, c.lf);
                for (int x : v) { H.letter(x, nk); mc_transitions++; H.check(); }
                int total = nalloc; mc_outcome(H.out); uint64_t st = 0; for (auto &x : H.m) st = mc_hash64(x.first, st); mc_state(mc_hash64(pat, st)); H.close(); mc_traces++;
                if (idx % 50021 == 1) mc_sample("%s", cur.c_str());
                std::string base = cur;
                if (depth < 5 && (mc_thorough || (full && !c.power && !c.lf && (pat == 0 || pat == 0b00011011)))) for (int f = 1; f <= total; f++) for (int from = 0; from < 2; from++) {
                    failat = f; failfrom = from; cur = base + vfmt(" failing allocation %d%s", f, from ? " and all after" : "");
                    HM G; if (!G.open(c.cap, c.power, c.lf)) { failat = 0; failfrom = false; continue; }
                    for (int x : v) { G.letter(x, nk); mc_transitions++; G.check(); }
                    G.close(); mc_traces++; failat = 0; failfrom = false;
                }
            }
            int i = depth - 1;
            while (i >= 0 && ++v[i] == na) v[i--] = 0;
            if (i < 0) break;
        }
    }
    // ids, names and hashes as the sessions use them: every length and alignment
    if (mc_part == 0) for (int len = 0; len < 70; len++) for (int al = 0; al < 8; al++) {
        char *p = (char *)malloc(len + al + 1); memset(p, 'x', len + al); cur = vfmt("hash of %d bytes", len); mc_tick();
        uint64_t a = hashmap_murmur(p + al, len, 1, 2); char *q = (char *)malloc(len ? len : 1); memset(q, 'x', len); if (a != hashmap_murmur(q, len, 1, 2)) mc_fail("hash", "the hash depends on the address"); mc_traces++; free(p); free(q);
    }
}
static Reg r2("hashmap", {}, run_hashmap);
// ---------------------------------------------------------------------- numbers
static std::vector<std::string> numbers() {
    std::vector<std::string> r;
    __int128 b[] = { 0, 1, 2, 9, 10, 127, 128, 255, 256, 32767, 65535, 65536, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 999999999999LL, 4611686018427387904LL, INT64_MAX, (__int128)INT64_MAX + 1, (__int128)INT64_MAX + 2, UINT64_MAX - 1, UINT64_MAX, (__int128)UINT64_MAX + 1, (__int128)UINT64_MAX * 5 };
    for (__int128 v : b) for (int sg = 0; sg < 3; sg++) { std::string s; __int128 x = v; do { s.insert(s.begin(), '0' + (int)(x % 10)); x /= 10; } while (x); r.push_back((sg == 1 ? "-" : sg == 2 ? "+" : "") + s); }
    for (auto s : { "", "00", "007", "-0", "-00", "+0", "0x10", "1e3", "1.5", ".5", "1.", " 1", "1 ", "\t1", "1\n", "--1", "+-1", "-", "+", "abc", "1a", "a1", "000000000000000000001", "0000000000000000000001", "-00000000000000000001", "999999999999999999999", "9999999999999999999999", "1,000", "1_000", "\xd9\xa1", "inf", "nan", "0b1", "'1'" }) r.push_back(s);
    r.push_back(std::string("1\0", 2)); r.push_back(std::string("\0", 1)); r.push_back(std::string("1\0002", 3));
    return r;
}
static void parse1(const std::string &s) {
    mc_transitions++; cur = "number [" + s + "]";
    int64_t i = 0, wi = 0; uint64_t u = 0, wu = 0; char *p = exact(s);
    bool gi = parse_i64(p, s.size(), &i), gu = parse_u64(p, s.size(), &u), xi = i64of(s, wi), xu = u64of(s, wu);
    free(s.size() ? p : p - 1);
    if (gi != xi || (xi && i != wi)) mc_fail("i64", "%s is read as a signed number: %d %lld but must be %d %lld", esc(s).c_str(), gi, (long long)i, xi, (long long)wi);
    if (gu != xu || (xu && u != wu)) mc_fail("u64", "%s is read as an unsigned number: %d %llu but must be %d %llu", esc(s).c_str(), gu, (unsigned long long)u, xu, (unsigned long long)wu);
    mc_outcome(mc_hash64(i * 4 + gi + 2 * gu, 5)); mc_traces++;
}
static void print1(uint64_t x) {
    mc_transitions++; cur = "printing a number"; char b[24], w[32]; size_t n;
    uint8_t *p = (uint8_t *)malloc(21); n = u64toa(x, p); snprintf(w, sizeof w, "%llu", (unsigned long long)x); if (n != strlen(w) || memcmp(w, p, n + 1)) mc_fail("print", "%s is printed as %s", w, esc(std::string((char *)p, n)).c_str());
    n = i64toa((int64_t)x, p); snprintf(w, sizeof w, "%lld", (long long)x); if (n != strlen(w) || memcmp(w, p, n + 1)) mc_fail("print", "%s is printed as %s", w, esc(std::string((char *)p, n)).c_str());
    free(p); (void)b; mc_traces++;
}
static void run_num() {
    uint64_t idx = 0; auto mine = [&] { mc_tick(); return (int)(idx++ % mc_nparts) == mc_part; };
    // all short texts
    static const char al[] = "0129+- .xe\n\t\x80"; int na = sizeof al; // with the NUL
    for (int len = 0; len <= (mc_thorough ? 6 : 5); len++) { std::vector<int> v(len, 0); while (1) { if (mine()) { std::string s; for (int k : v) s += al[k]; parse1(s); } int i = len - 1; while (i >= 0 && ++v[i] == na) v[i--] = 0; if (i < 0) break; } }
    auto N = numbers();
    for (auto &s : N) { if (!mine()) continue; parse1(s); for (auto pre : { "", "0", "+", "-", " ", "00000000000" }) for (auto suf : { "", "0", " ", "x", "\n" }) parse1(pre + s + suf); }
    for (uint64_t x = 0; x < 20000; x++) if (mine()) { print1(x); print1(-x); print1(INT64_MAX - x); print1((uint64_t)INT64_MAX + x); }
    for (uint64_t p = 10; p; p = p > UINT64_MAX / 10 ? 0 : p * 10) if (mine()) for (int d = -3; d <= 3; d++) { print1(p + d); print1(-(p + d)); print1(p * 9 + d); }
    for (int k = 0; k < 64; k++) if (mine()) for (int d = -3; d <= 3; d++) { print1((1ull << k) + d); print1(-((1ull << k) + d)); }
    // saturating arithmetic behind the expirations
    std::vector<int64_t> B; for (int k = 0; k < 63; k++) for (int d = -1; d <= 1; d++) { B.push_back((1ll << k) + d); B.push_back(-((1ll << k) + d)); } B.push_back(INT64_MAX); B.push_back(INT64_MIN); B.push_back(INT64_MIN + 1); B.push_back(1000000000); B.push_back(1000000); B.push_back(9223372036ll); B.push_back(9223372037ll); B.push_back(-9223372036ll); B.push_back(-9223372037ll);
    for (int64_t a : B) for (int64_t b : B) if (mine()) {
        cur = vfmt("%lld and %lld", (long long)a, (long long)b); mc_transitions += 2;
        if (int64_add_clamp(a, b) != clampadd((__int128)a + b)) mc_fail("add", "sum is %lld", (long long)int64_add_clamp(a, b));
        if (int64_mul_clamp(a, b) != clampadd((__int128)a * b)) mc_fail("mul", "product is %lld", (long long)int64_mul_clamp(a, b));
    }
    // every stored text with every delta, in every command
    srv_popts.nshards = 1; srv_popts.usecas = usecas = true;
    for (auto &v : N) for (auto &d : N) {
        if (!mine()) continue;
        for (auto c : { "INCRBY", "DECRBY", "UINCRBY", "UDECRBY" }) { RRun r; r.step({ "SET", "k", v, "FLAGS", "3", "EX", "100" }); r.step({ c, "k", d }); r.step({ c, "new", d }); r.end(); }
        { // memcache: numbers wrap up and stop at zero
            srv_fresh(); net_conn *c = srv_open();
            for (int dec = 0; dec < 2; dec++) {
                bool spaces = d.empty() || d.find_first_of(std::string(" \t\r\n\0", 5)) != std::string::npos;
                if (spaces) continue;
                cur = vfmt("memcache %s [%s] by [%s]", dec ? "decr" : "incr", esc(v).c_str(), esc(d).c_str());
                srv_req(c, "set k 5 0 " + std::to_string(v.size()) + "\r\n" + v + "\r\n");
                std::string got = srv_req(c, (dec ? "decr k " : "incr k ") + d + "\r\n"); mc_transitions++;
                uint64_t x, y; std::string nv = v;
                bool okd = u64of(d, y), okv = u64of(v, x); bool ok;
                if (!okd || !okv) ok = starts(got, "CLIENT_ERROR") || got == "ERROR\r\n";
                else { uint64_t z = dec ? (x < y ? 0 : x - y) : x + y; nv = std::to_string(z); ok = got == nv + "\r\n"; }
                if (!ok) mc_fail("reply", "the reply is %s", esc(got).c_str());
                Map m = srv_dump(); if (m.size() != 1 || m["k"].val != nv || m["k"].flags != 5 || m["k"].exp) mc_fail("state", "the cache is %s but the value must be %s", showdump(m).c_str(), esc(nv).c_str());
                mc_outcome(mc_hash(got.data(), got.size(), 9));
            }
            srv_close(c); srv_endcase(); mc_traces++;
        }
    }
    for (auto &v : N) if (mine()) for (auto c : { "INCR", "DECR", "UINCR", "UDECR" }) { RRun r; r.step({ "SET", "k", v }); r.step({ c, "k" }); r.step({ "GET", "k" }); r.end(); }
    // every text in every numeric argument
    for (auto &s : N) if (mine()) {
        static const char *T[] = { "SET k v EX @", "SET k v PX @", "SET k v EXAT @", "SET k v PXAT @", "SET k v FLAGS @", "SET k v CAS @", "SETEX k @ v", "EXPIRE k @", "FLUSHALL DELAY @", "SCAN @", "SCAN 0 COUNT @", "SELECT @", "SET k v EX @ FLAGS @", "SET k v FLAGS @ KEEPTTL" };
        for (auto t : T) for (int pre = 0; pre < 2; pre++) {
            Args a = words(t); for (auto &x : a) if (x == "@") x = s;
            RRun r; if (pre) { r.step({ "SET", "k", "old", "EX", "50", "FLAGS", "9" }); r.step({ "SET", "z", "1" }); }
            r.step(a); r.step({ "PTTL", "k" }); r.step({ "MGETS", "k" }); r.advance(SEC * 60); r.step({ "TTL", "k" }); r.end();
        }
    }
}
static Reg r3("num", { "--cas=yes" }, run_num);
