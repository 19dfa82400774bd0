// Saving and loading on the file system in memory: round trips, crashes and
// faults at every point, and damaged files.
#include "rmodel.h"
#include "memfs.h"
#include <unistd.h>
#include <signal.h>
extern "C" {
#include "save.h"
#include "lz4.h"
#include "buf.h"
#include "util.h"
int small_save(const char *path, bool fast); int small_load(const char *path, bool fast, struct load_stats *stats);
extern char *persist; void sigterm(int);
size_t xallocs(void);
int mc_nprocs = 1;
int __wrap_sys_nprocs(void) { return mc_nprocs; }
}
namespace {
typedef int (*SaveFn)(const char *, bool); typedef int (*LoadFn)(const char *, bool, struct load_stats *);
const char *PATH = "/mcfs/d/f";
struct E { std::string k, v; uint32_t fl; int64_t ttl; };
typedef std::vector<E> Es;
uint64_t idx;
bool mine() { return (int)(idx++ % mc_nparts) == mc_part; }
std::string rnd(size_t n, uint64_t s) { std::string r(n, 0); for (auto &c : r) { s = s * 6364136223846793005ull + 1442695040888963407ull; c = s >> 56; } return r; }
std::string bytes256() { std::string r; for (int i = 0; i < 256; i++) r += (char)i; return r; }
void put(const E &e) {
    struct pogocache_store_opts o = {}; o.time = srv_mono; o.flags = e.fl; o.ttl = e.ttl; o.cas = 7;
    if (pogocache_store(cache, e.k.data(), e.k.size(), e.v.data(), e.v.size(), &o) > POGOCACHE_REPLACED) mc_die("store");
}
std::string show(const E &e) { auto s = [](const std::string &x) { return x.size() > 40 ? vfmt("<%zu bytes>", x.size()) : x; }; return "[" + s(e.k) + "=" + s(e.v) + vfmt(" fl %u ttl %lld]", e.fl, (long long)e.ttl); }
std::string show(const Es &es) { std::string r; for (auto &e : es) r += show(e); return r; }
void fresh(int shards, bool six = true, bool cas = false) { srv_popts.nshards = shards; srv_popts.nosixpack = !six; srv_popts.usecas = cas; srv_realthreads = false; srv_fresh(); }
// what loading must leave: pre-existing contents (a dump), saved entries with their wall clock ends
struct Saved { Map m; int64_t mono, real; bool slow = false; };   // dump at the start of the save, clocks at its end, did time pass meanwhile
Map expect(const Saved &s, Map pre, size_t *ins = 0, size_t *exp = 0) {
    size_t a = 0, b = 0;
    for (auto &x : s.m) {
        Ent e = x.second;
        if (e.exp) {
            int64_t wall = clampadd((__int128)s.real + (e.exp - s.mono));
            if (wall <= srv_real) { b++; continue; }
            e.exp = clampadd((__int128)srv_mono + (wall - srv_real));
        }
        pre[x.first] = e; a++;
    }
    if (ins) *ins = a; if (exp) *exp = b;
    return pre;
}
bool same(const Map &a, const Map &b) {   // expirations beyond the year 2200 are all the same
    if (a.size() != b.size()) return false;
    for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) {
        if (i->first != j->first || i->second.val != j->second.val || i->second.flags != j->second.flags) return false;
        int64_t x = i->second.exp, y = j->second.exp, big = 1ll << 62;
        if (x != y && !(x > big && y > big)) return false;
    }
    return true;
}
int doload(LoadFn fn, const char *path, bool fast, struct load_stats *st) { srv_realthreads = true; int r = fn(path, fast, st); srv_realthreads = false; mc_transitions++; return r; }

// -------------------------------------------------------------------- round trip
struct Lc { int shards; bool six, fast; int procs; int64_t dmono, dreal; int pre; LoadFn fn; };
Map preload(int pre) {
    if (pre & 1) { put({ "a", "other", 9, 5 * SEC }); put({ "q", "kept", 1, 0 }); put({ "b", "", 0, 0 }); }
    if (pre & 2) { put({ "", "x", 0, 7 * SEC }); put({ std::string(128, 'k'), "y", 2, 0 }); put({ "z", "z", 0, 1000 * SEC }); }
    return srv_dump();
}
void loadcase(const std::string &img, const Saved &s, const Lc &l) {
    fresh(l.shards, l.six); mc_nprocs = l.procs;
    srv_mono = s.mono + l.dmono; srv_real = s.real + l.dreal; if (srv_mono < 1) srv_mono = 1;
    Map pre = preload(l.pre); size_t ins, ex; Map want = expect(s, pre, &ins, &ex);
    mfs_reset(); mfs_put(PATH, img);
    struct load_stats st; int r = doload(l.fn, PATH, l.fast, &st);
    if (r) mc_fail("load", "loading a complete snapshot failed");
    Map d = srv_dump();
    if (!same(d, want)) mc_fail("contents", "after loading the cache is %s but must be %s", showdump(d).c_str(), showdump(want).c_str());
    if (st.ninserted != ins || (st.nexpired != ex && !s.slow)) mc_fail("stats", "the load counted %zu inserted and %zu expired entries instead of %zu and %zu", st.ninserted, st.nexpired, ins, ex);
    if (mfs_openfds()) mc_fail("fd", "%d descriptors were left open", mfs_openfds());
    if (mfs_get(PATH) != img) mc_fail("file", "loading changed the file");
    uint64_t h = 7; for (auto &x : d) { h = mc_hash(x.first.data(), x.first.size(), h); h = mc_hash(x.second.val.data(), x.second.val.size(), h); h = mc_hash64(x.second.exp, h); }
    mc_outcome(h); mc_evals++;
    srv_endcase();
}
struct Sc { int shards; bool six, fast; int procs; SaveFn fn; int64_t mono, real; int64_t wait; int64_t tick = 0; };   // tick: how long each file operation takes
int64_t optime; void passtime() { srv_mono += optime; srv_real += optime; }
std::string savecase(const Es &es, const Sc &c, Saved &s) {
    fresh(c.shards, c.six); mc_nprocs = c.procs; srv_mono = c.mono; srv_real = c.real;
    for (auto &e : es) put(e);
    srv_mono += c.wait; srv_real += c.wait;
    s = { srv_dump(), srv_mono, srv_real };
    mfs_reset();
    mc_transitions++;
    if (c.tick) { optime = c.tick; mfs_point = passtime; }
    int r = c.fn(PATH, c.fast); mfs_point = 0;
    if (r) mc_fail("save", "saving failed");
    s.slow = s.mono != srv_mono; s.mono = srv_mono; s.real = srv_real;
    if (mfs_openfds()) mc_fail("fd", "%d descriptors were left open", mfs_openfds());
    for (auto &n : mfs.names) if (n.first != PATH && !mfs.ino[n.second].dir) mc_fail("left", "a successful save left %s", n.first.c_str());
    Map d = srv_dump(), left = s.m; for (auto i = left.begin(); i != left.end();) if (i->second.exp && i->second.exp <= srv_mono) i = left.erase(i); else ++i;
    if (!(d == left)) mc_fail("save", "saving changed the cache from %s to %s", showdump(s.m).c_str(), showdump(d).c_str());
    std::string img = mfs_get(PATH);
    srv_endcase();
    return img;
}
const int64_t M0 = 1000 * SEC + 123456789, R0 = 1700000000LL * SEC + 987654321;
void roundtrip(const Es &es, const Sc &c, const std::vector<Lc> &ls, const std::string &name) {
    mc_tick(); cur = name + show(es) + vfmt(" save{shards %d fast %d procs %d %s mono %lld real %lld wait %lld tick %lld}", c.shards, c.fast, c.procs, c.fn == save ? "" : "blocks", (long long)c.mono, (long long)c.real, (long long)c.wait, (long long)c.tick);
    std::string base = cur; Saved s; std::string img = savecase(es, c, s);
    for (auto &l : ls) {
        cur = base + vfmt(" load{shards %d fast %d procs %d mono%+lld real%+lld pre %d}", l.shards, l.fast, l.procs, (long long)l.dmono, (long long)l.dreal, l.pre);
        mc_tick(); loadcase(img, s, l);
    }
    mc_traces++; mc_state(mc_hash(img.data(), img.size(), 5));
    if (mc_traces % 97 == 1) mc_sample("%s", esc(base).substr(0, 300).c_str());
}
std::vector<E> kinds(bool big) {
    std::vector<E> r;
    std::vector<std::string> ks = { "", "a", std::string(1, 0), "abcdef", "12345678", std::string(127, 'k'), std::string(128, 'k'), bytes256(), std::string(16384, 'K') };
    std::vector<std::string> vs = { "", "1", std::string(127, 'v'), std::string(128, 'v'), rnd(300, 1), bytes256() + bytes256(), std::string(16383, 'v'), rnd(16384, 2), std::string(70000, 'w') };
    std::vector<uint32_t> fl = { 0, 1, 127, 128, 0x80000000u, 0xffffffffu };
    std::vector<int64_t> tt = { 0, 1, 127, 128, SEC - 1, SEC, 3600 * SEC, 1ll << 55, 1ll << 62, INT64_MAX };
    for (auto &k : ks) for (auto &v : vs) r.push_back({ k, v, 1, 0 });
    for (auto f : fl) for (auto t : tt) r.push_back({ "a", "v", f, t });
    if (big) { r.push_back({ "big", rnd(1048576 - 16, 3), 1, 0 }); r.push_back({ "big", rnd(1048576 + 1, 4), 1, SEC }); r.push_back({ "big", rnd(2500000, 5), 0, 0 }); r.push_back({ std::string(1200000, 'Z'), std::string(3000000, 'y'), 2, 0 }); }
    return r;
}
std::vector<std::pair<int64_t, int64_t>> shifts(const Es &es, int64_t wait) {
    std::vector<std::pair<int64_t, int64_t>> r = { { 0, 0 }, { SEC, SEC }, { -990 * SEC, 10 * SEC }, { SEC, -3600 * SEC }, { 1ll << 61, 5 }, { 5, 3600 * SEC }, { -M0, -1 } };
    for (auto &e : es) if (e.ttl > wait && e.ttl < 1ll << 60) for (int d = -1; d <= 1; d++) r.push_back({ d * 3, e.ttl - wait + d });
    return r;
}
void loads(const Es &es, int64_t wait, std::vector<Lc> &ls, LoadFn fn, bool rich) {
    auto sh = shifts(es, wait); int i = 0;
    for (auto &x : sh) {
        if (rich) for (int shards : { 1, 3 }) for (int pre = 0; pre < 4; pre++) ls.push_back({ shards, !(pre & 1), pre == 2, 1 + (pre & 1), x.first, x.second, pre, fn });
        else { ls.push_back({ i % 2 ? 1 : 3, i % 3 != 1, i % 3 == 2, 1 + i % 3, x.first, x.second, i % 4, fn }); }
        i++;
    }
}
void run_roundtrip() {
    auto K = kinds(false);
    // every single entry
    for (auto &e : K) { if (!mine()) continue; for (SaveFn fn : { save, small_save }) { std::vector<Lc> ls; loads({ e }, 0, ls, fn == save ? load : small_load, e.v.size() < 1000 && e.k.size() < 1000); roundtrip({ e }, { 2, true, false, 1, fn, M0, R0, 0 }, ls, ""); } }
    { auto B = kinds(true); for (size_t i = K.size(); i < B.size(); i++) if (mine()) for (int f = 0; f < 2; f++) { std::vector<Lc> ls; loads({ B[i] }, 0, ls, load, false); roundtrip({ { "a", "1", 0, 0 }, B[i], { "b", "2", 0, SEC } }, { 3, true, f == 1, 2, save, M0, R0, 0 }, ls, ""); } }
    // sets of entries: every subset of the pool by size, every configuration of the save
    std::vector<E> P = { { "a", "1", 0, 0 }, { "b", "two", 7, SEC }, { "c", "", 0xffffffffu, 1 }, { "dd", rnd(200, 9), 0, 5 * SEC }, { "a", "again", 3, 2 }, { "", "e", 0, 0 }, { std::string(128, 'k'), std::string(500, 'r'), 1, 3600 * SEC }, { "z1", "9", 0, 0 }, { "z2", "9", 0, 2 }, { "z3", "9", 1, 0 }, { "0", "1", 0, 1ll << 62 } };
    int maxset = mc_thorough ? 6 : 4;
    for (unsigned m = 0; m < 1u << P.size(); m++) {
        if (__builtin_popcount(m) > maxset && m != (1u << P.size()) - 1) continue;
        if (!mine()) continue;
        Es es; for (size_t i = 0; i < P.size(); i++) if (m >> i & 1) es.push_back(P[i]);
        bool full = es.size() > 5;
        for (int shards : { 1, 2, 3, 8 }) for (int procs : { 1, 2, 3, 7 }) for (int64_t wait : { (int64_t)0, (int64_t)1, (int64_t)SEC }) {
            if (!full && ((shards == 2 && procs > 3) || (shards == 8 && procs == 2)) ) continue;
            if (procs == 7 && !full && !mc_thorough) continue;
            for (SaveFn fn : { save, small_save }) { std::vector<Lc> ls; loads(es, wait, ls, fn == save ? load : small_load, full);
                roundtrip(es, { shards, (m & 1) == 0, procs > 1, procs, fn, M0, R0, wait }, ls, ""); }
        }
    }
    // the clocks at the time of the save
    for (int64_t mono : { (int64_t)1, (int64_t)SEC, (int64_t)1 << 60 }) for (int64_t real : { (int64_t)0, (int64_t)1, (int64_t)SEC, R0, (int64_t)1 << 62 }) for (auto &e : K) {
        if (e.ttl == 0 || e.fl != 127 || !mine()) continue;
        std::vector<Lc> ls; for (int64_t dr : { (int64_t)0, (int64_t)1, e.ttl - 1, e.ttl, SEC }) if (dr <= INT64_MAX - real) ls.push_back({ 2, true, false, 1, dr, dr, 0, load });
        roundtrip({ e }, { 2, true, false, 1, save, mono, real, 0 }, ls, "clock ");
    }
    // a save that takes a while: every file operation lasts a moment
    for (unsigned m = 0; m < 1u << P.size(); m++) {
        if (__builtin_popcount(m) < 2 || (__builtin_popcount(m) > maxset && m != (1u << P.size()) - 1) || !mine()) continue;
        Es es; for (size_t i = 0; i < P.size(); i++) if (m >> i & 1) es.push_back(P[i]);
        for (int shards : { 1, 3 }) for (int procs : { 1, 2 }) for (int64_t tick : { (int64_t)1, (int64_t)SEC / 3, 2 * SEC, 4000 * SEC }) for (SaveFn fn : { save, small_save }) {
            std::vector<Lc> ls; for (int64_t x : { (int64_t)0, (int64_t)1, (int64_t)SEC, (int64_t)3600 * SEC }) ls.push_back({ 2, true, procs > 1, procs, x / 2, x, 0, fn == save ? load : small_load });
            roundtrip(es, { shards, true, tick != 1, procs, fn, M0, R0, 0, tick }, ls, "slow ");
        }
    }
    // many entries in many shards
    for (int n : { 100, 1000, 5000 }) for (int shards : { 1, 7, 64, 1024 }) for (int procs : { 1, 2, 8, 100 }) {
        if (!mine()) continue;
        Es es; for (int i = 0; i < n; i++) es.push_back({ "key" + std::to_string(i), rnd(i % 90, i), (uint32_t)i, i % 3 ? 0 : (int64_t)i * SEC / 100 + 1 });
        std::vector<Lc> ls; for (int sh : { 1, 64 }) ls.push_back({ sh, true, procs > 1, procs, SEC, SEC, 1, load });
        roundtrip(es, { shards, true, procs > 1, procs, n % 200 ? save : small_save, M0, R0, SEC / 2 }, ls, "many ");
    }
}

// ------------------------------------------------------------------ crash and fault
struct Snap { Saved s; std::string img; };
// The complete contents a file stands for, or not loadable
struct Sem { bool ok; Map m; };
std::map<std::string, Sem> semcache;
const Sem &meaning(const std::string &img, int64_t mono, int64_t real) {
    auto it = semcache.find(img); if (it != semcache.end()) return it->second;
    MFs keep = mfs; auto lg = mfs_log; auto fa = mfs_faults;
    struct pogocache *mainc = cache; struct pogocache_opts o = srv_popts; o.nshards = 2; cache = pogocache_new(&o);
    int64_t km = srv_mono, kr = srv_real; srv_mono = mono; srv_real = real; int np = mc_nprocs; mc_nprocs = 1;
    mfs_reset(); mfs_put("/mcfs/d/m", img);
    Sem s; s.ok = doload(load, "/mcfs/d/m", false, 0) == 0; s.m = srv_dump();
    pogocache_free(cache); cache = mainc; srv_mono = km; srv_real = kr; mc_nprocs = np;
    mfs = keep; mfs_log = lg; mfs_faults = fa;
    return semcache[img] = s;
}
enum { A_SAVE, A_FAST, A_SMALL, A_SMALLFAST, A_RESP, A_RESPFAST, A_PG, A_TERM };
const char *AN[] = { "save()", "save(fast)", "save() in blocks", "save(fast) in blocks", "SAVE", "SAVE FAST", "postgres save", "shutdown" };
void *(*termfn)(void *); 
int pingpong; jmp_buf sleepjmp;
void onsleep() { if (++pingpong > 20) longjmp(sleepjmp, 1); }
int runexit(void *(*fn)(void *)) {           // the exit code, or -1 when it sleeps on
    static jmp_buf j; pingpong = 0; int r = -1;
    srv_sleephook = onsleep; srv_exitjmp = &j;
    if (!setjmp(sleepjmp)) { if (!setjmp(j)) fn(0); else r = srv_exitcode; }
    srv_sleephook = 0; srv_exitjmp = 0;
    return r;
}
int startserver() {                          // listening(): the exit code, or -1 when the server runs
    static jmp_buf j; volatile int r = -1; srv_exitjmp = &j; srv_realthreads = true;
    if (!setjmp(j)) srv_nopts.listening(srv_nopts.udata); else r = srv_exitcode;
    srv_exitjmp = 0; srv_realthreads = false;
    return r;
}
std::string spath;
net_conn *ac;
bool act(int a) {                            // true when the save was reported as successful
    std::string p = spath, r;
    switch (a) {
    case A_SAVE: return save(p.c_str(), false) == 0;
    case A_FAST: return save(p.c_str(), true) == 0;
    case A_SMALL: return small_save(p.c_str(), false) == 0;
    case A_SMALLFAST: return small_save(p.c_str(), true) == 0;
    case A_RESP: case A_RESPFAST: r = srv_req(ac, a == A_RESP ? resp({ "SAVE" }) : resp({ "SAVE", "TO", p, "FAST" })); if (r == OK) return true; if (!starts(r, "-")) mc_fail("reply", "SAVE was answered with %s", esc(r).c_str()); return false;
    case A_PG: { std::string q = "save to '" + p + "'"; q.push_back(0); uint32_t l = q.size() + 4; std::string m = "Q"; for (int i = 3; i >= 0; i--) m += (char)(l >> 8 * i); r = srv_req(ac, m + q); if (r.find("SAVE OK") != std::string::npos && r[0] == 'C') return true; if (r[0] != 'E') mc_fail("reply", "save was answered with %s", esc(r).c_str()); return false; }
    case A_TERM: { int c = runexit(termfn); if (c < 0) mc_die("no exit"); return c == 0; }
    }
    return false;
}
struct Case { int action; int shards, procs; Es data; int old; int mess; };
Es olddata() { return { { "old", "1", 4, 0 }, { "a", "old", 0, 100 * SEC } }; }
std::string oldimg; Map oldmap;
// the state after a crash: what the target holds, and what the next start does
struct Verify { const Case *c; const Map *newm; bool mustnew; std::string old; bool hadold; };
std::set<std::string> vseen;
void verify(const Verify &v, const MFs &f, const char *how, size_t n) {
    std::string key = v.mustnew ? "N" : "n"; for (auto &x : f.names) key += x.first + (f.ino[x.second].dir ? "/" : "") + ";"; 
    bool has = f.names.count(spath); std::string t = has ? f.ino[f.names.at(spath)].data : "";
    key += has ? "1" + t : "0";
    mc_evals++;
    if (!vseen.insert(key).second) return;
    mc_state(mc_hash(key.data(), key.size(), 1));
    bool isold = has == v.hadold && t == v.old, isnew = false;
    if (has) { const Sem &s = meaning(t, M0, R0); isnew = s.ok && same(s.m, *v.newm); }
    std::string at = vfmt("%s after %zu effects", how, n);
    if (v.mustnew ? !isnew : !(isold || isnew)) {
        std::string what = !has ? "missing" : meaning(t, M0, R0).ok ? "a snapshot holding " + showdump(meaning(t, M0, R0).m) : "not a loadable snapshot: " + esc(t);
        mc_fail(v.mustnew ? "lost" : "torn", "%s%s: the file is %s", at.c_str(), v.mustnew ? " of a save that was reported as successful" : "", what.c_str());
    }
    // the next start
    MFs keep = mfs; auto lg = mfs_log; auto fa = mfs_faults; bool un = mfs_unknown_types;
    struct pogocache *mainc = cache; struct pogocache_opts o = srv_popts; o.nshards = 2; cache = pogocache_new(&o);
    mfs_reset(); mfs = f; mfs_unknown_types = un;
    int code = startserver(); mc_transitions++;
    bool loadable = !has || meaning(t, M0, R0).ok;
    if ((code == -1) != loadable) mc_fail("start", "%s: the next start %s although the file is %s", at.c_str(), code == -1 ? "succeeds" : "fails", loadable ? "a good snapshot" : "damaged");
    if (code == -1) { Map d = srv_dump(); Map want = has ? meaning(t, M0, R0).m : Map(); if (!same(d, want)) mc_fail("start", "%s: the next start loads %s instead of %s", at.c_str(), showdump(d).c_str(), showdump(want).c_str()); }
    std::string ext = ".pogocache.work";
    for (auto &x : f.names) {
        std::string dir = x.first.substr(0, x.first.rfind('/'));
        bool w = !f.ino[x.second].dir && f.ino[x.second].dtype == 8 && x.first.size() >= ext.size() && x.first.substr(x.first.size() - ext.size()) == ext && dir == spath.substr(0, spath.rfind('/')) && x.first.substr(dir.size() + 1).size() >= ext.size();
        bool still = mfs.names.count(x.first);
        if (w && still) mc_fail("work", "%s: the next start left the work file %s", at.c_str(), x.first.c_str());
        if (!w && !still) mc_fail("removed", "%s: the next start removed %s", at.c_str(), x.first.c_str());
        if (still && mfs.ino[mfs.names[x.first]].data != f.ino[x.second].data) mc_fail("removed", "%s: the next start changed %s", at.c_str(), x.first.c_str());
    }
    for (auto &x : mfs.names) if (!f.names.count(x.first)) mc_fail("made", "%s: the next start made %s", at.c_str(), x.first.c_str());
    pogocache_free(cache); cache = mainc;
    mfs = keep; mfs_log = lg; mfs_faults = fa;
}
uint64_t leaky;    // a load that ends the process leaves its memory
int nops_last;
std::vector<int> ways_last;
void crashcase(const Case &c, const std::vector<MFault> &faults) {
    mc_tick(); mc_transitions++;
    fresh(c.shards); mc_nprocs = c.procs; srv_mono = M0; srv_real = R0;
    for (auto &e : c.data) put(e);
    Map newm = srv_dump();
    mfs_reset(); mfs_unknown_types = c.mess & 2;
    if (c.old == 1) mfs_put(spath, oldimg);
    if (c.old == 2) mfs_put(spath, "this is not a snapshot, it must survive as well");
    std::string dir = spath.substr(0, spath.rfind('/') + 1);
    if (c.mess & 1) {
        mfs_mkdir(dir + "d.pogocache.work"); mfs_put(dir + "f.0badf00d.pogocache.work", "left over"); mfs_put(dir + "f.pogocache.workx", "other"); mfs_put(dir + "pogocache.work", "other");
        mfs_put(dir + ".pogocache.work", "left over"); mfs_put(dir + "l.pogocache.work", "link", 10); mfs_put(dir + "F.POGOCACHE.WORK", "other"); mfs_put("/mcfs/elsewhere.pogocache.work", "other"); mfs_put(dir + "d.pogocache.work/x.pogocache.work", "other");
    }
    MFs base = mfs;
    ac = 0; if (c.action >= A_RESP && c.action < A_TERM) { ac = srv_open(); if (c.action == A_PG) { std::string st("\0\3\0\0user\0u\0\0", 13); uint32_t l = st.size() + 4; std::string h; for (int i = 3; i >= 0; i--) h += (char)(l >> 8 * i); srv_req(ac, h + st); } }
    mfs_begin(); mfs_faults = faults;
    cur = vfmt("%s shards %d procs %d entries %zu old %d mess %d path %s", AN[c.action], c.shards, c.procs, c.data.size(), c.old, c.mess, spath.c_str());
    for (auto &f : faults) cur += vfmt(" fault{%d,%d}", f.op, f.how);
    bool ok = act(c.action);
    nops_last = mfs_nops; ways_last = mfs_ways;
    for (auto &f : faults) if (f.op <= (int)mfs_trace.size()) cur += " (" + mfs_trace[f.op - 1] + ")";
    auto log = mfs_log; mfs_faults.clear(); bool hardf = mfs_faulted_hard; MFs after = mfs;
    if (!hardf && faults.empty() && !ok) mc_fail("refused", "a save without any fault was reported as failed");
    if (mfs_openfds()) mc_fail("fd", "%d descriptors were left open", mfs_openfds());
    bool hadold = c.old != 0; std::string old = hadold ? (c.old == 1 ? oldimg : std::string("this is not a snapshot, it must survive as well")) : "";
    // without a crash: the file right after the reply
    Verify v = { &c, &newm, ok, old, hadold };
    verify(v, after, "ended", log.size());
    for (size_t n = 0; n <= log.size(); n++) for (int kill = 0; kill < 2; kill++) {
        Verify w = v; w.mustnew = ok && n == log.size();
        mfs_crash(base, log, n, kill, spath, [&](const MFs &f) { verify(w, f, kill ? "killed" : "power lost", n); });
    }
    uint64_t h = mc_hash64(ok, c.action * 100 + c.old); for (auto &o : log) h = mc_hash64(o.kind * 131 + o.data.size(), h);
    mc_outcome(h); mc_traces++;
    if (mc_traces % 211 == 1) mc_sample("%s: %s, %zu effects", cur.substr(0, 200).c_str(), ok ? "ok" : "failed", log.size());
    if (ac) srv_close(ac);
    pogocache_free(cache); cache = 0; vseen.clear(); if (semcache.size() > 4000) semcache.clear();
}
void find_term() {
    // which of the threads started by main saves at SIGTERM
    mfs_reset(); mfs_put(PATH, oldimg); persist = (char *)PATH; fresh(1); mc_nprocs = 1; srv_mono = M0; srv_real = R0; if (startserver() != -1) mc_die("start");
    sigterm(SIGTERM);
    for (auto &t : srv_bootthreads) { int r = runexit(t.first); if (r >= 0) { termfn = t.first; if (r) mc_fail("term", "the shutdown save failed with exit code %d", r); break; } }
    if (!termfn) mc_die("no thread of main() ends after SIGTERM");
    pogocache_free(cache); cache = 0;
}
void prepare() {
    Saved s; oldimg = savecase(olddata(), { 2, true, false, 1, save, M0, R0, 0 }, s); oldmap = s.m;
    find_term();
}
void run_crash() {
    srv_popts.usecas = false; prepare();
    std::vector<Es> D = { {}, { { "a", "1", 0, 0 } }, { { "a", "1", 0, 0 }, { "b", rnd(100, 3), 1, 50 * SEC }, { "c", "3", 2, 0 }, { "k", std::string(300, 'x'), 0, 0 } } };
    if (mc_thorough) { Es e; for (int i = 0; i < 30; i++) e.push_back({ "key" + std::to_string(i), rnd(i * 5, i), (uint32_t)i, 0 }); D.push_back(e); D.push_back({ { "big", rnd(3000000, 1), 0, 0 }, { "b", "2", 0, 0 } }); }
    static char pbuf[64];
    for (const char *path : { "/mcfs/d/f", "rel.file", "/mcfs/top" }) for (int a = A_SAVE; a <= A_TERM; a++) for (size_t d = 0; d < D.size(); d++) for (int cfg = 0; cfg < 4; cfg++) for (int old = 0; old < 3; old++) for (int mess = 0; mess < 4; mess++) {
        int shards = cfg == 0 ? 1 : cfg == 1 ? 2 : 4, procs = cfg < 2 ? 1 : cfg == 2 ? 2 : 3;
        bool fast = a == A_FAST || a == A_SMALLFAST || a == A_RESPFAST || a == A_TERM;
        if (!fast && cfg == 3) continue;
        if (path != (const char *)0 && strcmp(path, "/mcfs/d/f") && (d != 1 || cfg != 1)) continue;
        if (mess && (cfg > 1 || d > 1)) continue;
        if (!mine()) continue;
        spath = path[0] == '/' ? path : std::string("/mcfs/cwd/") + path;
        // the server sees the path as given
        std::string given = path; snprintf(pbuf, sizeof pbuf, "%s", path); persist = pbuf;
        Case c = { a, shards, procs, D[d], old, mess };
        crashcase(c, {});
        int n = nops_last; auto ways = ways_last;
        for (int i = 1; i <= n; i++) for (int h = 0; h < ways[i - 1]; h++) {
            crashcase(c, { { i, h } });
            // a second fault
            bool deep = mc_thorough || d < 3;
            if (!deep) continue;
            int n2 = nops_last; auto w2 = ways_last;
            for (int j = i + 1; j <= n2; j++) for (int h2 = 0; h2 < w2[j - 1]; h2++) {
                crashcase(c, { { i, h }, { j, h2 } });
                if (!mc_thorough || d > 2 || mess) continue;
                int n3 = nops_last; auto w3 = ways_last;
                for (int k = j + 1; k <= n3; k++) for (int h3 = 0; h3 < w3[k - 1]; h3++) crashcase(c, { { i, h }, { j, h2 }, { k, h3 } });
            }
        }
    }
}

// ------------------------------------------------------------------- server life
struct Ev { const char *name; const char *cmd; };
const Ev EV[] = { { "set a", "SET a 1" }, { "set b ex", "SET b 22 EX 5 FLAGS 9" }, { "set a px", "SET a 3 PX 9000" }, { "del a", "DEL a" }, { "flushall", "FLUSHALL" }, { "save", "SAVE" }, { "save fast", "SAVE FAST" }, { "save to", "SAVE TO /mcfs/d/g" }, { "load", "LOAD" }, { "load from", "LOAD FAST FROM /mcfs/d/g" }, { "expire b", "EXPIRE b 100" },
    { "stop and start", 0 }, { "kill and start", 0 }, { "stop, reboot, start", 0 }, { "wait 4 s", 0 }, { "wall clock +1 h", 0 }, { "wall clock -1 h", 0 } };
struct LE { std::string v; uint32_t fl; int64_t exp; };          // end by the monotonic clock, 0 none
struct FE { std::string v; uint32_t fl; int64_t wall; };
void run_life() {
    srv_popts.usecas = false; prepare(); persist = (char *)PATH; spath = PATH;
    auto life = [&](std::vector<int> v, const std::vector<int> *core) {
        if (core) for (auto &x : v) x = (*core)[x];
        // only sequences in which something is saved and something is read back
        bool sv = false, rd = false; for (int x : v) { if ((x >= 5 && x <= 7) || x == 11 || x == 13) sv = true; if (sv && ((x >= 8 && x <= 9) || (x >= 11 && x <= 13))) rd = true; }
        if (!rd) return;
        cur = "start"; for (int x : v) cur += std::string(" | ") + EV[x].name;
        fresh(3); mc_nprocs = 2; mfs_reset(); srv_mono = M0; srv_real = R0;
        if (startserver() != -1) mc_fail("start", "the server does not start without a file");
        std::map<std::string, LE> C; std::map<std::string, std::map<std::string, FE>> F; 
        net_conn *c = srv_open(); uint64_t h = 3;
        auto alive = [&](const LE &e) { return !e.exp || e.exp > srv_mono; };
        auto saveto = [&](const char *p) { auto &f = F[p]; f.clear(); for (auto &x : C) if (alive(x.second)) f[x.first] = { x.second.v, x.second.fl, x.second.exp ? srv_real + (x.second.exp - srv_mono) : 0 }; };
        auto loadfrom = [&](const char *p) { for (auto &x : F[p]) { if (x.second.wall && x.second.wall <= srv_real) continue; C[x.first] = { x.second.v, x.second.fl, x.second.wall ? srv_mono + (x.second.wall - srv_real) : 0 }; } };
        for (int x : v) {
            mc_transitions++;
            if (EV[x].cmd) {
                srv_realthreads = x == 8 || x == 9;
                std::string r = srv_req(c, std::string(EV[x].cmd) + "\r\n"), want = OK;
                srv_realthreads = false;
                switch (x) {
                case 0: C["a"] = { "1", 0, 0 }; break;
                case 1: C["b"] = { "22", 9, srv_mono + 5 * SEC }; break;
                case 2: C["a"] = { "3", 0, srv_mono + 9 * SEC }; break;
                case 3: want = C.count("a") && alive(C["a"]) ? ":1\r\n" : ":0\r\n"; C.erase("a"); break;
                case 4: C.clear(); break;
                case 5: case 6: saveto(PATH); break;
                case 7: saveto("/mcfs/d/g"); break;
                case 8: if (F.count(PATH)) loadfrom(PATH); else want = "-"; break;
                case 9: if (F.count("/mcfs/d/g")) loadfrom("/mcfs/d/g"); else want = "-"; break;
                case 10: want = C.count("b") && alive(C["b"]) ? ":1\r\n" : ":0\r\n"; if (want[1] == '1') C["b"].exp = srv_mono + 100 * SEC; break;
                }
                if (want == "-" ? !starts(r, "-") : r != want) mc_fail("reply", "%s was answered with %s instead of %s", EV[x].cmd, esc(r).c_str(), esc(want).c_str());
            } else if (x <= 13) {
                srv_close(c);
                if (x != 12) { int code = runexit(termfn); if (code) mc_fail("stop", "stopping the server exited with %d", code); saveto(PATH); }
                if (mfs_openfds()) mc_fail("fd", "%d descriptors were left open", mfs_openfds());
                pogocache_free(cache); struct pogocache_opts o = srv_popts; o.nshards = 1 + h % 4; cache = pogocache_new(&o);
                if (x == 13) { srv_mono = 20 * SEC; srv_real += 2 * SEC; }
                if (startserver() != -1) mc_fail("start", "the server does not start with its own snapshot");
                C.clear(); if (F.count(PATH)) loadfrom(PATH);
                c = srv_open();
            } else { if (x == 14) { srv_mono += 4 * SEC; srv_real += 4 * SEC; } else srv_real += x == 15 ? 3600 * SEC : -3600 * SEC; }
            Map want; for (auto &e : C) if (alive(e.second)) { Ent t; t.val = e.second.v; t.flags = e.second.fl; t.exp = e.second.exp; want[e.first] = t; }
            Map d = srv_dump(); if (!same(d, want)) mc_fail("contents", "after %s the cache is %s but must be %s", EV[x].name, showdump(d).c_str(), showdump(want).c_str());
            for (auto &e : d) h = mc_hash64(e.second.exp + e.first[0], h); h = mc_hash64(x, h);
        }
        for (auto &n : mfs.names) if (!mfs.ino[n.second].dir && !F.count(n.first)) mc_fail("left", "the file %s was left", n.first.c_str());
        mc_outcome(h); mc_traces++; mc_state(h);
        if (mc_traces % 5003 == 1) mc_sample("%s", cur.c_str());
        srv_close(c); srv_endcase();
    };
    each_seq(sizeof EV / sizeof *EV, mc_thorough ? 5 : 4, [&](const std::vector<int> &v) { life(v, 0); });
    std::vector<int> core = { 1, 2, 3, 5, 8, 11, 13, 14, 15 };
    each_seq(core.size(), mc_thorough ? 6 : 5, [&](const std::vector<int> &v) { if ((int)v.size() >= (mc_thorough ? 6 : 5)) life(v, &core); });
}
// --------------------------------------------------------------------- damage
struct Good { std::string img; Saved s; std::vector<size_t> bounds; const char *name; };
std::vector<Map> cutmaps;     // contents of the first n blocks
Map pre0; 
// loads a damaged file; contents must stay within what was saved and what was there
int damaged(const std::string &file, const Good &g, bool fast, int procs, int pre, bool cut) {
    mc_tick(); fresh(2); mc_nprocs = procs; srv_mono = M0; srv_real = R0;
    Map p = preload(pre); Map full = expect(g.s, Map());
    mfs_reset(); mfs_put(PATH, file);
    struct load_stats st; int r = doload(load, PATH, fast, &st);
    Map d = srv_dump();
    for (auto &x : d) { auto i = full.find(x.first); auto j = p.find(x.first); if (!(i != full.end() && i->second == x.second) && !(j != p.end() && j->second == x.second)) mc_fail("alien", "loading a damaged file stored %s, which was never saved", esc(x.first).c_str()); }
    for (auto &x : p) if (!d.count(x.first)) mc_fail("gone", "loading a damaged file removed %s", esc(x.first).c_str());
    if (mfs_openfds()) mc_fail("fd", "%d descriptors were left open", mfs_openfds());
    if (r == 0) {
        size_t b = 0; while (b < g.bounds.size() && g.bounds[b] != file.size()) b++;
        bool atb = cut && b < g.bounds.size();
        mc_fail(atb ? "boundary-cut" : "silent", "loading a file that was %s reported success", atb ? "cut at the end of a block" : "damaged");
    } else if (mc_thorough || pre == 0) {
        // the same file at the start of the server
        mfs_reset(); mfs_put(PATH, file); persist = (char *)PATH; pogocache_free(cache); cache = 0; struct pogocache_opts o = srv_popts; cache = pogocache_new(&o); mc_nprocs = procs;
        int code = startserver(); if (code == -1) mc_fail("start", "the server started with a damaged file");
        if (mfs_get(PATH) != file) mc_fail("start", "a refused start changed the file");
    }
    mc_outcome(mc_hash64(r, d.size() * 7 + st.ninserted)); mc_evals++;
    srv_endcase();
    return r;
}
uint32_t rd32(const std::string &s, size_t p) { uint32_t x; memcpy(&x, &s[p], 4); return x; }
std::vector<size_t> blockbounds(const std::string &s) { std::vector<size_t> b = { 0 }; size_t p = 0; while (p + 16 <= s.size()) { p += 16 + read_u32((uint8_t *)s.data() + p + 12); b.push_back(p); } return b; }
void check1(const std::string &file, const Good &g, const std::string &what, bool cut) {
    if (!mine() || file == g.img) return;
    cur = std::string(g.name) + ": " + what; mc_traces++;
    int v = idx / mc_nparts % 4;
    damaged(file, g, v & 1, v & 1 ? 2 : 1, v & 2 ? 3 : 0, cut);
    mc_state(mc_hash(file.data(), file.size(), 3));
    if (mc_traces % 1009 == 1) mc_sample("%s", cur.c_str());
}
std::string block(const std::string &plain, uint32_t dlen = 0) {
    std::string z(LZ4_compressBound(plain.size()) + 1, 0); int n = LZ4_compress_default(plain.data(), &z[0], plain.size(), z.size()); z.resize(n);
    std::string h(16, 0); memcpy(&h[0], "POGO", 4); uint32_t c = crc32(z.data(), z.size()); write_u32((uint8_t *)&h[4], c); write_u32((uint8_t *)&h[8], dlen ? dlen : plain.size()); write_u32((uint8_t *)&h[12], n);
    return h + z;
}
std::string vi(uint64_t x) { std::string r; do { uint8_t b = x & 127; x >>= 7; r += (char)(x ? b | 128 : b); } while (x); return r; }
// reference reading of a block's plain text: the entries stored until the first flaw
struct Ref { bool ok; std::vector<E> es; };
bool refvi(const std::string &s, size_t &p, uint64_t &x) {
    __uint128_t v = 0; for (int i = 0; i < 10; i++) { if (p >= s.size()) return false; uint8_t b = s[p++]; v |= (__uint128_t)(b & 127) << 7 * i; if (!(b & 128)) { x = (uint64_t)v; return true; } }
    return false;
}
Ref reference(const std::string &s) {
    Ref r = { false, {} }; size_t p = 0; uint64_t ut, a; if (!refvi(s, p, ut) || (int64_t)ut < 0) return r;
    while (p < s.size()) {
        if (s[p++] != 0) return r;
        E e; if (!refvi(s, p, a) || a > s.size() - p) return r; e.k = s.substr(p, a); p += a;
        if (!refvi(s, p, a) || a > s.size() - p) return r; e.v = s.substr(p, a); p += a;
        if (!refvi(s, p, a) || (int64_t)a < 0) return r; int64_t ttl = a;
        if (!refvi(s, p, a) || a > UINT32_MAX) return r; e.fl = a;
        if (!refvi(s, p, a)) return r;
        e.ttl = 0; if (ttl) { int64_t w = clampadd((__int128)ut + ttl); if (w <= R0) continue; e.ttl = w - R0; }
        r.es.push_back(e);
    }
    r.ok = true; return r;
}
void crafted(const std::string &plain, uint32_t dlen, const char *name) {
    if (!mine()) return;
    mc_tick(); cur = std::string(name) + " block " + plain + vfmt(" dlen %u", dlen); mc_traces++;
    std::string f = block(plain, dlen);
    Ref w = reference(plain); if (dlen && dlen != plain.size()) { w.ok = false; w.es.clear(); }
    fresh(2); mc_nprocs = 1; srv_mono = M0; srv_real = R0; mfs_reset(); mfs_put(PATH, f);
    int r = doload(load, PATH, false, 0); Map d = srv_dump();
    Map want; for (auto &e : w.es) { Ent x; x.val = e.v; x.flags = e.fl; x.exp = e.ttl ? clampadd((__int128)M0 + e.ttl) : 0; want[e.k] = x; }
    if ((r == 0) != w.ok) mc_fail("crafted", "loading the block %s %s", esc(plain).c_str(), r ? "failed" : "succeeded although its contents are malformed");
    for (auto &x : d) { auto i = want.find(x.first); if (i == want.end() || i->second.val != x.second.val) mc_fail("alien", "loading the malformed block %s stored %s", esc(plain).c_str(), showdump(d).c_str()); }
    if (r == 0 && !same(d, want)) mc_fail("crafted", "loading the block %s gave %s instead of %s", esc(plain).c_str(), showdump(d).c_str(), showdump(want).c_str());
    mc_outcome(mc_hash64(r, d.size())); mc_evals++; srv_endcase();
}
void run_damage() {
    std::vector<Good> G(4);
    auto mk = [&](Good &g, const Es &es, Sc c, const char *n) { g.img = savecase(es, c, g.s); g.name = n; g.bounds = blockbounds(g.img); if (g.bounds.back() != g.img.size()) mc_die("bounds"); };
    mk(G[0], { { "a", "1", 0, 0 } }, { 1, true, false, 1, save, M0, R0, 0 }, "one entry");
    mk(G[1], { { "a", "1", 0, 0 }, { "b", "two", 7, 50 * SEC }, { "c", std::string(60, 'c'), 1, 0 }, { "d", "4", 0, 0 } }, { 4, true, false, 1, save, M0, R0, 0 }, "four shards");
    mk(G[2], { { "a", std::string(100, 'a'), 0, 0 }, { "b", rnd(70, 2), 7, SEC }, { "key", "c", 1, 0 } }, { 1, true, false, 1, small_save, M0, R0, 0 }, "one shard in blocks");
    { Es e; for (int i = 0; i < 40; i++) e.push_back({ "key" + std::to_string(i), rnd(i, i), (uint32_t)i * 77, i % 4 ? 0 : 9 * SEC }); mk(G[3], e, { 3, true, false, 1, save, M0, R0, 0 }, "forty entries"); }
    Good empty = { "", { Map(), M0, R0 }, { 0 }, "empty" };
    for (auto &g : G) {
        const std::string &s = g.img;
        for (size_t n = 0; n < s.size(); n++) check1(s.substr(0, n), g, vfmt("cut at %zu of %zu", n, s.size()), true);
        for (size_t i = 0; i < s.size(); i++) for (int b = 0; b < 8; b++) { std::string t = s; t[i] ^= 1 << b; check1(t, g, vfmt("bit %d of byte %zu flipped", b, i), false); }
        // bursts of neighbouring bits, whole bytes and sectors of zeros
        if (&g != &G[3] || mc_thorough) {
            for (size_t i = 0; i < s.size(); i++) for (int v = 0; v < 256; v += mc_thorough || &g == &G[0] ? 1 : 51) { std::string t = s; if ((uint8_t)t[i] == v) continue; t[i] = v; check1(t, g, vfmt("byte %zu set to %d", i, v), false); }
            for (size_t i = 0; i + 1 < s.size(); i++) for (size_t n : { 2, 4, 8, 16, 64, 512 }) if (i + n <= s.size()) { std::string t = s; for (size_t k = 0; k < n; k++) t[i + k] = 0; check1(t, g, vfmt("%zu bytes at %zu zeroed", n, i), false); }
            for (size_t i = 0; i < s.size(); i++) { std::string t = s; t.erase(i, 1); check1(t, g, vfmt("byte %zu removed", i), false); t = s; t.insert(i, 1, s[i]); check1(t, g, vfmt("byte %zu doubled", i), false); t = s; t.insert(i, 1, 0); check1(t, g, vfmt("zero inserted at %zu", i), false); }
        }
        // two flipped bits
        size_t lim = mc_thorough ? 200 : &g == &G[0] ? s.size() : 0;
        for (size_t i = 0; i < s.size() * 8 && i < lim * 8; i++) for (size_t j = i + 1; j < s.size() * 8 && j < lim * 8 && (mc_thorough ? j < i + 130 : 1); j++) { std::string t = s; t[i / 8] ^= 1 << i % 8; t[j / 8] ^= 1 << j % 8; check1(t, g, vfmt("bits %zu and %zu flipped", i, j), false); }
        // the header fields
        for (size_t b = 0; b + 1 < g.bounds.size(); b++) for (int f = 0; f < 4; f++) for (uint64_t v : { 0ull, 1ull, 2ull, 15ull, 16ull, 17ull, 255ull, 256ull, 65535ull, 65536ull, 1048575ull, 1048576ull, 1048577ull, 0x7effffffull, 0x7e000001ull, 0x7fffffffull, 0x80000000ull, 0xfffffff0ull, 0xffffffffull }) for (int e = 0; e < 3; e++) {
            std::string t = s; size_t p = g.bounds[b] + 4 * f; uint32_t x = e == 0 ? v : e == 1 ? rd32(s, p) + v : rd32(s, p) - v; memcpy(&t[p], &x, 4); check1(t, g, vfmt("header field %d of block %zu set to %u", f, b, x), false);
        }
        // something after the end
        for (std::string x : { std::string(1, 0), std::string("\n"), std::string("P"), std::string("POGO"), std::string(15, 'P'), std::string(16, 0), std::string("POGO") + std::string(12, 0), std::string("POGO") + std::string(8, 0) + "\1\0\0", std::string(4096, 0), s.substr(0, 20) }) check1(s + x, g, "followed by " + x, false);
    }
    // files that are not snapshots
    for (int a = 0; a < 256; a++) { check1(std::string(1, a), empty, "one byte", false); for (int b = 0; b < 256; b += mc_thorough ? 1 : 15) check1(std::string(1, a) + (char)b, empty, "two bytes", false); }
    for (size_t n : { 3, 4, 8, 15, 16, 17, 31, 32, 33, 100, 4096, 1048576 }) for (int k = 0; k < 5; k++) check1(k == 0 ? std::string(n, 0) : k == 1 ? rnd(n, n) : k == 2 ? std::string(n, 'P') : k == 3 ? (std::string("POGO") + rnd(n, 5)).substr(0, n) : std::string(n, '\xff'), empty, vfmt("%zu bytes of kind %d", n, k), false);
    // faults while reading: at every operation, and every pair
    for (auto &g : G) for (int fast = 0; fast < 2; fast++) {
        int nops = 0; std::vector<int> ways; 
        auto run = [&](std::vector<MFault> fs) {
            cur = std::string(g.name) + " load"; for (auto &f : fs) cur += vfmt(" fault{%d,%d}", f.op, f.how);
            mc_tick(); fresh(3); mc_nprocs = fast ? 2 : 1; srv_mono = M0; srv_real = R0; mfs_reset(); mfs_put(PATH, g.img); mfs_begin(); mfs_faults = fs;
            int r = doload(load, PATH, fast, 0); nops = mfs_nops; ways = mfs_ways; mfs_faults.clear();
            std::string last; bool ro = false; for (auto &f : fs) if (f.op <= (int)mfs_trace.size()) { last += " (" + mfs_trace[f.op - 1] + ")"; if (starts(mfs_trace[f.op - 1], "read") && f.how == 0) ro = true; }
            cur += last;
            Map d = srv_dump(), full = expect(g.s, Map());
            if (r == 0 && !same(d, full)) mc_fail("silent", "loading with a fault reported success but stored %s", showdump(d).c_str());
            bool shortonly = true; for (auto &f : fs) if (f.op > (int)mfs_trace.size() || !starts(mfs_trace[f.op - 1], "read") || f.how == 0) shortonly = false;
            if (r && shortonly) mc_fail("short", "loading failed although nothing worse happened than reads that returned less than was asked for");
            if (r == 0 && ro) mc_fail("silent", "loading with a read error reported success");
            for (auto &x : d) if (!full.count(x.first) || full[x.first].val != x.second.val) mc_fail("alien", "loading with a fault stored %s", esc(x.first).c_str());
            if (mfs_openfds()) mc_fail("fd", "%d descriptors were left open", mfs_openfds());
            mc_outcome(mc_hash64(r, d.size() + 1000)); mc_evals++; srv_endcase();
        };
        if (!mine()) continue;
        run({}); int n = nops; auto w = ways;
        for (int i = 1; i <= n; i++) for (int h = 0; h < w[i - 1]; h++) { run({ { i, h } }); int n2 = nops; auto w2 = ways; for (int j = i + 1; j <= n2; j++) for (int k = 0; k < w2[j - 1]; k++) run({ { i, h }, { j, k } }); }
        // threads that cannot be started
        for (int procs : { 1, 2, 3 }) { cur = "no thread can be started"; fresh(2); mc_nprocs = procs; mfs_reset(); mfs_put(PATH, g.img); srv_thread_fail = true; int r = doload(load, PATH, fast, 0); srv_thread_fail = false; if (r == 0 && !same(srv_dump(), expect(g.s, Map()))) mc_fail("silent", "loading without threads reported success and stored nothing"); srv_endcase(); }
    }
    // the start of the server with faults: it runs with everything or does not run
    for (auto &g : G) for (int mess = 0; mess < 3; mess++) {
        int nops = 0; std::vector<int> ways;
        auto run = [&](std::vector<MFault> fs) {
            cur = vfmt("%s start mess %d", g.name, mess); for (auto &f : fs) cur += vfmt(" fault{%d,%d}", f.op, f.how);
            mc_tick(); fresh(3); mc_nprocs = 1 + mess; srv_mono = M0; srv_real = R0; persist = (char *)PATH;
            mfs_reset(); mfs_put(PATH, g.img); if (mess) { mfs_put("/mcfs/d/f.0badf00d.pogocache.work", "left over"); mfs_put("/mcfs/d/g.1.pogocache.work", "left over"); mfs_put("/mcfs/d/other", "other"); } mfs_unknown_types = mess == 2;
            mfs_begin(); mfs_faults = fs; int code = startserver(); mfs_faults.clear(); nops = mfs_nops; ways = mfs_ways; mc_transitions++;
            bool read = false; for (auto &f : fs) if (f.op <= (int)mfs_trace.size()) { cur += " (" + mfs_trace[f.op - 1] + ")"; if (!starts(mfs_trace[f.op - 1], "unlink") && !starts(mfs_trace[f.op - 1], "close") && !(starts(mfs_trace[f.op - 1], "read") && f.how)) read = true; }
            Map d = srv_dump(), full = expect(g.s, Map());
            if (code == -1 && !same(d, full)) mc_fail("start-silent", "the server started with %s instead of %s", showdump(d).c_str(), showdump(full).c_str());
            if (code != -1 && !read) mc_fail("start-refused", "the server does not start with an intact snapshot");
            if (mfs_get(PATH) != g.img) mc_fail("start-harm", "the start changed the snapshot");
            if (mess && mfs_get("/mcfs/d/other") != "other") mc_fail("start-harm", "the start removed another file");
            if (code == -1 && mfs_openfds()) mc_fail("fd", "%d descriptors were left open", mfs_openfds());
            mc_outcome(mc_hash64(code + 7, d.size() + 2000)); mc_evals++; mc_traces++;
            if (code == -1) srv_endcase(); else { pogocache_free(cache); cache = 0; }
        };
        if (!mine()) continue;
        run({}); int n = nops; auto w = ways;
        for (int i = 1; i <= n; i++) for (int h = 0; h < w[i - 1]; h++) { run({ { i, h } }); int n2 = nops; auto w2 = ways; for (int j = i + 1; j <= n2; j++) for (int k = 0; k < w2[j - 1]; k++) run({ { i, h }, { j, k } }); }
    }
    { cur = "no file"; fresh(2); mfs_reset(); if (doload(load, PATH, false, 0) == 0) mc_fail("silent", "loading a missing file succeeded"); if (doload(load, "/mcfs/d", false, 0) == 0) mc_fail("silent", "loading a directory succeeded"); srv_endcase(); }
    // well-formed blocks with arbitrary contents
    std::string ut = vi(R0), al("\0\1\2\x7f\x80\xff", 6); al += 'k';
    int L = mc_thorough ? 7 : 6;
    for (int n = 0; n <= L; n++) { std::vector<int> v(n, 0); while (1) { std::string s = ut; for (int i : v) s += al[i]; crafted(s, 0, "bytes"); int i = n - 1; while (i >= 0 && ++v[i] == (int)al.size()) v[i--] = 0; if (i < 0) break; } }
    for (std::string t : { std::string(), vi(0), vi(1), vi(INT64_MAX), vi(1ull << 63), vi(UINT64_MAX), std::string(9, '\xff'), std::string(10, '\xff'), std::string(10, '\xff') + "\1", std::string(9, '\x80') + "\1", std::string(9, '\x80') + "\2", std::string("\x80\0", 2) }) {
        std::string e = std::string("\0\1k\1v\0\0\0", 8);
        crafted(t, 0, "time"); crafted(t + e, 0, "time"); crafted(t + e + e, 0, "time");
    }
    std::vector<uint64_t> nums = { 0, 1, 2, 127, 128, 16383, 16384, UINT32_MAX, 1ull << 32, INT64_MAX, 1ull << 63, UINT64_MAX };
    for (int f = 0; f < 5; f++) for (auto n : nums) for (int more = 0; more < 3; more++) for (size_t cutoff = 0; cutoff < 3; cutoff++) {
        std::string p = ut + std::string("\0\1a\1b\0\0\0", 8); p += '\0'; p += vi(f == 0 ? n : 1); p += 'k'; p += vi(f == 1 ? n : 2); p += "vw"; p += vi(f == 2 ? n : 0); p += vi(f == 3 ? n : 5); p += vi(f == 4 ? n : 9);
        if (more) p += std::string("\0\1c\1d\0\0\0", 8); if (more == 2) p += 'x'; if (cutoff) p.resize(p.size() - cutoff);
        crafted(p, 0, "field");
        for (uint32_t d : { 1u, (uint32_t)p.size() - 1, (uint32_t)p.size() + 1, (uint32_t)p.size() * 2, 5000u }) crafted(p, d, "field");
    }
}
Reg r0("life", {}, run_life), r1("roundtrip", {}, run_roundtrip), r2("crash", {}, run_crash), r3("damage", {}, run_damage);
}
