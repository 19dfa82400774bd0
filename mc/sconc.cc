// The whole server under the controlled scheduler: the handlers of several
// connections, and the threads they start, run as fibers; every interleaving
// up to a preemption bound is executed and judged against all sequential
// executions of the same commands (or of their documented parts) by the same
// code.
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include "memfs.h"
extern "C" {
#include "msched.h"
#include "net.h"
#include "pogocache.h"
#include "save.h"
#include "lz4.h"
#include "util.h"
int pogocache_main(int argc, char **argv);
void evopened(net_conn *, void *); void evclosed(net_conn *, void *); void evdata(net_conn *, const void *, size_t, void *);
struct pogocache *__real_pogocache_new(struct pogocache_opts *);
extern struct pogocache *cache; extern int nshards; extern char *persist;
void __tsan_read_range(void *, unsigned long);
// every execution starts from the server's memory as it was after the start
extern char __start_srvdata[], __stop_srvdata[], __start_srvbss[], __stop_srvbss[];
}
#pragma GCC diagnostic ignored "-Wformat-security"
namespace {
std::string vfmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
std::string esc(const std::string &s) { return s.size() > 900 ? std::string(mc_esc(s.data(), 900)) + "..." : mc_esc(s.data(), s.size()); }
const int64_t SEC = 1000000000LL, MONO = 1000 * SEC + 5, REAL = 1700000000LL * SEC + 7;
struct pogocache_opts popts; struct net_opts nopts;
std::string imgdata, imgbss;
bool booted;
int procs = 1;
}
// ------------------------------------------------------------ environment
struct net_conn { void *udata; char *out; size_t len; bool closed, bg; void (*work)(void *); void (*done)(net_conn *, void *); void *bgud; int id; };
#define OUTCAP (1 << 18)
extern "C" {
}
#include "sxenv.h"
extern "C" {
void net_conn_setudata(net_conn *c, void *u) { c->udata = u; }
void *net_conn_udata(net_conn *c) { return c->udata; }
bool net_conn_isclosed(net_conn *c) { return c->closed; }
void net_conn_close(net_conn *c) { c->closed = true; }
void net_conn_out_ensure(net_conn *c, size_t n) { if (c->len + n + 1 > OUTCAP) mc_die("reply too long"); }
char *net_conn_out(net_conn *c) { return c->out; }
size_t net_conn_out_len(net_conn *c) { return c->len; }
size_t net_conn_out_cap(net_conn *) { return OUTCAP; }
void net_conn_out_setlen(net_conn *c, size_t n) { c->len = n; }
void net_conn_out_write_nocheck(net_conn *c, const void *d, size_t n) { memcpy(c->out + c->len, d, n); c->len += n; }
void net_conn_out_write_byte_nocheck(net_conn *c, char b) { c->out[c->len++] = b; }
void net_conn_out_write(net_conn *c, const void *d, size_t n) { net_conn_out_ensure(c, n); __tsan_read_range((void *)d, n); net_conn_out_write_nocheck(c, d, n); }
void net_conn_out_write_byte(net_conn *c, char b) { net_conn_out_write(c, &b, 1); }
size_t net_nconns(void) { return 1; } size_t net_tconns(void) { return 1; } size_t net_rconns(void) { return 0; }
bool net_conn_bgwork(net_conn *c, void (*work)(void *), void (*done)(net_conn *, void *), void *ud) {
    if (c->bg || c->closed) return false;
    c->bg = true; c->work = work; c->done = done; c->bgud = ud; return true;
}
bool net_conn_bgworking(net_conn *c) { return c->bg; }
bool net_conn_istls(net_conn *) { return false; }
void net_stat_cmd_get_incr(net_conn *) {} void net_stat_cmd_set_incr(net_conn *) {}
void net_stat_get_hits_incr(net_conn *) {} void net_stat_get_misses_incr(net_conn *) {}
uint64_t stat_cmd_get(void) { return 0; } uint64_t stat_cmd_set(void) { return 0; } uint64_t stat_get_hits(void) { return 0; } uint64_t stat_get_misses(void) { return 0; }
int net_conn_setnonblock(net_conn *, bool) { return 0; }
ssize_t net_conn_read(net_conn *, char *, size_t) { return 0; }
ssize_t net_conn_write(net_conn *, const char *, size_t n) { return n; }
const char *net_conn_addr(net_conn *) { return "127.0.0.1:1000"; }
static std::vector<std::pair<void *(*)(void *), void *>> bootfns;
static int bootcreate(pthread_t *th, void *(*fn)(void *), void *ud) { bootfns.push_back({ fn, ud }); *th = 1; return 0; }
void sigterm(int);
}
namespace {
// ------------------------------------------------------------- programs
struct Part { std::string send; std::function<std::string()> fn; };
// One request. Without parts it must take effect at one moment. With parts it
// is equivalent to the parts at moments of their own between its start and
// its end; join() makes its reply from theirs.
struct Cmd { std::string send; std::vector<Part> parts; bool anyorder = false; bool sorted = false, anyreply = false; std::string file; // SAVE: the file to read afterwards
    std::function<std::string(const std::vector<std::string> &)> join; bool canfail = false, reads = false, async = false; // async: the parts may come after the reply, and none does if it failed
    std::string show() const { return esc(send); } };
typedef std::vector<Cmd> Thread;
struct Program { std::string name; int shards = 1; int procs = 1; std::vector<std::string> pre; std::vector<Thread> th; std::vector<std::string> hello; // sent by each connection at its start
    int failcreate = 0; std::vector<MFault> faults; std::map<std::string, std::string> files; int bound = 2; bool cas = false; std::vector<std::string> dead;
    int term = 0; }; // 1: a further thread of main() saves at SIGTERM, 2: also while the server starts
const Program *P; int Pindex; std::string Pmode;
net_conn conns[4]; char *outs[4];
std::string replies[3][4]; uint64_t tcall[3][4], tret[3][4]; int ndone[3]; std::string finaldump; size_t live, liveref = ~0ull; bool hardfault, anyfault; uint64_t creates; bool createfailed;
struct Step { int t, c, p; };      // p: part, -1 = the whole command
const std::vector<Step> *script;   // sequential execution
std::string opener; size_t nsteps;

// shutdown: the thread that main() started for it runs along, its process ends in exithook
const char *const TPATH = "/mcfs/d/p"; int termfn = -1; bool raised, exited; int exitcode; std::vector<std::string> killed; // the file when the process ended
int kfiber;  // the fiber that raised the second signal
bool p_raised(void *) { return raised; }
bool p_exited(void *) { return exited; }
void tsleep() { sc_wait(p_raised, 0); }
void texit(int code) {
    if (sc_self() == kfiber) { if (code) mc_fail("exit", "the second signal ended the server with status %d", code); killed.push_back(mfs_get(TPATH)); kfiber = 0; sc_exit(); }
    if (exited) mc_fail("exit", "the server ended itself twice"); exited = true; exitcode = code; killed.push_back(mfs_get(TPATH)); sc_exit();
}
void copen(int i) { net_conn *c = &conns[i]; if (!outs[i]) outs[i] = (char *)malloc(OUTCAP); memset(c, 0, sizeof *c); c->out = outs[i]; c->id = i; evopened(c, nopts.udata); }
std::string feed(int i, const std::string &s) {
    net_conn *c = &conns[i];
    if (s == "SIGTERM" || s == "SIGINT") { if (script) return ""; sigterm(s == "SIGINT" ? SIGINT : SIGTERM); raised = true; sc_wait(p_exited, 0); return exitcode ? vfmt("-exit %d", exitcode) : ""; }
    if (s == "SECOND") { if (script) return ""; sc_wait(p_raised, 0); kfiber = sc_self(); ndone[i] = 1; sigterm(SIGTERM); mc_fail("exit", "a second signal did not end the server"); }
    if (s == "START") { nopts.listening(nopts.udata); return ""; }
    if (c->closed) return "(closed)";
    char *p = (char *)sc_malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0;
    evdata(c, p, s.size(), nopts.udata); sc_free(p);
    while (c->bg) { c->work(c->bgud); c->done(c, c->bgud); c->bg = false; if (!c->closed) evdata(c, "", 0, nopts.udata); }
    std::string r(c->out, c->len); c->len = 0; return r;
}
std::string canon(const Cmd &c, std::string r) {
    if (c.anyreply) return "(any)";
    if (!c.sorted) return r;
    std::vector<std::string> v; size_t i = 0; while (i < r.size()) { size_t e = r.find('\n', i); if (e == std::string::npos) e = r.size(); v.push_back(r.substr(i, e - i)); i = e + 1; }
    std::sort(v.begin(), v.end()); r.clear(); for (auto &x : v) r += x + "\n"; return r;
}
struct DEnt { std::string v; int64_t exp; uint32_t fl; };
int dump1(int, int64_t, const void *k, size_t kn, const void *v, size_t vn, int64_t exp, uint32_t fl, uint64_t, void *ud) {
    (*(std::map<std::string, DEnt> *)ud)[std::string((const char *)k, kn)] = { std::string((const char *)v, vn), exp, fl }; return POGOCACHE_ITER_CONTINUE;
}
std::string dumpstr(const std::map<std::string, DEnt> &m) { std::string r; for (auto &x : m) r += esc(x.first) + "=" + esc(x.second.v) + vfmt(" exp=%lld fl=%u;", (long long)x.second.exp, x.second.fl); return r; }
std::map<std::string, DEnt> dump(int shard) {
    std::map<std::string, DEnt> m; struct pogocache_iter_opts o = {}; o.time = MONO; o.entry = dump1; o.udata = &m; if (shard >= 0) { o.oneshard = true; o.oneshardidx = shard; }
    pogocache_iter(cache, &o); return m;
}
// independent reading of a snapshot file
bool vread(const std::string &s, size_t &p, uint64_t &x) { x = 0; for (int i = 0; i < 10; i++) { if (p >= s.size()) return false; uint8_t b = s[p++]; x |= (uint64_t)(b & 127) << 7 * i; if (!(b & 128)) return true; } return false; }
uint32_t rd32(const std::string &s, size_t p) { uint32_t x; memcpy(&x, &s[p], 4); return x; }
std::string snapshot(const std::string &f) {   // a dump string, or what is wrong with the file
    std::map<std::string, DEnt> m; size_t p = 0;
    while (p < f.size()) {
        if (f.size() - p < 16 || f.compare(p, 4, "POGO")) return "(bad header)";
        uint32_t crc = rd32(f, p + 4), dl = rd32(f, p + 8), cl = rd32(f, p + 12); p += 16;
        if (f.size() - p < cl) return "(short block)";
        if (crc32(f.data() + p, cl) != crc) return "(bad checksum)";
        std::string d(dl, 0); if (LZ4_decompress_safe(f.data() + p, &d[0], cl, dl) != (int)dl) return "(bad data)"; p += cl;
        size_t q = 0; uint64_t ut, a; if (!vread(d, q, ut)) return "(bad block)";
        while (q < d.size()) {
            if (d[q++] != 0) return "(bad kind)";
            DEnt e; std::string k; if (!vread(d, q, a) || a > d.size() - q) return "(bad key)"; k = d.substr(q, a); q += a;
            if (!vread(d, q, a) || a > d.size() - q) return "(bad value)"; e.v = d.substr(q, a); q += a;
            if (!vread(d, q, a)) return "(bad ttl)"; e.exp = a ? (int64_t)(MONO + (ut + a - REAL)) : 0;
            if (!vread(d, q, a)) return "(bad flags)"; e.fl = a; if (!vread(d, q, a)) return "(bad cas)";
            if (m.count(k)) return "(" + esc(k) + " is in the file twice)";
            m[k] = e;
        }
    }
    return dumpstr(m);
}
std::string vi(uint64_t x) { std::string r; do { uint8_t b = x & 127; x >>= 7; r += (char)(x ? b | 128 : b); } while (x); return r; }
std::string block(const std::string &plain) {
    std::string z(LZ4_compressBound(plain.size()) + 1, 0); int n = LZ4_compress_default(plain.data(), &z[0], plain.size(), z.size()); z.resize(n);
    std::string h(16, 0); memcpy(&h[0], "POGO", 4); uint32_t c = crc32(z.data(), z.size()), dl = plain.size(), cl = n; memcpy(&h[4], &c, 4); memcpy(&h[8], &dl, 4); memcpy(&h[12], &cl, 4);
    return h + z;
}
void s_setup() {
    memcpy(__start_srvdata, imgdata.data(), imgdata.size()); memcpy(__start_srvbss, imgbss.data(), imgbss.size());
    procs = P->procs; nshards = P->shards;
    struct pogocache_opts o = popts; o.nshards = P->shards; o.usecas = P->cas;
    cache = __real_pogocache_new(&o); if (!cache) mc_die("pogocache_new");
    mfs_reset(); mfs_faults.clear(); for (auto &f : P->files) if (P->term != 1 || f.first != TPATH) mfs_put(f.first, f.second);
    static Cmd none;
    copen(3); for (auto &s : P->pre) feed(3, s);
    for (auto &k : P->dead) { struct pogocache_store_opts o = {}; o.time = MONO - 9; o.expires = MONO - 3; pogocache_store(cache, k.data(), k.size(), "dead", 4, &o); } // expired, not yet removed
    for (size_t i = 0; i < P->th.size(); i++) { copen(i); if (!P->hello[i].empty()) feed(i, P->hello[i]); }
    raised = exited = false; exitcode = 0; killed.clear(); kfiber = 0;
    if (P->term) { persist = (char *)TPATH; if (P->term == 1) { nopts.listening(nopts.udata); if (P->files.count(TPATH)) mfs_put(TPATH, P->files.at(TPATH)); } }
    mfs_begin(); mfs_faults = P->faults; mfs_faulted_hard = false; mfs_point = sc_point;
    sc_fail_create = script ? 0 : P->failcreate;
    if (script) mfs_faults.clear();
    memset(ndone, 0, sizeof ndone);
}
std::vector<std::vector<std::vector<std::string>>> partrep;
void s_thread(int i) {
    if (script) {
        partrep.assign(P->th.size(), {}); for (size_t t = 0; t < P->th.size(); t++) { partrep[t].resize(P->th[t].size()); for (size_t c = 0; c < P->th[t].size(); c++) partrep[t][c].resize(P->th[t][c].parts.size()); }
        for (auto &s : *script) {
            const Cmd &c = P->th[s.t][s.c];
            if (s.p < 0) { replies[s.t][s.c] = canon(c, feed(s.t, c.send)); continue; }
            const Part &q = c.parts[s.p];
            partrep[s.t][s.c][s.p] = q.fn ? q.fn() : feed(s.t, q.send);
        }
        return;
    }
    if (i == (int)P->th.size()) { bootfns[termfn].first(bootfns[termfn].second); mc_fail("exit", "the thread that saves at the end returned"); }
    for (size_t j = 0; j < P->th[i].size(); j++) {
        tcall[i][j] = sc_now();
        replies[i][j] = canon(P->th[i][j], feed(i, P->th[i][j].send));
        tret[i][j] = sc_now(); ndone[i] = j + 1;
    }
}
void s_finish() {
    hardfault = mfs_faulted_hard; anyfault = false; for (auto &f : P->faults) if (f.op <= mfs_nops) anyfault = true; creates = sc_creates; createfailed = sc_fail_create && sc_creates >= sc_fail_create; mfs_point = 0; mfs_faults.clear();
    finaldump = dumpstr(dump(-1));
    struct pogocache_total_opts to = {}; finaldump += vfmt(" held=%zu", pogocache_total(cache, &to));
    for (size_t i = 0; i < P->th.size(); i++) evclosed(&conns[i], nopts.udata);
    evclosed(&conns[3], nopts.udata);
    pogocache_free(cache); cache = 0;
    live = sc_live();
    if (mfs_openfds()) mc_fail("fd", "%d descriptors were left open", mfs_openfds());
}
struct Outcome { std::string text; std::vector<int> first, last; };
std::vector<Outcome> seqs;     // all sequential executions
std::set<std::string> seen; 
sc_prog SP = { 1, s_setup, s_thread, s_finish };
int flat(int t, int c) { int k = 0; for (int i = 0; i < t; i++) k += P->th[i].size(); return k + c; }
std::string outcome_text(const std::vector<std::string> &rep) { std::string r; for (size_t i = 0; i < rep.size(); i++) r += (i ? " | " : "") + esc(rep[i]); return r + " => " + finaldump; }
std::vector<int> failedcmds;   // commands observed to have failed, for this oracle
void run_script(const std::vector<Step> &st) {
    script = &st; SP.n = 1; sc_first(&SP); script = 0; nsteps++;
    std::vector<std::string> rep; Outcome o; 
    for (size_t t = 0; t < P->th.size(); t++) for (size_t c = 0; c < P->th[t].size(); c++) {
        const Cmd &x = P->th[t][c]; int k = flat(t, c);
        bool f = std::count(failedcmds.begin(), failedcmds.end(), k);
        rep.push_back(f ? "(failed)" : x.parts.empty() ? replies[t][c] : x.join(partrep[t][c]));
        o.first.push_back(1 << 20); o.last.push_back(-1);
        for (size_t i = 0; i < st.size(); i++) if (st[i].t == (int)t && st[i].c == (int)c) { o.first[k] = std::min(o.first[k], (int)i); o.last[k] = i; }
    }
    o.text = outcome_text(rep);
    seqs.push_back(o);
}
// all orders of the commands and parts; a failed command may have done any of its parts
void enumerate(std::vector<Step> &st, std::vector<int> &at, std::vector<std::vector<int>> &left) {
    bool any = false;
    for (size_t t = 0; t < P->th.size(); t++) {
        if (at[t] == (int)P->th[t].size()) continue;
        any = true; const Cmd &c = P->th[t][at[t]]; bool f = std::count(failedcmds.begin(), failedcmds.end(), flat(t, at[t]));
        auto advance = [&](std::vector<int> newleft) {
            auto ol = left[t]; int oa = at[t];
            left[t] = newleft; if (newleft.empty()) { at[t]++; if (at[t] < (int)P->th[t].size()) { left[t].resize(P->th[t][at[t]].parts.size()); for (size_t i = 0; i < left[t].size(); i++) left[t][i] = i; } }
            enumerate(st, at, left); left[t] = ol; at[t] = oa;
        };
        if (f && c.async) { advance({}); continue; }
        if (c.parts.empty()) { if (!f) st.push_back({ (int)t, at[t], -1 }); advance({}); if (!f) st.pop_back(); continue; }
        for (size_t i = 0; i < left[t].size() && (c.anyorder || i == 0); i++) {
            auto nl = left[t]; int p = nl[i]; nl.erase(nl.begin() + i);
            st.push_back({ (int)t, at[t], p }); advance(nl); st.pop_back();
        }
        if (f && !left[t].empty()) advance({});   // gave up here
    }
    if (!any) run_script(st);
}
void make_oracle() {
    seqs.clear(); std::vector<Step> st; std::vector<int> at(P->th.size(), 0); std::vector<std::vector<int>> left(P->th.size());
    for (size_t t = 0; t < P->th.size(); t++) { left[t].resize(P->th[t][0].parts.size()); for (size_t i = 0; i < left[t].size(); i++) left[t][i] = i; }
    enumerate(st, at, left);
}
std::map<std::vector<int>, std::vector<Outcome>> oracles;
std::string ptext() {
    std::string s = vfmt("shards %d threads %d", P->shards, P->procs); if (P->failcreate) s += vfmt(" thread %d cannot start", P->failcreate); for (auto &f : P->faults) s += vfmt(" fault{%d,%d}", f.op, f.how);
    s += " before:"; for (auto &x : P->pre) s += " " + esc(x);
    for (auto &k : P->dead) s += " expired:" + k;
    for (size_t t = 0; t < P->th.size(); t++) { s += " || "; for (size_t c = 0; c < P->th[t].size(); c++) s += (c ? " ; " : "") + P->th[t][c].show(); }
    return s;
}
void printer(char *b, size_t n) { size_t m = snprintf(b, n, "sconc index=%d %s", Pindex, ptext().c_str()); for (size_t i = 0; i < m && i < n; i++) if (b[i] == '\n') b[i] = ' '; if (m < n) sc_print(b + m, n - m); }
sc_prog XP;
void judge(const std::string &text, const std::vector<int> &failed);
void x_finish() {
    s_finish();
    std::vector<std::string> rep; std::vector<int> failed;
    for (size_t t = 0; t < P->th.size(); t++) for (size_t c = 0; c < P->th[t].size(); c++) {
        const Cmd &x = P->th[t][c]; std::string r = replies[t][c]; if (x.async) tret[t][c] = ~0ull;
        if (x.canfail && !r.empty() && r[0] == '-') {
            if (!hardfault && !createfailed && !(x.reads && anyfault)) mc_fail("failed", "%s failed with %s although nothing went wrong", x.show().c_str(), esc(r).c_str());
            failed.push_back(flat(t, c)); r = "(failed)";
        } else if (!x.file.empty()) r += snapshot(mfs_get(x.file));
        rep.push_back(r);
    }
    std::string text = outcome_text(rep);
    if (live != liveref) mc_fail("leak", "%lld allocations were not released", (long long)(live - liveref));
    for (auto &f : mfs.names) if (f.first.find(".work") != std::string::npos) mc_fail("workfile", "%s was left behind", f.first.c_str());
    if (P->term) {
        std::string old = P->files.count(TPATH) ? P->files.at(TPATH) : "", end = mfs_get(TPATH);
        for (auto &k : killed) if (k != old && k != end) mc_fail("kill", "the process ended when the file was neither the old nor the new one: %s", esc(k).c_str());
        if (exitcode && end != old && snapshot(end)[0] == '(') mc_fail("kill", "after a failed save the file is damaged: %s", snapshot(end).c_str());
        if (P->term == 2) { if (snapshot(end) != snapshot(old)) mc_fail("start", "the file was %s and became %s", snapshot(old).c_str(), snapshot(end).c_str()); mc_outcome(mc_hash64(end == old, Pindex)); return; }
    }
    judge(text, failed);
}
void judge(const std::string &text, const std::vector<int> &failed) {
    auto it = oracles.find(failed);
    if (it == oracles.end()) mc_die("no oracle for this failure");
    const std::vector<Outcome> &o = it->second;
    bool other = false;
    for (auto &q : o) {
        if (q.text != text) continue;
        bool ok = true;
        for (size_t t = 0; t < P->th.size() && ok; t++) for (size_t c = 0; c < P->th[t].size() && ok; c++) for (size_t u = 0; u < P->th.size() && ok; u++) if (u != t) for (size_t d = 0; d < P->th[u].size(); d++)
            if (tret[t][c] < tcall[u][d] && q.last[flat(t, c)] >= 0 && q.last[flat(u, d)] >= 0 && q.last[flat(t, c)] > q.first[flat(u, d)]) { ok = false; break; }
        if (ok) { mc_outcome(mc_hash(text.data(), text.size(), Pindex)); return; }
        other = true;
    }
    std::string all; std::set<std::string> d; for (auto &q : o) d.insert(q.text); for (auto &x : d) if (all.size() < 1500) all += "\n      " + x;
    mc_fail("not-atomic", "the replies and contents %s %s%s", text.c_str(), other ? "contradict the real time order of the commands; possible are" : "are those of no sequential execution; possible are", all.c_str());
}
uint64_t idx; int only = -1; std::string onlysched;
void go(Program &p) {
    uint64_t i = idx++;
    if (only >= 0 ? (int)i != only : (int)(i % mc_nparts) != mc_part) return;
    if (p.hello.empty()) p.hello.resize(p.th.size());
    P = &p; Pindex = i; mc_tick();
    if (liveref == ~0ull || true) { // what remains allocated after any execution of these connections
        Program q; q.shards = 1; q.pre = { "PING\r\n" }; q.hello.resize(1); q.th = { { } }; const Program *o = P; P = &q; static std::vector<Step> none; script = &none; SP.n = 1; sc_first(&SP); script = 0; liveref = live; P = o;
    }
    oracles.clear(); failedcmds.clear(); make_oracle(); oracles[{}] = seqs;
    if (p.failcreate || !p.faults.empty()) { // oracles of the failures that may be reported
        std::vector<int> can; for (size_t t = 0; t < p.th.size(); t++) for (size_t c = 0; c < p.th[t].size(); c++) if (p.th[t][c].canfail) can.push_back(flat(t, c));
        for (int m = 1; m < 1 << can.size(); m++) { std::vector<int> f; for (size_t k = 0; k < can.size(); k++) if (m >> k & 1) f.push_back(can[k]); failedcmds = f; make_oracle(); oracles[f] = seqs; }
    }
    sc_stats st; XP = { (int)p.th.size() + (p.term ? 1 : 0), s_setup, s_thread, x_finish };
    sc_bound = p.bound; sc_delay = p.term == 2;
    if (only >= 0) { sc_replay(&XP, onlysched.c_str()); mc_done(); }
    sc_explore(&XP, &st);
    mc_traces += st.execs; mc_note("programs", 1); mc_note("schedules", st.execs); mc_note("sequential_executions", nsteps); nsteps = 0;
    mc_evals += st.execs; mc_state(mc_hash(&i, 8, st.execs));
    if (idx % 211 == 1) mc_sample("%s: %llu schedules, at most %llu points", ptext().c_str(), (unsigned long long)st.execs, (unsigned long long)st.maxpoints);
    if (getenv("SCV")) fprintf(stderr, "%llu execs %llu maxpts %zu seqs: %s\n", (unsigned long long)st.execs, (unsigned long long)st.maxpoints, seqs.size(), ptext().c_str());
}
#include "sconc_programs.h"
sc_prog TP;
void find_term() { // which of the threads that main() started ends the process after the signal
    static Program q; q.shards = 1; q.term = 1; q.hello.resize(1); q.th = { { } }; P = &q; static int cand; sx_sleephook = [] { sc_exit(); };
    sx_exithook = [](int code) { if (code) mc_fail("exit", "the server ended with status %d without anything to save", code); termfn = cand; sc_exit(); };
    for (size_t i = 0; i < bootfns.size() && termfn < 0; i++) { cand = i; TP = { 1, s_setup, [](int) { sigterm(SIGTERM); bootfns[cand].first(bootfns[cand].second); }, s_finish }; sc_first(&TP); }
    if (termfn < 0) mc_fail("exit", "no thread of the server ends it after SIGTERM");
    sx_sleephook = tsleep; sx_exithook = texit;
}
void servermain() {
    signal(SIGTERM, SIG_DFL); signal(SIGINT, SIG_DFL);
    imgdata.assign(__start_srvdata, __stop_srvdata - __start_srvdata); imgbss.assign(__start_srvbss, __stop_srvbss - __start_srvbss);
    if (getenv("SCV")) fprintf(stderr, "server memory: %zu + %zu\n", imgdata.size(), imgbss.size());
    if (mc_case_in) { const char *s = strstr(mc_case_in, "sched="); if (!s || sscanf(mc_case_in, "sconc index=%d", &only) != 1) mc_die("case"); onlysched = s + 6; }
    if (!strcmp(mc_mode, "cmds")) run_cmds(); else if (!strcmp(mc_mode, "par")) run_par(); else if (!strcmp(mc_mode, "bulk")) run_bulk(); else if (!strcmp(mc_mode, "term")) { find_term(); run_term(); } else mc_die("mode");
    mc_note("preemption_bound", mc_part == 0 ? (mc_thorough ? 3 : 2) : 0);
    mc_done();
}
}
extern "C" void net_main(struct net_opts *o) { nopts = *o; booted = true; sc_boot_create = 0; servermain(); }
int main(int argc, char **argv) {
    mc_init(argc, argv); mc_case_printer(printer);
    if (!freopen("/dev/null", "w", stdout)) return 3;
    sc_boot_create = bootcreate;
    static const char *av[] = { "pogocache", "--allocator=stock", "--seed=1", "--threads=2", "--uring=no", "--maxmemory=unlimited", "--shards=4", 0 };
    static char buf[8][64]; char *v[9]; int n = 0; for (; av[n]; n++) { strcpy(buf[n], av[n]); v[n] = buf[n]; } v[n] = 0;
    pogocache_main(n, v);
    mc_die("main returned");
}
