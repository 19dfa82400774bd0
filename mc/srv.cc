#include "srv.h"
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <deque>
extern "C" {
int pogocache_main(int argc, char **argv);
void evopened(net_conn *, void *); void evclosed(net_conn *, void *);
void evdata(net_conn *, const void *, size_t, void *);
size_t xallocs(void);
struct pogocache *__real_pogocache_new(struct pogocache_opts *);
extern struct pogocache *cache; extern bool useauth;
}
int64_t srv_mono = 1000 * 1000000000LL, srv_real = 1700000000LL * 1000000000LL;
bool srv_realthreads = false; jmp_buf *srv_exitjmp; int srv_exitcode; void (*srv_sleephook)(void);
std::vector<std::pair<void *(*)(void *), void *>> srv_bootthreads;
uint64_t srv_thread_mask; int srv_thread_n;
bool srv_autobg = true, srv_thread_fail = false, srv_deferthreads = false;
int srv_sleeps; int64_t srv_slept;
struct pogocache_opts srv_popts; struct net_opts srv_nopts;
std::string srv_written;
ssize_t (*srv_read_hook)(net_conn *, char *, size_t);
static std::function<void()> mainfn;
static bool booted;
static struct { void *(*fn)(void *); void *arg; } deferred[64];
static size_t ndeferred;
static size_t baseline;

extern "C" {
int mc_clock_gettime(int id, struct timespec *ts) {
    int64_t t = id == CLOCK_REALTIME ? srv_real : srv_mono;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
unsigned mc_sleep(unsigned n) { srv_sleeps++; srv_slept = n; if (srv_sleephook) srv_sleephook(); return 0; }
int mc_usleep(unsigned) { if (srv_sleephook) srv_sleephook(); return 0; }
void mc_exit(int code) { if (srv_exitjmp) { srv_exitcode = code; longjmp(*srv_exitjmp, 1); } if (!booted) fprintf(stderr, "server exit(%d) during start\n", code); _exit(booted ? 12 : 3); }
int mc_pthread_create(pthread_t *th, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    if (!booted) { srv_bootthreads.push_back({ fn, arg }); *th = 1; return 0; }
    if (srv_thread_fail || (srv_thread_n < 64 && srv_thread_mask >> srv_thread_n & 1)) { srv_thread_n++; *th = 0; return EAGAIN; }
    srv_thread_n++;
    *th = 1;
    if (srv_deferthreads) { if (ndeferred == 64) mc_die("too many threads"); deferred[ndeferred++] = { fn, arg }; return 0; }
    if (srv_realthreads) return pthread_create(th, 0, fn, arg);
    fn(arg); return 0;
}
int mc_pthread_join(pthread_t th, void **r) { if (srv_realthreads && booted) return pthread_join(th, r); if (r) *r = 0; return 0; }
int mc_pthread_detach(pthread_t) { return 0; }
struct pogocache *__wrap_pogocache_new(struct pogocache_opts *o) { if (o) srv_popts = *o; return __real_pogocache_new(o); }

void net_conn_setudata(net_conn *c, void *u) { c->udata = u; }
void *net_conn_udata(net_conn *c) { return c->udata; }
bool net_conn_isclosed(net_conn *c) { return c->closed; }
void net_conn_close(net_conn *c) { c->closed = true; }
// The raw buffer is malloc'ed (not a std::string) so that its end is guarded.
struct raw { char *p; size_t cap; };
static std::map<net_conn *, raw> raws;
static raw *rawof(net_conn *c) { return &raws[c]; }
void net_conn_out_ensure(net_conn *c, size_t n) {
    raw *r = rawof(c);
    size_t need = c->len + n + 1;           // net_conn_out_setlen demands len < cap
    if (r->cap < need) { r->p = (char *)realloc(r->p, need); r->cap = need; }
}
char *net_conn_out(net_conn *c) { return rawof(c)->p; }
size_t net_conn_out_len(net_conn *c) { return c->len; }
size_t net_conn_out_cap(net_conn *c) { return rawof(c)->cap; }
void net_conn_out_setlen(net_conn *c, size_t n) {
    if (n >= rawof(c)->cap && n) mc_fail("setlen", "net_conn_out_setlen(%zu) beyond the capacity %zu", n, rawof(c)->cap);
    c->len = n;
}
void net_conn_out_write_nocheck(net_conn *c, const void *d, size_t n) { if (n) memcpy(rawof(c)->p + c->len, d, n); c->len += n; }
void net_conn_out_write_byte_nocheck(net_conn *c, char b) { rawof(c)->p[c->len++] = b; }
void net_conn_out_write(net_conn *c, const void *d, size_t n) { net_conn_out_ensure(c, n); net_conn_out_write_nocheck(c, d, n); }
void net_conn_out_write_byte(net_conn *c, char b) { net_conn_out_write(c, &b, 1); }
size_t net_nconns(void) { return 1; } size_t net_tconns(void) { return 1; } size_t net_rconns(void) { return 0; }
bool net_conn_bgwork(net_conn *c, void (*work)(void *), void (*done)(net_conn *, void *), void *ud) {
    if (c->bg || c->closed) return false;
    c->out.append(rawof(c)->p ? rawof(c)->p : "", c->len); c->len = 0;     // the real one flushes first
    if (srv_thread_fail) return false;
    c->bg = true; c->work = work; c->done = done; c->bgud = ud; c->worked = false;
    return true;
}
bool net_conn_bgworking(net_conn *c) { return c->bg; }
bool net_conn_istls(net_conn *c) { return c->istls; }
static uint64_t st[4];
void net_stat_cmd_get_incr(net_conn *) { st[0]++; } void net_stat_cmd_set_incr(net_conn *) { st[1]++; }
void net_stat_get_hits_incr(net_conn *) { st[2]++; } void net_stat_get_misses_incr(net_conn *) { st[3]++; }
uint64_t stat_cmd_get(void) { return st[0]; } uint64_t stat_cmd_set(void) { return st[1]; }
uint64_t stat_get_hits(void) { return st[2]; } uint64_t stat_get_misses(void) { return st[3]; }
int net_conn_setnonblock(net_conn *, bool) { return 0; }
ssize_t net_conn_read(net_conn *c, char *b, size_t n) { return srv_read_hook ? srv_read_hook(c, b, n) : 0; }
ssize_t net_conn_write(net_conn *c, const char *b, size_t n) { c->wrote.append(b, n); return n; }
const char *net_conn_addr(net_conn *c) { return c->addr.c_str(); }
void net_main(struct net_opts *o) { srv_nopts = *o; booted = true;
    // build the lazily built tables before anything is counted
    bool ua = useauth; useauth = false;
    net_conn *c = srv_open(); srv_req(c, "PING\r\n"); srv_close(c); useauth = ua;
    mainfn(); mc_done(); }
}

void srv_boot(std::vector<std::string> args, std::function<void()> fn) {
    static std::vector<std::string> keep; keep = args;
    static std::vector<char *> av; av.clear();
    static std::string prog = "pogocache"; av.push_back(&prog[0]);
    for (auto &a : keep) av.push_back(&a[0]);
    av.push_back(0);
    mainfn = fn;
    pogocache_main(av.size() - 1, av.data());
    mc_die("main returned");
}
void srv_fresh() {
    if (cache) { pogocache_free(cache); cache = 0; }
    srv_mono = 1000 * 1000000000LL + 123456789; srv_real = 1700000000LL * 1000000000LL + 987654321;
    srv_sleeps = 0; srv_thread_fail = false; srv_thread_mask = 0; srv_thread_n = 0; ndeferred = 0; srv_autobg = true; srv_deferthreads = false;
    baseline = xallocs();
    struct pogocache_opts o = srv_popts;
    cache = __real_pogocache_new(&o);
    if (!cache) mc_die("pogocache_new");
}
void srv_endcase() {
    if (ndeferred) mc_die("threads left");
    pogocache_free(cache); cache = 0;
    if (xallocs() != baseline) mc_fail("leak", "%lld allocations were not released", (long long)(xallocs() - baseline));
}
size_t srv_rundeferred() {
    size_t n = ndeferred; ndeferred = 0;
    for (size_t i = 0; i < n; i++) deferred[i].fn(deferred[i].arg);
    return n;
}
net_conn *srv_open() {
    net_conn *c = new net_conn; c->addr = "127.0.0.1:1000"; raws[c] = { 0, 0 };
    evopened(c, srv_nopts.udata); return c;
}
static void pull(net_conn *c) { if (c->len) c->out.append(rawof(c)->p, c->len); c->len = 0; }
void srv_finish_bg(net_conn *c) {
    if (!c->bg) return;
    if (!c->worked) { c->worked = true; c->work(c->bgud); }
    c->done(c, c->bgud); c->bg = false; pull(c);
    if (!c->closed) { evdata(c, "", 0, srv_nopts.udata); pull(c); }
    std::string h; h.swap(c->held);
    if (c->bg) { c->held = h; if (srv_autobg) srv_finish_bg(c); return; }
    if (!h.empty() && !c->closed) srv_feed(c, h);
}
void srv_feed(net_conn *c, const std::string &bytes) {
    if (c->closed) return;
    if (c->bg) { c->held += bytes; return; }
    // exactly sized and NUL terminated, as the real network layer delivers it
    char *p = (char *)malloc(bytes.size() + 1); memcpy(p, bytes.data(), bytes.size()); p[bytes.size()] = 0;
    evdata(c, p, bytes.size(), srv_nopts.udata);
    free(p);
    pull(c);
    if (c->bg && srv_autobg) srv_finish_bg(c);
}
std::string srv_take(net_conn *c) { std::string s; s.swap(c->out); return s; }
std::string srv_req(net_conn *c, const std::string &b) { srv_feed(c, b); return srv_take(c); }
void srv_close(net_conn *c) {
    if (c->bg) { bool a = srv_autobg; srv_autobg = true; c->held.clear(); srv_finish_bg(c); srv_autobg = a; }
    evclosed(c, srv_nopts.udata);
    free(raws[c].p); raws.erase(c);
    delete c;
}
static int dump1(int, int64_t, const void *k, size_t kn, const void *v, size_t vn, int64_t exp, uint32_t fl, uint64_t cas, void *ud) {
    auto *m = (std::map<std::string, Ent> *)ud;
    std::string key((const char *)k, kn);
    if (m->count(key)) mc_fail("dup", "a key is stored twice: %s", esc(key).c_str());
    Ent e; e.val.assign((const char *)v, vn); e.exp = exp; e.flags = fl; e.cas = cas;
    (*m)[key] = e;
    return POGOCACHE_ITER_CONTINUE;
}
std::map<std::string, Ent> srv_dump() {
    std::map<std::string, Ent> m;
    struct pogocache_iter_opts o = {}; o.time = srv_mono; o.entry = dump1; o.udata = &m;
    pogocache_iter(cache, &o);
    return m;
}
std::string esc(const std::string &s) {
    if (s.size() > 1500) return esc(s.substr(0, 700)) + "...(" + std::to_string(s.size()) + ")..." + esc(s.substr(s.size() - 200));
    return mc_esc(s.data(), s.size());
}
std::string showdump(const std::map<std::string, Ent> &m) {
    std::string r = "{";
    for (auto &x : m) r += " " + esc(x.first) + "=" + esc(x.second.val) + " exp=" + std::to_string(x.second.exp) + " fl=" + std::to_string(x.second.flags);
    return r + " }";
}
