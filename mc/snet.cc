// The network layer under the controlled scheduler. src/net.c runs with its
// real event loop threads and background threads as fibers against a kernel
// made of sockets and epoll sets in memory; the peers are fibers too. Every
// interleaving and every answer of the kernel (short counts, would-block,
// errors, orders of readiness) up to a bound of deviations is executed.
//   mode net:   net.c with a recording handler (C25)
//   mode pipe:  the whole server, pipelines of requests (C24)
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <functional>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <netdb.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <setjmp.h>
#include <atomic>
#include <arpa/inet.h>
#include "memfs.h"
extern "C" {
#include "msched.h"
#include "net.h"
#include "pogocache.h"
int pogocache_main(int argc, char **argv);
void evopened(net_conn *, void *); void evclosed(net_conn *, void *); void evdata(net_conn *, const void *, size_t, void *);
struct pogocache *__real_pogocache_new(struct pogocache_opts *);
extern struct pogocache *cache; extern int nshards; extern char *persist;
void __tsan_read_range(void *, unsigned long); void __tsan_write_range(void *, unsigned long);
extern char __start_srvdata[], __stop_srvdata[], __start_srvbss[], __stop_srvbss[];
}
#pragma GCC diagnostic ignored "-Wformat-security"
namespace {
std::string vfmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
std::string esc(const std::string &s) { return s.size() > 900 ? std::string(mc_esc(s.data(), 900)) + "..." : mc_esc(s.data(), s.size()); }
const int64_t SEC = 1000000000LL, MONO = 1000 * SEC + 5, REAL = 1700000000LL * SEC + 7;
struct pogocache_opts popts; struct net_opts nopts;
std::string imgdata, imgbss;
bool booted;
int procs = 1;
}
#include "sxenv.h"
namespace {
// ------------------------------------------------------------- programs
enum { P_CONNECT, P_SEND, P_EXPECT, P_SHUT, P_EOF, P_CLOSE, P_RST, P_WAITPEER, P_SETTLE };
struct Op { int k; std::string s; int n; };
struct PeerP { std::vector<Op> ops; bool unixsock = false; std::string show; bool early = false, staysopen = false; // early: may end before all replies are there
    std::string sent, expect; std::vector<std::string> reqs; };
struct Program { int threads = 1, queue = 8, maxconns = 100; size_t cap = 1 << 20; int failcreate = 0, bound = 2; bool sockfaults = false; std::vector<PeerP> peers;
    bool onebucket = false; std::vector<std::pair<int, Op>> script; std::string show; }; // script: one fiber plays all peers
const Program *P; int Pindex; bool pipemode; bool refrun;

// --------------------------------------------------------------- kernel
struct KConn { std::string c2s, s2c; size_t eaten = 0; bool cfin = false, cclosed = false, rst = false, sclosed = false, accepted = false, fault = false, ioerr = false, polled = false; int fd = -1, who = 0; bool un = false;
    int inflight_max = 0; };
struct KFd { int kind = 0, conn = -1; bool un = false, listening = false; std::deque<int> backlog; std::map<int, uint32_t> reg; std::vector<int> order; };
const int BASE = 2000;
std::vector<KFd> fdt; std::vector<KConn> kc;
bool started, ending; int inwait; int peersdone; uint64_t kver; int spins;
int lsn[2]; struct KSee { std::function<void(int, int, const std::string &, int)> f; } ksee; // tells the options explorer what was asked
void see(int what, int fd, const std::string &s, int v = 0) { if (ksee.f) ksee.f(what, fd, s, v); }
std::vector<int> loops; // fibers in epoll_wait
struct H { int who; std::string in, buf; bool closed = false, want = false; net_conn *c; int bgs = 0; };
std::vector<H *> hs; int nopen, maxopen, refused, attaching; int closingof[32], closing; // closing: being closed, until the loop waits again
std::string got[256]; uint64_t totalin, counted[4];

bool kmine(int fd) { return fd >= BASE && fd < BASE + 1000; }
std::vector<int> bucket; // indices of descriptors that the server's connection map puts into one bucket
int newfd(int kind) {
    if (kind == 2 && P && P->onebucket) for (int b : bucket) { while ((int)fdt.size() <= b) fdt.push_back(KFd()); if (!fdt[b].kind) { fdt[b] = KFd(); fdt[b].kind = kind; return BASE + b; } }
    for (size_t i = 0; i < fdt.size(); i++) if (!fdt[i].kind) { fdt[i] = KFd(); fdt[i].kind = kind; return BASE + i; } fdt.push_back(KFd()); fdt.back().kind = kind; return BASE + fdt.size() - 1;
}
KFd *fget(int fd, const char *what) { if (!kmine(fd) || fd - BASE >= (int)fdt.size() || !fdt[fd - BASE].kind) { mc_fail("badfd", "%s of descriptor %d, which is not open", what, fd); mc_die("badfd"); } return &fdt[fd - BASE]; }
KConn *cget(int fd, const char *what) { KFd *f = fget(fd, what); if (f->kind != 2) { mc_fail("badfd", "%s of descriptor %d, which is no connection", what, fd); mc_die("badfd"); } return &kc[f->conn]; }
void pt() { if (started) sc_point(); }
int dev(int n) { return started && sc_active() && !refrun ? sc_choose_dev(n) : 0; }
void changed() { kver++; spins = 0; }
size_t capnow; size_t room(KConn *c) { size_t q = c->s2c.size() - c->eaten; return q >= capnow ? 0 : capnow - q; }
uint32_t ready(int fd) {
    KFd *f = &fdt[fd - BASE];
    if (f->kind == 1) return f->backlog.empty() ? 0 : EPOLLIN;
    if (f->kind != 2) return 0;
    KConn *c = &kc[f->conn]; uint32_t r = 0;
    if (!c->c2s.empty() || c->cfin || c->rst) r |= EPOLLIN;
    if (c->cfin) r |= EPOLLRDHUP;
    if (room(c) || c->rst || c->cclosed) r |= EPOLLOUT;
    if (c->rst) r |= EPOLLERR | EPOLLHUP;
    return r;
}
bool anyready(void *arg) { if (ending) return true; KFd *e = &fdt[(intptr_t)arg - BASE]; for (int fd : e->order) if (ready(fd) & (e->reg[fd] | EPOLLERR | EPOLLHUP)) return true; return false; }
ssize_t kread(int fd, void *b, size_t n) {
    pt(); KConn *c = cget(fd, "read");
    if (n) __tsan_write_range((char *)b + n - 1, 1); // the whole range is the kernel's to write
    if (c->rst) { c->ioerr = true; errno = ECONNRESET; return -1; }
    if (c->c2s.empty()) { if (c->cfin) return 0; errno = EAGAIN; return -1; }
    size_t m = std::min(n, c->c2s.size());
    int ways = 3 + (m > 1);
    switch (dev(ways)) {
    case 1: errno = EAGAIN; return -1;
    case 2: c->fault = c->ioerr = c->rst = true; changed(); errno = ECONNRESET; return -1;
    case 3: m = 1; break;
    }
    __tsan_write_range(b, m); memcpy(b, c->c2s.data(), m); c->c2s.erase(0, m); changed();
    return m;
}
ssize_t kwrite(int fd, const void *b, size_t n) {
    pt(); KConn *c = cget(fd, "write");
    __tsan_read_range((void *)b, n);
    if (!n) return 0;
    if (c->rst) { errno = EPIPE; return -1; }
    if (c->cclosed) { c->rst = true; changed(); if (dev(2)) { errno = EPIPE; return -1; } return n; }
    size_t m = std::min(n, room(c));
    if (!m) {
        if (++spins > 60) { mc_fail("flush-stall", "the thread of the event loop keeps writing to a connection whose peer does not read and serves nobody else"); capnow = 1 << 20; spins = 0; }
        sc_yield(); errno = EAGAIN; return -1;
    }
    int ways = 3 + (m > 1) + (m > 2);
    switch (dev(ways)) {
    case 1: errno = EAGAIN; return -1;
    case 2: c->fault = c->ioerr = c->rst = true; changed(); errno = EPIPE; return -1;
    case 3: m = 1; break;
    case 4: m = m - 1; break;
    }
    c->s2c.append((const char *)b, m); changed();
    return m;
}
int kclose(int fd) {
    pt(); KFd *f = fget(fd, "close");
    if (f->kind == 2) { KConn *c = &kc[f->conn]; c->sclosed = true; if (!c->c2s.empty() && !c->cfin && false) c->rst = true;
        if (!pipemode) { bool op = false; for (auto h : hs) if (h->who == c->who) op = true;
            if (!op) { refused++; attaching--; if (!c->fault && nopen + attaching + closing < P->maxconns && c->inflight_max < P->maxconns) mc_fail("refused", "a connection was refused although only %d of %d were open", nopen + attaching + closing, P->maxconns); } } }
    else if (f->kind == 1) for (int x : f->backlog) kc[x].rst = true;
    *f = KFd(); for (auto &e : fdt) if (e.kind == 3 && e.reg.erase(fd)) e.order.erase(std::find(e.order.begin(), e.order.end(), fd));
    changed(); sc_release(0x7000000 + fd * 8);
    return 0;
}
}
extern "C" {
uint64_t mix13(uint64_t);
int __wrap_socket(int d, int, int) { int fd = newfd(1); fdt[fd - BASE].un = d == AF_UNIX; see(0, fd, "", d); return fd; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) { fget(fd, "bind"); if (a->sa_family == AF_UNIX) { const char *p = ((struct sockaddr_un *)a)->sun_path; see(1, fd, std::string(p, strnlen(p, l - 2))); } else see(1, fd, ""); return 0; }
int __wrap_listen(int fd, int bl) { see(2, fd, "", bl); KFd *f = fget(fd, "listen"); f->listening = true; lsn[f->un] = fd; return 0; }
int __wrap_getaddrinfo(const char *h, const char *po, const struct addrinfo *, struct addrinfo **r) { see(3, 0, h ? h : ""); see(4, 0, po ? po : ""); static struct addrinfo a; static struct sockaddr_in s; memset(&a, 0, sizeof a); a.ai_family = PF_INET; a.ai_socktype = SOCK_STREAM; a.ai_addr = (struct sockaddr *)&s; a.ai_addrlen = sizeof s; *r = &a; return 0; }
void __wrap_freeaddrinfo(struct addrinfo *) {}
static int sockop(int fd, const char *w) { KFd *f = fget(fd, w); if (f->kind != 2) return 0; if (P->sockfaults && dev(2)) { kc[f->conn].fault = true; errno = EINVAL; return -1; } return 0; }
int __wrap_setsockopt(int fd, int lv, int op, const void *v, socklen_t) { see(5, fd, vfmt("%d %d", lv, op), *(int *)v); return sockop(fd, "setsockopt"); }
int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); (void)x; if (cmd == F_GETFL || cmd == F_GETFD) { fget(fd, "fcntl"); return 0; } return sockop(fd, "fcntl"); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return __wrap_fcntl(fd, cmd, x); }
int __wrap_accept(int fd, struct sockaddr *, socklen_t *) {
    pt(); KFd *f = fget(fd, "accept"); if (f->kind != 1) { errno = EINVAL; return -1; }
    if (f->backlog.empty()) { errno = EAGAIN; return -1; }
    int x = f->backlog.front();
    switch (dev(3)) {
    case 1: errno = EMFILE; return -1;
    case 2: f->backlog.pop_front(); kc[x].fault = kc[x].rst = kc[x].sclosed = true; kc[x].accepted = true; changed(); errno = ECONNABORTED; return -1;
    }
    f->backlog.pop_front(); int n = newfd(2); fdt[n - BASE].conn = x; kc[x].fd = n; kc[x].accepted = true; changed(); attaching++;
    for (auto &k : kc) if (k.fd >= 0 && !k.sclosed) k.inflight_max = std::max(k.inflight_max, nopen + attaching + closing - 1);
    sc_acquire(0x7000000 + n * 8);
    return n;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return __wrap_accept(fd, a, l); }
int __wrap_epoll_create1(int) { return newfd(3); }
int __wrap_epoll_create(int) { return newfd(3); }
int __wrap_epoll_ctl(int q, int op, int fd, struct epoll_event *ev) {
    pt(); KFd *e = fget(q, "epoll_ctl"); KFd *f = fget(fd, "epoll_ctl"); if (e->kind != 3) mc_die("epoll_ctl");
    if (op == EPOLL_CTL_ADD) {
        if (e->reg.count(fd)) { errno = EEXIST; return -1; }
        if (f->kind == 2 && !kc[f->conn].polled) { if (dev(2)) { kc[f->conn].fault = true; errno = ENOSPC; return -1; } kc[f->conn].polled = true; }
        e->reg[fd] = ev->events; e->order.push_back(fd);
    } else if (op == EPOLL_CTL_DEL) { if (!e->reg.erase(fd)) { errno = ENOENT; return -1; } e->order.erase(std::find(e->order.begin(), e->order.end(), fd)); }
    else { if (!e->reg.count(fd)) { errno = ENOENT; return -1; } e->reg[fd] = ev->events; }
    changed(); sc_release(0x8000000 + q * 8);
    return 0;
}
int __wrap_epoll_wait(int q, struct epoll_event *evs, int max, int timeout) {
    KFd *e = fget(q, "epoll_wait"); if (e->kind != 3 || max <= 0) mc_die("epoll_wait"); see(6, q, "", max);
    closing -= closingof[sc_self()]; closingof[sc_self()] = 0;
    if (timeout == 0) pt(); else { inwait++; sc_wait(anyready, (void *)(intptr_t)q); inwait--; }
    if (ending) sc_exit();
    e = fget(q, "epoll_wait");
    sc_acquire(0x8000000 + q * 8);
    std::vector<int> r; for (int fd : e->order) if (ready(fd) & (e->reg[fd] | EPOLLERR | EPOLLHUP)) r.push_back(fd);
    int k = r.size() ? dev(r.size() + 1 + (r.size() > 1)) : 0;
    if (k == (int)r.size() && k) { errno = EINTR; return -1; }
    if (k > (int)r.size()) r.resize(1);     // the others were not ready yet
    else std::rotate(r.begin(), r.begin() + k, r.end());
    if ((int)r.size() > max) r.resize(max);
    for (size_t i = 0; i < r.size(); i++) {
        evs[i].events = ready(r[i]) & (e->reg[r[i]] | EPOLLERR | EPOLLHUP); evs[i].data.fd = r[i];
        // the kernel goes round
        e->order.erase(std::find(e->order.begin(), e->order.end(), r[i])); e->order.push_back(r[i]);
    }
    return r.size();
}
int __wrap_epoll_pwait(int q, struct epoll_event *evs, int max, int t, const void *) { return __wrap_epoll_wait(q, evs, max, t); }
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l) {
    if (!P) { errno = ENOTSOCK; return -1; } // the warm up in servermain
    KConn *c = cget(fd, "getpeername"); if (c->un) { struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; memcpy(a, &u, 2); *l = 2; return 0; }
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(1000 + c->who); s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, sizeof s); *l = sizeof s; return 0;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int) { return kwrite(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int) { return kread(fd, b, n); }
int __wrap_shutdown(int fd, int) { pt(); cget(fd, "shutdown"); return 0; }
int __wrap_ioctl(int fd, unsigned long, ...) { return sockop(fd, "ioctl"); }
static int bootcreate(pthread_t *th, void *(*)(void *), void *) { *th = 1; return 0; }
}
namespace {
// -------------------------------------------------------------- handler
// Every byte is answered with itself and its successor; B is answered by a
// background thread with b, C ends the connection, L is answered with many
// bytes, N is not answered.
std::string answer(const std::string &in) { std::string r; for (char ch : in) { if (ch == 'C') break; if (ch == 'B') r += 'b'; else if (ch == 'L') r += std::string(40, 'l') + "."; else if (ch != 'N') { r += ch; r += ch + 1; } } return r; }
void bwork(void *ud) { H *h = (H *)ud; sc_point(); h->bgs++; sc_point(); }
void h_process(H *h);
void bdone(net_conn *c, void *ud) { H *h = (H *)ud; if (h->c != c) mc_fail("crosstalk", "the completion was delivered to another connection"); if (h->closed) mc_fail("event", "completion after the close event"); if (h->bgs != 1) mc_fail("bg", "completion after %d runs of the work", h->bgs); h->bgs = 0; net_conn_out_write(c, "b", 1); }
void h_process(H *h) {
    while (!h->buf.empty() && !net_conn_isclosed(h->c)) {
        char ch = h->buf[0]; h->buf.erase(0, 1);
        if (ch == 'C') { net_conn_close(h->c); break; }
        if (ch == 'B') { if (net_conn_bgwork(h->c, bwork, bdone, h)) { if (!net_conn_bgworking(h->c)) mc_fail("bg", "background work was accepted but not registered"); return; } if (net_conn_isclosed(h->c)) break; net_conn_out_write_byte(h->c, 'b'); continue; }
        if (ch == 'L') { net_conn_out_ensure(h->c, 20); for (int i = 0; i < 20; i++) net_conn_out_write_byte_nocheck(h->c, 'l'); std::string t(20, 'l'); net_conn_out_write(h->c, t.data(), 20); net_conn_out_write_byte(h->c, '.'); continue; }
        if (ch == 'N') continue;
        char two[2] = { ch, (char)(ch + 1) };
        net_conn_out_ensure(h->c, 2); net_conn_out_write_nocheck(h->c, two, 2);
    }
}
void h_opened(net_conn *c, void *) {
    H *h = new H; h->c = c; const char *a = net_conn_addr(c);
    if (!strcmp(a, "unixsocket")) { h->who = -1; for (auto &k : kc) if (k.un && k.accepted && !k.sclosed && k.fd >= 0) { bool op = false; for (auto x : hs) if (x->who == k.who) op = true; if (!op && h->who < 0) h->who = k.who; } }
    else if (sscanf(a, "127.0.0.1:%d", &h->who) != 1) { mc_fail("addr", "the address of a connection is %s", a); } else h->who -= 1000;
    for (auto x : hs) if (x->who == h->who) mc_fail("event", "a connection was opened twice");
    hs.push_back(h); net_conn_setudata(c, h); nopen++; attaching--; if (nopen > maxopen) maxopen = nopen;
    if (nopen > P->maxconns) mc_fail("maxconns", "%d connections are open, the limit is %d", nopen, P->maxconns);
}
H *h_of(net_conn *c) { for (auto h : hs) if (h->c == c && !h->closed) { if (net_conn_udata(c) != h) mc_fail("crosstalk", "the user data of a connection changed"); return h; } mc_fail("event", "an event for a connection that is not open"); mc_die("event"); }
void h_data(net_conn *c, const void *p, size_t n, void *ud) {
    if (ud != (void *)0x1234) mc_fail("event", "wrong user data");
    H *h = h_of(c); std::string s((const char *)p, n);
    __tsan_read_range((void *)p, n + 1);
    if (((const char *)p)[n]) mc_fail("nul", "the data are not followed by a zero byte");
    if (h->bgs) mc_fail("bg", "data was delivered while background work runs");
    h->in += s; h->buf += s; totalin += n;
    for (size_t i = 0; i < n; i++) {
        net_stat_cmd_get_incr(c); counted[0]++; if (i & 1) net_stat_cmd_set_incr(c), counted[1]++;
        if (i % 3 == 1) net_stat_get_hits_incr(c), counted[2]++; else net_stat_get_misses_incr(c), counted[3]++;
    }
    h_process(h);
}
void h_closed(net_conn *c, void *) { H *h = h_of(c); if (h->bgs) mc_fail("bg", "closed while background work runs"); h->closed = true; nopen--; closing++; closingof[sc_self()]++; }

// --------------------------------------------------------------- peers
struct PW { int i; int n; };
bool p_listening(void *a) { return lsn[(intptr_t)a] && inwait == P->threads; }
KConn *kp(int i) { for (auto &k : kc) if (k.who == i) return &k; return 0; }
bool p_got(void *a) { PW *w = (PW *)a; KConn *c = kp(w->i); return (int)c->s2c.size() >= w->n || c->s2c.size() > c->eaten || c->sclosed || c->rst; }
bool p_eof(void *a) { PW *w = (PW *)a; KConn *c = kp(w->i); return c->s2c.size() > c->eaten || c->sclosed || c->rst; }
bool settled, settling; bool p_settled(void *) { return settled; }
bool p_peer(void *a) { return peersdone >> (intptr_t)a & 1; }
void doop(int i, const Op &o) {
    const PeerP &pp = P->peers[i];
    if (o.k == P_CONNECT) {
        sc_wait(p_listening, (void *)(intptr_t)pp.unixsock); started = true;
        sc_point(); KConn k; k.who = i; k.un = pp.unixsock; kc.push_back(k); fdt[lsn[pp.unixsock] - BASE].backlog.push_back(kc.size() - 1); changed(); return;
    }
    KConn *c = kp(i); PW w = { i, 0 };
    switch (o.k) {
    case P_SEND: sc_point(); c = kp(i); if (!c->sclosed && !c->rst) c->c2s += o.s; changed(); break;
    case P_EXPECT: w.n = o.n; while (1) { sc_wait(p_got, &w); c = kp(i); c->eaten = c->s2c.size(); changed(); if ((int)c->s2c.size() >= o.n || c->sclosed || c->rst) break; } break;
    case P_SHUT: sc_point(); c = kp(i); c->cfin = true; changed(); break;
    case P_EOF: while (1) { sc_wait(p_eof, &w); c = kp(i); if (c->eaten == c->s2c.size()) break; c->eaten = c->s2c.size(); changed(); } break;
    case P_CLOSE: sc_point(); c = kp(i); c->cfin = c->cclosed = true; changed(); break;
    case P_RST: sc_point(); c = kp(i); c->rst = c->cfin = c->cclosed = true; changed(); break;
    case P_SETTLE: settled = false; settling = true; sc_wait(p_settled, 0); settling = false; c = kp(i); c->eaten = c->s2c.size(); break;
    case P_WAITPEER: sc_wait(p_peer, (void *)(intptr_t)o.n); break;
    }
}
void peer(int i) {
    if (P->script.size()) { for (auto &o : P->script) doop(o.first, o.second); peersdone = -1; return; }
    for (auto &o : P->peers[i].ops) doop(i, o);
    peersdone |= 1 << i;
}
int fibers(const Program &p) { return p.script.size() ? 1 : p.peers.size(); }
bool idle() { if (settling && !settled) { settled = true; return true; } if (ending || peersdone != (P->script.size() ? -1 : (1 << P->peers.size()) - 1)) return false; ending = true; return true; }
size_t live, liveref;
void none(void *) {}
void resetkernel() {
    fdt.clear(); fdt.reserve(1100); kc.clear(); kc.reserve(256); for (auto h : hs) delete h; hs.clear(); started = ending = false; inwait = peersdone = 0; kver = 0; spins = 0; capnow = P->cap; settling = settled = false; lsn[0] = lsn[1] = 0; nopen = maxopen = refused = attaching = closing = 0; memset(closingof, 0, sizeof closingof); totalin = 0; memset(counted, 0, sizeof counted);
    mfs_reset(); mfs_faults.clear();
}
void s_setup() {
    memcpy(__start_srvdata, imgdata.data(), imgdata.size()); memcpy(__start_srvbss, imgbss.data(), imgbss.size());
    resetkernel();
    if (pipemode) { nshards = 2; struct pogocache_opts o = popts; o.nshards = 2; cache = __real_pogocache_new(&o); persist = (char *)"/mcfs/d/p"; }
    sc_fail_create = 0;
}
extern "C" void net_main(struct net_opts *);
struct net_opts NO;
void s_thread(int i) {
    if (i) { peer(i - 1); return; }
    NO = nopts; NO.nthreads = P->threads; NO.queuesize = P->queue; NO.maxconns = P->maxconns; NO.host = "h"; NO.port = "1"; NO.unixsock = "u"; NO.tlsport = 0; NO.nowarmup = true; NO.nouring = true; NO.listening = none; NO.ready = none;
    if (!pipemode) { NO.udata = (void *)0x1234; NO.data = h_data; NO.opened = h_opened; NO.closed = h_closed; }
    if (P->failcreate) sc_fail_create = P->failcreate + P->threads - 1;
    net_main(&NO);
    mc_fail("return", "net_main returned"); 
}
void s_finish() {
    for (size_t i = 0; i < P->peers.size(); i++) got[i] = kp(i) ? kp(i)->s2c : "";
    if (pipemode) { pogocache_free(cache); cache = 0; }
    live = sc_live();
}
sc_prog XP;
std::string oshow();
std::string ptext() { if (!P || !strcmp(mc_mode, "opts")) return "options:" + oshow(); std::string s = vfmt("threads %d queue %d limit %d buffer %zu%s:", P->threads, P->queue, P->maxconns, P->cap, P->failcreate ? vfmt(" thread %d cannot start", P->failcreate).c_str() : ""); if (P->script.size()) s += std::string(P->onebucket ? " colliding" : "") + " script " + P->show; else for (auto &p : P->peers) s += " [" + p.show + "]"; return s; }
void printer(char *b, size_t n) { size_t m = snprintf(b, n, "snet index=%d %s", Pindex, ptext().c_str()); for (size_t i = 0; i < m && i < n; i++) if (b[i] == '\n') b[i] = ' '; if (m < n) sc_print(b + m, n - m); }
void x_finish() {
    s_finish();
    bool anyopen = false; size_t nconnfd = 0; std::string out;
    for (auto &f : fdt) if (f.kind == 2) nconnfd++;
    size_t shouldopen = 0;
    for (size_t i = 0; i < P->peers.size(); i++) {
        const PeerP &p = P->peers[i]; KConn *c = kp(i); const std::string &g = got[i];
        out += vfmt("%zu:%s%s ", i, esc(g).c_str(), c->sclosed ? " closed" : "");
        bool wasrefused = false;
        if (!pipemode) {
            H *h = 0; for (auto x : hs) if (x->who == (int)i) h = x;
            wasrefused = !h;
            if (!h && c->accepted && !c->sclosed) mc_fail("lost", "connection %zu was accepted but never served", i);
            if (!h && !g.empty()) mc_fail("crosstalk", "peer %zu received %s on a connection that was never opened", i, esc(g).c_str());
            if (h) {
                if (p.sent.compare(0, h->in.size(), h->in)) mc_fail("input", "the handler of connection %zu saw %s, the peer sent %s", i, esc(h->in).c_str(), esc(p.sent).c_str());
                if (h->closed != c->sclosed) mc_fail("event", "close event %d, descriptor closed %d", h->closed, c->sclosed);
                if (!c->fault && !c->rst && !p.early && p.sent.find('C') == std::string::npos && h->in != p.sent) mc_fail("input", "the handler of connection %zu saw only %s of %s", i, esc(h->in).c_str(), esc(p.sent).c_str());
            }
        } else wasrefused = c->fault && g.empty();
        if (p.expect.compare(0, g.size(), g)) mc_fail("output", "peer %zu received %s, expected %s", i, esc(g).c_str(), esc(p.expect).c_str());
        if (!c->fault && !wasrefused && !p.early && g != p.expect) mc_fail("output", "peer %zu received only %s of %s", i, esc(g).c_str(), esc(p.expect).c_str());
        if (pipemode && !c->accepted) mc_fail("lost", "connection %zu was never accepted", i);
        if (!c->sclosed && !p.staysopen) mc_fail("unclosed", "the peer of connection %zu is gone but it was not closed", i);
        if (!c->sclosed) shouldopen++, anyopen = true;
    }
    if (nconnfd != shouldopen) mc_fail("fd", "%zu descriptors are open, %zu connections", nconnfd, shouldopen);
    if (mfs_openfds()) mc_fail("fd", "%d file descriptors were left open", mfs_openfds());
    if (net_nconns() != (size_t)shouldopen) mc_fail("count", "%zu connections counted, %zu open", net_nconns(), shouldopen);
    if (!pipemode) {
        if (net_tconns() != hs.size()) mc_fail("count", "%zu connections counted in total, %zu were opened", net_tconns(), hs.size());
        size_t lim = 0; for (auto &k : kc) { bool op = false; for (auto h : hs) if (h->who == k.who) op = true; if (!op && !k.fault) lim++; }
        if (net_rconns() != lim) mc_fail("count", "%zu refused connections counted, %zu were", net_rconns(), lim);
        uint64_t st[] = { stat_cmd_get(), stat_cmd_set(), stat_get_hits(), stat_get_misses() };
        for (int i = 0; i < 4; i++) if (st[i] != counted[i]) mc_fail("stats", "%llu of %llu statistics %d arrived", (unsigned long long)st[i], (unsigned long long)counted[i], i);
    }
    if (!anyopen && live != liveref) mc_fail("leak", "%lld allocations were not released", (long long)(live - liveref));
    mc_outcome(mc_hash(out.data(), out.size(), Pindex));
}
uint64_t idx; int only = -1; std::string onlysched;
// what the peer is answered when it sends its requests one at a time, alone
std::string onebyone(PeerP &x, int failcreate) {
    static std::map<std::string, std::string> memo; std::string key = vfmt("%d ", failcreate); for (auto &r : x.reqs) key += r + "\xff";
    auto it = memo.find(key);
    if (it == memo.end()) {
        Program q; q.threads = 1; q.failcreate = failcreate; PeerP pp; pp.ops.push_back({ P_CONNECT, "", 0 });
        for (auto &r : x.reqs) { pp.ops.push_back({ P_SEND, r, 0 }); pp.ops.push_back({ P_SETTLE, "", 0 }); }
        pp.ops.push_back({ P_CLOSE, "", 0 }); q.peers.push_back(pp);
        const Program *o = P; P = &q; refrun = true; XP = { 2, s_setup, s_thread, s_finish }; sc_first(&XP); refrun = false; P = o;
        it = memo.insert({ key, got[0] }).first;
        if (live != liveref) mc_fail("leak", "%lld allocations were not released after %s", (long long)(live - liveref), esc(key).c_str());
    }
    for (auto &o : x.ops) if (o.k == P_EXPECT) o.n = it->second.size();
    return it->second;
}
void go(Program &p) {
    uint64_t i = idx++;
    if (only >= 0 ? (int)i != only : (int)(i % mc_nparts) != mc_part) return;
    mc_tick(); sc_idle = idle; sc_norelaxed = sc_delay = true;
    { Program q; q.threads = p.threads; q.queue = p.queue; P = &q; Pindex = -1; refrun = true; if (pipemode) { PeerP pp; pp.ops = { { P_CONNECT, "", 0 }, { P_SEND, "PING\r\n", 0 }, { P_SETTLE, "", 0 }, { P_CLOSE, "", 0 } }; q.peers.push_back(pp); } XP = { 1 + (int)q.peers.size(), s_setup, s_thread, s_finish }; sc_first(&XP); liveref = live; refrun = false; }
    if (pipemode) for (auto &x : p.peers) x.expect = onebyone(x, p.failcreate);
    P = &p; Pindex = i;
    XP = { 1 + fibers(p), s_setup, s_thread, x_finish };
    sc_bound = p.bound;
    if (only >= 0) { sc_replay(&XP, onlysched.c_str()); mc_done(); }
    if (getenv("SCV2")) fprintf(stderr, "%s\n", ptext().c_str());
    sc_stats st; sc_explore(&XP, &st);
    mc_traces += st.execs; mc_evals += st.execs; mc_note("programs", 1); mc_note("schedules", st.execs); mc_state(mc_hash(&i, 8, st.execs));
    if (idx % 97 == 1) mc_sample("%s: %llu schedules, at most %llu points", ptext().c_str(), (unsigned long long)st.execs, (unsigned long long)st.maxpoints);
    if (getenv("SCV")) fprintf(stderr, "%llu execs %llu maxpts: %s\n", (unsigned long long)st.execs, (unsigned long long)st.maxpoints, ptext().c_str());
}
#include "snet_programs.h"
#include "snet_options.h"
void servermain() {
    signal(SIGTERM, SIG_DFL); signal(SIGINT, SIG_DFL);
    // the table of the commands is built by the first command; a zeroed connection is an empty one
    { net_conn *c = (net_conn *)calloc(1, 8192); evopened(c, nopts.udata); char w[] = "PING\r\n"; evdata(c, w, 6, nopts.udata); evclosed(c, nopts.udata); }
    imgdata.assign(__start_srvdata, __stop_srvdata - __start_srvdata); imgbss.assign(__start_srvbss, __stop_srvbss - __start_srvbss);
    if (mc_case_in) { const char *s = strstr(mc_case_in, "sched="); if (!s || sscanf(mc_case_in, "snet index=%d", &only) != 1) mc_die("case"); onlysched = s + 6; }
    mfs_foreign = { kmine, kread, kwrite, kclose };
    if (!strcmp(mc_mode, "net")) run_net(); else if (!strcmp(mc_mode, "counts")) run_counts(); else if (!strcmp(mc_mode, "pipe")) { pipemode = true; run_pipe(); } else if (!strcmp(mc_mode, "stall")) run_stall(); else if (!strcmp(mc_mode, "map")) run_map();  else mc_die("mode");
    mc_done();
}
}
extern "C" void capture_net_main(struct net_opts *o) { nopts = *o; booted = true; if (optphase) { optreached = true; longjmp(optjmp, 1); } sc_boot_create = 0; servermain(); }
int main(int argc, char **argv) {
    mc_init(argc, argv); mc_case_printer(printer);
    if (!freopen("/dev/null", "w", stdout)) return 3;
    sx_exithook = [](int code) { if (optphase) { optexit = code; longjmp(optjmp, 1); } };
    if (!strcmp(mc_mode, "opts")) {
        sc_idle = idle; sc_norelaxed = sc_delay = true; mfs_foreign = { kmine, kread, kwrite, kclose };
        if (mc_case_in && sscanf(mc_case_in, "snet index=%d", &only) != 1) mc_die("case");
        ksee.f = [](int what, int fd, const std::string &x, int v) {
            switch (what) {
            case 0: seenl[fd] = LSeen(); seenl[fd].domain = v; seenl[fd].host = lasthost; seenl[fd].port = lastport; break;
            case 1: seenl[fd].path = x; break; case 2: seenl[fd].backlog = v; break; case 3: lasthost = x; break; case 4: lastport = x; break;
            case 5: { int a, b; sscanf(x.c_str(), "%d %d", &a, &b); if (seenl.count(fd)) { if (a == SOL_SOCKET && b == SO_REUSEPORT) seenl[fd].reuse = v; } else { size_t c = fdt[fd - BASE].conn; if (connopts.size() <= c) connopts.resize(c + 1); connopts[c][{ a, b }] = v; } break; }
            case 6: seenmax = seenmax && seenmax != v ? -1 : v; break;
            }
        };
        run_opts(); mc_done();
    }
    sc_boot_create = bootcreate;
    static const char *av[] = { "pogocache", "--allocator=stock", "--seed=1", "--threads=2", "--uring=no", "--maxmemory=unlimited", "--shards=4", 0 };
    static char buf[8][64]; char *v[9]; int n = 0; for (; av[n]; n++) { strcpy(buf[n], av[n]); v[n] = buf[n]; } v[n] = 0;
    pogocache_main(n, v);
    mc_die("main returned");
}
