#define _GNU_SOURCE
#include "msched.h"
#include <sys/mman.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>

int sc_bound = 2; bool sc_delay; uint64_t sc_maxexec; bool sc_races = true;
uint64_t sc_fail_create, sc_creates;
int (*sc_boot_create)(pthread_t *, void *(*)(void *), void *);

// ------------------------------------------------------------- fibers
enum { F_FREE, F_RUN, F_SPIN, F_MUTEX, F_COND, F_JOIN, F_PRED, F_DONE };
#define WIN 12
struct fiber {
    int id, st; void *sp; void *(*fn)(void *); void *arg; void *ret;
    uint16_t vc[SC_MAXT];
    struct { uintptr_t a; uint64_t v, ver; int n; } win[WIN]; int nwin;
    bool yielded; void *wait; bool (*pred)(void *); int joining; bool joined, detached; int err;
    struct { void *ctl; void *mem; } tls[16]; int ntls;
};
static struct fiber F[SC_MAXT]; static int nf; static struct fiber *cur = F;
static bool active;      // threads are running
static bool tracking;    // an execution is in progress (also setup/finish)
static void *main_sp;
#define STK (256 * 1024)
static char *stacks;
static uint64_t clock_;
int sc_self(void) { return cur->id; }
bool sc_active(void) { return active; }
bool sc_running(void) { return tracking; }
uint64_t sc_now(void) { return ++clock_; }

__attribute__((naked, noinline)) static void sw(void **save, void *load) {
    __asm__ volatile(
        "push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
        "mov %rsp,(%rdi)\n mov %rsi,%rsp\n"
        "pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
}

// ----------------------------------------------------------- schedule
#define MAXCH 20000
static struct { uint16_t c, n; uint8_t free; uint16_t cost; } ch[MAXCH]; static int nch, nprefix; // cost before this point
static int cost; static bool replaying; static struct sc_prog *prog;
size_t sc_print(char *b, size_t n) {
    size_t m = snprintf(b, n, " sched=");
    int last = nch; while (last > 0 && ch[last - 1].c == 0) last--;
    for (int i = 0; i < last && m + 8 < n; i++) m += snprintf(b + m, n - m, "%s%d", i ? "," : "", ch[i].c);
    if (!last) m += snprintf(b + m, n - m, "-");
    return m;
}
// take choice among n; free: a non-zero choice costs nothing
static int choose(int n, bool fr) {
    if (n <= 1) return 0;
    if (nch >= MAXCH) { mc_fail("endless", "execution has more than %d scheduling points", MAXCH); mc_die("too long"); }
    int c = 0;
    if (nch < nprefix) {
        c = ch[nch].c;
        if (!replaying && ch[nch].n != n) mc_die("divergence at point %d: %d choices, had %d", nch, n, ch[nch].n);
        if (c >= n) mc_die("divergence: choice out of range");
    }
    ch[nch].c = c; ch[nch].n = n; ch[nch].free = fr; ch[nch].cost = cost; nch++;
    if (c && !fr) cost++;
    return c;
}
int sc_choose(int n) { return tracking ? choose(n, true) : 0; }
int sc_choose_dev(int n) { return tracking ? choose(n, false) : 0; }

// -------------------------------------------------------- sync objects
struct sync { uintptr_t a; uint32_t gen; uint64_t ver; uint16_t vc[SC_MAXT]; int owner; int depth; bool isrec; };
#define NSYNC 4096
static struct sync S[NSYNC]; static uint32_t gen = 1;
static struct sync *sync_get(uintptr_t a) {
    size_t i = (a * 0x9E3779B97F4A7C15ull) >> 52;
    while (1) {
        struct sync *s = &S[i & (NSYNC - 1)];
        if (s->gen != gen) { memset(s, 0, sizeof *s); s->a = a; s->gen = gen; s->owner = -1; return s; }
        if (s->a == a) return s;
        i++;
    }
}
static void vjoin(uint16_t *a, const uint16_t *b) { for (int i = 0; i < SC_MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void vacq(struct sync *s) { vjoin(cur->vc, s->vc); }
static void vinc(void) { if (++cur->vc[cur->id] == 65000) mc_die("clock"); }

static bool enabled(struct fiber *f) {
    switch (f->st) {
    case F_RUN: return true;
    case F_SPIN: for (int i = 0; i < f->nwin; i++) if (sync_get(f->win[i].a)->ver != f->win[i].ver) return true; return false;
    case F_MUTEX: return sync_get((uintptr_t)f->wait)->owner < 0;
    case F_PRED: return f->pred(f->wait);
    case F_JOIN: return f->joining >= 0 && F[f->joining].st == F_DONE;
    default: return false;
    }
}
static const char *stn(int s) { static const char *n[] = { "free", "runnable", "spinning", "waiting for a mutex", "waiting on a condition", "joining", "waiting for an event", "done" }; return n[s]; }
static uint64_t fallback;
bool (*sc_idle)(void);          // nothing can run: make something runnable, or return false
static void switch_to(struct fiber *f) {
    if (f == cur) return;
    struct fiber *o = cur; cur = f;
    o->err = errno; errno = f->err;    // errno belongs to the fiber
    sw(&o->sp, f->sp);
}
// pick who runs next; the current fiber calls this
static void reschedule(void) {
    struct fiber *en[SC_MAXT]; int n = 0; bool curen = false;
    if (enabled(cur)) {
        if (!cur->yielded) en[n++] = cur, curen = true;
    }
    for (int i = 0; i < nf; i++) if (&F[i] != cur && enabled(&F[i])) en[n++] = &F[i];
    if (!n && cur->yielded && enabled(cur)) en[n++] = cur;
    cur->yielded = false;
    if (!n) {
        int sp = 0, alldone = 1;
        for (int i = 0; i < nf; i++) { if (F[i].st == F_SPIN) sp++; if (F[i].st != F_DONE) alldone = 0; }
        if (alldone) mc_die("reschedule with all done");
        if (sp && fallback < 3000) { // maybe a bounded retry: let the spinners go round
            fallback++;
            for (int k = 1; k <= nf; k++) { struct fiber *f = &F[(cur->id + k) % nf]; if (f->st == F_SPIN) { f->st = F_RUN; f->nwin = 0; switch_to(f); return; } }
        }
        if (sc_idle && sc_idle()) for (int i = 0; i < nf; i++) if (enabled(&F[i])) en[n++] = &F[i];
    }
    if (!n) {
        char m[512]; size_t k = 0;
        for (int i = 0; i < nf; i++) k += snprintf(m + k, sizeof m - k, " thread %d is %s;", i, stn(F[i].st));
        mc_fail("deadlock", "no thread can make progress:%s", m); mc_die("deadlock");
    }
    int c = choose(n, !curen && !sc_delay);
    struct fiber *f = en[c];
    if (f->st == F_SPIN) { f->nwin = 0; }
    if (f->st != F_DONE) f->st = F_RUN;
    switch_to(f);
}
void sc_point(void) {
    if (!active) return;
    mc_transitions++;
    reschedule();
}
static void block(int st) { cur->st = st; reschedule(); }
static void win_reset(void) { cur->nwin = 0; }
void sc_wait(bool (*pred)(void *), void *arg) { if (!active) mc_die("wait outside of threads"); cur->pred = pred; cur->wait = arg; if (!pred(arg)) block(F_PRED); win_reset(); }
void sc_yield(void) { cur->yielded = true; sc_point(); }
// a non-writing atomic operation: detect waiting
static void nonwriting(uintptr_t a, uint64_t v, int limit) {
    if (!active) return;
    struct sync *s = sync_get(a);
    for (int i = 0; i < cur->nwin; i++) if (cur->win[i].a == a) {
        if (cur->win[i].v == v && cur->win[i].ver == s->ver) {
            if (++cur->win[i].n >= limit) { cur->win[i].n = 0; block(F_SPIN); }
        } else { cur->win[i].v = v; cur->win[i].ver = s->ver; cur->win[i].n = 1; }
        return;
    }
    if (cur->nwin == WIN) cur->nwin = 0;
    cur->win[cur->nwin].a = a; cur->win[cur->nwin].v = v; cur->win[cur->nwin].ver = s->ver; cur->win[cur->nwin].n = 1; cur->nwin++;
}
void sc_exit(void) {
    cur->st = F_DONE; vinc();
    // the main fiber joins everything at the end
    bool all = true; for (int i = 1; i < nf; i++) if (F[i].st != F_DONE) all = false;
    if (all && F[0].st == F_JOIN && F[0].joining == -1) { struct fiber *o = cur; cur = F; F[0].st = F_RUN; sw(&o->sp, F[0].sp); }
    reschedule();
    mc_die("fiber resumed after its end");
}
static void fiber_entry(void) { cur->ret = cur->fn(cur->arg); sc_exit(); }
static int spawn(void *(*fn)(void *), void *arg) {
    if (nf == SC_MAXT) mc_die("too many threads");
    struct fiber *f = &F[nf]; memset(f, 0, sizeof *f);
    f->id = nf++; f->fn = fn; f->arg = arg; f->st = F_RUN;
    memcpy(f->vc, cur->vc, sizeof f->vc); f->vc[f->id] = 1;
    char *top = stacks + (size_t)(f->id + 1) * STK - 64;
    void **sp = (void **)((uintptr_t)top & ~15ull);
    *--sp = 0; *--sp = (void *)fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    return f->id;
}

// ------------------------------------------------------ arena, shadow
#define ARENA (48u << 20)
static char *arena; static size_t apos; static uint8_t *ashadow; // per 8 bytes: 0 invalid, 1..8 valid bytes, 0xFD freed
static size_t ahigh; static size_t nlive, nlivebytes;
struct blk { uint64_t magic; size_t n; };
size_t sc_live(void) { return nlive; }
size_t sc_live_bytes(void) { return nlivebytes; }
static bool in_arena(uintptr_t a) { return a - (uintptr_t)arena < ARENA; }
static void access_(uintptr_t a, size_t n, bool wr, bool isfree);
static void *amalloc(size_t n) {
    size_t need = (n + 15) / 16 * 16 + 32;
    if (apos + need > ARENA) mc_die("arena");
    char *p = arena + apos; apos += need; if (apos > ahigh) ahigh = apos;
    struct blk *b = (void *)p; b->magic = 0xB10CB10C; b->n = n;
    p += 16;
    size_t q = (p - arena) >> 3;
    for (size_t i = 0; i < n / 8; i++) ashadow[q + i] = 8;
    if (n % 8) ashadow[q + n / 8] = n % 8;
    nlive++; nlivebytes += n;
    memset(p, 0xA5, n);
    return p;
}
static struct blk *blk_of(void *p) { struct blk *b = (void *)((char *)p - 16); return b; }
static void afree(void *p) {
    if (!p) return;
    if (!in_arena((uintptr_t)p)) { mc_fail("bad-free", "free of a foreign pointer"); return; }
    struct blk *b = blk_of(p);
    if (b->magic == 0xDEADB10C) { mc_fail("double-free", "block freed twice"); return; }
    if (b->magic != 0xB10CB10C) { mc_fail("bad-free", "free of a pointer that was not allocated"); return; }
    if (active) access_((uintptr_t)p, b->n, true, true);
    b->magic = 0xDEADB10C;
    size_t q = ((char *)p - arena) >> 3;
    for (size_t i = 0; i < (b->n + 7) / 8; i++) ashadow[q + i] = 0xFD;
    nlive--; nlivebytes -= b->n;
}
void *sc_malloc(size_t n) { return amalloc(n); }
void sc_free(void *p) { afree(p); }
bool sc_owns(void *p) { return arena && in_arena((uintptr_t)p); }
size_t sc_size(void *p) { return blk_of(p)->n; }

struct cell { uint64_t key; uint32_t gen; uint8_t amask; uint8_t wt[8]; uint16_t wc[8]; uint16_t rc[8][SC_MAXT]; uint16_t at[SC_MAXT], atw[SC_MAXT]; };
#define NCELL (1 << 15)
static struct cell *cells; static uint32_t ncells;
static struct cell *cell_get(uint64_t key) {
    size_t i = (key * 0x9E3779B97F4A7C15ull) >> 40;
    while (1) {
        struct cell *c = &cells[i & (NCELL - 1)];
        if (c->gen != gen) { memset(c, 0, sizeof *c); c->key = key; c->gen = gen; if (++ncells > NCELL * 3 / 4) mc_die("shadow cells"); return c; }
        if (c->key == key) return c;
        i++;
    }
}
static void race(uintptr_t a, const char *w1, int t, const char *w2) {
    mc_fail("data-race", "data race on %s at %#lx: %s by thread %d is not ordered with %s by thread %d",
        in_arena(a) ? "allocated memory" : "a variable", (unsigned long)a, w1, t, w2, cur->id);
}
static void validity(uintptr_t a, size_t n, bool wr) {
    size_t q = (a - (uintptr_t)arena) >> 3, e = (a + n - 1 - (uintptr_t)arena) >> 3;
    for (size_t i = q; i <= e; i++) {
        uint8_t s = ashadow[i];
        if (s == 8) continue;
        if (s == 0xFD) { mc_fail("use-after-free", "%s of freed memory by thread %d", wr ? "write" : "read", cur->id); return; }
        size_t last = (i == e ? (a + n - 1 - (uintptr_t)arena) & 7 : 7);
        if (s == 0 || last >= s) { mc_fail("out-of-bounds", "%s outside of an allocation by thread %d", wr ? "write" : "read", cur->id); return; }
    }
}
static void access_(uintptr_t a, size_t n, bool wr, bool isfree) {
    (void)isfree;
    if (!tracking || !n || a == (uintptr_t)&errno) return;
    if (in_arena(a)) validity(a, n, wr);
    if (!active || !sc_races) return;
    int me = cur->id; uint16_t mc = cur->vc[me];
    while (n) {
        uint64_t key = a >> 3; size_t off = a & 7, k = 8 - off; if (k > n) k = n;
        struct cell *c = cell_get(key);
        for (size_t b = off; b < off + k; b++) {
            if (c->wc[b] && c->wt[b] != me && c->wc[b] > cur->vc[c->wt[b]]) { race(key << 3, "a write", c->wt[b], wr ? "a write" : "a read"); c->wc[b] = 0; }
            if (wr) {
                for (int t = 0; t < nf; t++) if (t != me && c->rc[b][t] > cur->vc[t]) { race(key << 3, "a read", t, "a write"); c->rc[b][t] = 0; }
                c->wt[b] = me; c->wc[b] = mc;
            } else c->rc[b][me] = mc;
        }
        if (c->amask) for (int t = 0; t < nf; t++) if (t != me && (c->amask >> off & ((1 << k) - 1))) {
            if ((wr ? c->at[t] : c->atw[t]) > cur->vc[t]) { race(key << 3, "an atomic access", t, wr ? "a plain write" : "a plain read"); c->at[t] = c->atw[t] = 0; }
        }
        a += k; n -= k;
    }
}
static void atomic_access(uintptr_t a, size_t n, bool wr) {
    if (!tracking) return;
    if (in_arena(a)) validity(a, n, wr);
    if (!active || !sc_races) return;
    int me = cur->id;
    struct cell *c = cell_get(a >> 3); size_t off = a & 7;
    for (size_t b = off; b < off + n && b < 8; b++) {
        if (c->wc[b] && c->wt[b] != me && c->wc[b] > cur->vc[c->wt[b]]) race(a, "a plain write", c->wt[b], "an atomic access");
        if (wr) for (int t = 0; t < nf; t++) if (t != me && c->rc[b][t] > cur->vc[t]) race(a, "a plain read", t, "an atomic write");
        c->amask |= 1 << b;
    }
    c->at[me] = cur->vc[me]; if (wr) c->atw[me] = cur->vc[me];
}
// ---------------------------------------------------- instrumentation
#define ACC(NM, N, W) void __tsan_##NM(void *p) { access_((uintptr_t)p, N, W, false); }
ACC(read1, 1, 0) ACC(read2, 2, 0) ACC(read4, 4, 0) ACC(read8, 8, 0) ACC(read16, 16, 0)
ACC(write1, 1, 1) ACC(write2, 2, 1) ACC(write4, 4, 1) ACC(write8, 8, 1) ACC(write16, 16, 1)
ACC(unaligned_read2, 2, 0) ACC(unaligned_read4, 4, 0) ACC(unaligned_read8, 8, 0) ACC(unaligned_read16, 16, 0)
ACC(unaligned_write2, 2, 1) ACC(unaligned_write4, 4, 1) ACC(unaligned_write8, 8, 1) ACC(unaligned_write16, 16, 1)
#define RW(NM, N) void __tsan_##NM(void *p) { access_((uintptr_t)p, N, 0, false); access_((uintptr_t)p, N, 1, false); }
RW(read_write1, 1) RW(read_write2, 2) RW(read_write4, 4) RW(read_write8, 8) RW(read_write16, 16)
RW(unaligned_read_write2, 2) RW(unaligned_read_write4, 4) RW(unaligned_read_write8, 8) RW(unaligned_read_write16, 16)
void __tsan_read_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 0, false); }
void __tsan_write_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 1, false); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, 0, false); access_((uintptr_t)d, n, 1, false); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, 0, false); access_((uintptr_t)d, n, 1, false); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_((uintptr_t)d, n, 1, false); return memset(d, c, n); }
int __real_memcmp(const void *, const void *, size_t); int __real_bcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) { access_((uintptr_t)a, n, 0, false); access_((uintptr_t)b, n, 0, false); return __real_memcmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { access_((uintptr_t)a, n, 0, false); access_((uintptr_t)b, n, 0, false); return __real_bcmp(a, b, n); }

// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
void sc_release(uintptr_t a) { struct sync *s = sync_get(a); vjoin(s->vc, cur->vc); s->ver++; vinc(); win_reset(); }
void sc_acquire(uintptr_t a) { vacq(sync_get(a)); }
static bool isacq(int o) { return o == 1 || o == 2 || o >= 4; }
static bool isrel(int o) { return o >= 3; }
static void a_load(uintptr_t a, size_t n, uint64_t v, int o) {
    atomic_access(a, n, false);
    if (!tracking) return;
    struct sync *s = sync_get(a);
    if (isacq(o)) vacq(s);
    nonwriting(a, v, 3);
}
static void a_store(uintptr_t a, size_t n, int o) {
    atomic_access(a, n, true);
    if (!tracking) return;
    struct sync *s = sync_get(a); s->ver++;
    if (isrel(o)) { memcpy(s->vc, cur->vc, sizeof s->vc); vinc(); } else memset(s->vc, 0, sizeof s->vc);
    win_reset();
}
static void a_rmw(uintptr_t a, size_t n, int o) {
    atomic_access(a, n, true);
    if (!tracking) return;
    struct sync *s = sync_get(a); s->ver++;
    if (isacq(o)) vacq(s);
    if (isrel(o)) { vjoin(s->vc, cur->vc); vinc(); }
    win_reset();
}
static void a_casfail(uintptr_t a, size_t n, uint64_t v, int o) {
    atomic_access(a, n, false);
    if (!tracking) return;
    struct sync *s = sync_get(a);
    if (isacq(o)) vacq(s);
    cur->yielded = true;
    nonwriting(a, v, 2);
}
bool sc_norelaxed;
#define PT(o) do { if (!sc_norelaxed || (o)) sc_point(); } while (0)
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int o) { PT(o); T v = *p; a_load((uintptr_t)p, sizeof(T), v, o); return *p == v ? v : v; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int o) { PT(o); a_store((uintptr_t)p, sizeof(T), o); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int o) { PT(o); a_rmw((uintptr_t)p, sizeof(T), o); T r = *p; *p = v; return r; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int o) { PT(o); a_rmw((uintptr_t)p, sizeof(T), o); T r = *p; *p = r + v; return r; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int o) { PT(o); a_rmw((uintptr_t)p, sizeof(T), o); T r = *p; *p = r - v; return r; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int o) { PT(o); a_rmw((uintptr_t)p, sizeof(T), o); T r = *p; *p = r & v; return r; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int o) { PT(o); a_rmw((uintptr_t)p, sizeof(T), o); T r = *p; *p = r | v; return r; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int o) { PT(o); a_rmw((uintptr_t)p, sizeof(T), o); T r = *p; *p = r ^ v; return r; } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int o) { PT(o); a_rmw((uintptr_t)p, sizeof(T), o); T r = *p; *p = ~(r & v); return r; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int o, int fo) { PT(o); T r = *p; \
    if (r == e) { a_rmw((uintptr_t)p, sizeof(T), o); *p = v; } else a_casfail((uintptr_t)p, sizeof(T), r, fo); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int fo) { T x = *e; T r = __tsan_atomic##B##_compare_exchange_val(p, x, v, o, fo); *e = r; return r == x; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int fo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, o, fo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; if (!tracking) return; sc_point(); struct sync *s = sync_get(1); vacq(s); vjoin(s->vc, cur->vc); vinc(); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

// thread-local variables of the code under test (compiled with emulated TLS)
struct emutls { size_t size, align; void *ptr; void *init; };
void *__emutls_get_address(struct emutls *c) {
    struct fiber *f = cur;
    for (int i = 0; i < f->ntls; i++) if (f->tls[i].ctl == c) return f->tls[i].mem;
    // one block per (variable, fiber), reused and reinitialised per execution
    static struct { void *ctl; void *mem[SC_MAXT]; } pool[16]; static int npool;
    int k = 0; while (k < npool && pool[k].ctl != c) k++;
    if (k == npool) { if (npool == 16) mc_die("tls"); pool[npool++].ctl = c; }
    if (!pool[k].mem[f->id]) pool[k].mem[f->id] = aligned_alloc(64, (c->size + 63) / 64 * 64);
    void *m = pool[k].mem[f->id];
    if (c->init) memcpy(m, c->init, c->size); else memset(m, 0, c->size);
    if (f->ntls == 16) mc_die("tls");
    f->tls[f->ntls].ctl = c; f->tls[f->ntls++].mem = m;
    return m;
}

// ------------------------------------------------- libc synchronisation
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!tracking) return 0;
    struct sync *s = sync_get((uintptr_t)m);
    sc_point();
    while (s->owner >= 0) {
        if (!active) { mc_fail("deadlock", "mutex already locked"); mc_die("mutex"); }
        if (s->owner == cur->id) { cur->wait = m; block(F_MUTEX); continue; } // self deadlock
        cur->wait = m; block(F_MUTEX);
    }
    s->owner = cur->id; vacq(s); win_reset();
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!tracking) return 0;
    struct sync *s = sync_get((uintptr_t)m);
    sc_point();
    if (s->owner >= 0) { cur->yielded = true; return EBUSY; }
    s->owner = cur->id; vacq(s); win_reset();
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!tracking) return 0;
    struct sync *s = sync_get((uintptr_t)m);
    sc_point();
    if (s->owner != cur->id) mc_fail("bad-unlock", "mutex unlocked by thread %d but owned by %d", cur->id, s->owner);
    s->owner = -1; s->ver++; memcpy(s->vc, cur->vc, sizeof s->vc); vinc(); win_reset();
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a) { (void)a; if (tracking) { struct sync *s = sync_get((uintptr_t)m); s->owner = -1; } return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const void *a) { (void)c, (void)a; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!active) { mc_fail("deadlock", "condition wait with no other thread"); return 0; }
    __wrap_pthread_mutex_unlock(m);
    cur->wait = c; block(F_COND);
    __wrap_pthread_mutex_lock(m);
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    (void)t, (void)c;
    if (!active) return ETIMEDOUT;
    __wrap_pthread_mutex_unlock(m); cur->yielded = true; sc_point(); __wrap_pthread_mutex_lock(m);
    return ETIMEDOUT;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active) return 0;
    sc_point();
    for (int i = 0; i < nf; i++) if (F[i].st == F_COND && F[i].wait == c) F[i].st = F_RUN;
    win_reset();
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!active) return 0;
    sc_point();
    int w[SC_MAXT], n = 0;
    for (int i = 0; i < nf; i++) if (F[i].st == F_COND && F[i].wait == c) w[n++] = i;
    if (n) F[w[choose(n, true)]].st = F_RUN;
    win_reset();
    return 0;
}
int __wrap_pthread_create(pthread_t *th, const void *attr, void *(*fn)(void *), void *arg) {
    (void)attr;
    if (!active) { if (sc_boot_create) return sc_boot_create(th, fn, arg); mc_die("pthread_create outside of an execution"); }
    sc_point(); sc_creates++;
    if (sc_creates == sc_fail_create) return EAGAIN;
    vinc();
    int id = spawn(fn, arg);
    vinc(); win_reset();
    *th = (pthread_t)(0x7E000000ul + id);
    return 0;
}
int __wrap_pthread_join(pthread_t th, void **ret) {
    uintptr_t id = (uintptr_t)th - 0x7E000000ul;
    if (id == 0 || id >= (uintptr_t)nf || F[id].joined || F[id].detached) { mc_fail("bad-join", "join of a thread that does not exist, was joined or detached"); return ESRCH; }
    sc_point();
    cur->joining = id;
    if (F[id].st != F_DONE) block(F_JOIN);
    F[id].joined = true; vjoin(cur->vc, F[id].vc); win_reset();
    if (ret) *ret = F[id].ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t th) {
    uintptr_t id = (uintptr_t)th - 0x7E000000ul;
    if (id == 0 || id >= (uintptr_t)nf || F[id].joined || F[id].detached) { mc_fail("bad-join", "detach of a thread that does not exist, was joined or detached"); return ESRCH; }
    F[id].detached = true; return 0;
}
pthread_t __wrap_pthread_self(void) { return (pthread_t)(0x7E000000ul + cur->id); }
int __wrap_sched_yield(void) { if (active) { cur->yielded = true; sc_point(); } return 0; }
int __wrap_usleep(unsigned us) { (void)us; return __wrap_sched_yield(); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)a, (void)b; return __wrap_sched_yield(); }

// --------------------------------------------------------- exploration
static void *thread_main(void *arg) { prog->thread((int)(intptr_t)arg); return 0; }
static void init_once(void) {
    if (arena) return;
    arena = mmap((void *)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) mc_die("mmap");
    ashadow = mmap(0, ARENA / 8 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stacks = mmap((void *)0x210000000000ull, STK * SC_MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    cells = mmap(0, sizeof(struct cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (stacks == MAP_FAILED) mc_die("mmap");
}
static void run_once(struct sc_prog *p) {
    init_once();
    prog = p; gen++; ncells = 0; nch = 0; cost = 0; clock_ = 0; fallback = 0; sc_creates = 0;
    memset(ashadow, 0, ahigh / 8 + 1); apos = 0; ahigh = 0; nlive = 0; nlivebytes = 0;
    memset(F, 0, sizeof F[0]); nf = 1; cur = F; F[0].st = F_RUN; F[0].vc[0] = 1;
    tracking = true; active = false;
    p->setup();
    vinc();
    active = true;
    for (int i = 0; i < p->n; i++) spawn(thread_main, (void *)(intptr_t)i);
    vinc();
    F[0].st = F_JOIN; F[0].joining = -1;
    // enabled() for joining == -1 must be false
    {
        struct fiber *en[SC_MAXT]; int n = 0;
        for (int i = 1; i < nf; i++) en[n++] = &F[i];
        if (n) { int c = choose(n, true); cur = en[c]; sw(&F[0].sp, cur->sp); }
    }
    active = false; cur = F;
    for (int i = 1; i < nf; i++) vjoin(F[0].vc, F[i].vc);
    p->finish();
    tracking = false;
    mc_tick();
}
void sc_explore(struct sc_prog *p, struct sc_stats *st) {
    memset(st, 0, sizeof *st); replaying = false; nprefix = 0;
    while (1) {
        run_once(p);
        st->execs++; st->points += nch; if ((uint64_t)nch > st->maxpoints) st->maxpoints = nch;
        int i = nch - 1;
        while (i >= 0) {
            if (ch[i].c + 1 < ch[i].n && (ch[i].free || sc_bound < 0 || ch[i].cost + 1 <= sc_bound)) break;
            i--;
        }
        if (i < 0) { st->complete = true; return; }
        if (sc_maxexec && st->execs >= sc_maxexec) { st->complete = false; return; }
        ch[i].c++; nprefix = i + 1;
    }
}
void sc_first(struct sc_prog *p) { replaying = false; nprefix = 0; run_once(p); }
void sc_replay(struct sc_prog *p, const char *s) {
    replaying = true; nprefix = 0;
    while (*s >= '0' && *s <= '9') { ch[nprefix].c = strtol(s, (char **)&s, 10); nprefix++; if (*s == ',') s++; }
    run_once(p);
}
