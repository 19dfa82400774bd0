// Exhaustive explorer of the cache engine (pogocache.c) through its public
// interface. Every sequence of operations up to a depth is executed on the
// real code from each of several start states and configurations, and every
// answer, callback, count, size and allocation is compared with a plain
// reference model. See DESIGN.md, section "eng".
#include "mc.h"
#include <time.h>
#include <stdarg.h>
#include "pogocache.h"

// ------------------------------------------------------------------ clock
static int64_t now_ = 1000;
int mc_clock_gettime(clockid_t id, struct timespec *ts) {
    (void)id;
    ts->tv_sec = now_ / 1000000000; ts->tv_nsec = now_ % 1000000000;
    return 0;
}

// ------------------------------------------------------- allocation ledger
struct led { void *p; size_t n; };
static struct led *led; static size_t ledcap, lednum; static size_t ledbytes;
static uint64_t alloc_no, fail_at; static bool fail_from; static bool failed_now;
static uint64_t total_allocs;
static size_t lh(void *p) { return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 20; }
static void led_put(void *p, size_t n) {
    if (lednum * 2 >= ledcap) {
        size_t oc = ledcap; struct led *o = led;
        ledcap = ledcap ? ledcap * 2 : 1024; led = calloc(ledcap, sizeof *led);
        for (size_t i = 0; i < oc; i++) if (o[i].p) {
            size_t j = lh(o[i].p) & (ledcap - 1);
            while (led[j].p) j = (j + 1) & (ledcap - 1);
            led[j] = o[i];
        }
        free(o);
    }
    size_t j = lh(p) & (ledcap - 1);
    while (led[j].p) j = (j + 1) & (ledcap - 1);
    led[j].p = p; led[j].n = n; lednum++; ledbytes += n;
}
static struct led *led_get(void *p) {
    if (!ledcap) return 0;
    size_t j = lh(p) & (ledcap - 1);
    while (led[j].p) { if (led[j].p == p) return &led[j]; j = (j + 1) & (ledcap - 1); }
    return 0;
}
static void led_del(struct led *l) {
    ledbytes -= l->n; lednum--;
    size_t i = l - led, j = i;
    led[i].p = 0;
    while (1) {
        j = (j + 1) & (ledcap - 1);
        if (!led[j].p) return;
        size_t h = lh(led[j].p) & (ledcap - 1);
        if ((i <= j) ? (i < h && h <= j) : (i < h || h <= j)) continue;
        led[i] = led[j]; led[j].p = 0; i = j;
    }
}
static void *xm(size_t n) {
    alloc_no++; total_allocs++;
    if (fail_at && (alloc_no == fail_at || (fail_from && alloc_no >= fail_at))) { failed_now = true; return 0; }
    void *p = malloc(n ? n : 1);
    memset(p, 0xA5, n);
    led_put(p, n);
    return p;
}
static void xf(void *p) {
    struct led *l = led_get(p);
    if (!l) mc_fail("bad-free", "free of %s pointer", p ? "an unknown or already freed" : "a null");
    else led_del(l);
    free(p);
}

// ------------------------------------------------------------------- keys
struct str { const char *p; size_t n; };
#define MAXK 1024
static struct str keys[MAXK]; static int nkeys;
static struct str vals[64]; static int nvals;

__attribute__((no_sanitize("address", "undefined"), optimize("O2")))
static uint64_t th64(const void *data, size_t len, uint64_t seed) {
    uint8_t*p=(uint8_t*)data,*e=p+len;
    uint64_t r=0x14020a57acced8b7,x,h=seed;
    while(p+8<=e)memcpy(&x,p,8),x*=r,p+=8,x=x<<31|x>>33,h=h*r^x,h=h<<31|h>>33;
    while(p<e)h=h*r^*(p++);
    return(h=h*r+len,h^=h>>31,h*=r,h^=h>>31,h*=r,h^=h>>31,h*=r,h);
}
// find n keys whose hash satisfies (h & mask) == want; used only to make
// collisions likely: nothing depends on the engine using this hash.
static int key_ctr = 0;
static struct str key_with(uint64_t mask, uint64_t want) {
    char b[32];
    while (1) {
        int n = snprintf(b, sizeof b, "k%d", key_ctr++);
        if ((th64(b, n, 0) & mask) == want) {
            struct str s = { strdup(b), n }; return s;
        }
    }
}
struct hk { uint32_t h; int i; };
static int cmphk(const void *a, const void *b) {
    const struct hk *x = a, *y = b;
    return x->h < y->h ? -1 : x->h > y->h ? 1 : x->i - y->i;
}
// two keys with equal low 24 bits of the hash (identical stored hash)
static void key_fullpair(struct str *a, struct str *b, int nth) {
    int N = 60000; struct hk *t = malloc(N * sizeof *t); char s[32];
    for (int i = 0; i < N; i++) {
        int n = snprintf(s, sizeof s, "p%d", i);
        t[i].h = th64(s, n, 0) & 0xFFFFFF; t[i].i = i;
    }
    qsort(t, N, sizeof *t, cmphk);
    for (int i = 0; i + 1 < N; i++) if (t[i].h == t[i + 1].h) {
        if (nth--) continue;
        snprintf(s, sizeof s, "p%d", t[i].i); a->p = strdup(s); a->n = strlen(s);
        snprintf(s, sizeof s, "p%d", t[i + 1].i); b->p = strdup(s); b->n = strlen(s);
        free(t); return;
    }
    mc_die("no pair");
}
static struct str lit(const char *s) { struct str r = { s, strlen(s) }; return r; }

// ----------------------------------------------------------- configuration
struct cfg {
    const char *name;
    int nshards; bool usecas, nosixpack, noevict, allowshrink, threadbatch;
    int loadfactor; int cb; // bit0 notify, bit1 evicted
    int prelude;
};
static struct cfg C;

// ------------------------------------------------------------------ model
struct ment { bool present; int v; uint32_t flags; int64_t exp; int64_t at; uint64_t ver; int shard; };
static struct ment M[MAXK];
static uint64_t verctr;
static uint64_t mtotal;         // new entries stored
static int64_t T;               // model time
struct slot { uint64_t cas; uint64_t ver; int k; bool set; };
static struct slot slots[2];
struct casrec { int k; uint64_t ver, cas; };
static struct casrec casrecs[256]; static int ncasrecs;

static bool alive(int k) { return M[k].present && (M[k].exp == 0 || M[k].exp > T); }
static int64_t addclamp(int64_t a, int64_t b) { int64_t r; if (__builtin_add_overflow(a, b, &r)) return a > 0 ? INT64_MAX : INT64_MIN; return r; }

// shadow map fed by notifications
struct sh { void *e; int v; bool present; uint32_t shard; };
static struct sh S[MAXK];
struct ev { int kind; int k; int reason; bool was_alive; };  // 1=ins 2=rep 3=del 4=evicted
static struct ev evs[4096]; static int nevs;
static struct pogocache *pc; static struct pogocache *batch;
static struct pogocache *H(void) { return batch ? batch : pc; }
static size_t C0; // constant part of allocation

struct ret { struct pogocache_entry *e; int k, v; };
static struct ret rets[4]; static int nrets;

static int keyid(const void *key, size_t n) {
    for (int i = 0; i < nkeys; i++)
        if (keys[i].n == n && memcmp(keys[i].p, key, n) == 0) return i;
    mc_fail("alien-key", "engine reported a key that was never stored: \"%s\"", mc_esc(key, n));
    return -1;
}
// fast path lookup for large key sets
static int *kidx; static int kidxcap;
static void build_kidx(void) {
    kidxcap = 4096; kidx = calloc(kidxcap, sizeof(int));
    for (int i = 0; i < nkeys; i++) {
        int j = mc_hash(keys[i].p, keys[i].n, 1) & (kidxcap - 1);
        while (kidx[j]) j = (j + 1) & (kidxcap - 1);
        kidx[j] = i + 1;
    }
}
static int kid(const void *key, size_t n) {
    if (!kidx) return keyid(key, n);
    int j = mc_hash(key, n, 1) & (kidxcap - 1);
    while (kidx[j]) {
        int i = kidx[j] - 1;
        if (keys[i].n == n && memcmp(keys[i].p, key, n) == 0) return i;
        j = (j + 1) & (kidxcap - 1);
    }
    mc_fail("alien-key", "engine reported a key that was never stored: \"%s\"", mc_esc(key, n));
    return -1;
}
static bool veq(int v, const void *p, size_t n) {
    return vals[v].n == n && memcmp(vals[v].p, p, n) == 0;
}
static int vid(const void *p, size_t n) {
    for (int i = 0; i < nvals; i++) if (veq(i, p, n)) return i;
    mc_fail("alien-value", "engine reported a value that was never stored: \"%s\"", mc_esc(p, n));
    return -1;
}

// which oracles are armed (by property)
static bool O_notify, O_acct, O_fault;

static void check_cas(int k, uint64_t cas) {
    if (!C.usecas) {
        if (cas != 0) mc_fail("cas-off", "version %llu reported although versioning is off", (unsigned long long)cas);
        return;
    }
    for (int i = 0; i < ncasrecs; i++) {
        if (casrecs[i].k != k) continue;
        if (casrecs[i].ver == M[k].ver && casrecs[i].cas != cas)
            mc_fail("cas-changed", "version of key %d changed without modification", k);
        if (casrecs[i].ver != M[k].ver && casrecs[i].cas == cas)
            mc_fail("cas-reused", "version %llu of key %d was reused after a modification", (unsigned long long)cas, k);
    }
    if (ncasrecs < 256) casrecs[ncasrecs++] = (struct casrec){ k, M[k].ver, cas };
}
// check data handed to a callback against the model
static void check_data(const char *what, int k, const void *v, size_t vn, int64_t exp, uint32_t flags, uint64_t cas) {
    if (!alive(k)) { mc_fail("served-dead", "%s: key %d is absent or expired in the model but was served (now=%lld exp=%lld)", what, k, (long long)T, (long long)M[k].exp); return; }
    if (!veq(M[k].v, v, vn)) mc_fail("value", "%s: key %d has value \"%s\", expected \"%s\"", what, k, mc_esc(v, vn), mc_esc(vals[M[k].v].p, vals[M[k].v].n));
    if (exp != M[k].exp) mc_fail("expires", "%s: key %d expires %lld, expected %lld", what, k, (long long)exp, (long long)M[k].exp);
    if (flags != M[k].flags) mc_fail("flags", "%s: key %d flags %u, expected %u", what, k, flags, M[k].flags);
    check_cas(k, cas);
}

static void on_notify(int shard, int64_t time, struct pogocache_entry *ne, struct pogocache_entry *oe, void *ud) {
    if (ud != (void*)0x5151) mc_fail("udata", "notify: wrong udata");
    if (time != T) mc_fail("notify-time", "notify: time %lld expected %lld", (long long)time, (long long)T);
    char b1[128], b2[128]; size_t n1, n2; const void *k1 = 0, *k2 = 0;
    if (!ne && !oe) { mc_fail("notify-empty", "notification without entries"); return; }
    if (ne) k1 = pogocache_entry_key(pc, ne, &n1, b1);
    if (oe) k2 = pogocache_entry_key(pc, oe, &n2, b2);
    if (ne && oe && (n1 != n2 || memcmp(k1, k2, n1))) mc_fail("notify-keys", "old and new entry have different keys");
    int k = ne ? kid(k1, n1) : kid(k2, n2);
    if (nevs < 4096) evs[nevs++] = (struct ev){ ne ? (oe ? 2 : 1) : 3, k, 0, alive(k) };
    if (oe) {
        if (!S[k].present) mc_fail("notify-old", "key %d reported removed/replaced but was not in the notified state", k);
        else if (S[k].e != (void*)oe) mc_fail("notify-old", "key %d: old entry is not the one last reported", k);
        size_t vn; const void *v = pogocache_entry_value(pc, oe, &vn);
        if (S[k].present && !veq(S[k].v, v, vn)) mc_fail("notify-oldval", "key %d: old entry value differs from the one last reported", k);
        S[k].present = false;
    } else if (S[k].present) mc_fail("notify-dup", "key %d reported inserted twice", k);
    if (ne) {
        size_t vn; const void *v = pogocache_entry_value(pc, ne, &vn);
        S[k].present = true; S[k].e = ne; S[k].v = vid(v, vn); S[k].shard = shard;
    }
}
static void on_evicted(int shard, int reason, int64_t time, const void *key, size_t keylen, const void *v, size_t vn,
    int64_t exp, uint32_t flags, uint64_t cas, void *ud) {
    (void)shard;
    if (ud != (void*)0x5151) mc_fail("udata", "evicted: wrong udata");
    if (time != T) mc_fail("notify-time", "evicted: time %lld expected %lld", (long long)time, (long long)T);
    int k = kid(key, keylen);
    if (!M[k].present) { mc_fail("evict-absent", "eviction of key %d which is not stored", k); return; }
    if (!veq(M[k].v, v, vn) || exp != M[k].exp || flags != M[k].flags) mc_fail("evict-data", "eviction of key %d reports wrong data", k);
    check_cas(k, cas);
    if (nevs < 4096) evs[nevs++] = (struct ev){ 4, k, reason, alive(k) };
}

static struct pogocache *mk(void) {
    struct pogocache_opts o = { .malloc = xm, .free = xf, .usecas = C.usecas, .nosixpack = C.nosixpack,
        .noevict = C.noevict, .allowshrink = C.allowshrink, .usethreadbatch = C.threadbatch,
        .nshards = C.nshards, .loadfactor = C.loadfactor, .udata = (void*)0x5151,
        .notify = (C.cb & 1) ? on_notify : 0, .evicted = (C.cb & 2) ? on_evicted : 0 };
    return pogocache_new(&o);
}

// ------------------------------------------------------------- operations
enum kind { STORE, LOAD, UPD, DEL, GETCAS, ITER, SWEEP, CLEAR, SCAN, TICK, BATCH, RETAIN, COUNTS, TOGGLE, POLL };
struct op {
    uint8_t kind, k, v;
    uint8_t nx, xx, cas /*1+slot*/, keepttl, cb /*1=true,2=false*/, low, def /*default clock*/;
    uint8_t mode;
    int64_t ttl, exp, dt; bool exprel; uint32_t flags;
    char name[56];
    int one;                // only the shard with index one-1000
};
static struct op A[128]; static int nA;
static void op_add(struct op o, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(o.name, sizeof o.name, fmt, ap); va_end(ap);
    if (nA == 128) mc_die("alphabet");
    A[nA++] = o;
}
static uint64_t op_hash_out;
static void outc(uint64_t x) { op_hash_out = mc_hash64(x, op_hash_out); }

// callbacks of single operations
static struct { int calls; bool ret; int k; const char *what; struct pogocache_update up; bool doup; } cbx;
static bool cb_store(int shard, int64_t time, const void *key, size_t keylen, const void *v, size_t vn, int64_t exp, uint32_t flags, uint64_t cas, void *ud) {
    (void)shard; if (ud != (void*)0x77) mc_fail("udata", "%s: wrong udata", cbx.what);
    if (time != T) mc_fail("cb-time", "%s: callback time", cbx.what);
    int k = kid(key, keylen); if (k != cbx.k) mc_fail("cb-key", "%s: callback for key %d, expected %d", cbx.what, k, cbx.k);
    check_data(cbx.what, k, v, vn, exp, flags, cas); cbx.calls++; return cbx.ret;
}
static void cb_load(int shard, int64_t time, const void *key, size_t keylen, const void *v, size_t vn, int64_t exp, uint32_t flags, uint64_t cas, struct pogocache_update **up, void *ud) {
    cb_store(shard, time, key, keylen, v, vn, exp, flags, cas, ud);
    if (cbx.doup) *up = &cbx.up;
}
static uint64_t lastcas;
static void cb_getcas(int shard, int64_t time, const void *key, size_t keylen, const void *v, size_t vn, int64_t exp, uint32_t flags, uint64_t cas, struct pogocache_update **up, void *ud) {
    (void)up; cb_store(shard, time, key, keylen, v, vn, exp, flags, cas, ud); lastcas = cas;
}
// iteration
static struct { int seen[MAXK]; int n; int mode; int k; uint64_t delmask; int stopat; } itx;
static int cb_iter(int shard, int64_t time, const void *key, size_t keylen, const void *v, size_t vn, int64_t exp, uint32_t flags, uint64_t cas, void *ud) {
    (void)shard; if (ud != (void*)0x77) mc_fail("udata", "iter: wrong udata");
    if (time != T) mc_fail("cb-time", "iter: callback time");
    int k = kid(key, keylen);
    if (itx.seen[k]) mc_fail("iter-dup", "iteration reported key %d twice", k);
    itx.seen[k]++; itx.n++;
    check_data("iter", k, v, vn, exp, flags, cas);
    int act = POGOCACHE_ITER_CONTINUE;
    switch (itx.mode) {
    case 0: break;
    case 1: act = POGOCACHE_ITER_DELETE; break;                       // delete all
    case 2: if (k == itx.k) act = POGOCACHE_ITER_DELETE; break;        // delete one key
    case 3: act = POGOCACHE_ITER_STOP; break;                         // stop at first
    case 4: act = POGOCACHE_ITER_STOP | POGOCACHE_ITER_DELETE; break; // delete first and stop
    case 5: if (itx.delmask >> k & 1) act = POGOCACHE_ITER_DELETE;
            if (itx.n == itx.stopat) act |= POGOCACHE_ITER_STOP; break;
    }
    if (act & POGOCACHE_ITER_DELETE) M[k].present = false;
    return act;
}

static const char *stname(int s) {
    static const char *n[] = { "0", "INSERTED", "REPLACED", "FOUND", "NOTFOUND", "DELETED", "FINISHED", "CANCELED", "NOMEM" };
    return s >= 0 && s <= 8 ? n[s] : "?";
}
static void want(const char *what, int got, int exp) {
    if (got != exp) mc_fail("status", "%s returned %s, expected %s", what, stname(got), stname(exp));
}
static int nlive(void) { int n = 0; for (int i = 0; i < nkeys; i++) n += alive(i); return n; }
static int ONE;  // 0 = all shards
static bool inone(int i) { return !ONE || (ONE - 1000 >= 0 && ONE - 1000 < C.nshards && M[i].shard == ONE - 1000); }
static int olive(void) { int n = 0; for (int i = 0; i < nkeys; i++) n += alive(i) && inone(i); return n; }
static int ophys(void) { int n = 0; for (int i = 0; i < nkeys; i++) n += S[i].present && inone(i); return n; }
static int nphys(void) { int n = 0; for (int i = 0; i < nkeys; i++) n += S[i].present; return n; }
static int nmodel(void) { int n = 0; for (int i = 0; i < nkeys; i++) n += M[i].present; return n; }

static struct ment Mbefore[MAXK];
// judge the notifications of one operation
static void check_events(struct op *o, int stored_k, int st) {
    if (!(C.cb & 1) && !(C.cb & 2)) return;
    int expired_ev[8]; (void)expired_ev;
    for (int i = 0; i < nevs; i++) {
        struct ev *e = &evs[i];
        if (e->kind == 4) continue;
        if (e->kind == 1) {
            if (!((o->kind == STORE || o->kind == TOGGLE) && e->k == stored_k && st == POGOCACHE_INSERTED))
                mc_fail("notify-spurious", "spurious insert notification for key %d", e->k);
        } else if (e->kind == 2) {
            if (!(((o->kind == STORE) && e->k == stored_k && st == POGOCACHE_REPLACED) || (o->kind == UPD && e->k == o->k && st == POGOCACHE_FOUND)))
                mc_fail("notify-spurious", "spurious replace notification for key %d", e->k);
        } else {
            struct ment *m = &Mbefore[e->k];
            bool was = m->present && (m->exp == 0 || m->exp > T);
            int reason = 0;
            if (!was) reason = POGOCACHE_REASON_EXPIRED;
            else if (o->kind == CLEAR) reason = POGOCACHE_REASON_CLEARED;
            else if (o->kind == STORE && o->low && !C.noevict && e->k != stored_k) reason = POGOCACHE_REASON_LOWMEM;
            else if ((o->kind == DEL || o->kind == TOGGLE) && e->k == o->k && st == POGOCACHE_DELETED) reason = 0;
            else if (o->kind == ITER && !M[e->k].present) reason = 0;
            else mc_fail("notify-spurious", "live key %d reported removed by %s", e->k, o->name);
            if (C.cb & 2) {
                int c = 0;
                for (int j = 0; j < nevs; j++) if (evs[j].kind == 4 && evs[j].k == e->k) {
                    c++;
                    if (evs[j].reason != reason) mc_fail("evict-reason", "key %d evicted with reason %d, expected %d", e->k, evs[j].reason, reason);
                }
                if (c != (reason ? 1 : 0)) mc_fail("evict-count", "key %d removed (reason %d) with %d eviction callbacks", e->k, reason, c);
            }
        }
    }
    for (int i = 0; i < nevs; i++) if (evs[i].kind == 4) {
        int k = evs[i].k;
        if (C.cb & 1) {
            int c = 0; for (int j = 0; j < nevs; j++) if (evs[j].kind == 3 && evs[j].k == k) c++;
            if (!c) mc_fail("evict-nonotify", "eviction of key %d without change notification", k);
        } else {
            struct ment *m = &Mbefore[k];
            bool was = m->present && (m->exp == 0 || m->exp > T);
            int reason = !was ? POGOCACHE_REASON_EXPIRED : o->kind == CLEAR ? POGOCACHE_REASON_CLEARED : POGOCACHE_REASON_LOWMEM;
            if (evs[i].reason != reason || (reason == POGOCACHE_REASON_LOWMEM && !(o->kind == STORE && o->low && !C.noevict && k != stored_k)))
                mc_fail("evict-reason", "key %d evicted with reason %d by %s", k, evs[i].reason, o->name);
            for (int j = 0; j < i; j++) if (evs[j].kind == 4 && evs[j].k == k) mc_fail("evict-count", "key %d evicted twice", k);
        }
    }
    if (C.cb & 1) {
        // replaying the notifications gives the cache contents
        int ins = 0, rep = 0, del[MAXK > 64 ? 64 : MAXK]; (void)del;
        for (int i = 0; i < nevs; i++) { ins += evs[i].kind == 1; rep += evs[i].kind == 2; }
        if ((o->kind == STORE || o->kind == TOGGLE) && st == POGOCACHE_INSERTED && ins != 1) mc_fail("notify-count", "%s: %d insert notifications", o->name, ins);
        if (((o->kind == STORE && st == POGOCACHE_REPLACED) || (o->kind == UPD && st == POGOCACHE_FOUND)) && rep != 1) mc_fail("notify-count", "%s: %d replace notifications", o->name, rep);
        for (int i = 0; i < nkeys; i++) {
            if (alive(i) && !S[i].present) mc_fail("notify-missing", "key %d is live but the notifications say it is absent after %s", i, o->name);
            else if (alive(i) && S[i].v != M[i].v) mc_fail("notify-missing", "key %d: notified value differs after %s", i, o->name);
            else if (S[i].present && !M[i].present) mc_fail("notify-missing", "key %d is gone but no notification said so after %s", i, o->name);
        }
    }
}

// low-memory postcondition: at most one other entry of the same shard goes
static bool O_lowlax; // with forced neighbours: which entries are considered is not known
static void check_lowmem(struct op *o, int k, int st, int shard) {
    int ev = -1, n = 0;
    for (int i = 0; i < nevs; i++) if (evs[i].kind == 3 && evs[i].k != k) { ev = evs[i].k; n++; }
    if (!(C.cb & 1)) return;
    if (st != POGOCACHE_INSERTED) { if (n) mc_fail("lowmem-evict", "%s did not insert but evicted key %d", o->name, ev); return; }
    if (n > 1) { mc_fail("lowmem-evict", "%s evicted %d entries", o->name, n); return; }
    int others = 0, exp = 0; int64_t oldest = INT64_MAX, newest = INT64_MIN; (void)newest;
    bool replaced_expired = Mbefore[k].present && nevs && evs[0].kind == 3 && evs[0].k == k;
    for (int i = 0; i < nkeys; i++) if (i != k && Mbefore[i].present && (S[i].present || i == ev) && M[i].shard == shard) {
        others++;
        bool dead = Mbefore[i].exp && Mbefore[i].exp <= T;
        if (dead) exp++;
        if (Mbefore[i].at < oldest) oldest = Mbefore[i].at;
    }
    if (ev >= 0 && M[ev].shard != shard) mc_fail("lowmem-shard", "%s evicted key %d of another shard", o->name, ev);
    if (O_lowlax) {
        if (!replaced_expired && others > 1 && n != 1) mc_fail("lowmem-none", "%s under low memory grew the shard (%d other entries, none evicted)", o->name, others);
        return;
    }
    if (!replaced_expired && others && n != 1) mc_fail("lowmem-none", "%s under low memory grew the shard (%d other entries, none evicted)", o->name, others);
    if (ev >= 0 && others <= 2) {
        bool dead = Mbefore[ev].exp && Mbefore[ev].exp <= T;
        if (exp && !dead) mc_fail("lowmem-choice", "%s evicted live key %d although an expired candidate was available", o->name, ev);
        if (!exp && Mbefore[ev].at != oldest) mc_fail("lowmem-choice", "%s evicted key %d (used at %lld) although the other candidate was used at %lld", o->name, ev, (long long)Mbefore[ev].at, (long long)oldest);
    }
}

static void check_acct(const char *after) {
    struct pogocache_size_opts full = { .time = T }, ent = { .time = T, .entriesonly = true };
    struct pogocache_count_opts co = { .time = T };
    struct pogocache_total_opts to = { .time = T };
    struct pogocache *h = H();
    size_t cnt = pogocache_count(h, &co);
    if (C.cb & 1) {
        if ((int)cnt != nphys()) mc_fail("count", "count is %zu after %s but %d entries are held", cnt, after, nphys());
    } else if ((int)cnt < nlive() || (int)cnt > nmodel()) mc_fail("count", "count is %zu after %s but %d entries are live", cnt, after, nlive());
    uint64_t tot = pogocache_total(h, &to);
    if (tot != mtotal) mc_fail("total", "total is %llu after %s but %llu new entries were stored", (unsigned long long)tot, after, (unsigned long long)mtotal);
    if (C.nshards > 1) {
        size_t c = 0, s = 0; uint64_t t = 0;
        for (int i = -1; i <= C.nshards; i++) {
            struct pogocache_count_opts c1 = { .time = T, .oneshard = true, .oneshardidx = i };
            struct pogocache_total_opts t1 = { .time = T, .oneshard = true, .oneshardidx = i };
            struct pogocache_size_opts s1 = { .time = T, .oneshard = true, .oneshardidx = i };
            c += pogocache_count(h, &c1); t += pogocache_total(h, &t1); s += pogocache_size(h, &s1);
        }
        if (c != cnt || t != tot || s != pogocache_size(h, &full)) mc_fail("oneshard", "per-shard figures do not add up after %s", after);
    }
    size_t ret = 0;
    for (int i = 0; i < nrets; i++) { // detached retained entries are still allocated
        bool held = false;
        for (int j = 0; j < i; j++) if (rets[j].e == rets[i].e) held = true;
        for (int k = 0; k < nkeys; k++) if (S[k].present && S[k].e == (void*)rets[i].e) held = true;
        struct led *l = led_get(rets[i].e);
        if (!held && l && (C.cb & 1)) ret += l->n;
        if (!(C.cb & 1)) return;
    }
    size_t bsz = 0;
    if (batch && !C.threadbatch) { struct led *l = led_get(batch); if (l) bsz = l->n; }
    size_t f = pogocache_size(h, &full), e = pogocache_size(h, &ent);
    if (C0 + f + ret + bsz != ledbytes) mc_fail("size", "reported size %zu after %s, but %zu bytes are allocated (fixed part %zu)", f, after, ledbytes - ret - bsz - C0, C0);
    if (C.cb & 1) {
        size_t sum = 0; bool okp = true;
        for (int k = 0; k < nkeys; k++) if (S[k].present) { struct led *l = led_get(S[k].e); if (l) sum += l->n; else okp = false; }
        if (okp && sum != e) mc_fail("size", "entries-only size %zu after %s, but the entries hold %zu bytes", e, after, sum);
    }
    if (cnt == 0 && e != 0) mc_fail("size", "entries-only size %zu after %s with no entries", e, after);
}

static void check_rets(void) {
    for (int i = 0; i < nrets; i++) {
        char b[128]; size_t n, vn; const void *k = pogocache_entry_key(pc, rets[i].e, &n, b);
        if (n != keys[rets[i].k].n || memcmp(k, keys[rets[i].k].p, n)) mc_fail("retained", "retained entry changed its key");
        const void *v = pogocache_entry_value(pc, rets[i].e, &vn);
        if (!veq(rets[i].v, v, vn)) mc_fail("retained", "retained entry changed its value");
    }
}

static int find_shard(int k);
// NOMEM is acceptable only when an allocation failed in this operation
static bool nomem_ok(int st, struct op *o) {
    if (st != POGOCACHE_NOMEM) return false;
    if (!failed_now) mc_fail("status", "%s returned NOMEM although no allocation failed", o->name);
    return true;
}

static void run_op(struct op *o) {
    nevs = 0; failed_now = false;
    int nk = nkeys;
    memcpy(Mbefore, M, nk * sizeof M[0]);
    int64_t ot = o->def ? 0 : T;
    now_ = T;
    struct pogocache *h = H();
    int st = 0; int storedk = -1;
    switch (o->kind) {
    case TOGGLE: case STORE: {
        if (o->kind == TOGGLE && alive(o->k)) {
            struct pogocache_delete_opts d = { .time = ot };
            st = pogocache_delete(h, keys[o->k].p, keys[o->k].n, &d);
            want(o->name, st, POGOCACHE_DELETED);
            M[o->k].present = false;
            break;
        }
        struct pogocache_store_opts s = { .time = ot, .ttl = o->ttl, .flags = o->flags, .keepttl = o->keepttl,
            .nx = o->nx, .xx = o->xx, .lowmem = o->low, .udata = (void*)0x77 };
        if (o->exp || o->exprel) s.expires = o->exprel ? addclamp(T, o->exp) : o->exp;
        bool casok = true;
        if (o->cas) { struct slot *sl = &slots[o->cas - 1]; s.casop = true; s.cas = sl->set ? sl->cas : 12345678;
            casok = C.usecas && sl->set && sl->k == o->k && sl->ver == M[o->k].ver;
            // another key's version may coincide with this one's
            if (C.usecas && sl->set && sl->k != o->k) return;
        }
        cbx.calls = 0; cbx.what = o->name; cbx.k = o->k; cbx.doup = false; cbx.ret = o->cb != 2;
        if (o->cb) s.entry = cb_store;
        storedk = o->k;
        st = pogocache_store(h, keys[o->k].p, keys[o->k].n, vals[o->v].p, vals[o->v].n, &s);
        int64_t ne = s.expires > 0 ? s.expires : s.ttl > 0 ? addclamp(T, s.ttl) : 0;
        bool al = alive(o->k);
        if (o->keepttl && al) ne = M[o->k].exp;
        int ex; int excb = 0; bool write = false;
        if (o->low && C.noevict) ex = POGOCACHE_NOMEM;
        else if (al) {
            if (o->cas && !casok) ex = POGOCACHE_FOUND;
            else if (!o->cas && o->nx) ex = POGOCACHE_FOUND;
            else { excb = o->cb ? 1 : 0; if (o->cb == 2) ex = POGOCACHE_CANCELED; else ex = POGOCACHE_REPLACED, write = true; }
        } else if (o->xx || o->cas) ex = POGOCACHE_NOTFOUND;
        else ex = POGOCACHE_INSERTED, write = true;
        if (ex != POGOCACHE_NOMEM && nomem_ok(st, o)) { write = false; excb = cbx.calls; }
        else want(o->name, st, ex);
        if (cbx.calls != excb) mc_fail("cb-count", "%s: callback called %d times, expected %d", o->name, cbx.calls, excb);
        if (write) {
            if (!al) mtotal++;
            int sh = M[o->k].shard;
            M[o->k] = (struct ment){ true, o->v, o->flags, ne, T, ++verctr, sh };
        }
        if (o->low && !C.noevict) {
            // learn the victim from the notifications
            for (int i = 0; i < nevs; i++) if (evs[i].kind >= 3 && evs[i].k != o->k) M[evs[i].k].present = false;
            check_lowmem(o, o->k, st, M[o->k].shard);
        }
        break; }
    case LOAD: case UPD: case GETCAS: {
        struct pogocache_load_opts l = { .time = ot, .notouch = o->mode == 1, .entry = o->mode == 2 ? 0 : cb_load, .udata = (void*)0x77 };
        if (o->kind == GETCAS) l.entry = cb_getcas;
        cbx.calls = 0; cbx.what = o->name; cbx.k = o->k; cbx.ret = true; cbx.doup = o->kind == UPD;
        int64_t ne = 0;
        if (o->kind == UPD) {
            ne = o->exprel ? addclamp(T, o->exp) : o->exp;
            cbx.up = (struct pogocache_update){ vals[o->v].p, vals[o->v].n, o->flags, ne };
        }
        bool al = alive(o->k);
        st = pogocache_load(h, keys[o->k].p, keys[o->k].n, &l);
        if (o->kind == UPD && al && nomem_ok(st, o)) { M[o->k].at = T; break; }
        want(o->name, st, al ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND);
        if (cbx.calls != (al && l.entry ? 1 : 0)) mc_fail("cb-count", "%s: callback called %d times", o->name, cbx.calls);
        if (al && !l.notouch) M[o->k].at = T;
        if (al && o->kind == UPD) {
            int sh = M[o->k].shard;
            M[o->k] = (struct ment){ true, o->v, o->flags, ne > 0 ? ne : 0, T, ++verctr, sh };
        }
        if (al && o->kind == GETCAS) slots[o->cas - 1] = (struct slot){ lastcas, M[o->k].ver, o->k, true };
        break; }
    case DEL: {
        struct pogocache_delete_opts d = { .time = ot, .entry = o->cb ? cb_store : 0, .udata = (void*)0x77 };
        cbx.calls = 0; cbx.what = o->name; cbx.k = o->k; cbx.ret = o->cb != 2;
        bool al = alive(o->k);
        st = pogocache_delete(h, keys[o->k].p, keys[o->k].n, &d);
        want(o->name, st, !al ? POGOCACHE_NOTFOUND : o->cb == 2 ? POGOCACHE_CANCELED : POGOCACHE_DELETED);
        if (cbx.calls != (al && o->cb ? 1 : 0)) mc_fail("cb-count", "%s: callback called %d times", o->name, cbx.calls);
        if (al && o->cb != 2) M[o->k].present = false;
        break; }
    case ITER: {
        memset(itx.seen, 0, nk * sizeof(int)); itx.n = 0; itx.mode = o->mode; itx.k = o->k;
        ONE = o->one; int live = olive();
        struct pogocache_iter_opts it = { .time = ot, .entry = cb_iter, .udata = (void*)0x77, .oneshard = ONE != 0, .oneshardidx = ONE - 1000 };
        st = pogocache_iter(h, &it);
        if (ONE) for (int i = 0; i < nk; i++) if (itx.seen[i] && !inone(i)) mc_fail("oneshard", "%s reported key %d of shard %d", o->name, i, M[i].shard);
        bool stop = (o->mode == 3 || o->mode == 4) && live > 0; ONE = o->one;
        if (o->mode == 5 && itx.stopat > 0 && itx.stopat <= live) stop = true;
        want(o->name, st, stop ? POGOCACHE_CANCELED : POGOCACHE_FINISHED);
        int expn = stop ? (o->mode == 5 ? itx.stopat : 1) : live;
        if (itx.n != expn) mc_fail("iter-count", "%s reported %d entries, expected %d", o->name, itx.n, expn);
        break; }
    case SWEEP: {
        ONE = o->one; struct pogocache_sweep_opts s = { .time = ot, .oneshard = ONE != 0, .oneshardidx = ONE - 1000 }; size_t sw = 77777, kp = 77777;
        int dead = ophys() - olive(), live = olive(), all = nphys();
        pogocache_sweep(h, o->mode == 1 ? 0 : &sw, o->mode == 1 ? 0 : &kp, &s);
        if (o->mode != 1) {
            if ((int)kp != live) mc_fail("sweep-kept", "sweep kept %zu, expected %d", kp, live);
            if ((C.cb & 1) && (int)sw != dead) mc_fail("sweep-swept", "sweep swept %zu, expected %d", sw, dead);
        }
        for (int i = 0; i < nk; i++) if (!alive(i) && inone(i)) M[i].present = false;
        struct pogocache_count_opts co = { .time = T };
        if (ONE) { if ((C.cb & 1) && (int)pogocache_count(h, &co) != all - dead) mc_fail("sweep-left", "%zu entries are left, expected %d", pogocache_count(h, &co), all - dead); }
        else if ((int)pogocache_count(h, &co) != live) mc_fail("sweep-left", "entries left after sweep: %zu, expected %d", pogocache_count(h, &co), live);
        break; }
    case CLEAR: {
        ONE = o->one; struct pogocache_clear_opts c = { .time = ot, .deferfree = o->mode == 1, .oneshard = ONE != 0, .oneshardidx = ONE - 1000 };
        int before = nphys(), gone = ophys();
        pogocache_clear(h, &c);
        for (int i = 0; i < nk; i++) if (inone(i)) M[i].present = false;
        struct pogocache_count_opts co = { .time = T };
        if (ONE) { if ((C.cb & 1) && (int)pogocache_count(h, &co) != before - gone) mc_fail("clear-left", "%zu entries are left, expected %d", pogocache_count(h, &co), before - gone); }
        else if (pogocache_count(h, &co) != 0) mc_fail("clear-left", "entries left after clear");
        break; }
    case SCAN: {
        memset(itx.seen, 0, nk * sizeof(int));
        uint64_t cur = 0; int n = 0;
        while (1) {
            struct pogocache_entry *e = pogocache_entry_iter(h, T, &cur);
            if (!e) break;
            char b[128]; size_t kn, vn; const void *key = pogocache_entry_key(pc, e, &kn, b); int k = kid(key, kn);
            const void *v = pogocache_entry_value(pc, e, &vn);
            if (!alive(k)) mc_fail("served-dead", "scan returned key %d which is absent or expired", k);
            else if (!veq(M[k].v, v, vn)) mc_fail("value", "scan returned a wrong value for key %d", k);
            itx.seen[k]++; n++;
            pogocache_entry_release(h == pc ? pc : pc, e);
            if (n > 4 * nkeys + 8) { mc_fail("scan-endless", "cursor loop does not end"); break; }
        }
        if (cur != 0) mc_fail("scan-cursor", "cursor is %llu after the end", (unsigned long long)cur);
        for (int i = 0; i < nk; i++) {
            if (alive(i) && itx.seen[i] == 0) mc_fail("scan-miss", "cursor loop missed key %d", i);
            if (itx.seen[i] > 1) mc_fail("scan-dup", "cursor loop reported key %d %d times", i, itx.seen[i]);
        }
        st = n;
        break; }
    case TICK: T += o->dt; now_ = T; break;
    case BATCH:
        if (!batch) {
            batch = pogocache_begin(pc);
            if (!batch && !failed_now) mc_fail("batch", "pogocache_begin returned null");
        } else { pogocache_end(batch); batch = 0; }
        break;
    case RETAIN: {
        // retain (via a scan) the current entry of key k, or release the oldest
        if (o->mode == 1) {
            if (nrets) { pogocache_entry_release(pc, rets[0].e); memmove(rets, rets + 1, sizeof rets - sizeof rets[0]); nrets--; }
            break;
        }
        if (nrets == 4) break;
        uint64_t cur = 0; struct pogocache_entry *e; bool got = false;
        while ((e = pogocache_entry_iter(h, T, &cur))) {
            char b[128]; size_t kn; const void *key = pogocache_entry_key(pc, e, &kn, b); int k = kid(key, kn);
            if (k == o->k && !got) { rets[nrets++] = (struct ret){ e, k, M[k].v }; got = true; }
            else pogocache_entry_release(pc, e);
        }
        if (got != alive(o->k)) mc_fail("scan-miss", "cursor loop missed key %d", o->k);
        break; }
    case POLL: {
        struct pogocache_sweep_poll_opts p = { .time = ot, .pollsize = o->mode };
        double d = pogocache_sweep_poll(h, &p);
        if (!(d >= 0 && d <= 1)) mc_fail("poll", "sweep poll returned %f", d);
        if (C.nshards == 1 && o->mode >= 64 && (C.cb & 1)) {
            double e = nphys() ? (double)(nphys() - nlive()) / nphys() : 0;
            if (d < e - 1e-9 || d > e + 1e-9) mc_fail("poll", "sweep poll returned %f, expected %f", d, e);
        }
        break; }
    case COUNTS: check_acct(o->name); break;
    }
    check_events(o, storedk, st);
    outc(st); outc(o->kind);
    mc_transitions++;
}

static uint64_t model_hash(void) {
    uint64_t h = 7;
    for (int i = 0; i < nkeys && i < 16; i++) {
        h = mc_hash64(M[i].present, h);
        if (M[i].present) { h = mc_hash64(M[i].v, h); h = mc_hash64(M[i].flags, h); h = mc_hash64(M[i].exp ? M[i].exp - T : -1, h); h = mc_hash64(S[i].present, h); }
    }
    return mc_hash64(batch != 0, mc_hash64(nrets, h));
}

static void reset(void) {
    memset(M, 0, nkeys * sizeof M[0]); memset(S, 0, nkeys * sizeof S[0]);
    memset(slots, 0, sizeof slots); ncasrecs = 0; verctr = 0; mtotal = 0; T = 1000; now_ = T; batch = 0; nrets = 0;
    alloc_no = 0; fail_at = 0; fail_from = false; failed_now = false; op_hash_out = 0; nevs = 0;
}
static void start(void) {
    pc = mk();
    if (!pc) mc_die("pogocache_new");
    struct pogocache_size_opts full = { .time = T };
    C0 = ledbytes - pogocache_size(pc, &full);
    for (int i = 0; i < nkeys; i++) M[i].shard = C.nshards == 1 ? 0 : find_shard(i);
}
static int shard_cache[MAXK]; static int shard_cache_n;
static int fs_shard;
static void fs_cb(int shard, int64_t time, const void *key, size_t keylen, const void *v, size_t vn, int64_t exp, uint32_t flags, uint64_t cas, struct pogocache_update **up, void *ud) {
    (void)time, (void)key, (void)keylen, (void)v, (void)vn, (void)exp, (void)flags, (void)cas, (void)up, (void)ud; fs_shard = shard;
}
static int find_shard(int k) {
    // observed from a scratch cache with the same settings
    if (shard_cache_n != C.nshards) {
        struct pogocache_opts o = { .nshards = C.nshards };
        struct pogocache *p = pogocache_new(&o);
        for (int i = 0; i < nkeys; i++) {
            pogocache_store(p, keys[i].p, keys[i].n, "x", 1, 0);
            struct pogocache_load_opts l = { .entry = fs_cb };
            pogocache_load(p, keys[i].p, keys[i].n, &l); shard_cache[i] = fs_shard;
        }
        pogocache_free(p);
        shard_cache_n = C.nshards;
    }
    return shard_cache[k];
}
// final observation of everything
static void probe(void) {
    fail_at = 0;
    check_rets();
    if (O_acct) check_acct("the sequence");
    struct op it = { .kind = ITER, .mode = 0 }; strcpy(it.name, "final-iter");
    struct op ld = { .kind = LOAD, .mode = 1 }; strcpy(ld.name, "final-load");
    // load first on half of the runs so that lazily removed entries are met by both
    for (int i = 0; i < nkeys; i++) { ld.k = i; if (nkeys <= 256) { run_op(&ld); } }
    run_op(&it);
    if (O_acct) check_acct("final load");
    check_rets();
    if (batch) { pogocache_end(batch); batch = 0; }
    while (nrets) pogocache_entry_release(pc, rets[--nrets].e);
}
static void finish(void) {
    pogocache_free(pc); pc = 0;
    if (lednum) {
        mc_fail("leak", "%zu allocations (%zu bytes) not released", lednum, ledbytes);
        for (size_t i = 0; i < ledcap; i++) if (led[i].p) free(led[i].p);
        memset(led, 0, ledcap * sizeof *led); lednum = 0; ledbytes = 0;
    }
}

// ---------------------------------------------------------- sequence mode
static int seq[16], seqlen; static int curcfg; static uint64_t curfail; static bool curfrom;
static struct cfg cfgs[64]; static int ncfgs;
static void pr_seq(char *b, size_t n) {
    size_t m = snprintf(b, n, "seq cfg=%d fail=%llu from=%d ops=", curcfg, (unsigned long long)curfail, curfrom);
    for (int i = 0; i < seqlen; i++) m += snprintf(b + m, n - m, "%s%d", i ? "," : "", seq[i]);
    m += snprintf(b + m, n - m, " # cfg %s:", cfgs[curcfg].name);
    for (int i = 0; i < seqlen; i++) m += snprintf(b + m, n - m, " %s;", A[seq[i]].name);
}
#define PL(...) do { struct op _o = (struct op){ __VA_ARGS__ }; strcpy(_o.name, "prelude"); run_op(&_o); } while (0)
static int fill_base; // first filler key
static void prelude(int p) {
    switch (p) {
    case 0: break;
    case 1: PL(.kind = STORE, .k = 0, .v = 1, .flags = 7); break;
    case 2: // an entry about to expire and one already expired
        PL(.kind = STORE, .k = 0, .v = 1, .ttl = 1); PL(.kind = STORE, .k = 1, .v = 2, .ttl = 2);
        PL(.kind = TICK, .dt = 1); break;
    case 3: for (int i = 0; i < 46; i++) PL(.kind = STORE, .k = fill_base + i, .v = 1); break; // near growth
    case 4: for (int i = 0; i < 47; i++) PL(.kind = STORE, .k = fill_base + i, .v = 1); PL(.kind = STORE, .k = 0, .v = 2, .ttl = 5); break; // at growth
    case 5: // grown, then emptied: at the shrink threshold (128*10% = 12)
        for (int i = 0; i < 50; i++) PL(.kind = STORE, .k = fill_base + i, .v = 1);
        for (int i = 0; i < 37; i++) PL(.kind = DEL, .k = fill_base + i); break;
    case 6: PL(.kind = STORE, .k = 0, .v = 1); PL(.kind = TICK, .dt = 1); PL(.kind = STORE, .k = 1, .v = 2);
        PL(.kind = TICK, .dt = 1); PL(.kind = STORE, .k = 2, .v = 3); break;
    }
}
static void run_seq(void) {
    C = cfgs[curcfg];
    reset(); start(); prelude(C.prelude);
    alloc_no = 0; fail_at = curfail; fail_from = curfrom;
    for (int i = 0; i < seqlen; i++) { run_op(&A[seq[i]]); mc_state(model_hash()); }
    uint64_t n = alloc_no;
    probe(); mc_outcome(op_hash_out);
    finish();
    alloc_no = n;
    mc_traces++; mc_tick();
}
static uint64_t seqctr;
static void explore(int depth) {
    if (seqlen > 0) {
        bool mine = true;
        if (seqlen == 1) mine = mc_part == 0; // short ones once
        if (seqlen >= 2) mine = ((seq[0] * nA + seq[1]) % mc_nparts) == mc_part;
        if (seqlen >= 2 && !mine) return;
        if (mine) {
            curfail = 0; curfrom = false; run_seq();
            if (seqlen <= 3 && mc_traces < 4) { char b[1024]; pr_seq(b, sizeof b); mc_sample("%s", b); }
            if (O_fault) {
                uint64_t n = alloc_no;
                for (uint64_t f = 1; f <= n; f++) for (int from = 0; from < 2; from++) {
                    curfail = f; curfrom = from; run_seq(); mc_evals++;
                }
                curfail = 0;
            }
        }
    }
    if (seqlen == depth) return;
    for (int i = 0; i < nA; i++) { seq[seqlen++] = i; explore(depth); seqlen--; }
}
static void run_all_seqs(int depth) {
    mc_case_printer(pr_seq);
    if (mc_case_in) {
        unsigned long long f; int from; char *p;
        if (sscanf(mc_case_in, "seq cfg=%d fail=%llu from=%d", &curcfg, &f, &from) != 3 || !(p = strstr(mc_case_in, "ops="))) mc_die("bad case");
        curfail = f; curfrom = from; p += 4; seqlen = 0;
        while (*p >= '0' && *p <= '9') { seq[seqlen++] = strtol(p, &p, 10); if (*p == ',') p++; }
        run_seq(); return;
    }
    for (curcfg = 0; curcfg < ncfgs; curcfg++) { seqlen = 0; explore(depth); }
}

static struct cfg base = { "base", 1, true, false, false, true, false, 0, 3, 0 };
static void cfg_add(struct cfg c, const char *name) { c.name = name; cfgs[ncfgs++] = c; }
#define CFG(nm, ...) do { struct cfg c = base; __VA_ARGS__; cfg_add(c, nm); } while (0)

static void std_keys(void) {
    struct str a, b; key_fullpair(&a, &b, 0);
    keys[nkeys++] = a; keys[nkeys++] = b;              // 0,1: identical stored hash
    keys[nkeys++] = lit("Zany key!");                  // 2: not packable
    vals[nvals++] = lit(""); vals[nvals++] = lit("v1"); vals[nvals++] = lit("value-two"); vals[nvals++] = lit("3");
    fill_base = nkeys;
}
static void add_fill(int n) { for (int i = 0; i < n; i++) { char b[16]; snprintf(b, sizeof b, "f%d", i); keys[nkeys++] = lit(strdup(b)); } }

static void alpha_map(void) {
    op_add((struct op){ .kind = STORE, .k = 0, .v = 1 }, "store(A,v1)");
    op_add((struct op){ .kind = LOAD, .k = 0 }, "load(A)");
    op_add((struct op){ .kind = DEL, .k = 0 }, "delete(A)");
    op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .flags = 9 }, "store(A,v2,flags9)");
    op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .nx = 1 }, "store(A,v3,nx)");
    op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .xx = 1 }, "store(A,v3,xx)");
    op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .cb = 1 }, "store(A,v2,cb-yes)");
    op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .cb = 2 }, "store(A,v3,cb-no)");
    op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .ttl = 2 }, "store(A,v2,ttl2)");
    op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .keepttl = 1, .flags = 1 }, "store(A,v3,keepttl)");
    op_add((struct op){ .kind = UPD, .k = 0, .v = 3, .flags = 3 }, "update(A,v3)");
    op_add((struct op){ .kind = UPD, .k = 0, .v = 1, .exp = 1, .exprel = 1 }, "update(A,v1,exp+1)");
    op_add((struct op){ .kind = DEL, .k = 0, .cb = 2 }, "delete(A,cb-no)");
    op_add((struct op){ .kind = DEL, .k = 0, .cb = 1 }, "delete(A,cb-yes)");
    op_add((struct op){ .kind = STORE, .k = 1, .v = 2, .ttl = 1 }, "store(B,v2,ttl1)");
    op_add((struct op){ .kind = DEL, .k = 1 }, "delete(B)");
    op_add((struct op){ .kind = TICK, .dt = 1 }, "tick1");
}

static void setup_seq(int *depth) {
    std_keys();
    const char *P = mc_prop;
    *depth = mc_thorough ? 5 : 4;
    if (!strcmp(P, "C01")) {
        add_fill(50);
        alpha_map();
        op_add((struct op){ .kind = GETCAS, .k = 0, .cas = 1 }, "readver(A)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .cas = 1 }, "cas(A,v1)");
        op_add((struct op){ .kind = ITER, .mode = 0 }, "iter");
        op_add((struct op){ .kind = BATCH }, "batch");
        op_add((struct op){ .kind = STORE, .k = 1, .v = 3, .nx = 1 }, "store(B,v3,nx)");
        op_add((struct op){ .kind = STORE, .k = 2, .v = 0 }, "store(Z,empty)");
        CFG("base", );
        CFG("nocas-nosix-2shards", c.usecas = false; c.nosixpack = true; c.nshards = 2; c.cb = 0; c.threadbatch = true);
        CFG("expiring", c.prelude = 2; c.cb = 0);
        if (mc_thorough) { CFG("growing", c.prelude = 4); CFG("shrinking", c.prelude = 5); }
        else { CFG("growing", c.prelude = 4; c.cb = 0); cfgs[ncfgs - 1].name = "growing"; }
    } else if (!strcmp(P, "C02")) {
        op_add((struct op){ .kind = TICK, .dt = 1 }, "tick1");
        op_add((struct op){ .kind = TICK, .dt = 2 }, "tick2");
        op_add((struct op){ .kind = LOAD, .k = 0 }, "load(A)");
        op_add((struct op){ .kind = LOAD, .k = 0, .mode = 1 }, "load(A,notouch)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1 }, "store(A)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .ttl = 1 }, "store(A,ttl1)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .ttl = 2, .flags = 5 }, "store(A,ttl2)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .exp = 2, .exprel = 1 }, "store(A,exp+2)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .exp = 0, .exprel = 1 }, "store(A,exp+0)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .exp = 1, .exprel = 1, .ttl = 3 }, "store(A,exp+1,ttl3)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .keepttl = 1 }, "store(A,keepttl)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .keepttl = 1, .ttl = 3 }, "store(A,keepttl,ttl3)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .ttl = INT64_MAX }, "store(A,ttl=max)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .ttl = -5 }, "store(A,ttl=-5)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .exp = -5 }, "store(A,exp=-5)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .exp = INT64_MAX }, "store(A,exp=max)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .nx = 1, .ttl = 1 }, "store(A,nx,ttl1)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .xx = 1 }, "store(A,xx)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .cb = 2, .ttl = 9 }, "store(A,cb-no,ttl9)");
        op_add((struct op){ .kind = STORE, .k = 1, .v = 1, .ttl = 2, .def = 1 }, "store(B,ttl2,clock)");
        op_add((struct op){ .kind = LOAD, .k = 1, .def = 1 }, "load(B,clock)");
        op_add((struct op){ .kind = UPD, .k = 0, .v = 1, .exp = 2, .exprel = 1 }, "update(A,exp+2)");
        op_add((struct op){ .kind = UPD, .k = 0, .v = 2 }, "update(A,noexp)");
        op_add((struct op){ .kind = DEL, .k = 0 }, "delete(A)");
        op_add((struct op){ .kind = DEL, .k = 0, .cb = 2 }, "delete(A,cb-no)");
        op_add((struct op){ .kind = ITER }, "iter");
        op_add((struct op){ .kind = SCAN }, "scan");
        op_add((struct op){ .kind = SWEEP }, "sweep");
        op_add((struct op){ .kind = ITER, .def = 1 }, "iter(clock)");
        op_add((struct op){ .kind = SWEEP, .def = 1 }, "sweep(clock)");
        op_add((struct op){ .kind = DEL, .k = 1, .def = 1 }, "delete(B,clock)");
        CFG("base", );
        CFG("plain", c.usecas = false; c.cb = 0; c.prelude = 2);
    } else if (!strcmp(P, "C05")) {
        op_add((struct op){ .kind = GETCAS, .k = 0, .cas = 1 }, "s1=readver(A)");
        op_add((struct op){ .kind = GETCAS, .k = 0, .cas = 2 }, "s2=readver(A)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .cas = 1 }, "cas(A,v1,s1)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .cas = 2, .flags = 3 }, "cas(A,v2,s2)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .cas = 1, .cb = 2 }, "cas(A,v3,s1,cb-no)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .cas = 1, .ttl = 1 }, "cas(A,v3,s1,ttl1)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .cas = 1, .keepttl = 1 }, "cas(A,v3,s1,keepttl)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1 }, "store(A,v1)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .ttl = 1 }, "store(A,v1,ttl1)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .nx = 1 }, "store(A,v2,nx)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .xx = 1 }, "store(A,v2,xx)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .cb = 2 }, "store(A,v2,cb-no)");
        op_add((struct op){ .kind = UPD, .k = 0, .v = 1 }, "update(A,v1)");
        op_add((struct op){ .kind = UPD, .k = 0, .v = 1, .exp = 1, .exprel = 1 }, "update(A,v1,exp+1)");
        op_add((struct op){ .kind = DEL, .k = 0 }, "delete(A)");
        op_add((struct op){ .kind = DEL, .k = 0, .cb = 2 }, "delete(A,cb-no)");
        op_add((struct op){ .kind = LOAD, .k = 0 }, "load(A)");
        op_add((struct op){ .kind = STORE, .k = 1, .v = 1 }, "store(B,v1)");
        op_add((struct op){ .kind = CLEAR }, "clear");
        op_add((struct op){ .kind = CLEAR, .mode = 1 }, "clear(defer)");
        op_add((struct op){ .kind = TICK, .dt = 1 }, "tick1");
        op_add((struct op){ .kind = SWEEP }, "sweep");
        op_add((struct op){ .kind = ITER, .mode = 1 }, "iter(delete all)");
        CFG("base", c.cb = 0);
        CFG("nocas", c.usecas = false; c.cb = 0);
        CFG("stored", c.prelude = 1; c.cb = 0; c.nosixpack = true);
        *depth = mc_thorough ? 6 : 4;
        if (mc_thorough) *depth = 5;
    } else if (!strcmp(P, "C07") || !strcmp(P, "C08")) {
        O_acct = !strcmp(P, "C07");
        add_fill(50);
        alpha_map();
        op_add((struct op){ .kind = ITER, .mode = 0 }, "iter");
        op_add((struct op){ .kind = ITER, .mode = 1 }, "iter(delete all)");
        op_add((struct op){ .kind = ITER, .mode = 4 }, "iter(delete first,stop)");
        op_add((struct op){ .kind = SWEEP }, "sweep");
        op_add((struct op){ .kind = CLEAR }, "clear");
        op_add((struct op){ .kind = CLEAR, .mode = 1 }, "clear(defer)");
        op_add((struct op){ .kind = SCAN }, "scan");
        op_add((struct op){ .kind = LOAD, .k = 1, .mode = 2 }, "load(B,nocb)");
        op_add((struct op){ .kind = STORE, .k = 2, .v = 0, .low = 1 }, "store(Z,lowmem)");
        op_add((struct op){ .kind = GETCAS, .k = 0, .cas = 1 }, "readver(A)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .cas = 1 }, "cas(A,v1)");
        if (O_acct) {
            op_add((struct op){ .kind = RETAIN, .k = 0 }, "retain(A)");
            op_add((struct op){ .kind = RETAIN, .mode = 1 }, "release");
            op_add((struct op){ .kind = BATCH }, "batch");
            op_add((struct op){ .kind = COUNTS }, "counts");
        }
        CFG("base", );
        CFG("expiring", c.prelude = 2; c.usecas = false; c.nosixpack = true);
        if (!O_acct) { CFG("notify only", c.cb = 1; c.prelude = 2); CFG("evicted only", c.cb = 2; c.prelude = 2); }
        CFG("growing", c.prelude = 4; c.loadfactor = 75);
        CFG("shrinking", c.prelude = 5);
        if (O_acct) CFG("2 shards", c.nshards = 2; c.threadbatch = true; c.prelude = 2);
        if (!mc_thorough) { /* the long preludes at depth 3 only */ *depth = 3; }
        else *depth = 4;
    } else if (!strcmp(P, "C09")) {
        O_fault = true; O_acct = true;
        add_fill(50);
        alpha_map();
        op_add((struct op){ .kind = CLEAR }, "clear");
        op_add((struct op){ .kind = CLEAR, .mode = 1 }, "clear(defer)");
        op_add((struct op){ .kind = ITER, .mode = 1 }, "iter(delete all)");
        op_add((struct op){ .kind = SWEEP }, "sweep");
        op_add((struct op){ .kind = BATCH }, "batch");
        op_add((struct op){ .kind = GETCAS, .k = 0, .cas = 1 }, "readver(A)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 1, .cas = 1 }, "cas(A,v1)");
        op_add((struct op){ .kind = STORE, .k = 2, .v = 2, .low = 1 }, "store(Z,lowmem)");
        CFG("base", );
        CFG("expiring", c.prelude = 2);
        CFG("growing", c.prelude = 4);
        CFG("near growth", c.prelude = 3);
        CFG("shrinking", c.prelude = 5);
        *depth = mc_thorough ? 4 : 3;
    } else if (!strcmp(P, "C10")) {
        keys[nkeys++] = lit("D"); keys[nkeys++] = lit("E"); fill_base = nkeys;
        keys[0] = lit("A"); keys[1] = lit("B"); // distinct hashes: the stored key's collisions are never candidates
        for (int i = 0; i < 3; i++) op_add((struct op){ .kind = STORE, .k = i, .v = 1 + i, .low = 1 }, "store(%c,low)", "ABZ"[i]);
        op_add((struct op){ .kind = STORE, .k = 3, .v = 1, .low = 1, .ttl = 1 }, "store(D,low,ttl1)");
        op_add((struct op){ .kind = STORE, .k = 4, .v = 1, .low = 1, .nx = 1 }, "store(E,low,nx)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .low = 1, .xx = 1 }, "store(A,low,xx)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .low = 1, .cb = 2 }, "store(A,low,cb-no)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 3, .ttl = 1 }, "store(A,ttl1)");
        op_add((struct op){ .kind = STORE, .k = 1, .v = 3 }, "store(B)");
        op_add((struct op){ .kind = STORE, .k = 3, .v = 3 }, "store(D)");
        op_add((struct op){ .kind = LOAD, .k = 0 }, "load(A)");
        op_add((struct op){ .kind = LOAD, .k = 1 }, "load(B)");
        op_add((struct op){ .kind = LOAD, .k = 0, .mode = 1 }, "load(A,notouch)");
        op_add((struct op){ .kind = LOAD, .k = 1, .mode = 2 }, "load(B,nocb)");
        op_add((struct op){ .kind = UPD, .k = 0, .v = 1 }, "update(A)");
        op_add((struct op){ .kind = DEL, .k = 0 }, "delete(A)");
        op_add((struct op){ .kind = GETCAS, .k = 0, .cas = 1 }, "readver(A)");
        op_add((struct op){ .kind = STORE, .k = 0, .v = 2, .low = 1, .cas = 1 }, "cas(A,low)");
        op_add((struct op){ .kind = TICK, .dt = 1 }, "tick1");
        op_add((struct op){ .kind = ITER }, "iter");
        CFG("base", );
        CFG("noevict", c.noevict = true);
        CFG("three stored", c.prelude = 6);
        CFG("three stored, noevict", c.prelude = 6; c.noevict = true; c.cb = 0);
        CFG("2 shards", c.nshards = 2; c.prelude = 6);
        *depth = mc_thorough ? 6 : 5;
    } else mc_die("no sequence alphabet for %s", P);
}

// ------------------------------------------- C06: table layouts, one scan
// Six keys with positions around the end of the table, inserted in every
// order; every expired subset; every scan operation and delete decision.
static int L_perm[8], L_n, L_opidx; static unsigned L_exp, L_del; static int L_stop, L_fill;
static const int L_home[] = { 62, 62, 63, 63, 0, 1, 63 };
static void pr_layout(char *b, size_t n) {
    size_t m = snprintf(b, n, "layout perm=");
    for (int i = 0; i < L_n; i++) m += snprintf(b + m, n - m, "%d", L_perm[i]);
    m += snprintf(b + m, n - m, " exp=%u op=%d del=%u stop=%d cfg=%d", L_exp, L_opidx, L_del, L_stop, curcfg);
    m += snprintf(b + m, n - m, " # home buckets 62,62,63,63,0,1,63");
}
static void run_layout(void) {
    C = cfgs[curcfg]; reset(); start();
    for (int i = 0; i < L_n; i++) {
        int k = L_perm[i];
        struct op o = { .kind = STORE, .k = k, .v = 1 + k % 3, .flags = k, .ttl = (L_exp >> k & 1) ? 1 : (k & 1) ? 5 : 0 };
        strcpy(o.name, "store"); run_op(&o);
    }
    struct op t = { .kind = TICK, .dt = 1 }; run_op(&t);
    struct op o = { 0 };
    itx.delmask = L_del; itx.stopat = L_stop;
    switch (L_opidx) {
    case 0: o.kind = ITER; o.mode = 5; break;
    case 1: o.kind = SWEEP; break;
    case 2: o.kind = SCAN; break;
    case 3: o.kind = CLEAR; break;
    case 4: o.kind = POLL; o.mode = 200; break;
    case 5: o.kind = SWEEP; o.mode = 1; break;
    case 6: o.kind = CLEAR; o.mode = 1; break;
    }
    snprintf(o.name, sizeof o.name, "scan-op-%d", L_opidx);
    run_op(&o); mc_state(model_hash());
    if (L_opidx == 0) { // iterate again over what is left
        struct op it = { .kind = ITER, .mode = 0 }; strcpy(it.name, "iter-again"); run_op(&it);
        struct op sc = { .kind = SCAN }; strcpy(sc.name, "scan-again"); run_op(&sc);
    }
    probe(); mc_outcome(op_hash_out); finish(); mc_traces++; mc_tick();
}
static void layout_ops(void) {
    for (L_exp = 0; L_exp < (1u << L_n); L_exp++) {
        if (L_exp % mc_nparts != (unsigned)mc_part) continue;
        L_stop = 0; L_del = 0;
        for (L_opidx = 1; L_opidx <= 6; L_opidx++) run_layout();
        L_opidx = 0;
        for (L_del = 0; L_del < (1u << L_n); L_del++) {
            if (L_del & L_exp) continue; // deleting expired ones cannot be asked for
            run_layout();
        }
        for (L_stop = 1; L_stop <= L_n; L_stop++) { L_del = 0; run_layout(); L_del = (1u << L_n) - 1; run_layout(); L_del = 0; }
        L_stop = 0;
    }
}
// C10: every order of insertion with neighbouring home buckets, the last ones
// stored under low memory; every expired subset; equal, rising and touched ages
static int W_age, W_low;
static void pr_lowlayout(char *b, size_t n) {
    size_t m = snprintf(b, n, "lowlayout perm=");
    for (int i = 0; i < L_n; i++) m += snprintf(b + m, n - m, "%d", L_perm[i]);
    m += snprintf(b + m, n - m, " exp=%u age=%d low=%d cfg=%d # home buckets 62,62,63,63,0,1,63, the last %d stored with low memory", L_exp, W_age, W_low, curcfg, W_low);
}
static void run_lowlayout(void) {
    C = cfgs[curcfg]; reset(); start();
    for (int i = 0; i < L_n - W_low; i++) {
        int k = L_perm[i];
        struct op o = { .kind = STORE, .k = k, .v = 1 + k % 3, .flags = k, .ttl = (L_exp >> k & 1) ? 10 : (k & 1) ? 500 : 0 };
        strcpy(o.name, "store"); run_op(&o);
        if (W_age) { struct op t = { .kind = TICK, .dt = 1 }; strcpy(t.name, "tick"); run_op(&t); }
    }
    struct op t = { .kind = TICK, .dt = 12 }; strcpy(t.name, "tick");
    if (L_exp) run_op(&t);
    if (W_age == 2 && L_n > W_low) { struct op l = { .kind = LOAD, .k = L_perm[0] }; strcpy(l.name, "load"); run_op(&l); t.dt = 1; run_op(&t); }
    for (int i = L_n - W_low; i < L_n; i++) {
        int k = L_perm[i];
        struct op o = { .kind = STORE, .k = k, .v = 1 + k % 3, .flags = k, .low = 1 };
        strcpy(o.name, "store(lowmem)"); run_op(&o); mc_state(model_hash());
    }
    probe(); mc_outcome(op_hash_out); finish(); mc_traces++; mc_tick();
}
static void lowlayout_ops(void) {
    for (L_exp = 0; L_exp < (1u << L_n); L_exp++) {
        if (L_exp % mc_nparts != (unsigned)mc_part) continue;
        for (W_low = 1; W_low <= 3 && W_low <= L_n; W_low++) {
            bool useless = false; // expirations of keys that are stored under low memory
            for (int i = L_n - W_low; i < L_n; i++) if (L_exp >> L_perm[i] & 1) useless = true;
            if (!useless) for (W_age = 0; W_age < 3; W_age++) run_lowlayout();
        }
    }
}
// C01, C02, C05, C07, C08: every operation on every position of every small table
static int Y_target, Y_op;
static void pr_oplayout(char *b, size_t n) {
    size_t m = snprintf(b, n, "oplayout perm=");
    for (int i = 0; i < L_n; i++) m += snprintf(b + m, n - m, "%d", L_perm[i]);
    m += snprintf(b + m, n - m, " exp=%u target=%d op=%d cfg=%d # home buckets 62,62,63,63,0,1,63, %s of key %d", L_exp, Y_target, Y_op, curcfg, A[Y_op].name, Y_target);
}
static void run_oplayout(void) {
    C = cfgs[curcfg]; reset(); start();
    for (int i = 0; i < L_n; i++) {
        int k = L_perm[i];
        struct op o = { .kind = STORE, .k = k, .v = 1 + k % 3, .flags = k, .ttl = (L_exp >> k & 1) ? 1 : (k & 1) ? 5 : 0 };
        strcpy(o.name, "store"); run_op(&o);
    }
    struct op t = { .kind = TICK, .dt = 1 }; strcpy(t.name, "tick"); run_op(&t);
    struct op o = A[Y_op]; o.k = Y_target;
    if (o.cas) { struct op g = { .kind = GETCAS, .k = Y_target, .cas = 1 }; strcpy(g.name, "readver"); run_op(&g); }
    if (o.cas == 2) { struct op w = { .kind = STORE, .k = Y_target, .v = 0 }; strcpy(w.name, "store"); run_op(&w); o.cas = 1; }
    run_op(&o); mc_state(model_hash());
    if (o.kind != LOAD) { struct op l = { .kind = LOAD, .k = Y_target }; strcpy(l.name, "load again"); run_op(&l); o = (struct op){ .kind = STORE, .k = Y_target, .v = 2, .xx = 1, .keepttl = 1 }; strcpy(o.name, "store(xx,keepttl)"); run_op(&o); }
    probe(); mc_outcome(op_hash_out); finish(); mc_traces++; mc_tick();
}
static void oplayout_ops(void) {
    for (L_exp = 0; L_exp < (1u << L_n); L_exp++) {
        if (L_exp % mc_nparts != (unsigned)mc_part) continue;
        for (Y_target = 0; Y_target <= L_n; Y_target++) for (Y_op = 0; Y_op < nA; Y_op++) run_oplayout();
    }
}
static int L_low;
static void permute(int i) {
    if (i == L_n) { if (L_low == 2) oplayout_ops(); else if (L_low) lowlayout_ops(); else layout_ops(); return; }
    for (int j = i; j < L_n; j++) {
        int t = L_perm[i]; L_perm[i] = L_perm[j]; L_perm[j] = t;
        permute(i + 1);
        t = L_perm[i]; L_perm[i] = L_perm[j]; L_perm[j] = t;
    }
}
static void mode_layout(void) {
    for (int i = 0; i < 7; i++) keys[nkeys++] = key_with(63, L_home[i]);
    vals[nvals++] = lit(""); vals[nvals++] = lit("v1"); vals[nvals++] = lit("value-two"); vals[nvals++] = lit("3");
    mc_case_printer(pr_layout); O_acct = true;
    CFG("base", ); CFG("nocb", c.cb = 0; c.allowshrink = false; c.usecas = false);
    if (mc_case_in) {
        char perm[16];
        if (sscanf(mc_case_in, "layout perm=%15s exp=%u op=%d del=%u stop=%d cfg=%d", perm, &L_exp, &L_opidx, &L_del, &L_stop, &curcfg) != 6) mc_die("case");
        L_n = strlen(perm); nkeys = L_n; for (int i = 0; i < L_n; i++) L_perm[i] = perm[i] - '0';
        run_layout(); return;
    }
    for (curcfg = 0; curcfg < ncfgs; curcfg++)
        for (L_n = 1; L_n <= (mc_thorough ? 7 : 6) ; L_n++) {
            int save = nkeys; nkeys = L_n;
            for (int i = 0; i < L_n; i++) L_perm[i] = i;
            permute(0); nkeys = save;
        }
    mc_sample("all insertion orders of up to %d keys with home buckets 62,62,63,63,0,1 x every expired subset x every delete mask and stop point", mc_thorough ? 7 : 6);
}
static void mode_lowlayout(void) {
    for (int i = 0; i < 7; i++) keys[nkeys++] = key_with(63, L_home[i]);
    vals[nvals++] = lit(""); vals[nvals++] = lit("v1"); vals[nvals++] = lit("value-two"); vals[nvals++] = lit("3");
    mc_case_printer(pr_lowlayout); O_acct = true; L_low = 1; O_lowlax = true;
    CFG("base", ); CFG("noevict", c.noevict = true; c.usecas = false);
    if (mc_case_in) {
        char perm[16];
        if (sscanf(mc_case_in, "lowlayout perm=%15s exp=%u age=%d low=%d cfg=%d", perm, &L_exp, &W_age, &W_low, &curcfg) != 5) mc_die("case");
        L_n = strlen(perm); for (int i = 0; i < L_n; i++) L_perm[i] = perm[i] - '0';
        run_lowlayout(); return;
    }
    for (curcfg = 0; curcfg < ncfgs; curcfg++)
        for (L_n = 1; L_n <= (curcfg ? 4 : mc_thorough ? 7 : 6); L_n++) {
            for (int i = 0; i < L_n; i++) L_perm[i] = i;
            permute(0);
        }
    mc_sample("all insertion orders of up to %d keys with home buckets 62,62,63,63,0,1,63, the last 1-3 stored under low memory x every expired subset x three ages", mc_thorough ? 7 : 6);
}
// every cursor value a client may send
// every bulk operation on every single shard, existing or not
static int X_op, X_idx; static unsigned X_have;
static void pr_oneshard(char *b, size_t n) { snprintf(b, n, "oneshard have=%u exp=%u del=%u stop=%d op=%d idx=%d cfg=%d # %d shards", X_have, L_exp, L_del, L_stop, X_op, X_idx, curcfg, cfgs[curcfg].nshards); }
static void run_oneshard(void) {
    C = cfgs[curcfg]; reset(); start();
    for (int i = 0; i < L_n; i++) if (X_have >> i & 1) PL(.kind = STORE, .k = i, .v = 1 + i % 3, .flags = i, .ttl = (L_exp >> i & 1) ? 1 : 0);
    PL(.kind = TICK, .dt = 1);
    itx.delmask = L_del; itx.stopat = L_stop;
    struct op o = { .one = 1000 + X_idx, .kind = X_op == 0 ? ITER : X_op <= 2 ? SWEEP : CLEAR };
    o.mode = X_op == 0 ? 5 : X_op == 2 || X_op == 4; snprintf(o.name, sizeof o.name, "%s(shard %d)", X_op == 0 ? "iter" : X_op <= 2 ? "sweep" : "clear", X_idx);
    run_op(&o); mc_state(model_hash()); check_acct(o.name);
    probe(); mc_outcome(op_hash_out); finish(); mc_traces++; mc_tick();
}
static void mode_oneshard(void) {
    for (int i = 0; i < 6; i++) { char b[8]; snprintf(b, sizeof b, "o%d", i); keys[nkeys++] = lit(strdup(b)); }
    vals[nvals++] = lit(""); vals[nvals++] = lit("v1"); vals[nvals++] = lit("value-two"); vals[nvals++] = lit("3");
    mc_case_printer(pr_oneshard); O_acct = true; L_n = 6;
    CFG("1", c.nshards = 1); CFG("2", c.nshards = 2); CFG("3", c.nshards = 3; c.usecas = false); CFG("5", c.nshards = 5; c.nosixpack = true);
    if (mc_case_in) {
        if (sscanf(mc_case_in, "oneshard have=%u exp=%u del=%u stop=%d op=%d idx=%d cfg=%d", &X_have, &L_exp, &L_del, &L_stop, &X_op, &X_idx, &curcfg) != 7) mc_die("case");
        run_oneshard(); return;
    }
    for (curcfg = 0; curcfg < ncfgs; curcfg++) for (X_have = 0; X_have < 64; X_have++) for (L_exp = 0; L_exp < 64; L_exp++) {
        if ((L_exp & ~X_have) || (int)((X_have * 7 + L_exp) % mc_nparts) != mc_part) continue;
        for (X_op = 0; X_op <= 4; X_op++) for (int x = -2; x <= cfgs[curcfg].nshards + 2; x++) {
            X_idx = x == -2 ? -1000000 : x == cfgs[curcfg].nshards + 2 ? INT32_MAX - 1000 : x;
            L_stop = 0; L_del = 0; run_oneshard();
            if (X_op == 0) { L_del = 63; run_oneshard(); L_del = 21; run_oneshard(); for (L_stop = 1; L_stop <= 2; L_stop++) run_oneshard(); L_del = L_stop = 0; }
        }
    }
    mc_sample("every subset of 6 keys, every expired subset, iteration with deletions, sweeping and clearing of every shard index from -1000000 to beyond the last");
}
static void mode_oplayout(void) {
    for (int i = 0; i < 7; i++) keys[nkeys++] = key_with(63, L_home[i]);
    vals[nvals++] = lit(""); vals[nvals++] = lit("v1"); vals[nvals++] = lit("value-two"); vals[nvals++] = lit("3");
    mc_case_printer(pr_oplayout); O_acct = !strcmp(mc_prop, "C07"); L_low = 2;
    alpha_map(); nA -= 3; // without the operations on the second key and the tick
    op_add((struct op){ .kind = LOAD, .mode = 1 }, "load(notouch)");
    op_add((struct op){ .kind = STORE, .v = 1, .cas = 1 }, "cas(current)");
    op_add((struct op){ .kind = STORE, .v = 1, .cas = 2 }, "cas(old)");
    op_add((struct op){ .kind = STORE, .v = 3, .cas = 1, .keepttl = 1 }, "cas(current,keepttl)");
    op_add((struct op){ .kind = STORE, .v = 2, .nx = 1, .ttl = 2 }, "store(nx,ttl2)");
    op_add((struct op){ .kind = STORE, .v = 2, .xx = 1, .keepttl = 1 }, "store(xx,keepttl)");
    op_add((struct op){ .kind = UPD, .v = 3, .exp = 2, .exprel = 1 }, "update(v3,exp+2)");
    op_add((struct op){ .kind = STORE, .v = 2, .cb = 2, .keepttl = 1 }, "store(cb-no,keepttl)");
    CFG("base", ); CFG("plain", c.cb = 0; c.allowshrink = false; c.usecas = false; c.nosixpack = true);
    if (mc_case_in) {
        char perm[16];
        if (sscanf(mc_case_in, "oplayout perm=%15s exp=%u target=%d op=%d cfg=%d", perm, &L_exp, &Y_target, &Y_op, &curcfg) != 5) mc_die("case");
        L_n = strlen(perm); for (int i = 0; i < L_n; i++) L_perm[i] = perm[i] - '0';
        run_oplayout(); return;
    }
    int top = mc_thorough ? 6 : 5;
    for (curcfg = 0; curcfg < ncfgs; curcfg++)
        for (L_n = 1; L_n <= top - curcfg; L_n++) {
            for (int i = 0; i < L_n; i++) L_perm[i] = i;
            permute(0);
        }
    mc_sample("all insertion orders of up to %d keys with home buckets 62,62,63,63,0,1,63 x every expired subset x every operation on every key", top);
}
static uint64_t cur_in; static int cur_sh;
static void pr_cursor(char *b, size_t n) { snprintf(b, n, "cursor shards=%d cursor=%llu", cur_sh, (unsigned long long)cur_in); }
static void run_cursor(void) {
    C = base; C.nshards = cur_sh; C.cb = 1; reset(); start();
    for (int i = 0; i < 3; i++) { struct op o = { .kind = STORE, .k = i, .v = 1 }; run_op(&o); }
    uint64_t c = cur_in; int n = 0;
    while (n < 20) {
        struct pogocache_entry *e = pogocache_entry_iter(pc, T, &c);
        if (!e) { if (c != 0) mc_fail("scan-cursor", "cursor %llu after the end", (unsigned long long)c); break; }
        char b[128]; size_t kn; const void *k = pogocache_entry_key(pc, e, &kn, b); kid(k, kn);
        pogocache_entry_release(pc, e); n++;
    }
    if (n == 20) mc_fail("scan-endless", "cursor loop does not end");
    mc_outcome(mc_hash64(n, 3)); mc_state(mc_hash64(cur_in, cur_sh)); mc_transitions++;
    probe(); finish(); mc_traces++; mc_tick();
}
static void mode_cursor(void) {
    std_keys(); mc_case_printer(pr_cursor);
    if (mc_case_in) { unsigned long long c; if (sscanf(mc_case_in, "cursor shards=%d cursor=%llu", &cur_sh, &c) != 2) mc_die("case"); cur_in = c; run_cursor(); return; }
    uint64_t hi[] = { 0, 1, 2, 3, 4, 5, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe };
    uint64_t lo[] = { 0, 1, 2, 31, 62, 63, 64, 65, 127, 128, 0x7fffffff, 0x7ffffffe, 0x80000000, 0xffffffff };
    for (cur_sh = 1; cur_sh <= 4; cur_sh++) for (unsigned i = 0; i < sizeof hi / 8; i++) for (unsigned j = 0; j < sizeof lo / 8; j++) {
        if ((int)((i * 16 + j) % mc_nparts) != mc_part) continue;
        cur_in = hi[i] << 32 | lo[j]; run_cursor();
    }
    mc_sample("cursors (shard<<32|position) for shard in 0..5,2^31-1.. and position in 0..2^32-1 boundary values, 1-4 shards");
}

// ------------------------------------ C11: toggles and resize thresholds
static void mode_toggle(void) {
    static const int home[] = { 62, 62, 63, 63, 0, 0, 1 };
    int n = mc_thorough ? 7 : 7;
    for (int i = 0; i < n; i++) keys[nkeys++] = key_with(63, home[i]);
    struct str a, b; key_fullpair(&a, &b, 1); keys[nkeys++] = a; keys[nkeys++] = b; n += 2;
    vals[nvals++] = lit(""); vals[nvals++] = lit("v1"); vals[nvals++] = lit("value-two"); vals[nvals++] = lit("3");
    for (int i = 0; i < n; i++) op_add((struct op){ .kind = TOGGLE, .k = i, .v = 1 + i % 3, .flags = i }, "toggle(k%d)", i);
    CFG("base", c.cb = 0);
    run_all_seqs(mc_thorough ? 8 : 7);
}
static int R_n, R_lf, R_pat, R_shrink, R_mask; 
static void pr_resize(char *b, size_t n) { snprintf(b, n, "resize n=%d lf=%d pat=%d shrink=%d mask=%d", R_n, R_lf, R_pat, R_shrink, R_mask); }
static void verify_all(const char *when) {
    struct op ld = { .kind = LOAD, .mode = 1 }; snprintf(ld.name, sizeof ld.name, "load %s", when);
    for (int i = 0; i < nkeys; i++) { ld.k = 0; // k is 8 bit: go around run_op
        struct pogocache_load_opts l = { .time = T, .notouch = true, .entry = cb_load, .udata = (void*)0x77 };
        cbx.calls = 0; cbx.what = ld.name; cbx.k = i; cbx.ret = true; cbx.doup = false; now_ = T;
        int st = pogocache_load(pc, keys[i].p, keys[i].n, &l);
        if (st != (alive(i) ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND)) {
            mc_fail("lost-key", "%s: key %d of %d %s", when, i, nkeys, alive(i) ? "was lost" : "reappeared");
            return;
        }
    }
    struct op it = { .kind = ITER, .mode = 0 }; strcpy(it.name, "iter"); run_op(&it);
}
static void put(int i, int v) {
    struct pogocache_store_opts s = { .time = T, .flags = i, .udata = 0 };
    bool al = alive(i);
    int st = pogocache_store(pc, keys[i].p, keys[i].n, vals[v].p, vals[v].n, &s);
    want("store", st, al ? POGOCACHE_REPLACED : POGOCACHE_INSERTED);
    M[i] = (struct ment){ true, v, i, 0, T, ++verctr, 0 }; if (!al) mtotal++;
    mc_transitions++;
}
static void del(int i) {
    struct pogocache_delete_opts d = { .time = T };
    want("delete", pogocache_delete(pc, keys[i].p, keys[i].n, &d), alive(i) ? POGOCACHE_DELETED : POGOCACHE_NOTFOUND);
    M[i].present = false; mc_transitions++;
}
static void run_resize(void) {
    C = base; C.cb = 0; C.loadfactor = R_lf; C.allowshrink = R_shrink; reset(); start();
    int save = nkeys; nkeys = R_n;
    size_t sz0; struct pogocache_size_opts so = { .time = T }; sz0 = pogocache_size(pc, &so);
    for (int i = 0; i < R_n; i++) put(i, 1 + i % 3);
    verify_all("after inserting"); check_acct("inserts");
    size_t szmax = pogocache_size(pc, &so);
    for (int j = 0; j < R_n; j++) {
        int i = R_pat == 0 ? j : R_pat == 1 ? R_n - 1 - j : R_pat == 2 ? (j * 2 < R_n ? j * 2 : (j * 2 - R_n) | 1) : (int)((j * 7919ull) % R_n);
        if (R_pat == 2 && i >= R_n) i = R_n - 1;
        if (alive(i)) del(i);
        if (R_n <= 64 || j % 16 == 15 || j > R_n - 16) verify_all("while deleting");
        if (R_pat == 3 && j % 3 == 0) { put(i, 2); if (j % 2) del(i); }
    }
    for (int i = 0; i < R_n; i++) if (alive(i)) del(i);
    verify_all("after deleting"); check_acct("deletes");
    size_t sz1 = pogocache_size(pc, &so);
    if (R_shrink && sz1 != sz0) mc_fail("no-shrink", "empty table reports %zu bytes, a new one %zu", sz1, sz0);
    if (sz1 > szmax) mc_fail("no-shrink", "table grew while deleting");
    for (int i = 0; i < R_n; i++) put(i, 1 + (i + 1) % 3);
    verify_all("after refilling"); check_acct("refill");
    // everything goes at once: cleared, cleared with deferred freeing, or expired and swept
    for (int w = 0; w < 4; w++) {
        struct op o = { .kind = w < 2 ? CLEAR : SWEEP, .mode = w & 1 };
        snprintf(o.name, sizeof o.name, w == 0 ? "clear" : w == 1 ? "clear(defer)" : w == 2 ? "sweep" : "sweep(uncounted)");
        if (w >= 2) {
            for (int i = 0; i < R_n; i++) if ((i + w) % 3) {
                struct pogocache_store_opts s = { .time = T, .flags = i, .ttl = 2 };
                want("store", pogocache_store(pc, keys[i].p, keys[i].n, vals[1].p, vals[1].n, &s), alive(i) ? POGOCACHE_REPLACED : POGOCACHE_INSERTED);
                bool al = alive(i); M[i] = (struct ment){ true, 1, i, T + 2, T, ++verctr, 0 }; if (!al) mtotal++;
            }
            T += 2;
        }
        run_op(&o); verify_all("after it"); check_acct(o.name);
        if (w < 2) for (int i = w; i < R_n; i++) put(i, 1 + (i + w) % 3);
    }
    mc_state(mc_hash64(R_n, R_lf)); mc_outcome(mc_hash64(szmax, sz1));
    finish(); nkeys = save; mc_traces++; mc_tick();
}
static void mode_resize(void) {
    // clustered keys: mask 0 = ordinary, otherwise low bits all equal
    vals[nvals++] = lit(""); vals[nvals++] = lit("v1"); vals[nvals++] = lit("value-two"); vals[nvals++] = lit("3");
    mc_case_printer(pr_resize);
    int cn, cl, cp, cs, cm = 0;
    if (mc_case_in && sscanf(mc_case_in, "resize n=%d lf=%d pat=%d shrink=%d mask=%d", &cn, &cl, &cp, &cs, &cm) != 5) mc_die("case");
    int masks[] = { 0, 63, 511, 1023 };
    for (int m = 0; m < 4; m++) {
        R_mask = masks[m];
        if (mc_case_in && R_mask != cm) continue;
        nkeys = 0; key_ctr = 0; free(kidx); kidx = 0;
        int want_n = m == 0 ? 520 : m == 1 ? 100 : 600;
        while (nkeys < want_n) keys[nkeys++] = key_with(R_mask, R_mask ? (R_mask - 1) : 0);
        build_kidx();
        if (mc_case_in) { R_n = cn; R_lf = cl; R_pat = cp; R_shrink = cs; run_resize(); return; }
        int idx = 0;
        int lfs[] = { 75, 55, 95, 70 };
        for (int l = 0; l < (mc_thorough ? 4 : 3); l++) for (R_shrink = 0; R_shrink < 2; R_shrink++) for (R_pat = 0; R_pat < 4; R_pat++) {
            R_lf = lfs[l];
            if (m <= 1) {
                int top = m == 0 ? (mc_thorough ? 420 : 210) : 100;
                for (R_n = 1; R_n <= top; R_n++) {
                    // every size near a threshold, every 7th elsewhere in quick
                    int d = 0; for (int c = 64; c <= 512; c *= 2) { int g = c * R_lf / 100; if (abs(R_n - g) <= 2) d = 1; }
                    if (!mc_thorough && !d && R_n % 7) continue;
                    if (idx++ % mc_nparts == mc_part) run_resize();
                }
            } else {
                int ns[] = { 100, 200, 250, 254, 255, 256, 257, 258, 300, 390, 520, 600 };
                for (unsigned q = 0; q < sizeof ns / sizeof ns[0]; q++) { R_n = ns[q]; if (idx++ % mc_nparts == mc_part) run_resize(); }
            }
        }
    }
    mc_sample("insert n keys, delete in 4 orders, refill; n up to 600, load factors 55-95, with and without shrinking, ordinary and fully clustered hashes");
}

// ------------------------------------------------- C12: keys and values
static char B_case[256];
static void pr_bytes(char *b, size_t n) { snprintf(b, n, "bytes %s", B_case); }
static unsigned char *B_v; static size_t B_vn; static int B_hits; static uint32_t B_flags; static int64_t B_exp; static const void *B_k; static size_t B_kn;
static void b_load(int shard, int64_t time, const void *key, size_t keylen, const void *v, size_t vn, int64_t exp, uint32_t flags, uint64_t cas, struct pogocache_update **up, void *ud) {
    (void)shard, (void)time, (void)cas, (void)up, (void)ud; B_hits++;
    if (keylen != B_kn || memcmp(key, B_k, keylen)) mc_fail("key-bytes", "load callback reports a different key");
    if (vn != B_vn || memcmp(v, B_v, vn)) mc_fail("value-bytes", "value of length %zu came back different (length %zu)", B_vn, vn);
    if (exp != B_exp) mc_fail("expires", "expiration %lld came back as %lld", (long long)B_exp, (long long)exp);
    if (flags != B_flags) mc_fail("flags", "flags %u came back as %u", B_flags, flags);
}
static int b_iter(int shard, int64_t time, const void *key, size_t keylen, const void *v, size_t vn, int64_t exp, uint32_t flags, uint64_t cas, void *ud) {
    b_load(shard, time, key, keylen, v, vn, exp, flags, cas, 0, ud); return 0;
}
static void bytes_one(const void *key, size_t kn, size_t vn, int cfgi, uint32_t flags, int64_t exp) {
    C = cfgs[cfgi]; C.cb = 0; reset();
    snprintf(B_case, sizeof B_case, "klen=%zu key=%s vlen=%zu cfg=%s flags=%u exp=%lld", kn, kn <= 40 ? mc_esc(key, kn) : mc_esc(key, 40), vn, cfgs[cfgi].name, flags, (long long)exp);
    pc = mk();
    B_v = malloc(vn + 1); for (size_t i = 0; i < vn; i++) B_v[i] = (i * 31 + vn + kn) ^ (i >> 8);
    char *kcopy = malloc(kn + 1); memcpy(kcopy, key, kn);  // exact-size heap copies so overreads are caught
    char *k2 = malloc(kn ? kn : 1); memcpy(k2, key, kn);
    B_vn = vn; B_k = k2; B_kn = kn; B_flags = flags; B_exp = exp; B_hits = 0;
    struct pogocache_store_opts s = { .time = T, .flags = flags, .expires = exp };
    if (pogocache_store(pc, k2, kn, B_v, vn, &s) != POGOCACHE_INSERTED) mc_fail("status", "store failed");
    struct pogocache_load_opts l = { .time = T, .entry = b_load };
    if (pogocache_load(pc, k2, kn, &l) != POGOCACHE_FOUND || B_hits != 1) mc_fail("lost-key", "stored key not found");
    struct pogocache_iter_opts it = { .time = T, .entry = b_iter };
    pogocache_iter(pc, &it); if (B_hits != 2) mc_fail("lost-key", "stored key not iterated");
    uint64_t cur = 0; struct pogocache_entry *e = pogocache_entry_iter(pc, T, &cur);
    if (!e) mc_fail("lost-key", "stored key not scanned");
    else {
        char buf[128]; size_t n; const void *p = pogocache_entry_key(pc, e, &n, buf);
        if (n != kn || memcmp(p, key, kn)) mc_fail("key-bytes", "scan reports a different key");
        p = pogocache_entry_value(pc, e, &n); if (n != vn || memcmp(p, B_v, vn)) mc_fail("value-bytes", "scan reports a different value");
        pogocache_entry_release(pc, e);
    }
    // near misses must not be found
    struct pogocache_load_opts q = { .time = T };
    if (kn > 0 && pogocache_load(pc, key, kn - 1, &q) != POGOCACHE_NOTFOUND) mc_fail("key-confusion", "key without its last byte was found");
    for (int d = 0; d < 3 && kn > 0; d++) {
        size_t at = d == 0 ? kn - 1 : d == 1 ? 0 : kn / 2; kcopy[at] ^= 1;
        if (pogocache_load(pc, kcopy, kn, &q) != POGOCACHE_NOTFOUND) mc_fail("key-confusion", "key with byte %zu changed was found", at);
        kcopy[at] ^= 1;
    }
    // replace through load-update and delete
    struct pogocache_store_opts s2 = { .time = T, .flags = flags, .expires = exp };
    if (pogocache_store(pc, k2, kn, B_v, vn, &s2) != POGOCACHE_REPLACED) mc_fail("status", "second store did not replace");
    struct pogocache_size_opts so = { .time = T, .entriesonly = true };
    struct pogocache_count_opts co = { .time = T };
    if (pogocache_count(pc, &co) != 1) mc_fail("key-confusion", "two entries for one key");
    struct pogocache_delete_opts d = { .time = T };
    if (pogocache_delete(pc, k2, kn, &d) != POGOCACHE_DELETED) mc_fail("status", "delete failed");
    if (pogocache_size(pc, &so) != 0) mc_fail("size", "size not zero after delete");
    finish(); free(B_v); free(kcopy); free(k2);
    mc_transitions += 8; mc_traces++; mc_evals++; mc_tick();
    mc_state(mc_hash64(kn, mc_hash64(vn, cfgi))); mc_outcome(mc_hash64(kn, vn));
}
static void mode_bytes(void) {
    mc_case_printer(pr_bytes);
    CFG("six,cas", c.usecas = true); CFG("six", c.usecas = false); CFG("raw,cas", c.nosixpack = true); CFG("raw,3shards", c.nosixpack = true; c.usecas = false; c.nshards = 3);
    if (mc_case_in) mc_note("replay-runs-all", 1);
    static char key[70000];
    uint64_t idx = 0;
#define MINE (idx++ % mc_nparts == (uint64_t)mc_part)
    // (a) every key length and byte class, with and without the header fields
    static const char *cls[] = { "a", "yY09:-._", "Q", "-", "a\xff", "\x00", "Zz" };
    static const int clsn[] = { 1, 8, 1, 1, 2, 1, 2 };
    int maxk = mc_thorough ? 3000 : 500;
    for (int kn = 0; kn <= maxk; kn++) for (int c = 0; c < 7; c++) {
        if (!MINE) continue;
        for (int i = 0; i < kn; i++) key[i] = cls[c][i % clsn[c]];
        for (int f = 0; f < 4; f++) for (int g = 0; g < ncfgs; g++)
            bytes_one(key, kn, (kn * 7) % 5, g, f & 1 ? 0xFFFFFFFF : 0, f & 2 ? INT64_MAX : 0);
        if (kn) { key[kn - 1] = 'Q'; bytes_one(key, kn, 3, 0, 1, 0); } // unpackable only at the end
        if (kn) { for (int i = 0; i < kn; i++) key[i] = 'b'; key[0] = ' '; bytes_one(key, kn, 3, 0, 1, 0); }
    }
    // (b) every value length around each size-field boundary
    for (int vn = 0; vn <= 66200; vn++) {
        if (!mc_thorough && vn > 1200 && vn < 65300 && (vn & 4095) > 40 && (vn & 4095) < 4060) continue;
        if (!MINE) continue;
        for (int g = 0; g < ncfgs; g++) bytes_one("key", 3, vn, g, (vn & 1) ? 5 : 0, (vn & 2) ? 5000 : 0);
    }
    // long keys
    for (int kn = 16370; kn <= 16400; kn++) { if (!MINE) continue; memset(key, 'k', kn); bytes_one(key, kn, 10, kn & 3, 0, 0); }
    for (int kn = 65500; kn <= 65560; kn++) { if (!MINE) continue; memset(key, 'k', kn); bytes_one(key, kn, 10, kn & 3, 0, 0); }
    // every single byte, every pair of bytes as key
    for (int a = 0; a < 256; a++) { if (!MINE) continue; key[0] = a; for (int g = 0; g < ncfgs; g++) bytes_one(key, 1, 2, g, 0, 0);
        for (int b = 0; b < 256; b++) { key[0] = a; key[1] = b; bytes_one(key, 2, 2, b & 1, 0, 0); } }
    // (c) many keys at once: all strings over small alphabets stay distinct
    static const char *alph[] = { "-y.a", "-Qz", "\x00" "a\xff", "-.0Qzy_A" }; static const int an[] = { 4, 3, 3, 8 }; static const int al[] = { 5, 6, 6, 3 };
    for (int g = 0; g < ncfgs; g++) for (int q = 0; q < 4; q++) {
        if (!MINE) continue;
        C = cfgs[g]; C.cb = 0; reset(); snprintf(B_case, sizeof B_case, "set alphabet=%d cfg=%s", q, C.name);
        pc = mk(); int total = 0;
        for (int pass = 0; pass < 4; pass++) { // store, verify, delete odd, verify
            int n = 0;
            for (int len = 0; len <= al[q]; len++) {
                int cnt = 1; for (int i = 0; i < len; i++) cnt *= an[q];
                for (int x = 0; x < cnt; x++, n++) {
                    int y = x; for (int i = 0; i < len; i++) { key[i] = alph[q][y % an[q]]; y /= an[q]; }
                    char v[16]; int vn = snprintf(v, 16, "%d", n);
                    B_v = (unsigned char *)v; B_vn = vn; B_k = key; B_kn = len; B_flags = n; B_exp = 0; B_hits = 0;
                    struct pogocache_store_opts s = { .time = T, .flags = n }; struct pogocache_load_opts l = { .time = T, .entry = b_load }; struct pogocache_delete_opts d = { .time = T };
                    if (pass == 0) { if (pogocache_store(pc, key, len, v, vn, &s) != POGOCACHE_INSERTED) mc_fail("key-confusion", "distinct key \"%s\" treated as an existing one", mc_esc(key, len)); }
                    else if (pass == 1) { if (pogocache_load(pc, key, len, &l) != POGOCACHE_FOUND) mc_fail("lost-key", "key \"%s\" lost", mc_esc(key, len)); }
                    else if (pass == 2) { if (n & 1) if (pogocache_delete(pc, key, len, &d) != POGOCACHE_DELETED) mc_fail("lost-key", "key \"%s\" lost", mc_esc(key, len)); }
                    else if (pogocache_load(pc, key, len, &l) != ((n & 1) ? POGOCACHE_NOTFOUND : POGOCACHE_FOUND)) mc_fail("key-confusion", "key \"%s\": wrong after deleting others", mc_esc(key, len));
                    mc_transitions++;
                }
            }
            total = n; mc_tick();
        }
        mc_traces++; mc_note("distinct_keys_together", total);
        finish();
    }
    mc_sample("key lengths 0..%d x 7 byte classes x flags/expiry/settings; value lengths around 254..260, 65533..65540; all 1- and 2-byte keys; all strings over 4 alphabets together", maxk);
}
// keys whose stored hashes are identical and that are related to each other: only the comparison of their bytes tells them apart
static const char *same_rel[] = { "x,xa", "x,x-", "x,xQ", "x,x\\0", "Qx,Qx\\0", "Qx,Qxa", "xa,xb", "xa,xQ", "ax,bx", "x,ax", "xab,xba", "x+40,x+40+z", "empty,x", "x,xx", "118+x,118+x+a", "140+x,140+x+a", "xQ,xQQ", "xa,x\\0", "x.,x-", "xQ,xq" };
__attribute__((no_sanitize("address", "undefined")))
static int same_key(int rel, int side, const char *x, char *o) {
    int n = strlen(x), m = 0;
#define PUT(p, l) do { memcpy(o + m, p, l); m += (l); } while (0)
    static const char L40[] = "0123456789abcdefghijklmnopqrstuvwxyz0123";
    switch (rel) {
    case 0: PUT(x, n); if (side) PUT("a", 1); break;
    case 1: PUT(x, n); if (side) PUT("-", 1); break;
    case 2: PUT(x, n); if (side) PUT("Q", 1); break;
    case 3: PUT(x, n); if (side) PUT("\0", 1); break;
    case 4: PUT("Q", 1); PUT(x, n); if (side) PUT("\0", 1); break;
    case 5: PUT("Q", 1); PUT(x, n); if (side) PUT("a", 1); break;
    case 6: PUT(x, n); PUT(side ? "b" : "a", 1); break;
    case 7: PUT(x, n); PUT(side ? "Q" : "a", 1); break;
    case 8: PUT(side ? "b" : "a", 1); PUT(x, n); break;
    case 9: if (side) PUT("a", 1); PUT(x, n); break;
    case 10: PUT(x, n); PUT(side ? "ba" : "ab", 2); break;
    case 11: PUT(x, n); PUT(L40, 40); if (side) PUT("z", 1); break;
    case 12: if (side) PUT(x, n); break;
    case 13: PUT(x, n); if (side) PUT(x, n); break;
    case 14: case 15: for (int i = 0; i < (rel == 14 ? 118 : 140) - n; i++) PUT("y", 1); PUT(x, n); if (side) PUT("a", 1); break;
    case 16: PUT(x, n); PUT("Q", 1); if (side) PUT("Q", 1); break;
    case 17: PUT(x, n); PUT(side ? "\0" : "a", 1); break;
    case 18: PUT(x, n); PUT(side ? "-" : ".", 1); break;
    case 19: PUT(x, n); PUT(side ? "q" : "Q", 1); break;
    }
    return m;
}
static void mode_samehash(void) {
    mc_case_printer(pr_bytes);
    CFG("six,cas", c.usecas = true); CFG("six", c.usecas = false); CFG("raw,cas", c.nosixpack = true); CFG("raw,3shards", c.nosixpack = true; c.usecas = false; c.nshards = 3);
    if (mc_case_in) mc_note("replay-runs-all", 1);
    const int depth = mc_thorough ? 7 : 5;
    for (int rel = 0; rel < (int)(sizeof same_rel / sizeof *same_rel); rel++) {
        if (rel % mc_nparts != mc_part && !mc_case_in) continue;
        char k[2][256]; int kn[2]; unsigned c = 0; char x[16] = "00000000";
        while (1) { // any number of candidates: on average one in 2^24 fits
            c++; for (int i = 7; i >= 0; i--) { if (x[i]++ != '9') break; x[i] = '0'; }
            for (int s = 0; s < 2; s++) kn[s] = same_key(rel, s, x, k[s]);
            if (!((th64(k[0], kn[0], 0) ^ th64(k[1], kn[1], 0)) & 0xFFFFFF)) break;
            if (!(c & 0xFFFFF)) mc_tick();
            if (c > 99999998u) break; // not found: still a valid pair of keys
        }
        char *hk[2]; for (int s = 0; s < 2; s++) { hk[s] = malloc(kn[s] ? kn[s] : 1); memcpy(hk[s], k[s], kn[s]); }
        int total = 1; for (int i = 0; i < depth; i++) total *= 4;
        for (int g = 0; g < ncfgs; g++) for (int q = 0; q < total; q++) {
            C = cfgs[g]; C.cb = 0; reset(); pc = mk();
            snprintf(B_case, sizeof B_case, "samehash keys=%s seq=%d cfg=%s", same_rel[rel], q, C.name);
            char v[2][8]; int vn[2] = { -1, -1 }, y = q;
            for (int i = 0; i < depth; i++, y /= 4) {
                int s = y & 1, st;
                if (y & 2) {
                    struct pogocache_delete_opts d = { .time = T };
                    st = pogocache_delete(pc, hk[s], kn[s], &d);
                    if (st != (vn[s] >= 0 ? POGOCACHE_DELETED : POGOCACHE_NOTFOUND)) mc_fail("key-confusion", "%s, key %d: delete gave status %d although the key is %s", same_rel[rel], s, st, vn[s] >= 0 ? "present" : "absent");
                    vn[s] = -1;
                } else {
                    int had = vn[s] >= 0; vn[s] = snprintf(v[s], 8, "%d.%d", s, i);
                    struct pogocache_store_opts so = { .time = T, .flags = i * 2 + s };
                    st = pogocache_store(pc, hk[s], kn[s], v[s], vn[s], &so);
                    if (st != (had ? POGOCACHE_REPLACED : POGOCACHE_INSERTED)) mc_fail("key-confusion", "%s, key %d: store gave status %d although the key was %s", same_rel[rel], s, st, had ? "present" : "absent");
                    (void)i;
                    B_flags = i * 2 + s; B_v = (unsigned char *)v[s]; B_vn = vn[s]; B_k = hk[s]; B_kn = kn[s]; B_exp = 0; B_hits = 0;
                    struct pogocache_load_opts l = { .time = T, .entry = b_load };
                    if (pogocache_load(pc, hk[s], kn[s], &l) != POGOCACHE_FOUND || B_hits != 1) mc_fail("lost-key", "%s, key %d: stored but not found", same_rel[rel], s);
                }
                int o = 1 - s; B_hits = 0; B_v = (unsigned char *)v[o]; B_vn = vn[o] < 0 ? 0 : vn[o]; B_k = hk[o]; B_kn = kn[o]; B_exp = 0;
                B_flags = vn[o] < 0 ? 0 : (v[o][2] - '0') * 2 + o;
                struct pogocache_load_opts l = { .time = T, .entry = b_load };
                st = pogocache_load(pc, hk[o], kn[o], &l);
                if (st != (vn[o] >= 0 ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND)) mc_fail("key-confusion", "%s: an operation on key %d made key %d %s", same_rel[rel], s, o, vn[o] >= 0 ? "disappear" : "appear");
                struct pogocache_count_opts co = { .time = T };
                if (pogocache_count(pc, &co) != (size_t)((vn[0] >= 0) + (vn[1] >= 0))) mc_fail("count", "%s: wrong number of entries", same_rel[rel]);
                mc_transitions++;
            }
            mc_state(mc_hash64(rel * 4 + g, mc_hash64(vn[0] < 0 ? -1 : v[0][2], vn[1] < 0 ? -1 : v[1][2]))); mc_outcome(mc_hash64(rel, (vn[0] >= 0) * 2 + (vn[1] >= 0)));
            finish(); mc_traces++; mc_evals++; mc_tick();
        }
        free(hk[0]); free(hk[1]);
    }
    mc_sample("20 pairs of related keys with identical stored hashes (prefix, suffix, one byte apart, packed against unpacked): all sequences of stores and deletes up to %d", depth);
}
// every combination of the options of a store, in every state of its key
static int SO_cfg, SO_st; static unsigned SO_i;
static void pr_storeopts(char *b, size_t n) { snprintf(b, n, "storeopts cfg=%d state=%d idx=%u", SO_cfg, SO_st, SO_i); }
static void sop(struct op o, const char *n) { strcpy(o.name, n); run_op(&o); }
static void run_storeopts(void) {
    C = cfgs[SO_cfg]; reset(); start();
    sop((struct op){ .kind = STORE, .k = 2, .v = 1 }, "store(Z)");
    sop((struct op){ .kind = STORE, .k = 0, .v = 2, .flags = 3 }, "store(A)"); sop((struct op){ .kind = GETCAS, .k = 0, .cas = 1 }, "old=readver(A)");
    switch (SO_st) {
    case 0: sop((struct op){ .kind = DEL, .k = 0 }, "delete(A)"); break;
    case 1: sop((struct op){ .kind = STORE, .k = 0, .v = 1, .flags = 5 }, "store(A)"); break;
    case 2: sop((struct op){ .kind = STORE, .k = 0, .v = 1, .flags = 5, .ttl = 3 }, "store(A,ttl3)"); break;
    case 3: sop((struct op){ .kind = STORE, .k = 0, .v = 1, .flags = 5, .ttl = 1 }, "store(A,ttl1)"); break;
    }
    sop((struct op){ .kind = GETCAS, .k = 0, .cas = 2 }, "current=readver(A)");
    sop((struct op){ .kind = TICK, .dt = 1 }, "tick1");
    unsigned i = SO_i; struct op o = { .kind = STORE, .k = 0, .v = 3 };
    unsigned c = i % 3; i /= 3; o.nx = c == 1; o.xx = c == 2;
    o.cas = i % 3; i /= 3; if (o.cas && o.nx) o.nx = 0; o.keepttl = i % 2; i /= 2; o.flags = i % 2 ? 9 : 0; i /= 2; o.cb = i % 3; i /= 3; o.low = (i % 2) && (C.cb & 1); i /= 2; // (evictions are seen through the callback)
    switch (i) { case 1: o.ttl = 1; break; case 2: o.ttl = 2; break; case 3: o.exp = 1; o.exprel = 1; break; case 4: o.exprel = 1; break; case 5: o.exp = -5; break; }
    sop(o, "store(A,options)"); mc_state(model_hash());
    sop((struct op){ .kind = LOAD, .k = 0 }, "load(A)"); sop((struct op){ .kind = GETCAS, .k = 0, .cas = 1 }, "readver(A)");
    sop((struct op){ .kind = TICK, .dt = 1 }, "tick1"); sop((struct op){ .kind = LOAD, .k = 0 }, "load(A)");
    sop((struct op){ .kind = STORE, .k = 0, .v = 1, .cas = 1, .keepttl = 1 }, "cas(A,keepttl)"); sop((struct op){ .kind = ITER }, "iter");
    probe(); mc_outcome(op_hash_out); finish(); mc_traces++; mc_evals++; mc_tick();
}
static void mode_storeopts(void) {
    std_keys(); mc_case_printer(pr_storeopts); O_acct = !strcmp(mc_prop, "C07");
    CFG("base", ); CFG("plain", c.cb = 0; c.usecas = false; c.nosixpack = true); CFG("noevict", c.noevict = true); CFG("expiring", c.prelude = 2; c.cb = 1);
    if (mc_case_in) { if (sscanf(mc_case_in, "storeopts cfg=%d state=%d idx=%u", &SO_cfg, &SO_st, &SO_i) != 3) mc_die("case"); run_storeopts(); return; }
    uint64_t n = 0;
    for (SO_cfg = 0; SO_cfg < ncfgs; SO_cfg++) for (SO_st = 0; SO_st < 4; SO_st++) for (SO_i = 0; SO_i < 3 * 3 * 2 * 2 * 3 * 2 * 6; SO_i++) if ((int)(n++ % mc_nparts) == mc_part) run_storeopts();
    mc_sample("every combination of nx/xx, version, keepttl, lifetime, flags, callback and low memory in a store, for every state of its key, in 4 settings");
}
// null options and creation defaults
static void mode_defaults(void) {
    mc_case_printer(0);
    // creation fails cleanly at every allocation index
    for (int ns = 1; ns <= 3; ns++) {
        C = base; C.nshards = ns; nkeys = 0; reset();
        for (int f = 1; f <= ns + 1; f++) for (int from = 0; from < 2; from++) {
            reset(); fail_at = f; fail_from = from;
            struct pogocache *p = mk();
            if (p) mc_fail("new-nomem", "pogocache_new succeeded although allocation %d failed", f);
            if (lednum) mc_fail("leak", "failed pogocache_new leaks %zu allocations", lednum);
            mc_traces++; mc_transitions++; mc_evals++; mc_state(mc_hash64(f, ns));
        }
    }
}

int main(int argc, char **argv) {
    mc_init(argc, argv);
    O_notify = true;
    if (!strcmp(mc_mode, "seq")) {
        int depth; setup_seq(&depth);
        if (nkeys > 64) build_kidx();
        mc_note("depth_sum", 0);
        run_all_seqs(depth);
        mc_note("depth", depth * (mc_part == 0)); mc_note("alphabet", nA * (mc_part == 0)); mc_note("configurations", ncfgs * (mc_part == 0));
    } else if (!strcmp(mc_mode, "layout")) mode_layout();
    else if (!strcmp(mc_mode, "lowlayout")) mode_lowlayout();
    else if (!strcmp(mc_mode, "oneshard")) mode_oneshard();
    else if (!strcmp(mc_mode, "oplayout")) mode_oplayout();
    else if (!strcmp(mc_mode, "cursor")) mode_cursor();
    else if (!strcmp(mc_mode, "toggle")) mode_toggle();
    else if (!strcmp(mc_mode, "resize")) mode_resize();
    else if (!strcmp(mc_mode, "bytes")) mode_bytes();
    else if (!strcmp(mc_mode, "samehash")) mode_samehash();
    else if (!strcmp(mc_mode, "storeopts")) mode_storeopts();
    else if (!strcmp(mc_mode, "defaults")) mode_defaults();
    else mc_die("mode");
    mc_note("allocations", total_allocs);
    mc_done();
}
