// Concurrent explorer of the cache engine: small multi-threaded programs over
// the public interface, every interleaving up to a preemption bound, results
// checked against a sequential map by exhaustive linearization.
#include "msched.h"
#include <stdarg.h>
#include <time.h>
#include "pogocache.h"

int mc_clock_gettime(clockid_t id, struct timespec *ts) { (void)id; ts->tv_sec = 0; ts->tv_nsec = 1000; return 0; }
#define T0 1000

static const char *keys[8]; static int nkeys; static int nfill; static char fillk[64][8];
static const char *vals[] = { "", "v1", "value-two", "3", "four4" }; enum { NV = 5 };
static int shard_of[8];

enum kind { STORE, LOAD, UPD, DEL, CAS, ITER, SWEEP, CLEAR, COUNT, TOTAL, SCAN, BATCH, INCR };
struct cop { uint8_t kind, k, v, nx, xx, cb, mode, ttl, flags, low; uint8_t sub[3], nsub; char name[40]; };
static struct cop A[128]; static int nA;
static int add(struct cop o, const char *nm) { snprintf(o.name, sizeof o.name, "%s", nm); if (nA == 128) mc_die("alphabet"); A[nA] = o; return nA++; }

struct res { int st; int v; int flags; int n; int seen[8]; int ns; size_t swept, kept; };
struct call { int op; int th; uint64_t call, ret; struct res r[3]; };
static struct call H[3][4]; static int hn[3];
static int prog[3][4], proglen[3], nth;
static int prelude_, cfg_;
static struct pogocache *pc; static size_t C0;

// --------------------------------------------------------- reference map
struct ment { bool present, expired; int v, flags, ver; };
struct model { struct ment m[8]; int slot[3]; int slotk[3]; int ver; int total; int fill; };
static struct model M0;

static int nsh(void) { return 2; }
static int vid(const void *v, size_t n) { for (int i = 0; i < NV; i++) if (strlen(vals[i]) == n && !memcmp(vals[i], v, n)) return i; mc_fail("alien-value", "value \"%s\" was never stored", mc_esc(v, n)); return -1; }
static int kid(const void *k, size_t n) { for (int i = 0; i < nkeys; i++) if (strlen(keys[i]) == n && !memcmp(keys[i], k, n)) return i;
    for (int i = 0; i < nfill; i++) if (strlen(fillk[i]) == n && !memcmp(fillk[i], k, n)) return -1;
    mc_fail("alien-key", "key \"%s\" was never stored", mc_esc(k, n)); return -1; }

// notified state
static struct { bool present; void *e; } S[8];
static void on_notify(int shard, int64_t t, struct pogocache_entry *ne, struct pogocache_entry *oe, void *ud) {
    (void)shard, (void)t, (void)ud;
    char b[128]; size_t n; const void *k = pogocache_entry_key(pc, ne ? ne : oe, &n, b);
    int id = kid(k, n); if (id < 0) return;
    if (oe) { if (!S[id].present || S[id].e != (void *)oe) mc_fail("notify-old", "notification for key %s names an entry that was not current", keys[id]); S[id].present = false; }
    else if (S[id].present) mc_fail("notify-dup", "key %s reported inserted twice", keys[id]);
    if (ne) { S[id].present = true; S[id].e = ne; }
}

// ------------------------------------------------------ executing an op
struct cbx { struct res *r; struct cop *o; uint64_t cas; bool ret; struct pogocache_update up; };
static void rd(struct cbx *x, const void *v, size_t vn, uint32_t flags, uint64_t cas) { x->r->v = vid(v, vn); x->r->flags = flags; x->cas = cas; x->r->n++; }
static bool cb_bool(int s, int64_t t, const void *k, size_t kn, const void *v, size_t vn, int64_t e, uint32_t f, uint64_t c, void *ud) { (void)s,(void)t,(void)k,(void)kn,(void)e; struct cbx *x = ud; rd(x, v, vn, f, c); return x->ret; }
static void cb_load(int s, int64_t t, const void *k, size_t kn, const void *v, size_t vn, int64_t e, uint32_t f, uint64_t c, struct pogocache_update **up, void *ud) { (void)s,(void)t,(void)k,(void)kn,(void)e; struct cbx *x = ud; rd(x, v, vn, f, c);
    if (x->o->kind == UPD || x->o->kind == INCR) { if (x->o->kind == INCR) { int nv = (x->r->v + 1) % NV; x->up = (struct pogocache_update){ vals[nv], strlen(vals[nv]), f, 0 }; } *up = &x->up; } }
static int cb_iter(int s, int64_t t, const void *k, size_t kn, const void *v, size_t vn, int64_t e, uint32_t f, uint64_t c, void *ud) { (void)s,(void)t,(void)e,(void)f,(void)c; struct cbx *x = ud;
    int id = kid(k, kn); int val = vid(v, vn); if (id >= 0) { if (x->r->seen[id]) mc_fail("iter-dup", "iteration reported key %s twice", keys[id]); x->r->seen[id] = val + 1; } x->r->n++; return x->o->mode == 1 && id >= 0 ? POGOCACHE_ITER_DELETE : POGOCACHE_ITER_CONTINUE; }
static uint64_t slotcas[3];

static void exec1(struct pogocache *h, struct cop *o, int th, struct res *r) {
    memset(r, 0, sizeof *r); r->v = -1;
    struct cbx x = { .r = r, .o = o, .ret = o->cb != 2 };
    const char *k = keys[o->k]; size_t kn = strlen(k);
    switch (o->kind) {
    case STORE: case CAS: {
        struct pogocache_store_opts s = { .time = T0, .nx = o->nx, .xx = o->xx, .flags = o->flags, .entry = o->cb ? cb_bool : 0, .udata = &x, .ttl = o->ttl ? 5 : 0, .lowmem = o->low,
            .casop = o->kind == CAS, .cas = o->kind == CAS ? slotcas[th] : 0 };
        r->st = pogocache_store(h, k, kn, vals[o->v], strlen(vals[o->v]), &s);
        break; }
    case LOAD: case UPD: case INCR: {
        struct pogocache_load_opts l = { .time = T0, .entry = cb_load, .udata = &x, .notouch = o->mode };
        x.up = (struct pogocache_update){ vals[o->v], strlen(vals[o->v]), o->flags, 0 };
        r->st = pogocache_load(h, k, kn, &l); slotcas[th] = r->st == POGOCACHE_FOUND ? x.cas : 987654;
        break; }
    case DEL: {
        struct pogocache_delete_opts d = { .time = T0, .entry = o->cb ? cb_bool : 0, .udata = &x };
        r->st = pogocache_delete(h, k, kn, &d); break; }
    case ITER: { struct pogocache_iter_opts it = { .time = T0, .entry = cb_iter, .udata = &x }; r->st = pogocache_iter(h, &it); break; }
    case SWEEP: { struct pogocache_sweep_opts s = { .time = T0 }; pogocache_sweep(h, &r->swept, &r->kept, &s); break; }
    case CLEAR: { struct pogocache_clear_opts c = { .time = T0, .deferfree = o->mode }; pogocache_clear(h, &c); break; }
    case COUNT: { struct pogocache_count_opts c = { .time = T0 }; r->n = pogocache_count(h, &c); break; }
    case TOTAL: { struct pogocache_total_opts c = { .time = T0 }; r->n = pogocache_total(h, &c); struct pogocache_size_opts so = { .time = T0 }; if (o->mode) pogocache_size(h, &so); break; }
    case SCAN: { uint64_t cur = 0; struct pogocache_entry *e; int n = 0;
        while ((e = pogocache_entry_iter(h, T0, &cur))) {
            char b[128]; size_t n1, n2; const void *kk = pogocache_entry_key(pc, e, &n1, b); int id = kid(kk, n1); sc_point();
            const void *vv = pogocache_entry_value(pc, e, &n2); int val = vid(vv, n2);
            if (id >= 0) r->seen[id] = val + 1;
            pogocache_entry_release(pc, e); if (++n > 200) { mc_fail("scan-endless", "cursor loop does not end"); break; }
        } break; }
    }
}
static void thread(int i) {
    for (int j = 0; j < proglen[i]; j++) {
        struct cop *o = &A[prog[i][j]]; struct call *c = &H[i][j];
        c->op = prog[i][j]; c->th = i; c->call = sc_now();
        if (o->kind == BATCH) {
            struct pogocache *b = pogocache_begin(pc);
            for (int q = 0; q < o->nsub; q++) exec1(b, &A[o->sub[q]], i, &c->r[q]);
            pogocache_end(b);
        } else exec1(pc, o, i, &c->r[0]);
        c->ret = sc_now(); hn[i] = j + 1;
    }
}
// apply op (sub-step for multi-shard ops) to the model; false = contradiction
static bool alive(struct ment *m) { return m->present && !m->expired; }
static bool apply1(struct model *m, struct cop *o, int th, struct res *r) {
    struct ment *e = &m->m[o->k]; bool al = alive(e);
    switch (o->kind) {
    case STORE: case CAS: {
        int ex; bool wr = false, saw = false, held = e->present;
        if (al) {
            if (o->kind == CAS && !(cfg_ == 0 && m->slotk[th] == o->k && m->slot[th] == e->ver)) ex = POGOCACHE_FOUND;
            else if (o->kind != CAS && o->nx) ex = POGOCACHE_FOUND;
            else { saw = o->cb; ex = o->cb == 2 ? POGOCACHE_CANCELED : POGOCACHE_REPLACED; wr = o->cb != 2; }
        } else if (o->xx || o->kind == CAS) ex = POGOCACHE_NOTFOUND;
        else ex = POGOCACHE_INSERTED, wr = true;
        if (r->st != ex) return false;
        if (r->n != saw || (saw && (r->v != e->v || r->flags != e->flags))) return false;
        if (!al) e->present = false;
        if (wr) { if (!al) m->total++; *e = (struct ment){ true, false, o->v, o->flags, ++m->ver }; }
        // a new entry in low memory mode costs another entry of its shard
        if (wr && !al && o->low && !held) for (int k = 0; k < nkeys; k++) if (k != o->k && shard_of[k] == shard_of[o->k]) m->m[k].present = false;
        return true; }
    case LOAD: case UPD: case INCR:
        if (r->st != (al ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND) || r->n != al) return false;
        if (al && (r->v != e->v || r->flags != e->flags)) return false;
        m->slotk[th] = o->k; m->slot[th] = al ? e->ver : -1;
        if (!al) e->present = false;
        if (al && o->kind == UPD) *e = (struct ment){ true, false, o->v, o->flags, ++m->ver };
        if (al && o->kind == INCR) *e = (struct ment){ true, false, (e->v + 1) % NV, e->flags, ++m->ver };
        return true;
    case DEL: {
        int ex = !al ? POGOCACHE_NOTFOUND : o->cb == 2 ? POGOCACHE_CANCELED : POGOCACHE_DELETED;
        if (r->st != ex) return false;
        if (r->n != (al && o->cb)) return false;
        if (al && o->cb && (r->v != e->v || r->flags != e->flags)) return false;
        if (!al || o->cb != 2) e->present = false;
        return true; }
    default: return false;
    }
}
static int steps(struct cop *o) { switch (o->kind) { case ITER: case SWEEP: case CLEAR: case COUNT: case TOTAL: return nsh(); case SCAN: return 1; default: return 1; } }
struct lin { struct model m; int pos[3], sub[3]; int acc[3], acc2[3]; };
static int fin_v[8], fin_f[8]; static int fin_count; static uint64_t fin_total; static uint64_t linnodes;
static int total_sh[2]; // unused split, totals are per cache
static bool step(struct lin *s, int th) {
    struct call *c = &H[th][s->pos[th]]; struct cop *o = &A[c->op]; struct model *m = &s->m;
    if (o->kind == BATCH) { for (int q = 0; q < o->nsub; q++) if (!apply1(m, &A[o->sub[q]], th, &c->r[q])) return false; s->pos[th]++; return true; }
    int ns = steps(o), sh = s->sub[th]; struct res *r = &c->r[0];
    switch (o->kind) {
    case ITER:
        for (int k = 0; k < nkeys; k++) if (shard_of[k] == sh) {
            if (r->seen[k] != (alive(&m->m[k]) ? m->m[k].v + 1 : 0)) return false;
            if (!alive(&m->m[k]) || o->mode == 1) m->m[k].present = false;
        } break;
    case SWEEP:
        if (sh == 0) s->acc[th] = m->fill, s->acc2[th] = 0;
        for (int k = 0; k < nkeys; k++) if (shard_of[k] == sh) { if (alive(&m->m[k])) s->acc[th]++; else if (m->m[k].present) s->acc2[th]++, m->m[k].present = false; }
        if (sh == ns - 1 && ((int)r->kept != s->acc[th] || (int)r->swept != s->acc2[th])) return false;
        break;
    case CLEAR: if (sh == 0) m->fill = 0; for (int k = 0; k < nkeys; k++) if (shard_of[k] == sh) m->m[k].present = false; break;
    case COUNT:
        if (sh == 0) s->acc[th] = m->fill;
        for (int k = 0; k < nkeys; k++) if (shard_of[k] == sh) s->acc[th] += m->m[k].present;
        if (sh == ns - 1 && r->n != s->acc[th]) return false;
        break;
    case TOTAL: // between the totals at the first and last step
        if (sh == 0) { s->acc[th] = m->total; }
        if (sh == ns - 1 && (r->n < s->acc[th] || r->n > m->total)) return false;
        break;
    case SCAN: s->pos[th]++; s->sub[th] = 0; return true;
    default: if (!apply1(m, o, th, r)) return false; s->pos[th]++; return true;
    }
    if (++s->sub[th] == ns) { s->pos[th]++; s->sub[th] = 0; }
    return true;
}
static bool search(struct lin *s) {
    linnodes++;
    bool done = true;
    for (int t = 0; t < nth; t++) if (s->pos[t] < proglen[t]) done = false;
    if (done) {
        int n = 0;
        for (int k = 0; k < nkeys; k++) {
            struct ment *e = &s->m.m[k]; int v = alive(e) ? e->v : -1;
            if (v != fin_v[k] || (v >= 0 && e->flags != fin_f[k])) return false;
            n += alive(e);
        }
        return (uint64_t)s->m.total == fin_total;
    }
    for (int t = 0; t < nth; t++) {
        if (s->pos[t] >= proglen[t]) continue;
        struct call *c = &H[t][s->pos[t]]; bool ok = true;
        for (int u = 0; u < nth; u++) if (u != t && s->pos[u] < proglen[u] && H[u][s->pos[u]].ret < c->call) ok = false;
        if (!ok) continue;
        if (A[c->op].kind == SCAN) for (int k = 0; k < nkeys; k++) if (s->m.m[k].present && s->m.m[k].expired) {
            struct lin s2 = *s; s2.m.m[k].present = false; if (search(&s2)) return true; } // a scan may drop expired entries as it passes
        struct lin s2 = *s;
        if (!step(&s2, t)) continue;
        if (search(&s2)) return true;
    }
    return false;
}

// ------------------------------------------------------------ scenarios
static void st0(int k, int v, int flags, int ttl) {
    struct pogocache_store_opts s = { .time = T0 - 10, .flags = flags, .ttl = ttl };
    pogocache_store(pc, keys[k], strlen(keys[k]), vals[v], strlen(vals[v]), &s);
    M0.total += !M0.m[k].present;
    M0.m[k] = (struct ment){ true, ttl > 0 && ttl <= 10, v, flags, ++M0.ver };
}
static char fill0[64][8]; static int shrinkat = 12;
static void fstore(int i) { struct pogocache_store_opts s = { .time = T0 - 10 }; pogocache_store(pc, fillk[i], strlen(fillk[i]), "v1", 2, &s); M0.total++; }
static void setup(void) {
    memset(&M0, 0, sizeof M0); memset(S, 0, sizeof S); memset(hn, 0, sizeof hn); memset(slotcas, 0, sizeof slotcas);
    for (int i = 0; i < 3; i++) { M0.slotk[i] = -1; M0.slot[i] = -1; }
    struct pogocache_opts o = { .malloc = sc_malloc, .free = sc_free, .nshards = nsh(), .usecas = cfg_ == 0, .nosixpack = cfg_ == 1, .allowshrink = true,
        .usethreadbatch = cfg_ == 1, .notify = on_notify };
    pc = pogocache_new(&o);
    if (!pc) mc_die("pogocache_new");
    struct pogocache_size_opts so = { .time = T0 }; C0 = sc_live_bytes() - pogocache_size(pc, &so);
    nfill = 0; M0.fill = 0;
    switch (prelude_) {
    case 0: st0(0, 1, 3, 0); st0(1, 2, 0, 0); st0(2, 3, 0, 0); break;
    case 1: break;
    case 2: st0(0, 1, 3, 5); st0(1, 2, 0, 10); st0(2, 1, 0, 100); break;
    case 3: // growth: one insert away in shard 0
        for (int i = 0, j = 0; i < 48; j++) { snprintf(fillk[i], 8, "f%d", j); struct pogocache_store_opts s = { .time = T0 - 10 };
            nfill = i + 1; pogocache_store(pc, fillk[i], strlen(fillk[i]), "v1", 2, &s); struct pogocache_count_opts c = { .oneshard = true, .oneshardidx = 1, .time = T0 };
            if (pogocache_count(pc, &c)) { struct pogocache_delete_opts d = { .time = T0 }; pogocache_delete(pc, fillk[i], strlen(fillk[i]), &d); nfill = i; M0.total++; continue; }
            M0.total++; i++; }
        M0.fill = nfill;
        st0(1, 2, 0, 0);
        break;
    case 4: // a delete away from a smaller table
        nfill = 49; for (int i = 0; i < nfill; i++) { strcpy(fillk[i], fill0[i]); fstore(i); }
        st0(0, 1, 3, 0); st0(1, 2, 0, 0); st0(2, 3, 0, 0);
        while (nfill + 2 > shrinkat + 1) { nfill--; char b[8]; strcpy(b, fillk[nfill]); nfill++; struct pogocache_delete_opts d = { .time = T0 }; pogocache_delete(pc, b, strlen(b), &d); nfill--; }
        M0.fill = nfill;
        break;
    }
}
static void finish(void) {
    uint64_t h = 1;
    for (int k = 0; k < nkeys; k++) { struct res r; struct cop o = { .kind = LOAD, .k = k, .mode = 1 }; exec1(pc, &o, 0, &r); fin_v[k] = r.st == POGOCACHE_FOUND ? r.v : -1; fin_f[k] = r.flags;
        if (fin_v[k] >= 0 && !S[k].present) mc_fail("notify-missing", "key %s is stored but the notifications say otherwise", keys[k]);
        if (fin_v[k] < 0 && S[k].present) mc_fail("notify-missing", "key %s is gone but the notifications say otherwise", keys[k]);
        h = mc_hash64(fin_v[k] + 1, h); }
    struct pogocache_total_opts to = { .time = T0 }; fin_total = pogocache_total(pc, &to);
    struct pogocache_count_opts co = { .time = T0 }; fin_count = pogocache_count(pc, &co);
    int n = 0; for (int k = 0; k < nkeys; k++) n += fin_v[k] >= 0;
    if (fin_count != n + nfill && prelude_ < 3) mc_fail("count", "count is %d but %d keys are stored", fin_count, n + nfill);
    struct pogocache_size_opts so = { .time = T0 };
    size_t sz = pogocache_size(pc, &so);
    if (sz + C0 != sc_live_bytes()) mc_fail("size", "reported size %zu but %zu bytes are allocated", sz, sc_live_bytes() - C0);
    for (int t = 0; t < nth; t++) for (int j = 0; j < proglen[t]; j++) for (int q = 0; q < 3; q++) { struct res *r = &H[t][j].r[q]; if (q && A[H[t][j].op].kind != BATCH) break; h = mc_hash64(r->st * 64 + r->v + 1 + r->n * 1024, h); for (int k = 0; k < nkeys; k++) h = mc_hash64(r->seen[k], h); }
    for (int t = 0; t < nth; t++) for (int j = 0; j < proglen[t]; j++) if (A[H[t][j].op].kind == SCAN && prelude_ < 3) {
        // keys no operation can have touched must be reported as they were
        for (int k = 0; k < nkeys; k++) { bool touched = false;
            for (int u = 0; u < nth; u++) for (int i = 0; i < proglen[u]; i++) { struct cop *o = &A[H[u][i].op];
                if (o->kind == ITER ? o->mode : o->kind == CLEAR || o->kind == BATCH) touched = true;
                else if (o->kind <= CAS || o->kind == INCR) touched |= (o->k == k && o->kind != LOAD) || (o->low && shard_of[o->k] == shard_of[k]); }
            int ex = alive(&M0.m[k]) ? M0.m[k].v + 1 : 0;
            if (!touched && H[t][j].r[0].seen[k] != ex) mc_fail("scan-missed", "scan reported %d for the untouched key %s, expected %d", H[t][j].r[0].seen[k], keys[k], ex); } }
    struct lin s = { .m = M0 };
    if (!search(&s)) {
        char m[1500]; size_t w = 0;
        for (int t = 0; t < nth; t++) for (int j = 0; j < proglen[t]; j++) w += snprintf(m + w, sizeof m - w, " T%d:%s[%llu..%llu]=st%d,v%d,n%d", t, A[H[t][j].op].name, (unsigned long long)H[t][j].call, (unsigned long long)H[t][j].ret, H[t][j].r[0].st, H[t][j].r[0].v, H[t][j].r[0].n);
        mc_fail("not-linearizable", "no sequential order explains:%s final:%d,%d,%d total=%llu", m, fin_v[0], fin_v[1], fin_v[2], (unsigned long long)fin_total);
    }
    mc_outcome(mc_hash64(prelude_, h));
    uint64_t sh = 5; for (int k = 0; k < nkeys; k++) sh = mc_hash64((fin_v[k] + 1) * 16 + fin_f[k], sh); mc_state(sh);
    pogocache_free(pc);
    if (sc_live()) mc_fail("leak", "%zu allocations not released", sc_live());
    mc_traces++;
}
static void printer(char *b, size_t n) {
    size_t m = snprintf(b, n, "conc pre=%d cfg=%d prog=", prelude_, cfg_);
    for (int t = 0; t < nth; t++) { for (int j = 0; j < proglen[t]; j++) m += snprintf(b + m, n - m, "%s%d", j ? "." : t ? "/" : "", prog[t][j]); }
    m += sc_print(b + m, n - m);
    m += snprintf(b + m, n - m, " #");
    for (int t = 0; t < nth; t++) { m += snprintf(b + m, n - m, " T%d:", t); for (int j = 0; j < proglen[t]; j++) m += snprintf(b + m, n - m, " %s;", A[prog[t][j]].name); }
}
static struct sc_prog P = { 0, setup, thread, finish };
static uint64_t idx, maxpts;
static void go(void) {
    if (idx++ % mc_nparts != (uint64_t)mc_part) return;
    int sb0 = sc_bound;
    if (prelude_ >= 3) for (int t = 0; t < nth; t++) for (int j = 0; j < proglen[t]; j++) { int k = A[prog[t][j]].kind; if ((k == SCAN || k == ITER || k == CLEAR || k == SWEEP) && sc_bound > 1) sc_bound--; }
    struct sc_stats st; P.n = nth; sc_explore(&P, &st); sc_bound = sb0;
    mc_evals++; mc_note("schedules", st.execs); mc_note("programs", 1);
    if (!st.complete) mc_cap_hit("executions per program");
    if (mc_evals <= 2) { char b[512]; printer(b, sizeof b); mc_sample("%s: %llu schedules", b, (unsigned long long)st.execs); }
}
static int find_shard_v; 
static void fs(int s, int64_t t, const void *k, size_t kn, const void *v, size_t vn, int64_t e, uint32_t f, uint64_t c, struct pogocache_update **up, void *ud) { (void)t,(void)k,(void)kn,(void)v,(void)vn,(void)e,(void)f,(void)c,(void)up,(void)ud; find_shard_v = s; }
static int shardfor(const char *k) {
    struct pogocache_opts o = { .nshards = 2 }; struct pogocache *p = pogocache_new(&o);
    pogocache_store(p, k, strlen(k), "x", 1, 0); struct pogocache_load_opts l = { .entry = fs }; pogocache_load(p, k, strlen(k), &l); pogocache_free(p); return find_shard_v;
}
int main(int argc, char **argv) {
    mc_init(argc, argv); mc_case_printer(printer);
    // A, B in shard 0, C in shard 1
    for (int i = 0, need = 0; need < 3; i++) { char b[8]; snprintf(b, 8, "k%d", i); int s = shardfor(b); if (s == (need == 2 ? 1 : 0)) { keys[need] = strdup(b); shard_of[need] = s; need++; } }
    nkeys = 3;
    for (int i = 0, j = 0; i < 64; j++) { char b[8]; snprintf(b, 8, "f%d", j); if (shardfor(b) == 0) strcpy(fill0[i++], b); }
    { // how many entries a table that was grown once holds before it becomes smaller again
        struct pogocache_opts o = { .nshards = 2, .allowshrink = true }; struct pogocache *p = pogocache_new(&o); struct pogocache_size_opts so = { .oneshard = true };
        for (int i = 0; i < 51; i++) pogocache_store(p, fill0[i], strlen(fill0[i]), "", 0, 0);
        for (int i = 50; i >= 0; i--) { size_t a = pogocache_size(p, &so); pogocache_delete(p, fill0[i], strlen(fill0[i]), 0); if (a - pogocache_size(p, &so) > 500) { shrinkat = i; break; } }
        pogocache_free(p); }
    bool bulk = !strcmp(mc_mode, "bulk"), cas = !strcmp(mc_mode, "cas"), batchm = !strcmp(mc_mode, "batch"), low = !strcmp(mc_mode, "low");
    int w0, w1;  // writer ops
    // hidden sub-operations of batches
    int bl = add((struct cop){ .kind = LOAD, .k = 0 }, "load(A)"), bs = add((struct cop){ .kind = STORE, .k = 0, .v = 4 }, "store(A,v4)");
    int bl2 = add((struct cop){ .kind = LOAD, .k = 2 }, "load(C)"), bs2 = add((struct cop){ .kind = STORE, .k = 2, .v = 4 }, "store(C,v4)");
    int bd = add((struct cop){ .kind = DEL, .k = 0 }, "delete(A)"), bc = add((struct cop){ .kind = CAS, .k = 0, .v = 2 }, "cas(A,v2)");
    w0 = nA;
    add((struct cop){ .kind = STORE, .k = 0, .v = 3, .flags = 5 }, "store(A,v3,f5)");
    add((struct cop){ .kind = LOAD, .k = 0 }, "load(A)");
    add((struct cop){ .kind = DEL, .k = 0 }, "delete(A)");
    add((struct cop){ .kind = STORE, .k = 2, .v = 2 }, "store(C,v2)");
    add((struct cop){ .kind = STORE, .k = 0, .v = 4, .nx = 1 }, "store(A,v4,nx)");
    add((struct cop){ .kind = INCR, .k = 0 }, "incr(A)");
    add((struct cop){ .kind = STORE, .k = 1, .v = 1, .ttl = 1 }, "store(B,v1,ttl)");
    add((struct cop){ .kind = LOAD, .k = 2 }, "load(C)");
    if (!bulk) {
        add((struct cop){ .kind = STORE, .k = 0, .v = 2, .xx = 1 }, "store(A,v2,xx)");
        add((struct cop){ .kind = UPD, .k = 0, .v = 2, .flags = 1 }, "update(A,v2)");
        add((struct cop){ .kind = DEL, .k = 0, .cb = 2 }, "delete(A,cancel)");
        add((struct cop){ .kind = STORE, .k = 0, .v = 2, .cb = 2 }, "store(A,v2,cancel)");
        add((struct cop){ .kind = LOAD, .k = 1 }, "load(B)");
        add((struct cop){ .kind = SCAN }, "scan");
    } else add((struct cop){ .kind = DEL, .k = 2 }, "delete(C)");
    w1 = nA;
    if (cas) { w0 = nA;
        add((struct cop){ .kind = LOAD, .k = 0 }, "load(A)"); add((struct cop){ .kind = CAS, .k = 0, .v = 4 }, "cas(A,v4)"); add((struct cop){ .kind = CAS, .k = 0, .v = 3, .cb = 2 }, "cas(A,v3,cancel)");
        add((struct cop){ .kind = STORE, .k = 0, .v = 3 }, "store(A,v3)"); add((struct cop){ .kind = INCR, .k = 0 }, "incr(A)"); add((struct cop){ .kind = DEL, .k = 0 }, "delete(A)");
        add((struct cop){ .kind = STORE, .k = 1, .v = 3 }, "store(B,v3)"); add((struct cop){ .kind = STORE, .k = 0, .v = 4, .cb = 2 }, "store(A,v4,cancel)");
        w1 = nA; }
    if (low) {
        int bA = add((struct cop){ .kind = STORE, .k = 0, .v = 4, .low = 1 }, "store(A,v4,low)"), bB = add((struct cop){ .kind = STORE, .k = 1, .v = 2, .low = 1 }, "store(B,v2,low)"); w0 = nA;
        add((struct cop){ .kind = STORE, .k = 0, .v = 3, .low = 1 }, "store(A,v3,low)"); add((struct cop){ .kind = STORE, .k = 1, .v = 4, .low = 1 }, "store(B,v4,low)"); add((struct cop){ .kind = STORE, .k = 2, .v = 4, .low = 1 }, "store(C,v4,low)");
        add((struct cop){ .kind = LOAD, .k = 0 }, "load(A)"); add((struct cop){ .kind = LOAD, .k = 1 }, "load(B)"); add((struct cop){ .kind = DEL, .k = 0 }, "delete(A)"); add((struct cop){ .kind = INCR, .k = 1 }, "incr(B)");
        add((struct cop){ .kind = STORE, .k = 0, .v = 1, .nx = 1, .low = 1 }, "store(A,v1,nx,low)"); add((struct cop){ .kind = STORE, .k = 1, .v = 1, .ttl = 1 }, "store(B,v1,ttl)");
        add((struct cop){ .kind = ITER }, "iter"); add((struct cop){ .kind = SWEEP }, "sweep"); add((struct cop){ .kind = CLEAR, .mode = 1 }, "clear(defer)"); add((struct cop){ .kind = SCAN }, "scan");
        add((struct cop){ .kind = BATCH, .sub = { bl, bA, bl }, .nsub = 3 }, "batch(load A,store A low,load A)"); add((struct cop){ .kind = BATCH, .sub = { bB, bA }, .nsub = 2 }, "batch(store B low,store A low)");
        w1 = nA; }
    int b0 = nA;
    if (batchm) {
        add((struct cop){ .kind = BATCH, .sub = { bl, bs }, .nsub = 2 }, "batch(load A,store A)");
        add((struct cop){ .kind = BATCH, .sub = { bs, bl }, .nsub = 2 }, "batch(store A,load A)");
        add((struct cop){ .kind = BATCH, .sub = { bl, bc }, .nsub = 2 }, "batch(load A,cas A)");
        add((struct cop){ .kind = BATCH, .sub = { bs, bs2, bl }, .nsub = 3 }, "batch(store A,store C,load A)");
        add((struct cop){ .kind = BATCH, .sub = { bl, bl2, bl }, .nsub = 3 }, "batch(load A,load C,load A)");
        add((struct cop){ .kind = BATCH, .sub = { bd, bs }, .nsub = 2 }, "batch(delete A,store A)");
        add((struct cop){ .kind = BATCH, .nsub = 0 }, "batch()");
    }
    int b1 = nA, k0 = nA;
    if (bulk) {
        add((struct cop){ .kind = ITER }, "iter"); add((struct cop){ .kind = ITER, .mode = 1 }, "iter(delete)");
        add((struct cop){ .kind = CLEAR }, "clear"); add((struct cop){ .kind = CLEAR, .mode = 1 }, "clear(defer)");
        add((struct cop){ .kind = SWEEP }, "sweep"); add((struct cop){ .kind = COUNT }, "count");
        add((struct cop){ .kind = TOTAL, .mode = 1 }, "total,size"); add((struct cop){ .kind = SCAN }, "scan");
    }
    int k1 = nA;
    sc_bound = mc_thorough ? 3 : 2;
    if (mc_case_in) {
        char pr[64]; const char *s = strstr(mc_case_in, "sched=");
        if (!s || sscanf(mc_case_in, "conc pre=%d cfg=%d prog=%63s", &prelude_, &cfg_, pr) != 3) mc_die("case");
        char *p = pr; nth = 0; while (1) { proglen[nth] = 0; while (1) { prog[nth][proglen[nth]++] = strtol(p, &p, 10); if (*p == '.') p++; else break; } nth++; if (*p == '/') p++; else break; }
        P.n = nth; sc_replay(&P, s + 6); mc_done();
    }
#define SET(t, ...) do { int _a[] = { __VA_ARGS__ }; proglen[t] = sizeof _a / sizeof _a[0]; memcpy(prog[t], _a, sizeof _a); } while (0)
    for (prelude_ = 0; prelude_ < 5; prelude_++) for (cfg_ = 0; cfg_ < 2; cfg_++) {
        bool deep = mc_thorough || prelude_ < 3;
        if (low && prelude_ > 2) continue;
        if (bulk) {
            nth = 2; for (int a = k0; a < k1; a++) for (int x = w0; x < w1; x++) {
                if (A[a].kind == COUNT && prelude_ == 2) continue;
                SET(0, a); SET(1, x); go();
                if (deep) for (int y = w0; y < w1; y++) { SET(1, x, y); go(); }
                if (deep && mc_thorough) for (int y = w0; y < w1; y++) for (int z = w0; z < w1; z++) { SET(1, x, y, z); go(); }
            }
            for (int a = k0; a < k1; a++) for (int b = a; b < k1; b++) { if ((A[a].kind == COUNT || A[b].kind == COUNT) && prelude_ == 2) continue;
                nth = 2; SET(0, a); SET(1, b); go();
                if (deep) { nth = 3; for (int x = w0; x < w1; x++) { SET(0, a); SET(1, b); SET(2, x); int sb = sc_bound; sc_bound = mc_thorough ? 2 : 1; go(); sc_bound = sb; } nth = 2; } }
            continue;
        }
        if (cas) {
            int L = w0; nth = 2;
            for (int a = w0; a < w1; a++) for (int b = w0; b < w1; b++) { if (A[a].kind != LOAD && A[a].kind != STORE) continue;
                for (int x = w0; x < w1; x++) { SET(0, a, b); SET(1, x); go(); for (int y = w0; y < w1; y++) { SET(1, x, y); if (deep) go(); } } }
            nth = 3; for (int x = w0; x < w1; x++) for (int y = w0; y < w1; y++) { SET(0, L, L + 1); SET(1, L, x); SET(2, y); int sb = sc_bound; sc_bound = mc_thorough ? 2 : 1; if (deep) go(); sc_bound = sb; }
            continue;
        }
        if (batchm) {
            nth = 2; for (int a = b0; a < b1; a++) { for (int b = a; b < b1; b++) { SET(0, a); SET(1, b); go(); }
                for (int x = w0; x < w1; x++) { SET(0, a); SET(1, x); go(); if (deep) for (int y = w0; y < w1; y++) { SET(1, x, y); go(); } }
                nth = 3; for (int b = a; b < b1; b++) for (int x = w0; x < w1; x++) { SET(0, a); SET(1, b); SET(2, x); int sb = sc_bound; sc_bound = mc_thorough ? 2 : 1; if (deep) go(); sc_bound = sb; } nth = 2; }
            continue;
        }
        nth = 2;
        for (int a = w0; a < w1; a++) for (int b = a; b < w1; b++) { SET(0, a); SET(1, b); go(); }
        for (int a = w0; a < w1; a++) for (int b = w0; b < w1; b++) for (int x = w0; x < w1; x++) { SET(0, a, b); SET(1, x); if (deep || A[a].kind == STORE) go(); }
        if (mc_thorough) for (int a = w0; a < w1; a++) for (int b = w0; b < w1; b++) for (int x = a; x < w1; x++) for (int y = w0; y < w1; y++) { SET(0, a, b); SET(1, x, y); if (prelude_ < 3) go(); }
        nth = 3;
        for (int a = w0; a < w1; a++) for (int b = a; b < w1; b++) for (int x = b; x < w1; x++) { SET(0, a); SET(1, b); SET(2, x); int sb = sc_bound; sc_bound = mc_thorough ? 2 : 1; if (deep) go(); sc_bound = sb; }
        nth = 2;
    }
    mc_note("preemption_bound", mc_part == 0 ? sc_bound : 0);
    mc_done();
}
