// Memory, clocks and process functions of the server under the controlled
// scheduler. Included by the explorers after popts, procs, MONO and REAL.
static void (*sx_sleephook)(void); static void (*sx_exithook)(int);
extern "C" {
int __real_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int __real_bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int sx_memcmp(const void *a, const void *b, size_t n) { __tsan_read_range((void *)a, n); __tsan_read_range((void *)b, n); return memcmp(a, b, n); }
void *sx_malloc(size_t n) { return sc_running() ? sc_malloc(n) : malloc(n); }
void *sx_calloc(size_t a, size_t b) { void *p = sx_malloc(a * b); memset(p, 0, a * b); return p; }
void sx_free(void *p) { if (sc_owns(p)) sc_free(p); else if (!sc_running()) free(p); else if (p) mc_die("free of memory from before the execution"); }
void *sx_realloc(void *p, size_t n) {
    if (!p) return sx_malloc(n);
    if (!sc_owns(p)) { if (sc_running()) mc_die("realloc of memory from before the execution"); return realloc(p, n); }
    void *q = sc_malloc(n); size_t m = sc_size(p); if (m > n) m = n;
    __tsan_read_range(p, m); memcpy(q, p, m); sc_free(p); return q;
}
char *sx_strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = (char *)sx_malloc(n + 1); __tsan_read_range((void *)s, n); memcpy(p, s, n); p[n] = 0; return p; }
char *sx_strdup(const char *s) { return sx_strndup(s, strlen(s)); }
static int64_t sx_skew; // time that has passed
int mc_clock_gettime(int id, struct timespec *ts) { int64_t t = (id == CLOCK_REALTIME ? REAL : MONO) + sx_skew; ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0; }
unsigned mc_sleep(unsigned) { if (sx_sleephook) sx_sleephook(); sc_point(); return 0; }
int mc_usleep(unsigned n) { if (sx_sleephook) sx_sleephook(); return usleep(n); }
void mc_exit(int code) { if (sx_exithook) sx_exithook(code); mc_fail("exit", "the server ended itself with status %d", code); mc_die("exit"); }
int __wrap_sys_nprocs(void) { return procs; }
struct pogocache *__wrap_pogocache_new(struct pogocache_opts *o) { if (o) popts = *o; return __real_pogocache_new(o); }
}
