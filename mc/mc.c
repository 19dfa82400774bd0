#include "mc.h"
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>
#include <errno.h>
#include <sys/prctl.h>

const char *mc_prop = "", *mc_case_in = 0, *mc_mode = "";
bool mc_thorough = false;
int mc_part = 0, mc_nparts = 1;
uint64_t mc_nknown, mc_transitions, mc_traces, mc_evals;
static const char *out = 0;
static const char *known = "";
static void (*printer)(char *, size_t);
static volatile uint64_t *progress;
static uint64_t localprogress;
static char casebuf[1 << 16];
static volatile int failing;

struct set { uint64_t *v; size_t n, cap; };
static struct set states, outcomes;
static char samples[8][1024];
static int nsamples;
static struct { char key[64]; uint64_t v; } notes[64];
static int nnotes;
static char caps[1024];
static struct { char sig[128]; uint64_t n; } knownhits[32];
static int nknownhits;

static bool set_add(struct set *s, uint64_t x) {
    if (x == 0) x = 1;
    if (s->n * 2 >= s->cap) {
        size_t ncap = s->cap ? s->cap * 2 : 4096;
        if (ncap > (1u << 24)) return false;
        uint64_t *nv = calloc(ncap, 8);
        for (size_t i = 0; i < s->cap; i++) if (s->v[i]) {
            size_t j = s->v[i] & (ncap - 1);
            while (nv[j]) j = (j + 1) & (ncap - 1);
            nv[j] = s->v[i];
        }
        free(s->v); s->v = nv; s->cap = ncap;
    }
    size_t j = x & (s->cap - 1);
    while (s->v[j]) { if (s->v[j] == x) return false; j = (j + 1) & (s->cap - 1); }
    s->v[j] = x; s->n++;
    return true;
}
void mc_state(uint64_t h) { set_add(&states, h); }
void mc_outcome(uint64_t h) { set_add(&outcomes, h); }

void mc_sample(const char *fmt, ...) {
    if (nsamples >= 8) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(samples[nsamples++], sizeof samples[0], fmt, ap);
    va_end(ap);
}
void mc_note(const char *key, uint64_t value) {
    for (int i = 0; i < nnotes; i++)
        if (!strcmp(notes[i].key, key)) { notes[i].v += value; return; }
    if (nnotes == 64) return;
    snprintf(notes[nnotes].key, 64, "%s", key);
    notes[nnotes++].v = value;
}
void mc_cap_hit(const char *what) {
    if (!strstr(caps, what)) {
        size_t n = strlen(caps);
        snprintf(caps + n, sizeof caps - n, "%s%s", n ? "; " : "", what);
    }
}
void mc_tick(void) { localprogress++; if (progress) *progress = localprogress; }
void mc_case_printer(void (*fn)(char *, size_t)) { printer = fn; }

static void put(int fd, const char *s) { ssize_t r = write(fd, s, strlen(s)); (void)r; }

static void write_fail(const char *kind, const char *sig, const char *msg) {
    if (failing++) return;
    char path[4096];
    casebuf[0] = 0;
    if (mc_case_in) snprintf(casebuf, sizeof casebuf, "%s", mc_case_in);
    else if (printer) printer(casebuf, sizeof casebuf);
    if (out) {
        snprintf(path, sizeof path, "%s.fail", out);
        int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) {
            put(fd, kind); put(fd, "\n"); put(fd, sig); put(fd, "\n");
            put(fd, casebuf); put(fd, "\n"); put(fd, msg); put(fd, "\n");
            close(fd);
        }
    }
    put(2, "FAIL "); put(2, kind); put(2, " sig="); put(2, sig); put(2, "\n  case: ");
    put(2, casebuf); put(2, "\n  "); put(2, msg); put(2, "\n");
}

void mc_fail(const char *sig, const char *fmt, ...) {
    char msg[8192];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    char pat[160]; snprintf(pat, sizeof pat, ",%s,", sig);
    if (strstr(known, pat)) {
        mc_nknown++;
        for (int i = 0; i < nknownhits; i++) if (!strcmp(knownhits[i].sig, sig)) { knownhits[i].n++; return; }
        if (nknownhits < 32) { snprintf(knownhits[nknownhits].sig, 128, "%s", sig); knownhits[nknownhits++].n = 1; }
        return;
    }
    write_fail("violation", sig, msg);
    _exit(10);
}
void mc_die(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); fprintf(stderr, "HARNESS ERROR: ");
    vfprintf(stderr, fmt, ap); va_end(ap); fprintf(stderr, "\n");
    _exit(3);
}
static void onsig(int sig) {
    if (sig == SIGUSR1) { write_fail("hang", "hang", "no progress"); _exit(11); }
    char m[64]; snprintf(m, sizeof m, "signal %d", sig);
    write_fail("crash", "crash", m);
    _exit(12);
}
#if defined(__SANITIZE_ADDRESS__)
void __asan_set_death_callback(void (*)(void));
static void ondeath(void) { write_fail("crash", "crash", "sanitizer report (see log)"); }
const char *__asan_default_options(void) {
    return "detect_leaks=0:allocator_may_return_null=1:exitcode=12:handle_abort=0:"
        "max_malloc_fill_size=0:quarantine_size_mb=16:detect_stack_use_after_return=0";
}
#endif

void mc_init(int argc, char **argv) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--prop")) mc_prop = argv[++i];
        else if (!strcmp(argv[i], "--tier")) mc_thorough = !strcmp(argv[++i], "thorough");
        else if (!strcmp(argv[i], "--part")) { if (sscanf(argv[++i], "%d/%d", &mc_part, &mc_nparts) != 2) mc_die("part"); }
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--mode")) mc_mode = argv[++i];
        else if (!strcmp(argv[i], "--known")) known = argv[++i];
        else if (!strcmp(argv[i], "--case")) mc_case_in = argv[++i];
        else mc_die("bad option %s", argv[i]);
    }
    if (out) {
        char path[4096]; snprintf(path, sizeof path, "%s.prog", out);
        int fd = open(path, O_CREAT | O_TRUNC | O_RDWR, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) progress = p;
        }
        if (fd >= 0) close(fd);
    }
    static char stk[65536];
    stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
    sigaltstack(&ss, 0);
    struct sigaction sa = { .sa_handler = onsig, .sa_flags = SA_ONSTACK };
    sigaction(SIGUSR1, &sa, 0);
    sigaction(SIGABRT, &sa, 0);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(ondeath);
#else
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
#endif
}

char *mc_esc(const void *data, size_t len) {
    static __thread char bufs[8][8192]; static __thread int k;
    char *b = bufs[k++ & 7]; size_t n = 0; const unsigned char *p = data;
    for (size_t i = 0; i < len && n < 8150; i++) {
        if (p[i] == '\\' || p[i] == '"') n += sprintf(b + n, "\\%c", p[i]);
        else if (p[i] == '\r') n += sprintf(b + n, "\\r");
        else if (p[i] == '\n') n += sprintf(b + n, "\\n");
        else if (p[i] < 32 || p[i] >= 127) n += sprintf(b + n, "\\x%02x", p[i]);
        else b[n++] = p[i];
    }
    b[n] = 0;
    if (n >= 8150) strcpy(b + 8140, "...");
    return b;
}
static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32 || (unsigned char)*s >= 127) fprintf(f, "\\u%04x", (unsigned char)*s);
        else fputc(*s, f);
    }
    fputc('"', f);
}
static void dumpset(const char *suffix, struct set *s) {
    char path[4096]; snprintf(path, sizeof path, "%s.%s", out, suffix);
    FILE *f = fopen(path, "wb"); if (!f) return;
    for (size_t i = 0; i < s->cap; i++) if (s->v[i]) fwrite(&s->v[i], 8, 1, f);
    fclose(f);
}
void mc_done(void) {
    if (out) {
        FILE *f = fopen(out, "w");
        if (!f) mc_die("cannot write %s", out);
        fprintf(f, "{\"transitions\":%llu,\"traces\":%llu,\"evals\":%llu,\"states\":%zu,\"outcomes\":%zu,\"samples\":[",
            (unsigned long long)mc_transitions, (unsigned long long)mc_traces,
            (unsigned long long)mc_evals, states.n, outcomes.n);
        for (int i = 0; i < nsamples; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
        fprintf(f, "],\"caps\":"); jstr(f, caps);
        fprintf(f, ",\"known\":{");
        for (int i = 0; i < nknownhits; i++) { if (i) fputc(',', f); jstr(f, knownhits[i].sig); fprintf(f, ":%llu", (unsigned long long)knownhits[i].n); }
        fprintf(f, "},\"notes\":{");
        for (int i = 0; i < nnotes; i++) { if (i) fputc(',', f); jstr(f, notes[i].key); fprintf(f, ":%llu", (unsigned long long)notes[i].v); }
        fprintf(f, "}}\n");
        fclose(f);
        dumpset("states", &states);
        dumpset("outcomes", &outcomes);
    }
    fflush(0);
    _exit(0);
}
