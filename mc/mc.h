// Common runtime of all explorers: options, case recording, violation and
// crash reporting, coverage counters. No repository code is used here.
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern const char *mc_prop;    // property being decided
extern bool mc_thorough;       // tier
extern int mc_part, mc_nparts; // which slice of the space this process does
extern const char *mc_case_in; // when replaying: the case text, else 0
extern const char *mc_mode;    // free-form mode (harness specific)

void mc_init(int argc, char **argv);
// The printer renders the case being executed; called only when needed.
void mc_case_printer(void (*fn)(char *buf, size_t n));
// Report a violation. Does not return unless sig is a listed known finding.
void mc_fail(const char *sig, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
// number of failures recorded as known in this process
extern uint64_t mc_nknown;
// An internal error of the harness (never a verdict).
void mc_die(const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));

// coverage
extern uint64_t mc_transitions, mc_traces, mc_evals;
void mc_state(uint64_t hash);       // record a reached state
void mc_outcome(uint64_t hash);     // record a distinct observed outcome
void mc_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
void mc_note(const char *key, uint64_t value);  // extra measured counts (sum)
void mc_cap_hit(const char *what);  // a bound was cut short: not exhaustive
void mc_tick(void);                 // progress, for the hang watchdog
void mc_done(void) __attribute__((noreturn));

static inline uint64_t mc_hash(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t *)p;
    h ^= 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
    return h;
}
static inline uint64_t mc_hash64(uint64_t x, uint64_t h) {
    return mc_hash(&x, 8, h);
}
// print bytes as a C-like string
char *mc_esc(const void *data, size_t len);
#endif
