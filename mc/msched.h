// Controlled scheduler: runs the threads of a program as fibers in one OS
// thread and explores every interleaving of their synchronisation operations
// up to a preemption bound, while a vector-clock detector watches all plain
// accesses for data races and uses of freed memory. The code under test is
// compiled with -fsanitize=thread but linked against THIS runtime.
#ifndef SCHED_H
#define SCHED_H
#include "mc.h"
#include <pthread.h>
#ifndef SC_MAXT
#define SC_MAXT 8
#endif
// one execution: setup (alone), threads 1..n concurrently, finish (alone)
struct sc_prog {
    int n;
    void (*setup)(void);
    void (*thread)(int i);      // 0..n-1
    void (*finish)(void);
};
struct sc_stats { uint64_t execs, points, maxpoints; bool complete; };
extern int sc_bound;            // preemption bound, <0 = unbounded
extern bool sc_delay;           // delay bounding: every choice other than the first costs, also when the running thread blocks
extern uint64_t sc_maxexec;     // cap per program (0 = none)
void sc_explore(struct sc_prog *p, struct sc_stats *st);
void sc_replay(struct sc_prog *p, const char *choices);
void sc_first(struct sc_prog *p);        // one execution, every choice the first
size_t sc_print(char *b, size_t n);      // " sched=..." of current execution
int sc_self(void);              // fiber id, 0 = main
void sc_point(void);            // explicit scheduling point
int sc_choose(int n);           // environment choice 0..n-1 (explored exhaustively, free)
int sc_choose_dev(int n);       // the same, but a non-zero choice costs one deviation
bool sc_active(void);           // inside an execution
uint64_t sc_now(void);          // event counter, strictly increasing
// arena memory (deterministic, never reused in an execution)
void *sc_malloc(size_t n);
void sc_free(void *p);
bool sc_owns(void *p); size_t sc_size(void *p);
bool sc_running(void);          // an execution is in progress, also its setup and finish
extern int (*sc_boot_create)(pthread_t *, void *(*)(void *), void *); // threads started outside of executions
size_t sc_live(void);           // live allocations
size_t sc_live_bytes(void);
extern uint64_t sc_fail_create; // fail the n-th pthread_create (1-based, 0=never)
extern uint64_t sc_creates;
void sc_wait(bool (*pred)(void *), void *arg);   // block until pred(arg)
void sc_yield(void);
void sc_exit(void);             // end the calling fiber
extern bool (*sc_idle)(void);   // called when nothing can run; true: something can now
void sc_release(uintptr_t a), sc_acquire(uintptr_t a);  // happens-before edges of the environment
extern bool sc_norelaxed;      // relaxed atomic operations (statistics) are no scheduling points
extern bool sc_races;           // race detection on
#endif
