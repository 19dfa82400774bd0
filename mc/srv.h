// The whole server (all of src/*.c except net.c) in one process, with this
// replacement of the network layer: connections are objects the explorer feeds
// and reads, background work runs when the explorer says so, and the clocks,
// thread creation and process exit are the explorer's.
#ifndef SRV_H
#define SRV_H
#include <setjmp.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
extern "C" {
#include "mc.h"
#include "net.h"
#include "pogocache.h"
}
struct net_conn {
    void *udata = 0;
    std::string out;          // reply bytes not yet taken
    size_t len = 0;
    bool closed = false;      // the server closed it
    bool gone = false;        // evclosed was delivered
    bool bg = false;          // background work pending
    void (*work)(void *) = 0; void (*done)(net_conn *, void *) = 0; void *bgud = 0;
    bool worked = false;
    std::string held;         // bytes that arrived while background work runs
    std::string addr;
    std::string wrote;        // bytes written directly (MONITOR)
    bool istls = false;
    int opened = 0;
};
extern int64_t srv_mono, srv_real;          // the clocks
extern bool srv_autobg;                     // run background work at once
extern int srv_sleeps; extern int64_t srv_slept; // sleep() calls seen
extern bool srv_thread_fail;                // pthread_create fails
extern uint64_t srv_thread_mask; extern int srv_thread_n; // bit i: the i-th pthread_create fails
extern bool srv_deferthreads;               // queue threads instead of running them
extern struct pogocache_opts srv_popts;     // options main() created the cache with
extern struct net_opts srv_nopts;
extern std::string srv_written;
extern bool srv_realthreads;                // threads started by the server really run
extern jmp_buf *srv_exitjmp; extern int srv_exitcode;   // where exit() of the server goes
extern void (*srv_sleephook)(void);
extern std::vector<std::pair<void *(*)(void *), void *>> srv_bootthreads; // threads main() started
size_t srv_rundeferred();
// Boots main() with these arguments; fn runs in place of the event loop.
[[noreturn]] void srv_boot(std::vector<std::string> args, std::function<void()> fn);
void srv_fresh();                           // a new empty cache, clocks reset
void srv_endcase();                         // free the cache, check for leaks
net_conn *srv_open();
void srv_close(net_conn *c);                // peer or server side end: delivers evclosed
void srv_feed(net_conn *c, const std::string &bytes);   // one read's worth
void srv_finish_bg(net_conn *c);
std::string srv_take(net_conn *c);
std::string srv_req(net_conn *c, const std::string &bytes); // feed + take

struct Ent { std::string val; int64_t exp = 0; uint32_t flags = 0; uint64_t cas = 0;
    bool operator==(const Ent &o) const { return val == o.val && exp == o.exp && flags == o.flags; } };
std::map<std::string, Ent> srv_dump();      // live entries
std::string esc(const std::string &s);
std::string showdump(const std::map<std::string, Ent> &m);
extern "C" struct pogocache *cache;
#endif
