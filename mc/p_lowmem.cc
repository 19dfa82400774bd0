// Low memory, through every protocol: each command while memory is low, against
// the same command on a twin with enough memory.
#include "reqs.h"
#include <set>
#include <atomic>
extern "C" { extern std::atomic_bool lowmem; }
namespace {
struct Req { std::string pre, bytes; int kind; }; // kind: 0 no store, 1 one store, 2 several things
bool isstore(std::string w) { w = low(w); static std::set<std::string> S = { "set", "setex", "incr", "decr", "incrby", "decrby", "uincr", "udecr", "uincrby", "udecrby", "append", "prepend", "add", "replace", "cas", "put" }; return S.count(w); }
std::string word(const std::string &s) { size_t i = 0; while (i < s.size() && isalpha((unsigned char)s[i])) i++; return s.substr(0, i); }
struct Out { std::string rep; Map m; bool closed; };
// contents: for each key 0 absent, 1 text, 2 number, 3 with lifetime, 4 expired
const char *K[] = { "k", "j", "n", "x" };
Out run(const Req &r, const int *st, bool lm, std::vector<std::string> *dead, uint64_t *cas) {
    srv_fresh(); atomic_store(&lowmem, false); net_conn *q = srv_open();
    for (int i = 0; i < 4; i++) switch (st[i]) {
        case 1: srv_req(q, resp({ "SET", K[i], "abc", "FLAGS", "7" })); break; case 2: srv_req(q, resp({ "SET", K[i], "41" })); break;
        case 3: srv_req(q, resp({ "SET", K[i], "5", "PX", "9000" })); break; case 4: srv_req(q, resp({ "SET", K[i], "6", "PX", "5" })); if (dead) dead->push_back(K[i]); break; }
    srv_mono += 6000000; srv_real += 6000000; Map d = srv_dump(); if (cas) *cas = d.count("k") ? d["k"].cas : 77777;
    std::string b = r.bytes; size_t at; while ((at = b.find("%cur")) != std::string::npos) { std::string c = std::to_string(d.count("k") ? d["k"].cas : 77777); // keeps the RESP length right
        size_t n = b.rfind('$', at); if (n != std::string::npos && b[0] == '*') b = b.substr(0, n) + "$" + std::to_string(c.size()) + "\r\n" + c + b.substr(at + 4); else b.replace(at, 4, c); }
    net_conn *s = srv_open(); if (r.pre.size()) srv_req(s, r.pre);
    atomic_store(&lowmem, lm);
    Out o; o.rep = srv_req(s, b); o.closed = s->closed; o.m = srv_dump(); atomic_store(&lowmem, false);
    srv_close(s); srv_close(q); srv_endcase();
    return o;
}
bool oom(const std::string &r) { std::string l = low(r); return l.find("out of memory") != std::string::npos; }
void one(const Req &r, const int *st, bool evict, int shards, bool cas) {
    mc_tick(); mc_traces++; mc_evals++; mc_transitions++; srv_popts.noevict = !evict; srv_popts.nshards = shards; srv_popts.usecas = cas;
    Req none = { "", "", 0 }; Map before; { Out b = run(none, st, false, 0, 0); before = b.m; }
    Out t = run(r, st, false, 0, 0), l = run(r, st, true, 0, 0);
    bool same = t.m == l.m && t.rep == l.rep && t.closed == l.closed, changed = !(t.m == before);
    const char *res = "same";
    if (r.kind == 0) { if (!same) mc_fail("lowmem", "a command that stores nothing answers %s and leaves %s when memory is low, else %s and %s", esc(l.rep).c_str(), showdump(l.m).c_str(), esc(t.rep).c_str(), showdump(t.m).c_str()); }
    else if (!evict) {
        bool refused = oom(l.rep) && l.m == before; res = refused ? "refused" : "same";
        if (r.kind == 1 ? !(refused || (same && !changed)) : false) mc_fail("lowmem", "without eviction a store answers %s and leaves %s when memory is low, the contents were %s", esc(l.rep).c_str(), showdump(l.m).c_str(), showdump(before).c_str());
        for (auto &e : before) if (r.kind == 1 && !l.m.count(e.first)) mc_fail("lowmem", "%s was evicted although eviction is off", esc(e.first).c_str());
    } else {
        if (oom(l.rep) || l.rep != t.rep || l.closed != t.closed) mc_fail("lowmem", "a store answers %s when memory is low, else %s", esc(l.rep).c_str(), esc(t.rep).c_str());
        int newkeys = 0, gone = 0; for (auto &e : t.m) if (!before.count(e.first)) newkeys++;
        for (auto &e : l.m) if (!t.m.count(e.first) || !(t.m[e.first] == e.second)) mc_fail("lowmem", "%s is %s when memory is low, else %s", esc(e.first).c_str(), esc(e.second.val).c_str(), t.m.count(e.first) ? esc(t.m[e.first].val).c_str() : "absent");
        for (auto &e : t.m) if (!l.m.count(e.first)) { gone++; if (!before.count(e.first)) mc_fail("lowmem", "%s was evicted by its own store", esc(e.first).c_str()); res = "evicted"; }
        bool replaced = false; for (auto &e : t.m) if (before.count(e.first) && !(before[e.first] == e.second)) replaced = true;
        if (!newkeys && !replaced && r.bytes.size()) newkeys = 1; // it may have stored one that had expired already
        if (gone > newkeys) mc_fail("lowmem", "%d entries were evicted for %d new ones", gone, newkeys);
        if (r.kind == 1 && changed) for (auto &e : t.m) if (before.count(e.first) && !(before[e.first] == e.second) && !l.m.count(e.first)) mc_fail("lowmem", "%s, which was just stored, was evicted", esc(e.first).c_str());
        // an expired entry is given up before a living one, when every other entry is expired
        bool alldead = true; for (int i = 0; i < 4; i++) if (st[i] && st[i] != 4) alldead = false; if (gone && alldead) mc_fail("lowmem", "a living entry was evicted");
    }
    uint64_t h = mc_hash(l.rep.data(), l.rep.size(), *res); mc_outcome(h); mc_state(mc_hash64(l.m.size() * 8 + t.m.size(), mc_hash(r.bytes.data(), r.bytes.size(), evict)));
}
void explore() {
    std::vector<Req> R; std::vector<Strs> P; Strs pre; lists(P, pre);
    for (auto &a : alphabet(false)) { if (a[0][0] == '@') continue; std::string w = low(a[0]); if (w == "stats" || w == "scan" || w == "keys") continue; R.push_back({ "", resp(a), isstore(w) }); }
    for (int k : { 1, 2, 4096 }) { std::string key(k, 'K'); R.push_back({ "", resp({ "SET", key, std::string(k * 3, 'v') }), 1 }); R.push_back({ "", resp({ "APPEND", key, "a" }), 1 }); R.push_back({ "", resp({ "INCR", key }), 1 }); }
    for (auto &b : P[1]) R.push_back({ "", b, isstore(word(b)) && b.find("noreply") == std::string::npos && word(b.substr(std::min(b.size(), b.find('\n') + 1))) == word(b.substr(std::min(b.size(), b.find('\n') + 1))) ? 1 : isstore(word(b)) ? 2 : 0 });
    for (const char *c : { "add q 0 0 1\r\nq\r\n", "set k 1 0 1\r\nq\r\n", "replace k 1 0 1\r\nq\r\n", "prepend k 0 0 1\r\nq\r\n", "append q 0 0 1\r\nq\r\n", "cas k 0 0 1 %cur\r\nq\r\n", "incr n 5\r\n", "decr n 5\r\n", "incr q 5\r\n", "set q 0 -1 1\r\nq\r\n", "touch k 5\r\n", "delete k\r\n" }) R.push_back({ "", c, isstore(word(c)) });
    for (auto &b : P[2]) R.push_back({ "", b, isstore(word(b)) ? 1 : 0 });
    for (const char *c : { "PUT /q HTTP/1.1\r\nContent-Length: 1\r\n\r\nq", "PUT /k HTTP/1.1\r\nContent-Length: 1\r\n\r\nq", "PUT /k?xx HTTP/1.1\r\nContent-Length: 1\r\n\r\nq", "PUT /q?nx&ttl=3 HTTP/1.1\r\nContent-Length: 1\r\n\r\nq", "DELETE /k HTTP/1.1\r\n\r\n" }) R.push_back({ "", c, isstore(word(c)) });
    for (const char *c : { "set q v", "set k v", "set k v nx", "set q v xx", "set k v get", "set q v get", "incr n", "incr q", "append k v", "append q v", "prepend k v", "setex q 3 v", "decrby n 3", "uincrby q 7" }) R.push_back({ pgstart(), pm('Q', Z(c)), 1 });
    for (const char *c : { "del k", "expire k 5", "get k", "touch k", "flushall", "dbsize" }) R.push_back({ pgstart(), pm('Q', Z(c)), 0 });
    R.push_back({ pgstart(), pm('P', Z("") + Z("set $1 $2") + be16(0)) + pgbind("", "", { "q", "w" }) + pm('E', Z("") + be32(0)) + pm('S', ""), 1 });
    uint64_t idx = 0; 
    for (auto &r : R) for (int s = 0; s < 5 * 5 * 5 * 5; s++) {
        if ((int)(idx++ % mc_nparts) != mc_part) continue;
        int st[4] = { s % 5, s / 5 % 5, s / 25 % 5, s / 125 };
        if (!mc_thorough && (st[3] == 2 || st[3] == 3 || st[1] == 3)) continue;
        for (int evict = 0; evict < 2; evict++) for (int sh : { 1, 3 }) { if (sh == 3 && !mc_thorough && s % 3) continue; bool cas = sh == 1; cur = vfmt("lowmem request=%s%s contents=%d%d%d%d evict=%d shards=%d cas=%d", r.pre.size() ? "pg:" : "", esc(r.bytes).substr(0, 300).c_str(), st[0], st[1], st[2], st[3], evict, sh, cas); one(r, st, evict, sh, cas); }
    }
}
Reg r1("lowmem", { "--shards=2" }, explore);
}
