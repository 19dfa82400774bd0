// STATS: the counters of the server, exact after every command of every protocol.
#include "reqs.h"
#include <climits>
#include <set>
#include <atomic>
#include <unistd.h>
extern "C" { extern std::atomic_bool lowmem; extern int nshards; }
namespace {
typedef std::map<std::string, long long> D;
// contents, as far as the counters can tell them apart: numbers and texts
const long long TEXT = LLONG_MIN;
typedef std::map<std::string, long long> M;
enum { RE, MC, HT, PG };
struct L { int proto; std::string bytes; std::function<void(M &, D &, std::set<std::string> &)> fn; };
std::vector<L> A;
void add(int p, const std::string &b, std::function<void(M &, D &, std::set<std::string> &)> f) { A.push_back({ p, b, f }); }
void look(M &m, D &d, const std::string &k) { d["cmd_get"]++; d[m.count(k) ? "get_hits" : "get_misses"]++; }
void store(M &m, D &d, const std::string &k, const std::string &v, int when = 0) { // when: 1 absent only, 2 present only
    d["cmd_set"]++; bool has = m.count(k); if ((when == 1 && has) || (when == 2 && !has)) return;
    if (!has) d["total_items"]++;
    m[k] = v.size() && isdigit(v[0]) ? atoll(v.c_str()) : TEXT;
}
void gone(M &m, D &d, const std::string &k) { d[m.erase(k) ? "delete_hits" : "delete_misses"]++; }
void touch(M &m, D &d, const std::string &k) { d["cmd_touch"]++; d[m.count(k) ? "touch_hits" : "touch_misses"]++; }
typedef std::set<std::string> S;
void build(bool authon) {
    A.clear();
    if (authon) {
        add(RE, resp({ "AUTH", "pw" }), [](M &, D &d, S &) { d["auth_cmds"]++; });
        for (const char *x : { "pv", "p", "pww", "", "PW" }) add(RE, resp({ "AUTH", x }), [](M &, D &d, S &) { d["auth_cmds"]++; d["auth_errors"]++; });
        add(RE, "AUTH pw\r\n", [](M &, D &d, S &) { d["auth_cmds"]++; }); add(RE, "AUTH no\r\n", [](M &, D &d, S &) { d["auth_cmds"]++; d["auth_errors"]++; });
        for (const char *x : { "GET /t?auth=pw", "GET /t" }) for (const char *h : { "", "Authorization: Bearer pw\r\n" }) if (*h != 0 || strchr(x, '='))
            add(HT, std::string(x) + " HTTP/1.1\r\n" + (strchr(x, '=') ? "" : h) + "\r\n", [](M &m, D &d, S &) { d["auth_cmds"]++; look(m, d, "t"); });
        add(HT, "GET /t?auth=no HTTP/1.1\r\n\r\n", [](M &, D &d, S &) { d["auth_cmds"]++; d["auth_errors"]++; });
        add(HT, "GET /t HTTP/1.1\r\nAuthorization: Bearer pww\r\n\r\n", [](M &, D &d, S &) { d["auth_cmds"]++; d["auth_errors"]++; });
        add(HT, "PUT /q?auth=pw HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", [](M &m, D &d, S &) { d["auth_cmds"]++; store(m, d, "q", "abc"); });
        add(HT, "PUT /q?auth=px HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", [](M &, D &d, S &) { d["auth_cmds"]++; d["auth_errors"]++; });
        return;
    }
    for (const char *k : { "t", "n", "x", "q" }) {
        std::string K = k;
        add(RE, resp({ "GET", K }), [K](M &m, D &d, S &) { look(m, d, K); });
        add(RE, resp({ "SET", K, "abc" }), [K](M &m, D &d, S &) { store(m, d, K, "abc"); });
        add(RE, resp({ "DEL", K }), [K](M &m, D &d, S &) { gone(m, d, K); });
        add(RE, resp({ "EXPIRE", K, "1000" }), [](M &, D &, S &) {}); add(RE, resp({ "PERSIST", K }), [](M &, D &, S &) {});
        add(RE, resp({ "TOUCH", K }), [K](M &m, D &d, S &) { touch(m, d, K); });
        add(RE, resp({ "SET", K, "7", "NX" }), [K](M &m, D &d, S &) { store(m, d, K, "7", 1); });
        add(RE, resp({ "SET", K, "7", "XX" }), [K](M &m, D &d, S &) { store(m, d, K, "7", 2); });
        for (int dec = 0; dec < 2; dec++) {
            std::string hit = dec ? "decr_hits" : "incr_hits", miss = dec ? "decr_misses" : "incr_misses";
            // by: how much; the memcache commands and the U forms are unsigned
            auto f = [K, hit, miss, dec](long long by, bool uns, bool create) { return [=](M &m, D &d, S &any) {
                if (!m.count(K)) { if (!create) { d[miss]++; return; } any.insert(hit); any.insert(miss); d["total_items"]++; m[K] = 0; } else if (m[K] == TEXT || (uns && m[K] < 0)) return; else d[hit]++;
                long long &x = m[K]; x += dec ? -by : by; if (uns && x < 0) x = 0; }; };
            add(RE, resp({ dec ? "DECR" : "INCR", K }), f(1, false, true)); add(RE, resp({ dec ? "DECRBY" : "INCRBY", K, "3" }), f(3, false, true));
            if (dec == 0) add(RE, resp({ "UINCR", K }), f(1, true, true));
            add(MC, std::string(dec ? "decr " : "incr ") + K + " 2\r\n", f(2, true, false));
        }
        add(MC, "get " + K + "\r\n", [K](M &m, D &d, S &) { look(m, d, K); });
        add(MC, "gets " + K + "\r\n", [K](M &m, D &d, S &) { look(m, d, K); });
        add(MC, "set " + K + " 1 0 2\r\n17\r\n", [K](M &m, D &d, S &) { store(m, d, K, "17"); });
        add(MC, "add " + K + " 0 0 2\r\n17\r\n", [K](M &m, D &d, S &) { store(m, d, K, "17", 1); });
        add(MC, "replace " + K + " 0 0 2 noreply\r\nab\r\n", [K](M &m, D &d, S &) { store(m, d, K, "ab", 2); });
        add(MC, "delete " + K + "\r\n", [K](M &m, D &d, S &) { gone(m, d, K); });
        add(MC, "touch " + K + " 1000\r\n", [K](M &m, D &d, S &) { touch(m, d, K); });
        add(HT, "GET /" + K + " HTTP/1.1\r\n\r\n", [K](M &m, D &d, S &) { look(m, d, K); });
        add(HT, "PUT /" + K + " HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", [K](M &m, D &d, S &) { store(m, d, K, "abc"); });
        add(HT, "DELETE /" + K + " HTTP/1.1\r\n\r\n", [K](M &m, D &d, S &) { gone(m, d, K); });
        add(PG, pm('Q', Z("get " + K + ";")), [K](M &m, D &d, S &) { look(m, d, K); });
        add(PG, pm('Q', Z("set " + K + " abc;")), [K](M &m, D &d, S &) { store(m, d, K, "abc"); });
        add(PG, pm('Q', Z("del " + K + ";")), [K](M &m, D &d, S &) { gone(m, d, K); });
    }
    for (const char *c : { "MGET", "MGETS" }) add(RE, resp({ c, "t", "q", "n", "t", "x" }), [](M &m, D &d, S &) { for (auto k : { "t", "q", "n", "t", "x" }) look(m, d, k); });
    add(MC, "get t q n\r\n", [](M &m, D &d, S &) { for (auto k : { "t", "q", "n" }) look(m, d, k); });
    add(PG, pm('Q', Z("mget t q x;")), [](M &m, D &d, S &) { for (auto k : { "t", "q", "x" }) look(m, d, k); });
    add(RE, resp({ "DEL", "t", "q", "n", "t" }), [](M &m, D &d, S &) { for (auto k : { "t", "q", "n", "t" }) gone(m, d, k); });
    add(RE, resp({ "TOUCH", "t", "q", "x" }), [](M &m, D &d, S &) { for (auto k : { "t", "q", "x" }) touch(m, d, k); });
    add(RE, resp({ "SETEX", "q", "1000", "5" }), [](M &m, D &d, S &) { store(m, d, "q", "5"); });
    for (const char *f : { "FLUSHALL", "FLUSHDB", "FLUSH" }) add(RE, resp({ f }), [](M &m, D &d, S &) { d["cmd_flush"]++; m.clear(); });
    for (const char *f : { "FAST", "SYNC", "ASYNC" }) add(RE, resp({ "FLUSHALL", f }), [](M &m, D &d, S &) { d["cmd_flush"]++; m.clear(); });
    add(MC, "flush_all\r\n", [](M &m, D &d, S &) { d["cmd_flush"]++; m.clear(); });
    add(PG, pm('Q', Z("flushall;")), [](M &m, D &d, S &) { d["cmd_flush"]++; m.clear(); });
    add(RE, resp({ "PURGE" }), [](M &, D &, S &) {}); add(RE, resp({ "SWEEP" }), [](M &, D &, S &) {}); add(RE, resp({ "STATS" }), [](M &, D &, S &) {}); add(RE, resp({ "DBSIZE" }), [](M &, D &, S &) {}); add(RE, resp({ "PING" }), [](M &, D &, S &) {});
    add(RE, resp({ "FLUSHALL", "BAD" }), [](M &, D &, S &) {}); add(RE, resp({ "SET", "q" }), [](M &, D &, S &) {}); add(RE, resp({ "DEL" }), [](M &, D &, S &) {}); add(RE, resp({ "EXISTS", "t", "q" }), [](M &, D &, S &) {}); add(RE, resp({ "KEYS", "*" }), [](M &, D &, S &) {});
    add(RE, resp({ "APPEND", "q", "a" }), [](M &m, D &d, S &) { if (!m.count("q")) d["total_items"]++; m["q"] = TEXT; });
    add(MC, "set q 0 0 99999999999\r\n", [](M &, D &d, S &) { d["store_too_large"]++; });
    add(MC, "set q 0 0 536870913\r\n", [](M &, D &d, S &) { d["store_too_large"]++; });
}
const char *NAMES[] = { "cmd_get", "cmd_set", "cmd_flush", "cmd_touch", "get_hits", "get_misses", "delete_misses", "delete_hits", "incr_misses", "incr_hits", "decr_misses", "decr_hits", "touch_hits", "touch_misses", "store_too_large", "store_no_memory", "auth_cmds", "auth_errors", "total_items" };
bool readresp(const std::string &r, std::map<std::string, std::string> &out) {
    size_t p = 0; auto num = [&](char t, long *n) { size_t e = r.find("\r\n", p); if (p >= r.size() || r[p] != t || e == std::string::npos) return false; *n = atol(r.c_str() + p + 1); p = e + 2; return true; };
    auto bulk = [&](std::string &s) { long n; if (!num('$', &n) || n < 0 || p + n + 2 > r.size()) return false; s = r.substr(p, n); p += n + 2; return true; };
    long n; if (!num('*', &n)) return false;
    while (n-- > 0) { long two; std::string k, v; if (!num('*', &two) || two != 2 || !bulk(k) || !bulk(v) || out.count(k)) return false; out[k] = v; }
    return p == r.size();
}
bool readmc(const std::string &r, std::map<std::string, std::string> &out) {
    size_t p = 0; while (p < r.size()) { size_t e = r.find("\r\n", p); if (e == std::string::npos) return false; std::string l = r.substr(p, e - p); p = e + 2; if (l == "END") return p == r.size(); if (l.compare(0, 5, "STAT ")) return false; size_t s = l.find(' ', 5); if (s == std::string::npos || out.count(l.substr(5, s - 5))) return false; out[l.substr(5, s - 5)] = l.substr(s + 1); }
    return false;
}
bool readpg(const std::string &r, std::map<std::string, std::string> &out) {
    size_t p = 0; auto u32 = [&](size_t a) { return (size_t)((uint32_t)(uint8_t)r[a] << 24 | (uint8_t)r[a + 1] << 16 | (uint8_t)r[a + 2] << 8 | (uint8_t)r[a + 3]); };
    while (p + 5 <= r.size()) { char t = r[p]; size_t e = p + 1 + u32(p + 1); if (e > r.size()) return false; if (t == 'D') { size_t q = p + 7, a = u32(q); std::string k = r.substr(q + 4, a); q += 4 + a; out[k] = r.substr(q + 4, u32(q)); } if (t == 'Z') return e == r.size(); p = e; }
    return false;
}
net_conn *watch;       // reads the counters
bool authed; int expired;
std::map<std::string, std::string> stats() {
    std::map<std::string, std::string> s; std::string r = srv_req(watch, resp({ "STATS" }));
    if (!readresp(r, s)) mc_fail("stats", "the reply to STATS is %s", esc(r).c_str());
    for (auto n : NAMES) if (!s.count(n) || s[n].empty() || s[n].find_first_not_of("0123456789") != std::string::npos) mc_fail("stats", "STATS reports %s as '%s'", n, s[n].c_str());
    return s;
}
void expectation(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b, D d, const S &any, const M &m, const char *what) {
    for (auto n : NAMES) {
        if (any.count(n)) continue;
        long long x = atoll(a.at(n).c_str()), y = atoll(b.at(n).c_str());
        if (y - x != d[n]) mc_fail("count", "%s changed %s by %lld, but it must be %lld", what, n, y - x, d[n]);
    }
    auto it = b.find("curr_items"); if (it == b.end() || (size_t)atoll(it->second.c_str()) < m.size() || (size_t)atoll(it->second.c_str()) > m.size() + expired) mc_fail("items", "after %s curr_items is %s, there are %zu and %d expired ones", what, it == b.end() ? "missing" : it->second.c_str(), m.size(), expired);
}
const std::string *opened(net_conn **cs, int p) { // a connection that speaks p
    if (cs[p] && cs[p]->closed) { srv_close(cs[p]); cs[p] = 0; }
    if (!cs[p]) { cs[p] = srv_open(); if (p == PG) srv_req(cs[p], pgstart()); }
    return 0;
}
// content: for t, n, x: 0 absent 1 there 2 expired
void run(const int *st, const std::vector<int> &v, int how) {
    mc_tick(); mc_traces++; mc_evals++; srv_popts.nshards = nshards = 1 + (st[0] + 2 * st[1] + st[2]) % 3; srv_fresh(); atomic_store(&lowmem, false);
    cur = vfmt("t=%d n=%d x=%d delivered %s:", st[0], st[1], st[2], how == 0 ? "whole" : how == 1 ? "byte by byte" : "together"); for (int i : v) cur += " | " + esc(A[i].bytes);
    watch = srv_open(); if (authed) srv_req(watch, resp({ "AUTH", "pw" }));
    M m; expired = 0; const char *K[] = { "t", "n", "x" };
    for (int i = 0; i < 3; i++) if (st[i]) { const char *val = i == 1 ? "5" : "abc"; if (st[i] == 1) { srv_req(watch, resp({ "SET", K[i], val })); m[K[i]] = i == 1 ? 5 : TEXT; } else { expired++; srv_req(watch, resp({ "SET", K[i], val, "PX", "5" })); } }
    srv_mono += 6000000; srv_real += 6000000;
    net_conn *cs[4] = {}; D all; S anyall; auto first = stats(), prev = first; std::string joined; uint64_t h = 1;
    for (int i : v) {
        mc_transitions++; D d; S any; A[i].fn(m, d, any);
        if (how == 2) { joined += A[i].bytes; for (auto &x : d) all[x.first] += x.second; anyall.insert(any.begin(), any.end()); continue; }
        opened(cs, A[i].proto); net_conn *c = cs[A[i].proto];
        if (how == 0) srv_req(c, A[i].bytes); else for (char b : A[i].bytes) { if (c->closed) break; srv_req(c, std::string(1, b)); }
        auto now = stats(); expectation(prev, now, d, any, m, esc(A[i].bytes).c_str()); prev = now;
        for (auto n : NAMES) h = mc_hash64(atoll(now[n].c_str()) - atoll(first[n].c_str()), h);
    }
    if (how == 2) { int p = A[v[0]].proto; opened(cs, p); srv_req(cs[p], joined); auto now = stats(); expectation(first, now, all, anyall, m, "the pipeline"); }
    mc_outcome(h); mc_state(mc_hash64(m.size(), h));
    for (auto c : cs) if (c) srv_close(c);
    srv_close(watch); srv_endcase();
    if (mc_traces % 9973 == 1) mc_sample("%s", cur.c_str());
}
// what does not count commands, and the other protocols' views of the same
void general() {
    
    for (int64_t up : { (int64_t)0, SEC, 10 * SEC, 3600 * SEC + SEC / 3 }) for (int nc = 0; nc < 3; nc++) for (int k = 0; k < 4; k++) {
        mc_tick(); mc_traces++; srv_fresh(); cur = vfmt("STATS of %d keys after %lld ns", k, (long long)up); watch = srv_open();
        auto s0 = stats(); srv_mono += up; srv_real += up;
        for (int i = 0; i < k; i++) srv_req(watch, resp({ "SET", std::string(i + 1, 'k'), "v" }));
        auto s = stats(); net_conn *mcq = srv_open(), *pg = srv_open(); srv_req(pg, pgstart());
        std::map<std::string, std::string> a, b; std::string ra = srv_req(mcq, "stats\r\n"), rb = srv_req(pg, pm('Q', Z("stats;")));
        if (!readmc(ra, a)) mc_fail("stats", "the reply to stats over memcache is %s", esc(ra).c_str()); if (!readpg(rb, b)) mc_fail("stats", "the reply to stats over PostgreSQL is %s", esc(rb).c_str());
        for (auto &x : s) { if (x.first.compare(0, 6, "rusage") == 0 || x.first == "rss") { if (!a.count(x.first) || !b.count(x.first)) mc_fail("stats", "%s is missing", x.first.c_str()); continue; } if (a[x.first] != x.second || b[x.first] != x.second) mc_fail("stats", "%s is '%s', over memcache '%s', over PostgreSQL '%s'", x.first.c_str(), x.second.c_str(), a[x.first].c_str(), b[x.first].c_str()); }
        if (a.size() != s.size() || b.size() != s.size()) mc_fail("stats", "the protocols report %zu, %zu and %zu values", s.size(), a.size(), b.size());
        if (s["pid"] != std::to_string(getpid())) mc_fail("stats", "pid is %s", s["pid"].c_str());
        if (llabs(atoll(s["time"].c_str()) * SEC - srv_real) > SEC) mc_fail("stats", "time is %s", s["time"].c_str());
        long long du = atoll(s["uptime"].c_str()) - atoll(s0["uptime"].c_str()); if (llabs(du * SEC - up) > SEC) mc_fail("stats", "uptime moved by %lld s in %lld ns", du, (long long)up);
        if (atoll(s["curr_items"].c_str()) != k) mc_fail("items", "curr_items is %s with %d keys", s["curr_items"].c_str(), k);
        struct pogocache_size_opts so = {}; so.entriesonly = true; if ((size_t)atoll(s["bytes"].c_str()) != pogocache_size(cache, &so)) mc_fail("bytes", "bytes is %s but the entries take %zu", s["bytes"].c_str(), pogocache_size(cache, &so));
        if (k == 0 && s["bytes"] != "0") mc_fail("bytes", "bytes is %s without entries", s["bytes"].c_str());
        srv_close(mcq); srv_close(pg); srv_close(watch); srv_endcase();
    }
    // stores refused for lack of memory
    for (int evict = 0; evict < 2; evict++) for (const char *c : { "SET", "INCR", "APPEND" }) {
        mc_tick(); mc_traces++; srv_popts.noevict = !evict; srv_fresh(); cur = vfmt("%s with low memory, eviction %d", c, evict); watch = srv_open();
        auto a = stats(); atomic_store(&lowmem, true); Args r = { c, "q" }; if (*c != 'I') r.push_back("5"); std::string rep = srv_req(watch, resp(r)); atomic_store(&lowmem, false); auto b = stats();
        bool oom = low(rep).find("out of memory") != std::string::npos; long long d = atoll(b["store_no_memory"].c_str()) - atoll(a["store_no_memory"].c_str());
        if (oom != !evict) mc_fail("lowmem", "%s was answered with %s", c, esc(rep).c_str());
        if (*c != 'A' && d != oom) mc_fail("count", "store_no_memory changed by %lld when %s was answered with %s", d, c, esc(rep).c_str());
        srv_popts.noevict = false; srv_close(watch); srv_endcase();
    }
}
void explore() {
    bool T = mc_thorough; uint64_t idx = 0; auto mine = [&] { return (int)(idx++ % mc_nparts) == mc_part; };
    build(authed);
    if (!authed && mc_part == 0) general();
    int n = A.size();
    for (int s = 0; s < 27; s++) {
        int st[] = { s % 3, s / 3 % 3, s / 9 };
        for (int i = 0; i < n; i++) {
            if (mine()) { run(st, { i }, 0); run(st, { i }, 1); }
            for (int j = 0; j < n; j++) {
                if (!T && s && s != 13 && s != 26 && s != 14 && s != 7) continue;
                if (!mine()) continue;
                run(st, { i, j }, 0); if (A[i].proto == A[j].proto && A[i].proto != HT && A[i].bytes.find("99999999") == std::string::npos && A[i].bytes.find("536870913") == std::string::npos) run(st, { i, j }, 2);
                if (T && s == 13) for (int k = 0; k < n; k++) run(st, { i, j, k }, 0);
            }
        }
    }
}
Reg r1("stats", {}, explore), r2("statsauth", { "--auth=pw" }, [] { authed = true; explore(); });
}
