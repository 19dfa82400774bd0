// The reference model of the commands, in RESP terms, and their alphabet.
#ifndef RMODEL_H
#define RMODEL_H
#include "proto.h"
#include "memfs.h"
#include <set>
#include <algorithm>
typedef std::vector<std::string> Args;
static bool usecas = true;
static std::string low(std::string s) { for (auto &c : s) c = tolower(c); return s; }
static std::string resp(const Args &a) {
    std::string r = "*" + std::to_string(a.size()) + "\r\n";
    for (auto &x : a) r += "$" + std::to_string(x.size()) + "\r\n" + x + "\r\n";
    return r;
}
static std::string bulk(const std::string &s) { return "$" + std::to_string(s.size()) + "\r\n" + s + "\r\n"; }
static const std::string NIL = "$-1\r\n", OK = "+OK\r\n", ERR = "-";
// One well-framed RESP value starting at p; returns its end or npos.
static size_t resp_value(const std::string &s, size_t p, int depth) {
    if (p >= s.size() || depth > 4) return std::string::npos;
    size_t e = s.find("\r\n", p);
    if (e == std::string::npos) return e;
    std::string l = s.substr(p + 1, e - p - 1);
    for (unsigned char c : l) if (c < 32) return std::string::npos;
    char *end; long long n = strtoll(l.c_str(), &end, 10);
    bool num = !l.empty() && !*end && !isspace((unsigned char)l[0]);
    switch (s[p]) {
    case '+': case '-': return e + 2;
    case ':': return num ? e + 2 : std::string::npos;
    case '$':
        if (!num || n < -1) return std::string::npos;
        if (n == -1) return e + 2;
        if (e + 2 + n + 2 > s.size() || s.compare(e + 2 + n, 2, "\r\n")) return std::string::npos;
        return e + 2 + n + 2;
    case '*': {
        if (!num || n < 0) return std::string::npos;
        size_t q = e + 2;
        for (long long i = 0; i < n; i++) { q = resp_value(s, q, depth + 1); if (q == std::string::npos) return q; }
        return q;
    }
    }
    return std::string::npos;
}
static bool num128(const std::string &s, __int128 &v) {
    size_t i = 0; bool neg = false;
    if (s.empty() || s.size() > 21) return false;
    if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; i = 1; }
    if (i == s.size()) return false;
    v = 0;
    for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    return true;
}
static bool i64of(const std::string &s, int64_t &x) { __int128 v; if (!num128(s, v) || v < INT64_MIN || v > INT64_MAX) return false; x = v; return true; }
static bool u64of(const std::string &s, uint64_t &x) { __int128 v; if (!num128(s, v) || s[0] == '-' || v > UINT64_MAX) return false; x = v; return true; }
static bool glob(const std::string &p, size_t i, const std::string &s, size_t j) {   // the documented pattern language
    if (i == p.size()) return j == s.size();
    if (p[i] == '*') { for (size_t k = j; k <= s.size(); k++) if (glob(p, i + 1, s, k)) return true; return false; }
    if (j == s.size()) return false;
    if (p[i] == '?') return glob(p, i + 1, s, j + 1);
    if (p[i] == '\\' && i + 1 < p.size()) return p[i + 1] == s[j] && glob(p, i + 2, s, j + 1);
    return p[i] == s[j] && glob(p, i + 1, s, j + 1);
}
namespace {
struct RModel {
    Map m; std::map<std::string, Map> files; std::map<std::string, std::set<uint64_t>> seen; std::set<std::string> everkeys;
    void prune() { for (auto i = m.begin(); i != m.end();) if (i->second.exp && i->second.exp <= srv_mono) i = m.erase(i); else ++i; }
    bool has(const std::string &k) { return m.count(k); }
    std::string set(const std::string &k, const std::string &v, const Args &o) {
        int64_t exp = 0; bool nx = 0, xx = 0, get = 0, keep = 0, hasex = 0, cas = 0; uint64_t fl = 0, cv = 0;
        for (size_t i = 0; i < o.size(); i++) {
            std::string w = low(o[i]);
            if (w == "ex" || w == "px" || w == "exat" || w == "pxat") {
                int64_t n; if (++i == o.size() || !i64of(o[i], n) || n <= 0) return ERR;
                __int128 t = (__int128)n * (w[0] == 'e' ? SEC : 1000000);
                if (t > INT64_MAX) t = INT64_MAX;
                if (w.size() == 2) exp = clampadd((__int128)srv_mono + t);
                else { t = (__int128)srv_mono + (t - srv_real); exp = clampadd(t); if (exp <= 0) exp = 1; }
                hasex = true;
            } else if (w == "nx") nx = true; else if (w == "xx") xx = true; else if (w == "get") get = true; else if (w == "keepttl") keep = true;
            else if (w == "flags") { if (++i == o.size() || !u64of(o[i], fl) || fl > UINT32_MAX) return ERR; }
            else if (w == "cas") { if (++i == o.size() || !u64of(o[i], cv)) return ERR; cas = true; }
            else return ERR;
        }
        if ((keep && hasex) || (nx && xx)) return ERR;
        std::string old = has(k) ? bulk(m[k].val) : NIL;
        bool store = true;
        if (nx && has(k)) store = false;
        if (xx && !has(k)) store = false;
        if (cas && (!has(k) || !usecas || m[k].cas != cv)) store = false;
        if (store) { Ent e; e.val = v; e.flags = fl; e.exp = keep && has(k) ? m[k].exp : exp; m[k] = e; }
        prune();
        return get ? old : store ? OK : NIL;
    }
    std::string incr(const std::string &k, bool uns, bool dec, const std::string &ds) {
        __int128 d, v = 0, lo = uns ? 0 : INT64_MIN, hi = uns ? (__int128)UINT64_MAX : INT64_MAX;
        if (!num128(ds, d) || d < lo || d > hi || (uns && ds[0] == '-')) return ERR;
        if (has(k)) { if (!num128(m[k].val, v) || v < lo || v > hi || (uns && m[k].val[0] == '-')) return ERR; }
        v = dec ? v - d : v + d;
        if (v < lo || v > hi) return ERR;
        std::string s = v < 0 ? std::to_string((int64_t)v) : std::to_string((uint64_t)v);
        if (has(k)) m[k].val = s; else m[k] = Ent{ s, 0, 0, 0 };
        return (uns ? "+" : ":") + s + "\r\n";
    }
    // expected reply; "-" = any error line; special values below
    std::string handle(const Args &a, std::vector<std::string> *keys) {
        prune();
        std::string c = low(a[0]); size_t n = a.size();
        int64_t x; uint64_t u;
        if (c == "set") { if (n < 3) return ERR; return set(a[1], a[2], Args(a.begin() + 3, a.end())); }
        if (c == "setex") { if (n != 4 || !i64of(a[2], x) || x <= 0) return ERR; return set(a[1], a[3], { "ex", a[2] }); }
        if (c == "get") { if (n != 2) return ERR; return has(a[1]) ? bulk(m[a[1]].val) : NIL; }
        if (c == "mget" || c == "mgets") {
            if (n < 2) return ERR;
            std::string r = "*" + std::to_string(n - 1) + "\r\n";
            for (size_t i = 1; i < n; i++) {
                if (!has(a[i])) { r += NIL; continue; }
                Ent &e = m[a[i]];
                if (c == "mgets") r += "*3\r\n+" + std::to_string(e.flags) + "\r\n+" + std::to_string(e.cas) + "\r\n";
                r += bulk(e.val);
            }
            return r;
        }
        if (c == "del" || c == "exists" || c == "touch") {
            if (n < 2) return ERR;
            int k = 0;
            for (size_t i = 1; i < n; i++) if (has(a[i])) { k++; if (c == "del") m.erase(a[i]); }
            return ":" + std::to_string(k) + "\r\n";
        }
        if (c == "ttl" || c == "pttl") {
            if (n != 2) return ERR;
            if (!has(a[1])) return ":-2\r\n";
            int64_t e = m[a[1]].exp;
            return ":" + std::to_string(e == 0 ? -1 : (e - srv_mono) / (c == "ttl" ? SEC : 1000000)) + "\r\n";
        }
        if (c == "expire") {
            if (n < 3 || !i64of(a[2], x)) return ERR;
            if (!has(a[1])) return ":0\r\n";
            int64_t e = clampadd((__int128)srv_mono + (__int128)x * SEC); if (e <= 0) e = 1;
            m[a[1]].exp = e; prune(); return ":1\r\n";
        }
        if (c == "incr" || c == "decr" || c == "uincr" || c == "udecr") { if (n != 2) return ERR; return incr(a[1], c[0] == 'u', c.find("decr") != std::string::npos, "1"); }
        if (c == "incrby" || c == "decrby" || c == "uincrby" || c == "udecrby") { if (n != 3) return ERR; return incr(a[1], c[0] == 'u', c.find("decr") != std::string::npos, a[2]); }
        if (c == "append" || c == "prepend") {
            if (n != 3) return ERR;
            if (!has(a[1])) m[a[1]] = Ent{ a[2], 0, 0, 0 };
            else { std::string &v = m[a[1]].val; v = c == "append" ? v + a[2] : a[2] + v; }
            return ":" + std::to_string(m[a[1]].val.size()) + "\r\n";
        }
        if (c == "dbsize") { if (n != 1) return ERR; return "dbsize"; }
        if (c == "flush" || c == "flushall" || c == "flushdb") {
            for (size_t i = 1; i < n; i++) {
                std::string w = low(a[i]);
                if (w == "delay") { if (++i == n || !i64of(a[i], x) || x < 0 || x > 31536000) return ERR; }
                else if (w != "sync" && w != "async" && w != "fast") return ERR;
            }
            m.clear(); return OK;
        }
        if (c == "sweep") { if (n > 2 || (n == 2 && low(a[1]) != "async" && low(a[1]) != "fast")) return ERR; return OK; }
        if (c == "purge") { if (n > 2 || (n == 2 && low(a[1]) != "async")) return ERR; return OK; }
        if (c == "keys") { if (n != 2) return ERR; for (auto &e : m) if (glob(a[1], 0, e.first, 0)) keys->push_back(e.first); return "keys"; }
        if (c == "echo") { if (n != 2) return ERR; return bulk(a[1]); }
        if (c == "ping") { if (n > 2) return ERR; return n == 1 ? "+PONG\r\n" : bulk(a[1]); }
        if (c == "select") { if (n != 2 || !i64of(a[1], x) || x > 0) return ERR; return x < 0 ? "any" : OK; }
        if (c == "version") return "+";
        if (c == "stats") { if (n != 1) return ERR; return "any"; }
        if (c == "scan") {
            if (n < 2 || !u64of(a[1], u)) return ERR;
            std::string pat = "*";
            for (size_t i = 2; i < n; i++) {
                std::string w = low(a[i]);
                if (w == "match") { if (++i == n) return ERR; pat = a[i]; }
                else if (w == "count") { if (++i == n || !u64of(a[i], u) || u == 0 || u > INT32_MAX) return ERR; }
                else if (w == "type") { if (++i == n || low(a[i]) != "string") return ERR; }
                else return ERR;
            }
            for (auto &e : m) if (glob(pat, 0, e.first, 0)) keys->push_back(e.first);
            return "scan";
        }
        if (c == "debug" && n > 1 && low(a[1]) == "populate") {
            int64_t sz; long lo = 0, hi = 0; bool ranged = false;
            if ((n != 5 && n != 6) || !i64of(a[2], x) || x < 0 || !i64of(a[4], sz) || sz < 0 || sz > 536870912) return ERR;
            if (n == 6 && a[5].find('-') != std::string::npos) { ranged = true; lo = atol(a[5].c_str()); hi = atol(a[5].c_str() + a[5].find('-') + 1); if (lo < 0 || hi <= lo) return ERR; }
            for (int64_t i = 0; i < x; i++) { Ent e; e.val = std::string(sz, '\0'); if (ranged) e.exp = srv_mono + lo * SEC; m[a[3] + ":" + std::to_string(i)] = e; }
            prune(); return OK;
        }
        if (c == "debug") { if (n == 2 && low(a[1]) == "detach") return "$"; return ERR; }
        if (c == "save" || c == "load") {
            std::string path;
            for (size_t i = 1; i < n; i++) {
                std::string w = low(a[i]);
                if (w == "fast") continue;
                if (w != (c == "save" ? "to" : "from") || ++i == n) return ERR;
                path = a[i];
            }
            if (path.empty()) return ERR;
            if (c == "save") { if (path.find("/none/") != std::string::npos) return ERR; files[path] = m; return OK; }
            if (!files.count(path)) return ERR;
            for (auto &e : files[path]) if (!e.second.exp || e.second.exp > srv_mono) m[e.first] = e.second;
            return OK;
        }
        if (c == "quit") return OK;
        return ERR;     // unknown commands
    }
};
}
// bulk strings of an array reply
static std::vector<std::string> bulks(const std::string &s, size_t p) {
    std::vector<std::string> r;
    size_t e = s.find("\r\n", p); int n = atoi(s.c_str() + p + 1); p = e + 2;
    for (int i = 0; i < n; i++) { e = s.find("\r\n", p); int l = atoi(s.c_str() + p + 1); r.push_back(s.substr(e + 2, l)); p = e + 2 + l + 2; }
    return r;
}
static std::vector<std::string> words(const char *s) { // blanks separate; '_' is the empty string
    std::vector<std::string> r; std::string w;
    for (const char *p = s;; p++) { if (*p == ' ' || !*p) { if (!w.empty()) r.push_back(w == "_" ? "" : w); w.clear(); if (!*p) break; } else w += *p; }
    return r;
}
static std::vector<Args> alphabet(bool core) {
    // lines starting with + are in the core used for the deeper level
    static const char *T[] = {
        "+set k 5", "+set k abc", "set k _", "+SET j 1", "+set k v EX 2", "set k v px 2000", "set k v ex 0", "set k v ex -1", "set k v ex x", "set k v ex", "set k v ex 9223372036854775807", "set k v px 9223372036854775807", "set k v ex 9223372037", "set k v px 9223372036855",
        "+set k v exat 1700000003", "set k v exat 1", "set k v exat 9223372036854775807", "set k v exat 9223372037", "set k v pxat 1700000003000", "set k v pxat 1", "set k v exat 0",
        "+set k w nx", "+set k w xx", "+set k g get", "+set k g nx get", "+set k g xx get", "+set k t keepttl", "set k t keepttl ex 2", "set k t nx xx", "set k t get keepttl", "set k g ex 2 get nx",
        "+set k f flags 7", "set k f flags 4294967295", "set k f flags 4294967296", "set k f flags x", "set k f flags", "set k f flags -1",
        "+set k c cas %cur", "+set k c cas %old", "set k c cas %next", "set k c cas x", "set k c cas", "set k c cas 18446744073709551616", "set k c bogus", "set k", "set j c cas 1", "set k z xx keepttl flags 3",
        "+setex k 2 s", "setex k 0 s", "setex k -1 s", "setex k x s", "setex k 9223372036854775807 s", "setex k 9223372037 s", "setex k 2",
        "+get k", "get j", "get", "get k j", "+mget k j k", "mget k", "mget", "mgets k j", "mgets k k", "mgets",
        "+del k", "del k j k", "del x", "del", "exists k", "exists k k j", "exists", "+ttl k", "ttl", "ttl k j", "pttl k", "pttl nokey",
        "+expire k 2", "expire k 0", "expire k -1", "expire k -9223372036854775808", "expire k 9223372036854775807", "expire k 9223372037", "expire k -9223372037", "expire k x", "expire k", "expire nokey 2", "touch k", "touch k j x", "touch",
        "+incr k", "decr k", "incr", "incr k j", "+incrby k 9223372036854775807", "incrby k -9223372036854775808", "incrby k x", "incrby k 9223372036854775808", "incrby k", "+decrby k -9223372036854775808", "decrby k 7", "decrby k x",
        "uincr k", "+udecr k", "uincrby k 18446744073709551615", "+udecrby k 3", "uincrby k -1", "udecrby k 18446744073709551616", "udecr", "incrby n 0",
        "+append k 0", "append k", "append k _", "prepend k -", "+prepend k 1", "prepend", "append j \"x\"",
        "+dbsize", "dbsize x", "+flush", "flushall sync", "flushdb async", "flushall fast", "flushall delay 3", "flushall delay", "flushall delay x", "flushall delay -1", "flush bogus", "flushdb fast async",
        "+sweep", "sweep async", "sweep fast", "sweep x", "sweep async fast", "purge", "purge async", "purge x",
        "+keys *", "keys k", "keys ?", "keys x*", "keys _", "keys", "keys \\*", "scan 0", "scan 0 count 1", "scan 0 match k count 1", "scan 0 type string", "scan 0 type list", "scan x", "scan 0 count 0", "scan 0 match", "scan", "scan -1", "scan 1", "scan 18446744073709551615", "scan 4294967296", "scan 0 bogus", "scan 0 count x",
        "echo hi", "echo", "echo a b", "echo _", "ping", "ping hi", "ping a b", "select 0", "select 1", "select x", "select", "version", "stats", "stats x", "quit", "bogus", "bogus k", "debug", "debug x", "debug detach", "monitor x",
        "@1999999999", "@1", "@2000000000",
    };
    std::vector<Args> A;
    for (const char *t : T) { if (core && *t != '+' && *t != '@') continue; A.push_back(words(*t == '+' ? t + 1 : t)); }
    return A;
}
// SAVE, LOAD and the administrative commands
static std::vector<Args> admin() {
    static const char *T[] = {
        "save", "load", "SAVE FAST", "LOAD FAST", "save to", "load from", "save from /mcfs/d/s", "load to /mcfs/d/s", "save /mcfs/d/s", "load /mcfs/d/s", "save to _", "load from _", "save bogus", "save fast to", "save to /mcfs/d/s to",
        "save to /mcfs/d/s", "load from /mcfs/d/s", "SAVE TO /mcfs/d/s FAST", "LOAD FAST FROM /mcfs/d/s", "save to /mcfs/d/t", "load from /mcfs/d/t", "save to /mcfs/d/t to /mcfs/d/s", "load from /mcfs/d/none from /mcfs/d/s", "save fast fast to /mcfs/d/t", "save to /mcfs/none/s", "load from /mcfs/none/s", "load from /mcfs/d/none", "save to /mcfs/d/s bogus", "load from /mcfs/d/s bogus",
        "debug populate 3 k 2", "DEBUG POPULATE 1 j 0", "debug populate 0 k 1", "debug populate 5 _ 1", "debug populate 2 k 2 5-6", "debug populate 2 k 2 5", "debug populate 2 k 2 5-5", "debug populate 2 k 2 7-5", "debug populate 2 k 2 -5-6", "debug populate 2 k 2 -6", "debug populate x k 2", "debug populate -1 k 2", "debug populate 2 k x", "debug populate 2 k -1", "debug populate 2 k 536870913", "debug populate 2 k", "debug populate", "debug populate 1 k 1 5-6 x", "debug populate 9223372036854775808 k 1",
        "purge a b", "purge async async", "sweep a b c", "flushdb sync fast delay 0", "flushall async sync", "quit x", "version x", "touch k:0", "get k:2", "ttl k:0", "set k:1 x", "del k:0 k:1",
    };
    std::vector<Args> A;
    for (const char *t : T) A.push_back(words(t));
    return A;
}
namespace {
struct RRun {
    net_conn *c; RModel M; uint64_t h = 0;
    RRun() { static bool ready; if (!ready || !mfs_log.empty()) { mfs_reset(); mfs_begin(); ready = true; } srv_fresh(); c = srv_open(); cur = vfmt("cas=%d shards=%d", usecas, srv_popts.nshards); }
    void advance(int64_t ns) { srv_mono += ns; srv_real += ns; M.prune(); cur += vfmt(" | advance %lldns", (long long)ns); }
    void step(Args a) {
        mc_transitions++;
        Map d0 = srv_dump();
        for (size_t i = 1; i < a.size(); i++) if (a[i][0] == '%' && a[i].size() > 3) {
            uint64_t now = a.size() > 1 && d0.count(a[1]) ? d0[a[1]].cas : 0, t = now;
            if (a[i] == "%old") { t = 77777; for (uint64_t x : M.seen[a[1]]) if (x != now) t = x; }
            else if (a[i] == "%next") t = now + 1;
            a[i] = std::to_string(t);
        }
        std::string q = resp(a);
        cur += " | "; for (auto &x : a) cur += x + " ";
        Map before = M.m;
        std::vector<std::string> keys;
        std::string want = M.handle(a, &keys);
        srv_realthreads = low(a[0]) == "load";       // its workers wait for one another
        std::string got = srv_req(c, q);
        srv_realthreads = false;
        if (resp_value(got, 0, 0) != got.size()) mc_fail("framing", "the reply to %s is not one well framed value: %s", esc(q).c_str(), esc(got).c_str());
        std::string cmd = low(a[0]);
        for (size_t i = 1; i + 1 < a.size(); i++) if (starts(cmd, "flush") && low(a[i]) == "delay" && atoi(a[i + 1].c_str()) > 0 && want == OK && srv_slept != atoi(a[i + 1].c_str())) mc_fail("delay", "the flush was not delayed");
        bool ok;
        if (want == "any") ok = true;
        else if (want == ERR || want == "+" || want == "$") ok = starts(got, want) && got.size() >= (want == ERR ? 4 : 3);
        else if (want == "dbsize") { long long n = atoll(got.c_str() + 1); ok = got[0] == ':' && n >= (long long)M.m.size() && n <= (long long)M.everkeys.size(); }
        else if (want == "keys") { auto g = bulks(got, 0); std::sort(g.begin(), g.end()); std::sort(keys.begin(), keys.end()); ok = got[0] == '*' && g == keys; if (!ok) want = vfmt("an array of %zu keys", keys.size()); }
        else if (want == "scan") {
            std::vector<std::string> g; std::string r = got, cu; ok = true;
            for (int guard = 0; guard < 1000; guard++) {
                auto v = starts(r, "*2\r\n$") ? 1 : 0; if (!v) { ok = false; break; }
                size_t e = r.find("\r\n", 4); int l = atoi(r.c_str() + 5); cu = r.substr(e + 2, l);
                auto part = bulks(r, e + 2 + l + 2); g.insert(g.end(), part.begin(), part.end());
                if (cu == "0" || a[1] != "0") break;
                a[1] = cu; r = srv_req(c, resp(a)); a[1] = "0";
                if (resp_value(r, 0, 0) != r.size()) { ok = false; break; }
            }
            if (a[1] != "0") { for (auto &k : g) if (!std::count(keys.begin(), keys.end(), k)) ok = false; std::set<std::string> us(g.begin(), g.end()); if (us.size() != g.size()) ok = false; }
            else { if (cu != "0") ok = false; std::sort(g.begin(), g.end()); std::sort(keys.begin(), keys.end()); if (g != keys) ok = false; }
            if (!ok) want = vfmt("a scan over %zu keys", keys.size());
        } else ok = got == want;
        if (!ok) mc_fail("reply", "the reply to %s is %s but must be %s", esc(q).c_str(), esc(got).c_str(), want == ERR ? "an error" : esc(want).c_str());
        if (c->closed != (cmd == "quit")) mc_fail("closed", "%s: connection closed=%d", esc(q).c_str(), c->closed);
        Map d = srv_dump();
        if (!(d == M.m)) mc_fail("state", "after %s the cache is %s but must be %s", esc(q).c_str(), showdump(d).c_str(), showdump(M.m).c_str());
        for (auto &x : d) {
            Ent &e = M.m[x.first]; M.everkeys.insert(x.first);
            bool changed = !before.count(x.first) || !(before[x.first] == x.second);
            if (usecas && cmd != "load" && x.second.cas != e.cas && M.seen[x.first].count(x.second.cas)) mc_fail("version", "key %s got version %llu again", esc(x.first).c_str(), (unsigned long long)x.second.cas);
            if (usecas && cmd != "load" && changed && before.count(x.first) && x.second.cas == before[x.first].cas) mc_fail("version", "key %s was modified but kept its version", esc(x.first).c_str());
            e.cas = x.second.cas; M.seen[x.first].insert(e.cas);
        }
        for (auto &k : a) if (M.m.count(k)) M.everkeys.insert(k);
        if (a.size() > 1) M.everkeys.insert(a[1]);
        h = mc_hash(got.data(), got.size(), h);
        if (cmd == "quit") { srv_close(c); c = srv_open(); }
    }
    void end() {
        uint64_t sh = 7;
        for (auto &x : M.m) { sh = mc_hash(x.first.data(), x.first.size(), sh); sh = mc_hash(x.second.val.data(), x.second.val.size(), sh); sh = mc_hash64(x.second.exp ^ ((uint64_t)x.second.flags << 40), sh); }
        mc_state(sh); mc_outcome(h);
        srv_close(c); srv_endcase(); mc_traces++;
        if (mc_traces % 50000 == 1) mc_sample("%s", esc(cur).c_str());
    }
};
}
#endif
