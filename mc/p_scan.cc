// KEYS and SCAN over the protocols: every live key that matches exactly once.
#include "reqs.h"
namespace {
typedef std::set<std::string> Set;
bool glob(const std::string &p, const std::string &s, size_t i = 0, size_t j = 0) { // the documented language: * ? and backslash
    if (i == p.size()) return j == s.size();
    if (p[i] == '*') { for (size_t k = j; k <= s.size(); k++) if (glob(p, s, i + 1, k)) return true; return false; }
    if (j == s.size()) return false;
    if (p[i] == '\\' && i + 1 < p.size()) return p[i + 1] == s[j] && glob(p, s, i + 2, j + 1);
    return (p[i] == '?' || p[i] == s[j]) && glob(p, s, i + 1, j + 1);
}
// the bulk strings of an array reply
bool bulks(const std::string &r, size_t &p, Strs &out) {
    auto num = [&](char t, long *n) { size_t e = r.find("\r\n", p); if (p >= r.size() || r[p] != t || e == std::string::npos) return false; *n = atol(r.c_str() + p + 1); p = e + 2; return true; };
    long n; if (!num('*', &n)) return false;
    while (n-- > 0) { long l; if (p < r.size() && r[p] == '*') { if (!bulks(r, p, out)) return false; continue; } if (!num('$', &l) || l < 0 || p + l + 2 > r.size() || r.compare(p + l, 2, "\r\n")) return false; out.push_back(r.substr(p, l)); p += l + 2; }
    return true;
}
// the rows of a Postgres reply, by columns
bool rows(const std::string &r, size_t cols, std::vector<Strs> &out) {
    size_t p = 0; bool ready = false, desc = false; auto u32 = [&](size_t a) { return (uint32_t)(uint8_t)r[a] << 24 | (uint8_t)r[a + 1] << 16 | (uint8_t)r[a + 2] << 8 | (uint8_t)r[a + 3]; };
    while (p < r.size()) {
        if (p + 5 > r.size()) return false;
        char t = r[p]; size_t n = u32(p + 1), e = p + 1 + n; if (n < 4 || e > r.size() || ready) return false;
        if (t == 'T') desc = true; else if (t == 'Z') ready = true;
        else if (t == 'D') { size_t q = p + 7; if ((size_t)((uint8_t)r[p + 5] << 8 | (uint8_t)r[p + 6]) != cols || !desc) return false; Strs row; for (size_t c = 0; c < cols; c++) { if (q + 4 > e) return false; size_t l = u32(q); q += 4; if (q + l > e) return false; row.push_back(r.substr(q, l)); q += l; } if (q != e) return false; out.push_back(row); }
        else if (t != 'C') return false;
        p = e;
    }
    return ready;
}
std::string pgq(const std::string &s) { std::string o = "'"; for (char c : s) { if (c == '\'') o += '\''; o += c; } return o + "'"; }
struct C { std::vector<std::string> live, dead; bool pg; int shards; long count; std::string pat; std::function<void(net_conn *, int)> between; };
const char *where; 
void compare(const char *what, const Strs &got, const Set &want) {
    std::map<std::string, int> n; for (auto &g : got) n[g]++;
    for (auto &g : n) { if (!want.count(g.first)) mc_fail(where, "%s reports %s, which it must not", what, esc(g.first).c_str()); if (g.second > 1) mc_fail(where, "%s reports %s %d times", what, esc(g.first).c_str(), g.second); }
    for (auto &w : want) if (!n.count(w)) mc_fail(where, "%s does not report %s", what, esc(w).c_str());
}
net_conn *fill(const C &c) {
    srv_popts.nshards = c.shards; srv_fresh();
    net_conn *q = srv_open();
    for (auto &k : c.dead) srv_req(q, resp({ "SET", k, "v", "PX", "5" }));
    for (auto &k : c.live) srv_req(q, resp({ "SET", k, "v", "PX", "7" }));
    srv_mono += 6000000; srv_real += 6000000;
    return q;
}
void scan(const C &c, net_conn *q, net_conn *s) {
    Set want; for (auto &k : c.live) if (glob(c.pat, k)) want.insert(k);
    Strs got; std::string cursor = "0"; int pages = 0; size_t cnt = c.count ? c.count : 100;
    while (1) {
        Args a = { "SCAN", cursor }; bool m = c.pat != "*" || c.count == 3; if (m) { a.push_back("MATCH"); a.push_back(c.pat); } if (c.count) { a.push_back("COUNT"); a.push_back(std::to_string(c.count)); }
        size_t n0 = got.size(); std::string next;
        if (c.pg) {
            std::string sql = "scan " + cursor; if (m) sql += " match " + pgq(c.pat); if (c.count) sql += " count " + std::to_string(c.count);
            std::vector<Strs> r; std::string rep = srv_req(s, pm('Q', Z(sql + ";"))); if (!rows(rep, 2, r)) mc_fail(where, "the reply to %s is %s", sql.c_str(), esc(rep).c_str());
            for (auto &x : r) { got.push_back(x[0]); if (next.size() && next != x[1]) mc_fail(where, "two cursors in one page"); next = x[1]; }
            if (r.empty()) next = "0";
        } else {
            std::string rep = srv_req(s, resp(a)); Strs b; size_t p = 0; if (!bulks(rep, p, b) || p != rep.size() || b.empty()) mc_fail(where, "the reply to %s is %s", esc(resp(a)).c_str(), esc(rep).c_str());
            next = b[0]; got.insert(got.end(), b.begin() + 1, b.end());
        }
        mc_transitions++;
        if (got.size() - n0 > cnt) mc_fail(where, "a page of %zu keys with COUNT %zu", got.size() - n0, cnt);
        if (next == "0") break;
        cursor = next; if (++pages > 2000) mc_fail(where, "the cursors never return to 0");
        if (c.between) c.between(q, pages);
    }
    compare("the SCAN loop", got, want); uint64_t h = mc_hash64(pages, got.size()); mc_outcome(h);
}
void keys(const C &c, net_conn *s) {
    Set want; for (auto &k : c.live) if (glob(c.pat, k)) want.insert(k);
    Strs got;
    if (c.pg) { std::vector<Strs> r; std::string rep = srv_req(s, pm('Q', Z("keys " + pgq(c.pat) + ";"))); if (!rows(rep, 1, r)) mc_fail(where, "the reply to KEYS is %s", esc(rep).c_str()); for (auto &x : r) got.push_back(x[0]); }
    else { std::string rep = srv_req(s, resp({ "KEYS", c.pat })); size_t p = 0; if (!bulks(rep, p, got) || p != rep.size()) mc_fail(where, "the reply to KEYS is %s", esc(rep).c_str()); }
    mc_transitions++; compare("KEYS", got, want);
}
void run(const C &c, bool dokeys = true) {
    mc_tick(); mc_traces++; mc_evals++;
    net_conn *q = fill(c), *s = q; if (c.pg) { s = srv_open(); srv_req(s, pgstart()); }
    scan(c, q, s); if (dokeys && !c.between) keys(c, s);
    uint64_t h = mc_hash64(c.live.size(), mc_hash64(c.dead.size(), c.shards)); mc_state(h);
    if (s != q) srv_close(s);
    srv_close(q); srv_endcase();
}
std::string nm(int i) { return i % 5 == 0 ? vfmt("Key:%d", i) : i % 5 == 1 ? vfmt("k%d", i) : i % 5 == 2 ? vfmt("%d-\xff", i) : i % 5 == 3 ? std::string(i % 90, 'z') + vfmt("%d", i) : vfmt("u.%d.long-enough-a-name", i); }
void explore() {
    bool T = mc_thorough; uint64_t idx = 0; auto mine = [&] { return (int)(idx++ % mc_nparts) == mc_part; };
    where = "keys";
    // every subset of keys of all kinds, every expired subset
    Strs U = { "", "a", "ab", "b", std::string("\0\xff'", 3), "*?[\\", std::string(200, 'k') }; if (T) U.push_back("\r\n"), U.push_back("Z9-._");
    std::string pats[] = { "*", "a*", "?", "", "\\*?[*", "*b", "*k*k", "a" };
    for (unsigned m = 0; m < 1u << U.size(); m++) for (unsigned d = m;; d = (d - 1) & m) {
        if (mine()) for (int pg = 0; pg < 2; pg++) for (int sh = 1; sh <= 3; sh++) for (auto &p : pats) for (long n : { 0, 1, 2, 3 }) {
            if (sh == 2 && n != 2 && !T) continue;
            C c; for (size_t i = 0; i < U.size(); i++) if (m >> i & 1) (d >> i & 1 ? c.dead : c.live).push_back(U[i]);
            c.pg = pg; c.shards = sh; c.count = n; c.pat = p; cur = vfmt("scan keys=%u expired=%u pg=%d shards=%d count=%ld pattern=", m, d, pg, sh, n) + esc(p); run(c);
        }
        if (!d) break;
    }
    // populations of every size, through the growth of the table
    for (int n = 0; n <= (T ? 700 : 220); n++) for (int how = 0; how < 3; how++) {
        if (mine()) for (int pg = 0; pg < 2; pg++) for (int sh : { 1, 2, 5 }) for (long cnt : { 1, 3, 10, n - 1, n, n + 1, 0 }) {
            if (cnt < 0 || (cnt == 1 && n > 100)) continue;
            C c; for (int i = 0; i < n; i++) (how && i % (how + 1) == 0 ? c.dead : c.live).push_back(nm(i));
            c.pg = pg; c.shards = sh; c.count = cnt; c.pat = "*"; cur = vfmt("scan size=%d how=%d pg=%d shards=%d count=%ld", n, how, pg, sh, cnt); run(c);
            if (cnt == 10) { c.pat = "*1*"; run(c); }
        }
    }
    // reads and refused commands between the pages change nothing
    for (int n = 2; n <= (T ? 40 : 14); n++) for (int sh : { 1, 3 }) for (long cnt : { 1, 2, 3 }) for (int what = 0; what < 6; what++) {
        if (!mine()) continue;
        C c; for (int i = 0; i < n; i++) (i % 3 == 1 ? c.dead : c.live).push_back(nm(i)); c.pg = false; c.shards = sh; c.count = cnt; c.pat = "*";
        cur = vfmt("scan size=%d shards=%d count=%ld between=%d", n, sh, cnt, what);
        c.between = [&](net_conn *q, int page) { std::string k = c.live[page % c.live.size()], d = c.dead.size() ? c.dead[page % c.dead.size()] : "none"; (void)d;
            switch (what) { case 0: srv_req(q, resp({ "GET", k })); break; case 1: srv_req(q, resp({ "SET", k, "x", "NX" })); break; case 2: srv_req(q, resp({ "MGET", k, "none" })); break; case 3: srv_req(q, resp({ "DEL", "none" })); break; case 4: srv_req(q, resp({ "SCAN", "0", "COUNT", "2" })); break; case 5: srv_req(q, resp({ "KEYS", "*" })); break; } };
        run(c);
    }
    // reading a key that has expired, or a sweep, releases its entry and moves others
    where = "scan-moved";
    for (int n = 2; n <= (T ? 200 : 70); n++) for (int sh : { 1, 3 }) for (long cnt : { 1, 2, 3 }) for (int what = 0; what < 2; what++) {
        if (!mine()) continue;
        C c; for (int i = 0; i < n; i++) (i % 3 == 1 ? c.dead : c.live).push_back(nm(i)); c.pg = false; c.shards = sh; c.count = cnt; c.pat = "*";
        cur = vfmt("scan size=%d shards=%d count=%ld moved=%d", n, sh, cnt, what);
        c.between = [&](net_conn *q, int page) { if (what) { if (page == 1) srv_req(q, resp({ "SWEEP" })); } else for (auto &d : c.dead) srv_req(q, resp({ "GET", d })); };
        run(c);
    }
}
Reg r1("scan", { "--shards=2" }, explore);
}
