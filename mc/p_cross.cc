// The same keys through all four protocols at once: map behaviour (C01), lifetimes
// (C02), versions (C05), and settings that must not be visible (C12).
#include "reqs.h"
namespace {
const int64_t MONTH = 30LL * 24 * 3600;
struct Let { char p; Args w; };                          // protocol (r m h p, @ = time) and words
std::string HTTPREQ(const Args &w) {                     // METHOD key [value] params...
    std::string q; for (size_t i = w[0] == "PUT" ? 3 : 2; i < w.size(); i++) q += (q.empty() ? "?" : "&") + w[i];
    std::string s = w[0] + " /" + w[1] + q + " HTTP/1.1\r\n"; if (w[0] == "PUT") s += "Content-Length: " + std::to_string(w[2].size()) + "\r\n";
    return s + "\r\n" + (w[0] == "PUT" ? w[2] : "");
}
bool mcstore(const std::string &c) { return c == "set" || c == "add" || c == "replace" || c == "append" || c == "prepend" || c == "cas"; }
std::string MCREQ(const Args &w) {                       // store: name key flags exp value [token]
    if (mcstore(w[0])) return w[0] + " " + w[1] + " " + w[2] + " " + w[3] + " " + std::to_string(w[4].size()) + (w.size() > 5 ? " " + w[5] : "") + "\r\n" + w[4] + "\r\n";
    std::string s; for (auto &x : w) s += (s.empty() ? "" : " ") + x; return s + "\r\n";
}
std::string PGREQ(const Args &w) { std::string s; for (auto &x : w) { s += s.empty() ? "'" : " '"; for (char c : x) { if (c == '\'') s += c; s += c; } s += "'"; } return pm('Q', Z(s)); }
// a Postgres reply as text: rows and tag
std::string pgtext(const std::string &r) {
    std::string o; size_t p = 0; auto u32 = [&](size_t a) { return (uint32_t)(uint8_t)r[a] << 24 | (uint8_t)r[a + 1] << 16 | (uint8_t)r[a + 2] << 8 | (uint8_t)r[a + 3]; };
    while (p + 5 <= r.size()) {
        char t = r[p]; size_t n = u32(p + 1), e = p + 1 + n; if (n < 4 || e > r.size()) return "bad frame";
        if (t == 'D') { size_t q = p + 7, c = (uint8_t)r[p + 5] << 8 | (uint8_t)r[p + 6]; o += "["; for (size_t i = 0; i < c; i++) { if (q + 4 > e) return "bad row"; uint32_t l = u32(q); q += 4; if (q + l > e) return "bad row"; o += (i ? "|" : "") + r.substr(q, l); q += l; } o += "]"; if (q != e) return "bad row"; }
        else if (t == 'C') o += r.substr(p + 5, n - 5); else if (t == 'E') o += "error"; else if (t == 'Z') { if (e != r.size()) return "bad end"; return o; }
        p = e;
    }
    return "no end";
}
std::string httptext(const std::string &r) { size_t e = r.find("\r\n\r\n"); if (!starts(r, "HTTP/1.1 ") || e == std::string::npos) return "bad"; size_t c = r.find("Content-Length: "); if (c == std::string::npos || c > e || (size_t)atol(r.c_str() + c + 16) != r.size() - e - 4) return "bad length"; return r.substr(9, 3) + " " + r.substr(e + 4); }
int64_t exptime(int64_t e) { // of memcache
    if (e == 0) return 0;
    if (e < 0) return srv_mono;
    if (e <= MONTH) return srv_mono + e * SEC;
    __int128 u = (__int128)e * SEC; if (u > INT64_MAX) u = INT64_MAX; if (u <= srv_real) return srv_mono;
    return clampadd((__int128)srv_mono + (u - srv_real));
}
struct X {
    net_conn *r = 0, *mcn = 0, *pg = 0; RModel M; uint64_t h = 0;
    X() { srv_fresh(); r = srv_open(); cur = vfmt("cross cas=%d sixpack=%d shards=%d", usecas, !srv_popts.nosixpack, srv_popts.nshards); }
    std::string ask(char p, const Args &w) {
        if (p == 'r') return srv_req(r, resp(w));
        if (p == 'm') { if (!mcn) mcn = srv_open(); return srv_req(mcn, MCREQ(w)); }
        if (p == 'p') { if (!pg) { pg = srv_open(); srv_req(pg, pgstart()); } return pgtext(srv_req(pg, PGREQ(w))); }
        net_conn *c = srv_open(); std::string s = httptext(srv_req(c, HTTPREQ(w))); srv_close(c); return s;
    }
    std::string mc(const Args &w) {
        M.prune(); auto &m = M.m; std::string c = w[0]; bool have = w.size() > 1 && m.count(w[1]);
        if (mcstore(c)) {
            Ent e; e.val = w[4]; e.flags = strtoul(w[2].c_str(), 0, 10); e.exp = exptime(strtoll(w[3].c_str(), 0, 10));
            if ((c == "add" && have) || (c == "replace" && !have)) return "NOT_STORED\r\n";
            if (c == "append" || c == "prepend") { if (!have) return "NOT_STORED\r\n"; std::string &v = m[w[1]].val; v = c == "append" ? v + w[4] : w[4] + v; return "STORED\r\n"; }
            if (c == "cas") { if (!have) return "NOT_FOUND\r\n"; if (!usecas || std::to_string(m[w[1]].cas) != w[5]) return "EXISTS\r\n"; }
            m[w[1]] = e; M.prune(); return "STORED\r\n";
        }
        if (c == "get" || c == "gets") { std::string r; for (size_t i = 1; i < w.size(); i++) if (m.count(w[i])) { Ent &e = m[w[i]]; r += "VALUE " + w[i] + " " + std::to_string(e.flags) + " " + std::to_string(e.val.size()) + (c == "gets" ? " " + std::to_string(e.cas) : "") + "\r\n" + e.val + "\r\n"; } return r + "END\r\n"; }
        if (c == "delete") { if (!have) return "NOT_FOUND\r\n"; m.erase(w[1]); return "DELETED\r\n"; }
        if (c == "touch") { if (!have) return "NOT_FOUND\r\n"; m[w[1]].exp = exptime(strtoll(w[2].c_str(), 0, 10)); M.prune(); return "TOUCHED\r\n"; }
        if (c == "flush_all") { m.clear(); return "OK\r\n"; }
        if (!have) return "NOT_FOUND\r\n";
        uint64_t v, d = strtoull(w[2].c_str(), 0, 10); if (!u64of(m[w[1]].val, v) || m[w[1]].val[0] == '+') return "CLIENT_ERROR ";
        v = c == "incr" ? v + d : v < d ? 0 : v - d; m[w[1]].val = std::to_string(v); return m[w[1]].val + "\r\n";
    }
    std::string http(const Args &w) {
        M.prune(); auto &m = M.m; bool have = m.count(w[1]);
        if (w[0] == "GET") return have ? "200 " + m[w[1]].val : "404 Not Found\r\n";
        if (w[0] == "DELETE") { if (!have) return "404 Not Found\r\n"; m.erase(w[1]); return "200 Deleted\r\n"; }
        Ent e; e.val = w[2]; bool ok = true;
        for (size_t i = 3; i < w.size(); i++) { std::string n = w[i].substr(0, w[i].find('=')), v = w[i].find('=') == std::string::npos ? "" : w[i].substr(n.size() + 1);
            if (n == "ttl") e.exp = clampadd((__int128)srv_mono + (__int128)strtoll(v.c_str(), 0, 10) * SEC); else if (n == "flags") e.flags = strtoul(v.c_str(), 0, 10); else if (n == "nx") ok = ok && !have; else if (n == "xx") ok = ok && have; else if (n == "cas") ok = ok && have && usecas && std::to_string(m[w[1]].cas) == v; }
        if (!ok) return "404 Not Found\r\n";
        m[w[1]] = e; return "200 Stored\r\n";
    }
    std::string pgwant(const Args &a, const std::string &r, const Map &before, std::vector<std::string> keys) {
        std::string c = low(a[0]), C = c; for (auto &ch : C) ch = toupper(ch);
        auto num = [&] { return r.substr(1, r.size() - 3); }; auto val = [&] { size_t e = r.find("\r\n"); return r.substr(e + 2, r.size() - e - 4); }; std::string z;
        if (r == ERR) return "error";
        if (c == "set" || c == "setex") { bool get = false; for (size_t i = 3; c == "set" && i < a.size(); i++) if (low(a[i]) == "get") get = true;
            return get ? r == NIL ? "SET 0" + z : "[" + val() + "]SET 1" + z : C + (r == OK ? " 1" : " 0") + z; }
        if (c == "get") return r == NIL ? "GET 0" + z : "[" + val() + "]GET 1" + z;
        if (c == "mget" || c == "mgets") { std::string o; int k = 0; for (size_t i = 1; i < a.size(); i++) { auto e = before.find(a[i]); if (e == before.end()) continue; k++; o += "[" + a[i] + "|" + (c == "mgets" ? std::to_string(e->second.flags) + "|" + std::to_string(e->second.cas) + "|" : "") + e->second.val + "]"; } return o + "MGET " + std::to_string(k) + z; }
        if (c == "del" || c == "touch" || c == "expire" || c == "append" || c == "prepend") return C + " " + num() + z;
        if (c == "exists") return "[" + num() + "]EXISTS" + z;
        if (c == "ttl" || c == "pttl") return num() == "-2" ? C + " 0" + z : "[" + num() + "]" + C + " 1" + z;
        if (c.find("cr") != std::string::npos) return "[" + num() + "]" + (c[0] == 'u' ? C.substr(1) : C) + z;
        if (c == "keys") { std::sort(keys.begin(), keys.end()); std::string o; for (auto &k : keys) o += "[" + k + "]"; return o + "KEYS " + std::to_string(keys.size()) + z; }
        if (starts(c, "flush")) return C + " SYNC" + z;
        return "?";
    }
    void advance(int64_t ns, int64_t wall) { srv_mono += ns; srv_real += wall; M.prune(); cur += vfmt(" | advance %lldns, wall clock %lldns", (long long)ns, (long long)wall); }
    // false: the letter means nothing here
    bool step(const Let &l, bool deep = true) {
        if (l.p == '@') {
            M.prune(); int64_t e = M.m.count("k") ? M.m["k"].exp : 0;
            if (l.w[0] == "wall") { advance(0, atoll(l.w[1].c_str()) * SEC); return true; }
            if (l.w[0] == "exp") { int64_t t = e - srv_mono + atoll(l.w[1].c_str()); if (!e || t <= 0 || e > (int64_t)400 * 365 * 86400 * SEC / 4) return false; advance(t, t); return true; }
            advance(atoll(l.w[0].c_str()), atoll(l.w[0].c_str())); return true;
        }
        mc_transitions++;
        Args w = l.w; Map d0 = deep ? srv_dump() : Map();
        for (size_t i = 1; i < w.size(); i++) { size_t at = w[i].find('%'); if (at == std::string::npos) continue;
            uint64_t now = d0.count(w[1]) ? d0[w[1]].cas : 0, t = now; std::string n = w[i].substr(at);
            if (n == "%next") t = now + 1; else if (n == "%zero") t = 0; else if (n == "%max") t = UINT64_MAX; else if (n == "%other") t = d0.count(w[1] == "k" ? "j" : "k") ? d0[w[1] == "k" ? "j" : "k"].cas : 99;
            else if (starts(n, "%old")) { int skip = n.size() > 4 ? n[4] - '0' : 0; t = 77777; std::vector<uint64_t> o(M.seen[w[1]].begin(), M.seen[w[1]].end()); for (int j = (int)o.size() - 1; j >= 0; j--) if (o[j] != now && !skip--) { t = o[j]; break; } if (t == 77777 && n != "%old") return false; }
            w[i] = w[i].substr(0, at) + std::to_string(t); }
        cur += vfmt(" | %s:", l.p == 'r' ? "resp" : l.p == 'm' ? "memcache" : l.p == 'h' ? "http" : "postgres"); for (auto &x : w) cur += " " + (x.size() > 80 ? x.substr(0, 80) + "..." : x.empty() ? "''" : x);
        M.prune(); Map before = M.m; std::vector<std::string> keys; std::string want, got = ask(l.p, w);
        if (l.p == 'm') want = mc(w); else if (l.p == 'h') want = http(w); else want = M.handle(w, &keys);
        if (l.p == 'p') want = pgwant(w, want, before, keys);
        bool ok;
        if (want == "keys") { auto g = got[0] == '*' ? bulks(got, 0) : Strs(); std::sort(g.begin(), g.end()); std::sort(keys.begin(), keys.end()); ok = got[0] == '*' && g == keys; }
        else if (l.p == 'p' && low(w[0]) == "keys") { auto order = [](std::string s) { std::sort(s.begin(), s.end()); return s; }; ok = order(got) == order(want); }
        else if (l.p != 'p' && (want == ERR || want == "CLIENT_ERROR ")) ok = starts(got, want);
        else ok = got == want;
        // what a refused compare and store with GET answers is not documented
        if (!ok && low(w[0]) == "set" && w.size() > 5 && w.back() == "get" && w[3] == "cas" && (got == NIL || got == "SET 0")) ok = M.m == before;
        if (!ok) mc_fail("reply", "the reply is %s but must be %s", esc(got).c_str(), esc(want).c_str());
        h = mc_hash(got.data(), got.size(), h);
        if (!deep) return true;
        Map d = srv_dump();
        if (!(d == M.m)) mc_fail("state", "the cache is %s but must be %s", showdump(d).c_str(), showdump(M.m).c_str());
        for (auto &x : d) {
            bool changed = !before.count(x.first) || !(before[x.first] == x.second); Ent &e = M.m[x.first];
            if (usecas && x.second.cas != before[x.first].cas && M.seen[x.first].count(x.second.cas)) mc_fail("version", "%s got version %llu again", esc(x.first).c_str(), (unsigned long long)x.second.cas);
            if (usecas && changed && before[x.first].val.size() + before[x.first].exp + before[x.first].flags && x.second.cas == before[x.first].cas) mc_fail("version", "%s was modified but kept its version", esc(x.first).c_str());
            e.cas = x.second.cas; M.seen[x.first].insert(e.cas);
        }
        return true;
    }
    void end() {
        uint64_t s = 7; for (auto &x : M.m) { s = mc_hash(x.first.data(), x.first.size(), s); s = mc_hash(x.second.val.data(), x.second.val.size(), s); s = mc_hash64(x.second.exp ^ ((uint64_t)x.second.flags << 40), s); }
        mc_state(s); mc_outcome(h); for (net_conn *c : { r, mcn, pg }) if (c) srv_close(c);
        srv_endcase(); mc_traces++; mc_evals++; if (mc_traces % 60000 == 1) mc_sample("%s", esc(cur).c_str());
    }
};
std::vector<Let> parse(std::initializer_list<const char *> L) { std::vector<Let> v; for (auto *s : L) { Args w = words(s); char p = w[0][0]; w.erase(w.begin()); v.push_back({ p, w }); if (p == 'x') { v.back().p = 'r'; v.push_back({ 'p', w }); } } return v; } // x = RESP and Postgres
void cfg(bool cas, int shards, bool six = true) { usecas = cas; srv_popts.usecas = cas; srv_popts.nshards = shards; srv_popts.nosixpack = !six; }
typedef std::vector<const std::vector<Let> *> Shape;
void sequences(bool cas, int shards, const Shape &S) {
    cfg(cas, shards); std::vector<int> v(S.size(), 0); uint64_t idx = 0;
    while (1) {
        if ((int)(idx++ % mc_nparts) == mc_part) { mc_tick(); X x; for (size_t i = 0; i < S.size(); i++) if (!x.step((*S[i])[v[i]])) break; x.end(); }
        int i = S.size() - 1; while (i >= 0 && ++v[i] == (int)S[i]->size()) v[i--] = 0;
        if (i < 0) break;
    }
}
// ------------------------------------------------------------------ C01
void cross() {
    auto F = parse({ "x set k 5", "x set k abc flags 9", "x set j 7", "x set k w nx", "x set k w xx", "x set k g get", "x set k g nx get", "x set k g xx get", "x set k t keepttl", "x setex k 5 v", "x get k", "x get j", "x mget k j k", "x mgets k j", "x del k", "x del k j", "x exists k j", "x touch k",
        "x expire k 5", "x ttl k", "x incr k", "x incrby k 37", "x decrby k 3", "x uincrby k 18446744073709551000", "x append k 1", "x prepend k 4", "x append j zz", "x keys *", "x flushall", "x set k v bogus", "x set k _",
        "m set k 7 0 5", "m set k 7 0 abc", "m set k 0 5 abc", "m add k 1 0 6", "m replace k 2 0 8", "m append k 0 0 1", "m prepend k 0 0 2", "m get k", "m get k j", "m gets j k", "m delete k", "m incr k 3", "m decr k 4", "m touch k 5", "m touch k 0", "m set j 0 0 x", "m flush_all", "m cas k 3 0 c %cur", "m cas k 3 0 c %old",
        "h PUT k 5", "h PUT k abc flags=7", "h PUT k n nx", "h PUT k x xx ttl=5", "h PUT j 3 ttl=5", "h GET k", "h GET j", "h DELETE k", "h PUT k c cas=%cur", "h PUT k c cas=%old",
        "@ 4999999999", "@ 5000000000" });
    auto C = parse({ "r set k 5", "r set k abc flags 9", "r set k w nx", "r get k", "r del k", "r incr k", "r append k 1", "r expire k 5", "p set k w xx get", "p set k 6 ex 5", "p mgets k j", "p del k", "p decrby k 3", "m set k 7 0 5", "m add k 1 5 6", "m append k 0 0 1", "m gets k", "m delete k", "m incr k 3", "m touch k 5", "m cas k 3 0 c %cur", "h PUT k 5 flags=2", "h PUT k n nx ttl=5", "h GET k", "h DELETE k", "@ 5000000000" });
    sequences(true, 1, { &F, &F, &C }); sequences(false, 2, { &F, &F }); sequences(true, 2, { &C, &C, &C, &C });
    if (mc_thorough) { sequences(false, 1, { &C, &F, &F }); sequences(true, 3, { &F, &C, &F }); sequences(true, 1, { &F, &F, &F }); sequences(false, 2, { &C, &C, &C, &C }); }
}
// ------------------------------------------------------------------ C02
void ttl() {
    auto start = parse({ "@ 1", "r set k 41", "r set k 41 px 9000", "p set k 41 px 1", "m set k 3 9 41", "h PUT k 41 ttl=9", "r set k 41 exat 1700000009" });
    auto dead = parse({ "@ 1", "@ exp 0", "@ exp -1", "@ exp 1" });
    auto setters = parse({ "@ 2", "x set k 7", "x set k 7 ex 2", "x set k 7 px 2000", "x set k 7 px 1", "x set k 7 ex 1", "x set k 7 exat 1700000012", "x set k 7 pxat 1700000012345", "x set k 7 exat 1", "x set k 7 pxat 1", "x set k 7 exat 1700000000", "x set k 7 ex 9223372036854775807", "x set k 7 px 9223372036854775807", "x set k 7 pxat 9223372036854775807", "x set k 7 exat 9223372036854775807", "x set k 7 ex 0", "x set k 7 px -1", "x set k 7 keepttl", "x set k 7 keepttl xx", "x set k 7 nx ex 3", "x set k 7 xx ex 3", "x set k 7 xx", "x set k 7 get px 1500", "x set k 7 cas %cur ex 3", "x set k 7 cas %next ex 3", "x setex k 3 7", "x setex k 0 7", "x setex k 9223372036854775807 7",
        "x expire k 3", "x expire k 0", "x expire k -1", "x expire k -9223372036854775808", "x expire k 9223372036854775807", "x expire k 9223372037", "x set k 7 ex 9223372037", "x set k 7 px 9223372036855", "x setex k 9223372037 7", "x expire k 1", "x touch k", "x incr k", "x decrby k 2", "x uincr k", "x append k 1", "x prepend k 1", "x get k", "x mget k j", "x exists k", "x ttl k", "x del k", "x keys *",
        "m set k 1 3 7", "m set k 1 0 7", "m set k 1 -1 7", "m set k 1 1 7", "m set k 1 2592000 7", "m set k 1 2592001 7", "m set k 1 1700000012 7", "m set k 1 9223372036854775807 7", "m set k 1 9223372037 7", "m add k 1 3 7", "m replace k 1 3 7", "m replace k 1 0 7", "m append k 0 3 1", "m prepend k 0 0 1", "m cas k 1 3 7 %cur", "m cas k 1 0 7 %cur", "m incr k 1", "m decr k 1", "m touch k 3", "m touch k 0", "m touch k -1", "m touch k 1700000012", "m touch k 2592000", "m touch k 2592001", "m get k", "m gets k",
        "h PUT k 7", "h PUT k 7 ttl=3", "h PUT k 7 ttl=1", "h PUT k 7 ttl=9223372036854775807", "h PUT k 7 ttl=9223372037", "h PUT k 7 nx ttl=3", "h PUT k 7 xx ttl=3", "h PUT k 7 xx", "h PUT k 7 cas=%cur ttl=3", "h GET k" });
    auto when = parse({ "@ 1", "@ 999999999", "@ exp -1", "@ exp 0", "@ exp 1", "@ wall 86400", "@ wall -86400", "@ 31536000000000000" });
    auto look = parse({ "x get k", "x mget k", "x mgets k j", "x ttl k", "x pttl k", "x exists k", "x touch k", "x keys *", "x del k", "x expire k 5", "x set k 1 nx", "x set k 1 xx", "x set k 1 get", "x set k 1 keepttl", "x incr k", "x decr k", "x uincr k", "x append k 1", "x prepend k 1", "x set k 1 cas %cur",
        "m get k", "m gets k", "m add k 0 0 1", "m replace k 0 0 1", "m append k 0 0 1", "m prepend k 0 0 1", "m cas k 0 0 1 %cur", "m cas k 0 0 1 %old", "m incr k 1", "m decr k 1", "m touch k 9", "m delete k", "h GET k", "h PUT k 1 nx", "h PUT k 1 xx", "h PUT k 1 cas=%cur", "h DELETE k", "h PUT k 1" });
    auto few = parse({ "r get k", "p keys *", "m gets k", "h GET k", "r pttl k", "p set k 1 nx" });
    for (int sh : { 1, 2 }) for (int cas = 1; cas >= 0; cas--) { if (!mc_thorough && sh == 2 && cas) continue; if (sh == 1 && !cas) continue; sequences(cas, sh, { &start, &dead, &setters, &when, &look }); }
    auto two = parse({ "r set k 7 keepttl", "p incr k", "m append k 0 3 1", "m touch k 3", "m incr k 1", "h PUT k 7 ttl=3", "r expire k 2", "p set k 8", "r set k 8 xx keepttl", "m cas k 1 0 7 %cur", "m replace k 0 4 9" });
    sequences(true, 1, { &start, &two, &when, &setters, &when, &few });
    if (mc_thorough) { sequences(true, 2, { &start, &two, &when, &setters, &when, &look }); sequences(true, 1, { &start, &two, &two, &two, &when, &look }); }
}
// ------------------------------------------------------------------ C05
void cas() {
    auto F = parse({ "x set k a", "x set k a", "x set k b ex 3", "x set k a nx", "x set k a xx", "x set k a keepttl", "x setex k 3 a", "x del k", "x incr k", "x append k 1", "x prepend k 1", "x expire k 3", "x touch k", "x mgets k j", "x get k", "x set k 1", "x set j 1", "x set k c cas %cur", "x set k c cas %old", "x set k c cas %next", "x set k c cas %zero", "x set k c cas %other", "x set k c cas %old1", "x set k c cas %max", "x set k c cas %cur get", "x set k c cas %old get", "x set k c cas %cur xx", "x set k c cas %old xx", "x flushall",
        "m set k 0 0 a", "m add k 0 0 a", "m replace k 0 3 a", "m append k 0 0 1", "m incr k 1", "m decr k 1", "m touch k 3", "m delete k", "m gets k j", "m cas k 0 0 c %cur", "m cas k 0 3 c %cur", "m cas k 0 0 c %old", "m cas k 0 0 c %next", "m cas k 0 0 c %old1", "m cas k 0 0 c %zero", "m cas k 0 0 c %other", "m cas k 0 0 c %max", "m set j 0 0 1",
        "h PUT k a", "h PUT k a xx", "h PUT k a ttl=3", "h PUT k c cas=%cur", "h PUT k c cas=%old", "h PUT k c cas=%next", "h PUT k c cas=%old1", "h PUT k c cas=%zero", "h PUT k c cas=%other", "h PUT k c cas=%max", "h PUT k c cas=%cur xx", "h DELETE k", "h GET k",
        "@ 3000000000", "@ exp -1" });
    auto C = parse({ "r set k a", "r set k 1 ex 3", "p incr k", "r append k 1", "p expire k 3", "r del k", "r set k c cas %cur", "p set k c cas %old", "r set k c cas %old1", "r set k c cas %next", "m set k 0 0 7", "m cas k 0 0 c %cur", "m cas k 0 0 c %old", "m touch k 3", "m prepend k 0 0 1", "m gets k", "h PUT k a", "h PUT k c cas=%cur", "h PUT k c cas=%old", "h DELETE k", "@ 3000000000" });
    sequences(true, 1, { &F, &F, &F }); sequences(false, 2, { &F, &F }); sequences(true, 2, { &C, &C, &C, &C }); sequences(false, 1, { &C, &C, &C });
    if (mc_thorough) { sequences(true, 1, { &C, &C, &C, &C, &C }); sequences(true, 2, { &C, &F, &F, &C }); sequences(false, 1, { &F, &F, &F }); }
}
// ------------------------------------------------------------------ C12
void script(X &x, const std::string &k, const std::string &v, bool mcok, bool htok) {
    const std::string o = k + "2";
    auto S = [&](char p, Args w) { x.step({ p, w }, false); };
    S('r', { "SET", k, v }); S('r', { "GET", k }); S('p', { "get", k.find('\0') == std::string::npos ? k : "q" }); S('r', { "EXISTS", o, k }); S('r', { "SET", o, k, "FLAGS", "4294967295" });
    if (mcok) { S('m', { "get", k, o }); S('m', { "set", k, "77", "100", v }); S('m', { "append", k, "0", "0", "z" }); S('m', { "get", k, k }); }
    if (htok) { S('h', { "GET", k }); S('h', { "PUT", k, v, "ttl=7", "flags=8" }); S('h', { "GET", k }); }
    S('r', { "TTL", k }); S('r', { "MGET", k, o, k + "3" }); S('r', { "APPEND", k, v }); S('r', { "PREPEND", k, "_" }); S('r', { "GET", k }); S('r', { "KEYS", "*" });
    S('r', { "SET", k, "9", "EX", "9" }); S('r', { "INCR", k }); S('r', { "PTTL", k }); S('r', { "SET", k, v, "KEEPTTL", "GET" }); S('r', { "DEL", o }); S('r', { "GET", k }); if (mcok) S('m', { "delete", k }); else S('r', { "DEL", k }); S('r', { "GET", k });
    Map d = srv_dump(); if (!(d == x.M.m)) mc_fail("state", "the cache is %s but must be %s", showdump(d).c_str(), showdump(x.M.m).c_str());
}
void settings() {
    bool T = mc_thorough; uint64_t idx = 0; auto mine = [&] { return (int)(idx++ % mc_nparts) == mc_part; };
    auto mcok = [](const std::string &k) { if (k.empty() || k.size() > 249) return false; for (unsigned char c : k) if (c <= 32 || c == 127) return false; return true; };
    auto htok = [](const std::string &k) { if (k.empty() || k.size() > 250 || k[0] == '@') return false; for (unsigned char c : k) if (c <= 32 || c >= 127 || strchr("%+@$?=&#/", c)) return false; return true; };
    auto all = [&](const std::string &k, const std::string &v) { for (int c = 0; c < 8; c++) { if (!T && v.size() > 100000 && c % 3) continue; mc_tick(); cfg(c & 1, c & 4 ? 3 : 1, c & 2); X x; cur += " key=" + (k.size() > 60 ? vfmt("%zu bytes ", k.size()) + k.substr(0, 30) : k) + vfmt(" value of %zu bytes", v.size()); script(x, k, v, mcok(k), htok(k)); x.end(); } };
    // every key of one and two bytes, three bytes over the boundaries of the packed alphabet
    for (int a = 0; a < 256; a++) if (mine()) { all(std::string(1, (char)a), std::string(1, (char)a)); for (int b = 0; b < 256; b++) if (T || b % 7 == a % 7) all(std::string(1, (char)a) + (char)b, "v"); }
    const char B[] = "\0/09:@AZ[_`az{-.~\xff"; std::string al(B, sizeof B - 1);
    for (char a : al) for (char b : al) for (char c : al) if (mine()) { std::string k; k += a; k += b; k += c; all(k, k); if (T || c == al[(a ^ b) & 15]) all(std::string(k.rbegin(), k.rend()) + k + k, "\r\n"); }
    // lengths
    for (int n = 0; n <= (T ? 1100 : 300); n++) if (mine()) for (char f : { 'a', '\xff', 'Z' }) { std::string k(n, f); all(k, std::string(n, 'v')); if (n) { k[n - 1] = '!'; all(k, ""); k[n - 1] = 'b'; all(k, "x"); } }
    for (size_t n : { 127, 128, 129, 255, 256, 1023, 4095, 4096, 16383, 16384, 65535, 65536, 70000, 1048576, 2097152 }) if (mine()) { all("k", std::string(n, '\n')); if (n <= 70000) all(std::string(n, 'K'), "v"); }
    // command sequences in every setting
    static std::vector<Args> C = alphabet(true); std::vector<Let> L; for (auto &a : C) { std::string w = low(a[0]); if (a[0][0] == '@') L.push_back({ '@', { a[0].substr(1) } }); else if (w != "dbsize" && w != "sweep" && w != "scan") L.push_back({ 'r', a }); }
    auto M2 = parse({ "m set k 7 0 5", "m append k 0 0 1", "m gets k j", "m incr k 3", "m delete k", "h PUT k 5 ttl=3 flags=9", "h DELETE k", "p set j w xx get", "p mgets k j" }); for (auto &l : M2) L.push_back(l);
    for (int c = 0; c < 8; c++) for (auto &a : L) for (auto &b : L) for (int third = 0; third < (T ? (int)L.size() : 3); third++) {
        if (!mine()) continue;
        mc_tick(); cfg(c & 1, c & 4 ? 3 : 1, c & 2); X x; Let e = T ? L[third] : third == 0 ? Let{ 'r', { "MGET", "k", "j" } } : third == 1 ? Let{ 'm', { "get", "k", "j" } } : Let{ 'r', { "TTL", "k" } };
        if (x.step(a) && x.step(b)) x.step(e);
        x.end();
    }
}
Reg r1("cross", { "--shards=2", "--cas=yes" }, cross), r2("ttl", { "--shards=2", "--cas=yes" }, ttl), r3("casx", { "--shards=2", "--cas=yes" }, cas), r4("settings", { "--shards=2" }, settings);
}
