// Malformed input: every small change of many requests, and every short string
// over the tokens of each protocol, in exactly sized deliveries and byte by
// byte, while other connections are in the middle of a request of their own.
#include "reqs.h"
namespace {
enum { R, M, H, G };
struct By { net_conn *c; std::string first, rest, want; };
struct Bystanders {
    std::vector<By> b;
    void open() {
        std::string q = pm('Q', Z("set pb 1"));
        b = { { 0, "*3\r\n$3\r\nSET\r\n$2\r\nr", "b\r\n$1\r\n1\r\n", OK }, { 0, "set mb 0 0 3\r\na", "bc\r\n", "STORED\r\n" }, { 0, "PUT /hb HTTP/1.1\r\nContent-Length: 3\r\n", "\r\nabc", "HTTP/1.1 200 OK\r\nContent-Length: 8\r\nConnection: Close\r\n\r\nStored\r\n" }, { 0, q.substr(0, 7), q.substr(7), "" } };
        for (auto &x : b) { x.c = srv_open(); if (&x == &b[3]) srv_req(x.c, pgstart("b")); std::string r = srv_req(x.c, x.first); if (!r.empty()) mc_die("bystander answered early"); }
    }
    void finish() {
        for (auto &x : b) {
            std::string r = srv_req(x.c, x.rest); int i = &x - &b[0];
            bool ok = i == 3 ? starts(r, pm('C', Z("SET 1"))) || r.find(pm('C', Z("SET"))) != std::string::npos || r.find("SET") != std::string::npos : i == 2 ? starts(r, "HTTP/1.1 200 OK\r\n") : r == x.want;
            if (!ok || x.c->closed != (i == 2)) mc_fail("bystander", "another connection's request %s%s was answered with %s", esc(x.first).c_str(), esc(x.rest).c_str(), esc(r).c_str());
            srv_close(x.c);
        }
        Map d = srv_dump();
        for (auto k : { "rb", "mb", "hb", "pb" }) if (!d.count(k)) mc_fail("bystander", "another connection's key %s was not stored", k);
    }
};
// the reply holds errors only (and at least one)
bool onlyerrors(int p, const std::string &r0) {
    size_t ns = r0.find_first_not_of('N'); const std::string r = ns == std::string::npos ? "" : r0.substr(ns);     // answers to the encryption request
    if (r.empty()) return false;
    // a changed first byte may select another protocol
    p = starts(r, "HTTP/") ? H : strchr("-+:$*", r[0]) && r[0] ? R : r.size() > 1 && !r[1] ? G : M;
    size_t i = 0;
    if (p == R) { while (i < r.size()) { if (r[i] != '-') return false; size_t e = r.find("\r\n", i); if (e == std::string::npos) mc_fail("framing", "the reply %s is not framed", esc(r).c_str()); i = e + 2; } return true; }
    if (p == M) { while (i < r.size()) { size_t e = r.find("\r\n", i); if (e == std::string::npos) mc_fail("framing", "the reply %s is not framed", esc(r).c_str()); std::string l = r.substr(i, e - i); if (l != "ERROR" && !starts(l, "CLIENT_ERROR ")) return false; i = e + 2; } return true; }
    if (p == H) { if (!starts(r, "HTTP/1.1 ")) mc_fail("framing", "the reply %s is no response", esc(r).c_str()); return r[9] == '4' || r[9] == '5'; }
    bool err = false;
    while (i < r.size()) {
        uint32_t l = 0; if (r.size() - i < 5) mc_fail("framing", "the reply %s is cut", esc(r).c_str());
        for (int k = 1; k < 5; k++) l = l << 8 | (uint8_t)r[i + k];
        if (l < 4 || l > r.size() - i - 1) mc_fail("framing", "the reply %s is cut", esc(r).c_str());
        if (r[i] == 'C') return false; if (r[i] == 'E') err = true;
        i += 1 + l;
    }
    return err;
}
uint64_t idx;
bool mine() { return (int)(idx++ % mc_nparts) == mc_part; }
static const char *PN[] = { "resp", "memcache", "http", "postgres" };
// Delivers the chunks. flush: bytes after which the connection must have answered or closed
void deliver(int p, const Strs &pre, const Strs &chunks, bool canflush) {
    mc_tick(); mc_transitions++;
    cur = PN[p]; for (auto &s : pre) cur += " | " + s; cur += " || "; for (auto &s : chunks) cur += " | " + s;
    srv_fresh();
    { net_conn *c = srv_open(); srv_req(c, resp({ "SET", "k", "old", "FLAGS", "3" })); srv_close(c); }
    Bystanders by; by.open();
    net_conn *c = srv_open();
    for (auto &s : pre) srv_feed(c, s);
    srv_take(c); Map before = srv_dump();
    bool nr = false; std::string all; for (auto &s : chunks) { srv_feed(c, s); all += s; }
    nr = all.find("noreply") != std::string::npos;
    std::string r = srv_take(c);
    bool bad = onlyerrors(p, r);
    Map d = srv_dump();
    if (bad && !nr) { if (!(d == before)) mc_fail("state", "input answered with %s changed the cache from %s to %s", esc(r).c_str(), showdump(before).c_str(), showdump(d).c_str()); for (auto &x : d) if (x.second.cas != before[x.first].cas) mc_fail("state", "input answered with %s changed a version", esc(r).c_str()); }
    mc_outcome(mc_hash(r.data(), std::min<size_t>(r.size(), 60), p)); mc_state(mc_hash(r.data(), std::min<size_t>(r.size(), 12), c->closed));
    if (canflush && !c->closed) {
        // more than any announced argument waits for; then the connection works again or is closed
        std::string fl; for (int i = 0; i < 40; i++) fl += "\r\n"; 
        if (p == R) fl += "PING\r\n"; else if (p == M) fl += "version\r\n"; else fl += "\r\n\r\n";
        srv_feed(c, fl); std::string r2 = srv_take(c);
        bool ok = c->closed || (p == R ? r2.size() >= 7 && r2.compare(r2.size() - 7, 7, "+PONG\r\n") == 0 || (r2.size() > 7 && r2.compare(r2.size() - 7, 7, "ERROR\r\n") == 0) : p == M ? r2.find("VERSION") != std::string::npos : false);
        if (p == M && !ok) { srv_feed(c, fl); ok = srv_take(c).find("VERSION") != std::string::npos; }
        if (!ok) mc_fail("stuck", "after %s the connection neither answers nor closes: %s", esc(all).c_str(), esc(r2).c_str());
    }
    by.finish();
    srv_close(c); srv_endcase(); mc_traces++;
    if (mc_traces % 50021 == 1) mc_sample("%s", esc(cur).c_str());
}
void both(int p, const Strs &pre, const std::string &s, bool flush) {
    deliver(p, pre, { s }, flush);
    Strs b; for (char ch : s) b.push_back(std::string(1, ch));
    deliver(p, pre, b, flush);
}
bool bignum(const std::string &s) { size_t n = 0; for (char ch : s) { n = isdigit((unsigned char)ch) ? n + 1 : 0; if (n >= 2) return true; } return false; }
void tokens(int p, const Strs &T, int depth, const Strs &pre, bool flush) {
    for (int d = 1; d <= depth; d++) {
        std::vector<int> v(d, 0);
        while (1) {
            if (mine()) { std::string s; for (int k : v) s += T[k]; if (d < depth) both(p, pre, s, flush && !bignum(s)); else deliver(p, pre, { s }, flush && !bignum(s)); }
            int i = d - 1; while (i >= 0 && ++v[i] == (int)T.size()) v[i--] = 0;
            if (i < 0) break;
        }
    }
}
void mutate(int p, const Strs &pre, const std::string &s, const std::string &after) {
    static const int few[] = { 0, 1, '\t', '\n', '\r', ' ', '"', '$', '%', '&', '\'', '*', '+', '-', '/', '0', '1', '9', ':', ';', '=', '?', 'A', '\\', 'a', 'x', '~', 127, 128, 255 };
    static const int pair[] = { 0, '\r', '\n', ' ', '-', '9', 255 };
    if (mine()) both(p, pre, s, false);
    for (size_t i = 0; i < s.size(); i++) {
        for (int b = 0; b < 256; b++) if (mine()) { std::string x = s; x[i] = b; deliver(p, pre, { x, after }, false); if (mc_thorough) { deliver(p, pre, { x.substr(0, i), x.substr(i), after }, false); deliver(p, pre, { x.substr(0, i + 1), x.substr(i + 1) + after }, false); } }
        if (mine()) { deliver(p, pre, { s.substr(0, i) + s.substr(i + 1) + after }, false); deliver(p, pre, { s.substr(0, i), after }, false); deliver(p, pre, { s.substr(i) + after }, false); }
        for (int b : few) if (mine()) deliver(p, pre, { s.substr(0, i) + (char)b + s.substr(i) + after }, false);
        for (size_t j = i + 1; j < s.size(); j++) { if (!mc_thorough && j > i + 4) break; for (int a : pair) for (int b : pair) if (mine()) { std::string x = s; x[i] = a; x[j] = b; deliver(p, pre, { x + after }, false); } }
        for (int w : { 2, 4 }) if (p == G && i + w <= s.size()) for (uint32_t v : { 0u, 1u, 2u, 3u, 4u, 5u, 8u, 16u, 100u, 0x7fffu, 0x8000u, 0xffffu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu }) if (mine()) { std::string x = s; x.replace(i, w, be32(v).substr(4 - w)); deliver(p, pre, { x + after }, false); deliver(p, pre, { x, after }, false); }
        for (size_t n : { 3, 16, 17, 300 }) if (mine() && i) { std::string x = s.substr(0, i); for (size_t k = 0; k < n; k++) x += s[i]; deliver(p, pre, { x + s.substr(i) + after }, false); }
    }
}
void run() {
    srv_popts.nshards = 2; srv_popts.usecas = true;
    std::vector<Strs> P; Strs pre; lists(P, pre);
    P[0].push_back(resp({ "SET", "k", "v", "EX", "5", "FLAGS", "7", "NX", "GET" })); P[0].push_back(resp({ "EXPIRE", "k", "100" })); P[0].push_back(resp({ "INCRBY", "k", "10" })); P[0].push_back(resp({ "SCAN", "0", "MATCH", "k*", "COUNT", "10" })); P[0].push_back("SET 'a b' \"c\\n\\x41\\\"d\" EX 5\r\n");
    P[1].push_back("stats\r\n"); P[1].push_back("gat 5 k\r\n"); P[1].push_back("verbosity 1\r\n"); P[1].push_back("decr k 12 noreply\r\n"); P[1].push_back("cas k 1 100 2 12 noreply\r\nab\r\n");
    P[2].push_back("PUT /k?ttl=5&flags=7&cas=1&xx&auth= HTTP/1.1\r\nHost: a\r\nAuthorization: Bearer x\r\nContent-Length: 2\r\nAccept: text/html\r\n\r\nab"); P[2].push_back("PUT /%41%2f HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n");
    P[3].push_back(pm('Q', Z("set e'a\\u0041\\'' 'b''c' ex $a$5$a$"))); P[3].push_back(pm('P', Z("n") + Z("set $1 $2 ex $3") + be16(2) + be32(25) + be32(0))); P[3].push_back(pm('B', Z("p") + Z("") + be16(1) + be16(1) + be16(2) + be32(1) + "k" + be32(0xffffffff) + be16(1) + be16(0))); P[3].push_back(pm('D', "P" + Z("p"))); P[3].push_back(pm('E', Z("p") + be32(5)));
    for (int p = 0; p < 4; p++) for (auto &s : P[p]) {
        Strs pr; if (!pre[p].empty()) pr.push_back(pre[p]);
        if (p == 3) pr.push_back(pm('P', Z("s") + Z("set $1 $2") + be16(0)) + pm('P', Z("") + Z("get k") + be16(0)) + pgbind("p", "s", { "k", "" }) + pgbind("", "", {}));
        mutate(p, pr, s, p == 0 ? "PING\r\n" : p == 1 ? "get k\r\n" : p == 2 ? "" : pm('S', ""));
        if (p == 3) mutate(p, {}, s, "");                    // before the startup message
    }
    mutate(3, {}, pgstart(), pm('Q', Z("get k"))); mutate(3, {}, be32(8) + be32(80877103), pgstart()); mutate(3, {}, be32(16) + be32(80877102) + be32(1) + be32(2), "");
    // token strings
    int x = mc_thorough;
    tokens(R, { "*1\r\n", "*2\r\n", "*0\r\n", "*-1\r\n", "*", "$1\r\n", "$3\r\n", "$0\r\n", "$-1\r\n", "$", "GET\r\n", "k\r\n", "\r\n", "\n", "\r", ":1\r\n", "+a\r\n", "99999999999999999999\r\n", "PING\r\n", "\"", "\\", " " }, 4 + x, {}, true);
    tokens(M, { "set k ", "get ", "cas k ", "incr k ", "delete k", "touch k ", "flush_all", "0 ", "1 ", "-1 ", "99999999999999999999 ", "noreply", "\r\n", "\n", "\r", " ", "k", "x", std::string(1, '\0'), std::string(251, 'q') }, 4 + x, {}, false);
    tokens(H, { "GET ", "PUT ", "/", "/k", "?", "ttl=", "&", "%4", "%", " HTTP/1.1\r\n", "HTTP/1.0", "\r\n", "\n", "Content-Length: ", "2", "-1", "99999999999999999999", ": ", "A", "\r\n\r\n", "ab" }, 4 + x, {}, false);
    tokens(H, { "Content-Length: ", "2\r\n", "-1\r\n", "99999999999999999999\r\n", "3\r\n", "Transfer-Encoding: chunked\r\n", "\r\n", "abc", "X: y\r\n", ":\r\n", "\n" }, 5 + x, { "PUT /k HTTP/1.1\r\n" }, false);
    auto msg = [](const std::string &b) { return b; };
    Strs qt = { "set ", "k ", "v", "'", "\"", "$1", "$$", "$a$", "$", "E'", "\\", "\\u00", "41", "\\uD8", "00", ";", " ", ":", std::string(1, '\0'), "*" };
    for (int d = 1; d <= 4 + x; d++) { // query texts, simple and prepared
        std::vector<int> v(d, 0);
        while (1) {
            if (mine()) { std::string s; for (int k : v) s += qt[k]; deliver(G, { pgstart() }, { pm('Q', Z(s)) }, false); deliver(G, { pgstart() }, { pm('P', Z("") + Z(s) + be16(0)) + pgbind("", "", { "a" }) + pm('E', Z("") + be32(0)) + pm('S', "") }, false); }
            int i = d - 1; while (i >= 0 && ++v[i] == (int)qt.size()) v[i--] = 0;
            if (i < 0) break;
        }
    }
    for (int t = 0; t < 256; t++) for (uint32_t l : { 0u, 1u, 3u, 4u, 5u, 6u, 7u, 8u, 9u, 10u, 12u, 16u, 0x7fffffffu, 0x80000000u, 0xffffffffu }) for (auto body : { Z(""), Z("") + Z(""), Z("") + Z("") + be16(0), Z("p") + Z("s") + be16(1) + be16(0), Z("") + Z("") + be16(0xffff), Z("") + Z("") + be16(0) + be16(0xffff), Z("") + Z("") + be16(0) + be16(1) + be32(0x7fffffff), "S" + Z("s"), std::string("PPP"), std::string() }) {
        if (!mine()) continue;
        std::string m = std::string(1, (char)t) + be32(l) + body; deliver(G, { pgstart() }, { m }, false);
        if (l == 4) { m = pm(t, body); both(G, { pgstart() }, m, false); both(G, {}, m, false); deliver(G, { pgstart() }, { pm('P', Z("s") + Z("get $1 $2 $65535") + be16(0)) + m + m }, false); }
    }
    // every first two bytes and every first four-byte length
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) if (mine()) { std::string s(1, (char)a); s += (char)b; deliver(a == '*' ? R : a == 0 ? G : M, {}, { s + "\r\n\r\n" }, false); }
    // long input without an end
    for (size_t n : { 100, 255, 256, 257, 1023, 1024, 1025, 2048, 4096, 65535, 65536, 1048576, 1200000 }) for (auto s : { "a", "A", "*", "0", " ", "$", "\r", "\n", "*1\r\n$", "*1", "GET /", "\"", "set k ", "*1\r\n$1000000\r\n" }) {
        if (!mine() || (n > 5000 && (*s == '\n' || *s == '\r'))) continue;
        std::string b = s; char f = b.size() == 1 ? b[0] : b.back() == '\n' ? 'z' : b.back() == '1' || b.back() == '$' ? '1' : 'q';
        b += std::string(n, f); int p = *s == '*' || *s == 'A' ? R : M;
        deliver(p, {}, { b }, false); deliver(p, {}, { b + "\r\n" }, false); deliver(p, {}, { b + " HTTP/1.1\r\n\r\n" }, false);
    }
    (void)msg;
    if (mc_part == 0) mc_note("cases", idx);
}
Reg r1("fuzz", { "--shards=2", "--cas=yes" }, run);
}
