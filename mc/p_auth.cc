// Authentication: sequences of commands and password attempts over several
// connections and protocols. What an authorised connection gets is what it
// would get from a server without a password that never saw the rest; what
// anybody else gets is a refusal that changes nothing.
#include "rmodel.h"
#include "pgmsg.h"
#include <unistd.h>
extern "C" { extern bool useauth; extern char *auth; }
namespace {
enum { R, M, G, H, RT, NP };                        // RESP, memcache, Postgres, HTTP, RESP telnet
enum { CMD, RIGHT, WRONG, QUIET };                  // QUIET: a refusal that may be silent (noreply)
struct Lt { int proto; int conn; int kind; std::string bytes; bool cmp = true; };
struct Conn1 { net_conn *c = 0; bool authed = false, started = false; };
static const char *PW = "pw";
static bool refused(int p, const std::string &r, bool closed) {
    if (p == R || p == RT) return starts(r, "-NOAUTH ") && resp_value(r, 0, 0) == r.size();
    if (p == M) return r == "CLIENT_ERROR Authentication required\r\n";
    if (p == H) return starts(r, "HTTP/1.1 401 ") && closed;
    return false;
}
static bool pgquiet(const std::string &r) { // whole messages, none of them a result
    size_t p = 0;
    while (p < r.size()) {
        if (r.size() - p < 5) return false;
        uint32_t l = 0; for (int k = 1; k < 5; k++) l = l << 8 | (uint8_t)r[p + k];
        if (l < 4 || l > r.size() - p - 1) return false;
        if (strchr("CDT", r[p])) return false;
        p += 1 + l;
    }
    return true;
}
static std::string reply(net_conn *c) { return srv_take(c); }
static std::string describe(const Lt &l) { return vfmt("%s%d: ", l.proto == R ? "resp" : l.proto == M ? "memcache" : l.proto == G ? "postgres" : l.proto == H ? "http" : "telnet", l.conn) + l.bytes; }
static uint64_t outcome;
static void sequence(const std::vector<Lt> &S) {
    mc_tick();
    useauth = true; auth = (char *)PW;
    srv_fresh(); outcome = 1;
    cur = "password pw"; for (auto &l : S) cur += " | " + describe(l);
    Conn1 cs[NP][2]; std::vector<std::string> got(S.size()); std::vector<char> run(S.size(), 0); std::vector<char> closed(S.size(), 0);
    size_t al = 0;
    for (size_t i = 0; i < S.size(); i++) {
        const Lt &l = S[i]; mc_transitions++;
        Conn1 h; Conn1 &k = l.proto == H ? h : cs[l.proto][l.conn];
        if (!k.c) {
            k.c = srv_open();
            if (l.proto == G) { srv_feed(k.c, pgstart()); std::string r = reply(k.c); if (r != pm('R', be32(3))) mc_fail("startup", "step %zu: the startup message is answered with %s", i, esc(r).c_str()); }
        }
        Map before = srv_dump(); int sl = srv_sleeps; bool was = k.c->closed;
        srv_feed(k.c, l.bytes);
        got[i] = reply(k.c); closed[i] = k.c->closed; const std::string &r = got[i];
        outcome = mc_hash(r.data(), std::min<size_t>(r.size(), 40), outcome);
        if (was) { if (!r.empty()) mc_fail("closed", "step %zu: a closed connection was answered", i); }
        else if (l.proto == H) {
            if (l.kind == CMD) run[i] = 1;      // the letter carries the right password
            else if (l.kind == WRONG && !refused(H, r, k.c->closed)) mc_fail("refusal", "step %zu: the answer to %s is %s but must be a refusal", i, esc(l.bytes).c_str(), esc(r).c_str());
        } else if (k.authed && l.kind == CMD) run[i] = 1;
        else if (k.authed && l.kind == QUIET) run[i] = 1;
        else if (l.kind == RIGHT) {
            bool ok = l.proto == G ? (k.authed ? k.c->closed : starts(r, pm('R', be32(0)))) : l.proto == M ? r == "+OK\r\n" || r == "OK\r\n" : r == OK;
            if (!ok) mc_fail("grant", "step %zu: the right password is answered with %s", i, esc(r).c_str());
            k.authed = true;
        } else if (l.kind == WRONG) {
            bool ok = l.proto == G ? pgquiet(r) && (k.c->closed || starts(r, "E")) : l.proto == M ? starts(r, "ERROR") || starts(r, "CLIENT_ERROR ") : r[0] == '-' && resp_value(r, 0, 0) == r.size();
            if (!ok) mc_fail("wrong", "step %zu: the wrong password %s is answered with %s", i, esc(l.bytes).c_str(), esc(r).c_str());
        } else {
            bool ok = refused(l.proto, r, k.c->closed) || (l.kind == QUIET && r.empty());
            if (l.proto == G) ok = pgquiet(r) && (k.c->closed || starts(r, "E"));
            if (!ok) mc_fail("refusal", "step %zu: the answer to %s without the password is %s but must be a refusal", i, esc(l.bytes).c_str(), esc(r).c_str());
        }
        if (!run[i]) {
            Map d = srv_dump();
            if (!(d == before)) mc_fail("state", "step %zu: %s changed the cache from %s to %s without the password", i, esc(l.bytes).c_str(), showdump(before).c_str(), showdump(d).c_str());
            for (auto &x : d) if (x.second.cas != before[x.first].cas) mc_fail("state", "step %zu: %s changed a version", i, esc(l.bytes).c_str());
            if (srv_sleeps != sl || k.c->bg || !k.c->wrote.empty()) mc_fail("state", "step %zu: %s started work without the password", i, esc(l.bytes).c_str());
            if (access("/tmp/never-created-by-auth", F_OK) == 0) { unlink("/tmp/never-created-by-auth"); mc_fail("state", "step %zu: %s wrote a file without the password", i, esc(l.bytes).c_str()); }
        }
        if (l.proto == H) srv_close(h.c);
    }
    Map final = srv_dump();
    for (auto &p : cs) for (auto &k : p) if (k.c) srv_close(k.c);
    srv_endcase(); (void)al;
    // the twin without a password sees only what was authorised
    useauth = false; auth = (char *)"";
    srv_fresh();
    Conn1 ts[NP][2];
    for (size_t i = 0; i < S.size(); i++) {
        if (!run[i]) continue;
        const Lt &l = S[i]; Conn1 h; Conn1 &k = l.proto == H ? h : ts[l.proto][l.conn];
        if (!k.c) { k.c = srv_open(); if (l.proto == G) { srv_feed(k.c, pgstart()); reply(k.c); } }
        std::string b = l.bytes;
        if (l.proto == H) { size_t a; while ((a = b.find("auth=pw")) != std::string::npos) b.replace(a, 7, "z=1"); while ((a = b.find("Authorization: Bearer pw\r\n")) != std::string::npos) b.erase(a, 26); }
        srv_feed(k.c, b);
        std::string r = reply(k.c);
        if (l.cmp && r != got[i]) mc_fail("twin", "step %zu: %s is answered with %s but a server without a password answers %s", i, esc(l.bytes).c_str(), esc(got[i]).c_str(), esc(r).c_str());
        if (l.proto == H) srv_close(h.c);
    }
    Map d = srv_dump();
    if (!(d == final)) mc_fail("twin", "the cache is %s but without a password it would be %s", showdump(final).c_str(), showdump(d).c_str());
    for (auto &p : ts) for (auto &k : p) if (k.c) srv_close(k.c);
    srv_endcase(); mc_traces++;
    mc_outcome(outcome); uint64_t sh = 3; for (auto &x : final) { sh = mc_hash(x.first.data(), x.first.size(), sh); sh = mc_hash(x.second.val.data(), x.second.val.size(), sh); } mc_state(sh);
    if (mc_traces % 20011 == 1) mc_sample("%s", esc(cur).c_str());
}
static std::string join(const Args &a) { std::string s; for (auto &x : a) { if (!s.empty()) s += " "; s += x.empty() ? "''" : x.find_first_of("*?\"\\: ") != std::string::npos ? "'" + x + "'" : x; } return s; }
static Lt pgright(int c) { return { G, c, RIGHT, pm('p', Z(PW)) }; }
static Lt http(const char *m, const std::string &path, int how, const std::string &body = "") { // 0 none, 1 right query, 2 right header, 3 wrong query, 4 wrong header, 5 right header but wrong query
    std::string p = path, hd;
    auto q = [&](const char *s) { p += (p.find('?') == std::string::npos ? "?" : "&") + std::string(s); };
    if (how == 1) q("auth=pw"); if (how == 2 || how == 5) hd = "Authorization: Bearer pw\r\n"; if (how == 3 || how == 5) q("auth=pW"); if (how == 4) hd = "Authorization: Bearer pww\r\n";
    return { H, 0, how == 1 || how == 2 ? CMD : WRONG, std::string(m) + " " + p + " HTTP/1.1\r\n" + hd + (body.empty() ? "" : "Content-Length: " + std::to_string(body.size()) + "\r\n") + "\r\n" + body };
}
static uint64_t idx;
static bool mine() { return (int)(idx++ % mc_nparts) == mc_part; }
static void seqs(const std::vector<Lt> &A, int depth) {
    for (int d = 1; d <= depth; d++) {
        std::vector<int> v(d, 0);
        while (1) {
            if (mine()) { std::vector<Lt> s; for (int k : v) s.push_back(A[k]); sequence(s); }
            int i = d - 1; while (i >= 0 && ++v[i] == (int)A.size()) v[i--] = 0;
            if (i < 0) break;
        }
    }
}
// presenting s must grant access exactly when s is the password
static void attempt(const std::string &s, const char *pw, bool pgok, bool mcok) {
    mc_tick(); useauth = true; auth = (char *)pw; bool right = s == pw;
    auto probe = [&](int p, net_conn *c, const std::string &b, const std::string &okreply, const char *what) {
        mc_transitions++;
        std::string r = c->closed ? "" : srv_req(c, b); bool granted = p == G ? r.find("GET 0") != std::string::npos || r.find("GET") != std::string::npos : r == okreply;
        if (granted != right) mc_fail("grant", "%s: password %s, presented %s: access %s (%s)", what, esc(pw).c_str(), esc(s).c_str(), granted ? "granted" : "refused", esc(r).c_str());
        if (!right && p != G && !refused(p, r, c->closed)) mc_fail("refusal", "%s: after a wrong password the answer is %s", what, esc(r).c_str());
    };
    cur = "password " + std::string(pw) + " presented " + s;
    srv_fresh();
    net_conn *c = srv_open(); srv_req(c, resp({ "AUTH", s })); probe(R, c, resp({ "GET", "k" }), "$-1\r\n", "RESP"); srv_close(c);
    if (mcok && !right) { c = srv_open(); srv_req(c, "auth " + s + "\r\n"); probe(M, c, "get k\r\n", "END\r\n", "memcache"); srv_close(c); }
    if (pgok) { c = srv_open(); srv_req(c, pgstart()); srv_req(c, pm('p', Z(s))); probe(G, c, pm('Q', Z("get k")), "", "Postgres"); srv_close(c); }
    if (mcok && !s.empty()) {
        auto ht = [&](const std::string &q, const char *what) { c = srv_open(); std::string r = srv_req(c, q); bool granted = starts(r, "HTTP/1.1 404"); mc_transitions++; if (granted != right || (!right && !refused(H, r, c->closed))) mc_fail("grant", "%s: password %s, presented %s: %s", what, esc(pw).c_str(), esc(s).c_str(), esc(r).c_str()); srv_close(c); };
        ht("GET /k HTTP/1.1\r\nAuthorization: Bearer " + s + "\r\n\r\n", "HTTP header");
        if (s.find_first_of("%&+#=") == std::string::npos) ht("GET /k?auth=" + s + " HTTP/1.1\r\n\r\n", "HTTP query");
    }
    srv_endcase(); mc_traces++; mc_outcome(mc_hash64(right, 3));
}
static void attempts() {
    auto plain = [](const std::string &s) { for (unsigned char ch : s) if (ch <= 32) return false; return true; };
    auto one = [&](const std::string &s, const char *pw) { if (mine()) attempt(s, pw, s.find('\0') == std::string::npos, plain(s) && s != "noreply"); };
    for (const char *pw : { "pw", "a", "pass\"word'\\x", "\xc3\xa9\xff" }) {
        std::string P = pw; one("", pw); one(P, pw);
        for (size_t i = 0; i < P.size(); i++) { one(P.substr(0, i), pw); one(P.substr(i + 1), pw); for (int b = 0; b < 256; b++) { std::string s = P; s[i] = b; one(s, pw); } }
        for (int b = 0; b < 256; b++) { std::string B(1, (char)b); one(P + B, pw); one(B + P, pw); for (int d : { 0, 10, 32, 120 }) one(P + B + (char)d, pw); }
        one(P + P, pw); one(P + std::string(300, 'x'), pw); one("noreply", pw); one("*", pw);
    }
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) one(std::string(1, (char)a) + (char)b, "pw");
    std::string L(5000, 'q'); for (auto &s : { L, L + "q", L.substr(1), L.substr(1) + "r", "r" + L.substr(1), std::string(256, 'q'), std::string(5000 - 4096, 'q') }) one(s, L.c_str());
}
static void run() {
    srv_popts.nshards = 2; srv_popts.usecas = true;
    if (!useauth || strcmp(auth, "pw")) mc_fail("option", "--auth=pw did not configure the password");
    // every command alone, after wrong attempts, between them, and after the right password
    std::vector<Args> C = alphabet(false);
    for (auto t : { "SAVE TO /tmp/never-created-by-auth", "LOAD FROM /tmp/never-created-by-auth", "SAVE /tmp/never-created-by-auth", "SAVE", "LOAD", "MONITOR", "DEBUG POPULATE 10", "DEBUG DETACH", "FLUSHALL DELAY 1", "HELLO 3", "CONFIG GET *", "QUIT", "auth", "Version" }) C.push_back(words(t));
    for (auto &a : C) {
        if (a[0][0] == '@' || std::count(a.begin(), a.end(), "%cur") || std::count(a.begin(), a.end(), "%old") || std::count(a.begin(), a.end(), "%next")) continue;
        std::string cmd = low(a[0]);
        bool danger = cmd == "save" || cmd == "load" || cmd == "monitor" || (cmd == "debug" && a.size() > 2); // never authorised here
        bool isauth = cmd == "auth";
        for (int p : { R, RT, G }) {
            if (p == RT && (islower((unsigned char)a[0][0]) || join(a).find('\'') != std::string::npos)) continue;
            std::string b = p == R ? resp(a) : p == RT ? join(a) + "\r\n" : pm('Q', Z(join(a)));
            Lt c{ p, 0, isauth ? WRONG : CMD, b, cmd != "stats" };
            auto wrong = [&](int k) { return p == G ? Lt{ G, 0, WRONG, pm('p', Z(k == 0 ? "px" : k == 1 ? "p" : "pww")) } : Lt{ p, 0, WRONG, p == R ? resp(k == 0 ? Args{ "AUTH", "px" } : k == 1 ? Args{ "auth" } : k == 2 ? Args{ "AUTH", "default", "pw" } : Args{ "AUTH", "pw", "pw", "pw" }) : std::string(k == 0 ? "AUTH px\r\n" : k == 1 ? "AUTH\r\n" : k == 2 ? "AUTH default pw\r\n" : "AUTH pw pw pw\r\n") }; };
            Lt right = p == G ? pgright(0) : Lt{ p, 0, RIGHT, p == R ? resp({ "AUTH", PW }) : "AUTH pw\r\n" };
            Lt set = { p, 0, CMD, p == R ? resp({ "SET", "k", "7" }) : p == RT ? "SET k 7\r\n" : pm('Q', Z("set k 7")) };
            if (mine()) sequence({ c });
            for (int k = 0; k < (p == G ? 3 : 4); k++) { if (mine()) sequence({ wrong(k), c }); if (mine()) sequence({ c, wrong(k), c }); }
            if (danger) continue;
            Lt oset = { R, 1, CMD, resp({ "SET", "k", "secret" }) };
            if (mine()) sequence({ { R, 1, RIGHT, resp({ "AUTH", PW }) }, oset, c });              // another connection's password does not help
            if (isauth || cmd == "quit") continue;
            if (mine()) sequence({ right, c });
            if (mine()) sequence({ right, set, c, c });
            if (p != G) { if (mine()) sequence({ c, right, set, c }); if (mine()) sequence({ right, set, wrong(0), c }); }
        }
    }
    // memcache
    for (const char *t : { "set k 0 0 1\r\n5\r\n", "add k 0 0 1\r\n5\r\n", "replace k 0 0 1\r\n5\r\n", "append k 0 0 1\r\n5\r\n", "prepend k 0 0 1\r\n5\r\n", "cas k 0 0 1 1\r\n5\r\n", "get k\r\n", "gets k\r\n", "get k j\r\n", "delete k\r\n", "incr k 1\r\n", "decr k 1\r\n", "touch k 0\r\n", "flush_all\r\n", "flush_all 1\r\n", "version\r\n", "bogus\r\n", "gat 5 k\r\n", "gats 5 k\r\n", "verbosity 1\r\n", "quit\r\n", "stats\r\n", "set k 0 0 1 noreply\r\n5\r\n", "delete k noreply\r\n", "incr k 1 noreply\r\n", "flush_all noreply\r\n", "keys *\r\n", "save\r\n", "mget k\r\n", "ttl k\r\n", "setex k 5 v\r\n", "monitor\r\n", "debug populate 5\r\n" }) {
        std::string s = t; Lt c{ M, 0, s.find("noreply") != std::string::npos || s == "quit\r\n" ? QUIET : CMD, s, !starts(s, "stats") };
        if (s == "bogus\r\n" || starts(s, "gat") || starts(s, "verb") || starts(s, "keys") || starts(s, "mget") || starts(s, "ttl") || starts(s, "setex") || starts(s, "monitor") || starts(s, "debug") || starts(s, "save")) c.kind = WRONG;      // not memcache commands at all: any error will do
        Lt set = { M, 0, CMD, "set k 1 0 1\r\n7\r\n" };   // there is no way to present a password here
        auto wrong = [&](int k) { return Lt{ M, 0, WRONG, k == 0 ? "auth px\r\n" : k == 1 ? "auth\r\n" : k == 2 ? "auth u pw\r\n" : "auth pw pw pw\r\n" }; };
        if (mine()) sequence({ c });
        for (int k = 0; k < 4; k++) { if (mine()) sequence({ wrong(k), c }); if (mine()) sequence({ c, wrong(k), c }); }
        if (mine()) sequence({ { R, 1, RIGHT, resp({ "AUTH", PW }) }, { R, 1, CMD, resp({ "SET", "k", "9" }) }, c, { R, 1, CMD, resp({ "GET", "k" }) } });
        if (starts(s, "quit") || starts(s, "save") || starts(s, "monitor") || starts(s, "debug")) continue;
        if (mine()) sequence({ set, c, c }); if (mine()) sequence({ c, wrong(0), set, c });
    }
    // all protocols together
    std::vector<Lt> A = {
        { R, 0, RIGHT, resp({ "AUTH", PW }) }, { R, 0, WRONG, resp({ "AUTH", "px" }) }, { R, 0, CMD, resp({ "SET", "k", "1" }) }, { R, 0, CMD, resp({ "GET", "k" }) },
        { M, 0, WRONG, "auth px\r\n" }, { M, 0, CMD, "set k 0 0 1\r\n2\r\n" }, { M, 0, CMD, "get k\r\n" },
        pgright(0), { G, 0, WRONG, pm('p', Z("px")) }, { G, 0, CMD, pm('Q', Z("set k 3")) }, { G, 0, CMD, pm('P', Z("") + Z("get k") + be16(0)) + pgbind("", "", {}) + pm('E', Z("") + be32(0)) + pm('S', "") },
        http("GET", "/k", 1), http("PUT", "/k", 2, "4"), http("PUT", "/k", 0, "5"), http("DELETE", "/k", 5) };
    // a Postgres password message after the session began ends it: only once per session
    auto okseq = [&](const std::vector<Lt> &s) { int n = 0; for (auto &l : s) if (l.proto == G && (l.kind == RIGHT || l.kind == WRONG)) n++; return n <= 1; };
    for (int d = 1; d <= (mc_thorough ? 6 : 5); d++) {
        std::vector<int> v(d, 0);
        while (1) {
            if (mine()) { std::vector<Lt> s; for (int k : v) s.push_back(A[k]); if (okseq(s)) sequence(s); }
            int i = d - 1; while (i >= 0 && ++v[i] == (int)A.size()) v[i--] = 0;
            if (i < 0) break;
        }
    }
    // two connections of one protocol
    for (int p : { R, M }) {
        std::vector<Lt> B;
        for (int c = 0; c < 2; c++) {
            if (p == R) { B.push_back({ R, c, RIGHT, resp({ "AUTH", PW }) }); B.push_back({ R, c, WRONG, resp({ "AUTH", "pW" }) }); B.push_back({ R, c, WRONG, resp({ "AUTH", "default", "pw" }) }); B.push_back({ R, c, CMD, resp({ "INCR", "k" }) }); B.push_back({ R, c, CMD, resp({ "FLUSHALL" }) }); B.push_back({ R, c, WRONG, resp({ "AUTH", "" }) }); }
            else { B.push_back({ M, c, WRONG, "auth pW\r\n" }); B.push_back({ M, c, CMD, "set k 0 0 1\r\n2\r\n" }); B.push_back({ M, c, CMD, "incr k 1\r\n" }); B.push_back({ M, c, QUIET, "flush_all noreply\r\n" }); }
        }
        seqs(B, mc_thorough ? 6 : 5);
    }
    // HTTP: every method with every way to present it
    for (auto m : { "GET", "PUT", "DELETE" }) for (auto path : { "/k", "/k?ttl=5", "/k?nx", "/k?z" }) for (int h = 0; h < 6; h++) for (int pre = 0; pre < 2; pre++) {
        if (!mine()) continue;
        std::vector<Lt> s; if (pre) s.push_back(http("PUT", "/k", 2, "old")); s.push_back(http(m, path, h, *m == 'P' ? "new" : "")); s.push_back(http("GET", "/k", 1)); sequence(s);
    }
    attempts();
    useauth = true; auth = (char *)PW;
    if (mc_part == 0) mc_note("sequences", idx);
}
Reg r1("auth", { "--auth=pw", "--shards=2", "--cas=yes" }, run);
}
