// MONITOR: what each monitoring connection is shown, against what was executed.
#include "rmodel.h"
#include "pgmsg.h"
#include <pthread.h>
#include <errno.h>
#include <math.h>
extern "C" { extern bool useauth; extern char *auth; }
extern ssize_t (*srv_read_hook)(net_conn *, char *, size_t);
namespace {
enum { R, M, G, H };
// A monitoring connection: its background work runs on a thread of its own,
// which only runs while the explorer waits for it to block in a read again.
struct Mon { net_conn *c = 0; pthread_t th; bool blocked = false, done = false; std::string in; int eof = 0; bool ready = false; size_t seen = 0; };
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
std::vector<Mon *> mons;
ssize_t hook(net_conn *c, char *b, size_t n) {
    pthread_mutex_lock(&mu);
    Mon *m = 0; for (auto x : mons) if (x->c == c) m = x;
    m->blocked = true; pthread_cond_broadcast(&cv);
    while (!m->ready) pthread_cond_wait(&cv, &mu);
    m->ready = false; m->blocked = false;
    ssize_t r; if (m->eof) { r = m->eof == 1 ? 0 : -1; errno = ECONNRESET; } else { r = std::min(n, m->in.size()); memcpy(b, m->in.data(), r); m->in.erase(0, r); }
    pthread_mutex_unlock(&mu); return r;
}
void *worker(void *p) { Mon *m = (Mon *)p; m->c->work(m->c->bgud); pthread_mutex_lock(&mu); m->done = true; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); return 0; }
void settle(Mon *m) { while (!m->blocked && !m->done) pthread_cond_wait(&cv, &mu); }
Mon *start(const std::string &req) {
    Mon *m = new Mon; m->c = srv_open(); m->c->addr = "10.0.0." + std::to_string(mons.size() + 1) + ":5";
    srv_autobg = false; std::string r = srv_req(m->c, req); srv_autobg = true;
    if (!m->c->bg || r != OK) mc_fail("monitor", "%s was answered with %s", esc(req).c_str(), esc(r).c_str());
    pthread_mutex_lock(&mu); mons.push_back(m); pthread_create(&m->th, 0, worker, m); settle(m); pthread_mutex_unlock(&mu);
    if (m->done) mc_fail("monitor", "monitoring ended at once");
    return m;
}
// returns false when monitoring ended
bool input(Mon *m, const std::string &bytes, int eof) {
    pthread_mutex_lock(&mu); m->in = bytes; m->eof = eof; m->ready = true; m->blocked = false; pthread_cond_broadcast(&cv); settle(m); bool d = m->done; pthread_mutex_unlock(&mu);
    if (!d) return true;
    pthread_join(m->th, 0); m->c->worked = true; srv_finish_bg(m->c);
    if (!m->c->closed) mc_fail("monitor", "the connection of a finished monitor stays open");
    for (size_t i = 0; i < mons.size(); i++) if (mons[i] == m) mons.erase(mons.begin() + i);
    return false;
}
void stop(Mon *m, int eof) { if (input(m, "", eof)) mc_fail("monitor", "monitoring goes on after the peer left"); srv_close(m->c); delete m; }
// one line: +<seconds> [0 <addr>] "arg" "arg"
bool parse(const std::string &s, size_t &p, std::string &addr, Args &a, std::string &stamp) {
    if (s[p] != '+') return false;
    size_t e = s.find("\r\n", p); if (e == std::string::npos) return false;
    std::string l = s.substr(p + 1, e - p - 1); p = e + 2;
    for (unsigned char c : l) if (c < 32 || c > 126) return false;
    size_t i = l.find(" [0 "); if (i == std::string::npos) return false; stamp = l.substr(0, i);
    size_t j = l.find(']', i); if (j == std::string::npos) return false; addr = l.substr(i + 4, j - i - 4);
    i = j + 1; a.clear();
    while (i < l.size()) {
        if (l[i++] != ' ' || l[i++] != '"') return false;
        std::string w;
        for (;; i++) {
            if (i >= l.size()) return false;
            if (l[i] == '"') { i++; break; }
            if (l[i] != '\\') { w += l[i]; continue; }
            char c = l[++i];
            if (c == 'n') w += '\n'; else if (c == 'r') w += '\r'; else if (c == 't') w += '\t'; else if (c == '"' || c == '\\') w += c;
            else if (c == 'x') { if (i + 2 >= l.size() || !isxdigit((unsigned char)l[i + 1]) || !isxdigit((unsigned char)l[i + 2])) return false; w += (char)std::stoi(l.substr(i + 1, 2), 0, 16); i += 2; }
            else return false;
        }
        a.push_back(w);
    }
    return true;
}
struct Cmd { int proto; std::string bytes; int shown; Args args; Args holds; };   // args: exactly these; holds: among the arguments
Cmd rc(const Args &a, int shown = 1) { return { R, resp(a), shown, shown ? a : Args(), {} }; }
std::string stampnow() { char b[64]; snprintf(b, sizeof b, "%.6f", (double)srv_real / 1e9); return b; }
uint64_t outcome;
struct World {
    net_conn *c[4] = {}; int n = 0;
    std::string run(const Cmd &x) {
        net_conn *&k = c[x.proto];
        if (!k) { k = srv_open(); k->addr = vfmt("192.168.0.%d:%d", x.proto, 7000 + x.proto); if (x.proto == G) srv_req(k, pgstart()); }
        std::string r = srv_req(k, x.bytes);
        if (k->closed) { srv_close(k); k = 0; }
        return r;
    }
    void close() { for (auto &k : c) if (k) { srv_close(k); k = 0; } }
};
void shown(const Cmd &x) {
    for (auto m : mons) {
        const std::string &w = m->c->wrote; size_t p = m->seen;
        for (int k = 0; k < x.shown; k++) {
            std::string addr, st; Args a;
            if (p >= w.size()) mc_fail("missing", "%s was not shown", esc(x.bytes).c_str());
            size_t q = p;
            if (!parse(w, p, addr, a, st)) mc_fail("line", "%s is shown as %s", esc(x.bytes).c_str(), esc(w.substr(q)).c_str());
            if (addr != vfmt("192.168.0.%d:%d", x.proto, 7000 + x.proto)) mc_fail("line", "%s is shown with the address %s", esc(x.bytes).c_str(), addr.c_str());
            double now = (double)srv_real / 1e9; if (fabs(atof(st.c_str()) - now) > 0.00001) mc_fail("line", "%s is shown at %s but it is %s", esc(x.bytes).c_str(), st.c_str(), stampnow().c_str());
            if (!x.args.empty()) { Args e = x.args; if (!a.empty() && low(a[0]) == low(e[0])) e[0] = a[0]; if (a != e) { std::string g; for (auto &y : a) g += "[" + y + "]"; mc_fail("args", "%s is shown as the arguments %s", esc(x.bytes).c_str(), esc(g).c_str()); } }
            for (auto &y : x.holds) if (!std::count(a.begin(), a.end(), y)) mc_fail("args", "%s is shown without %s: %s", esc(x.bytes).c_str(), esc(y).c_str(), esc(w.substr(q)).c_str());
        }
        if (p != w.size()) mc_fail("extra", "%s is shown %d times, then follows %s", esc(x.bytes).c_str(), x.shown, esc(w.substr(p)).c_str());
        m->seen = w.size(); outcome = mc_hash64(x.shown, outcome);
    }
}
uint64_t idx; bool mine() { return (int)(idx++ % mc_nparts) == mc_part; }
// the commands with n monitors; replies as without monitors
void commands(const std::vector<Cmd> &S, int n) {
    mc_tick(); mc_transitions += S.size();
    cur = vfmt("%d monitors", n); for (auto &x : S) cur += " | " + x.bytes;
    std::vector<std::string> want; Map d0;
    srv_fresh(); { World w; for (auto &x : S) want.push_back(w.run(x)); d0 = srv_dump(); w.close(); } srv_endcase();
    srv_fresh(); World w; for (int i = 0; i < n; i++) start(resp({ i & 1 ? "monitor" : "MONITOR" }));
    outcome = n;
    for (size_t i = 0; i < S.size(); i++) { std::string r = w.run(S[i]); if (r != want[i] && S[i].bytes.find("stats") == std::string::npos && S[i].bytes.find("STATS") == std::string::npos) mc_fail("reply", "%s is answered with %s but without monitors with %s", esc(S[i].bytes).c_str(), esc(r).c_str(), esc(want[i]).c_str()); shown(S[i]); outcome = mc_hash(r.data(), std::min<size_t>(30, r.size()), outcome); }
    if (!(srv_dump() == d0)) mc_fail("state", "monitoring changed the result");
    while (!mons.empty()) stop(mons[0], 1);
    w.close(); srv_endcase(); mc_traces++; mc_outcome(outcome);
    if (mc_traces % 5003 == 1) mc_sample("%s", esc(cur).c_str());
}
std::vector<Cmd> core() {
    return { rc({ "SET", "k", "a \"b\"\r\n" }), rc({ "GET", "k" }), rc({ "KEYS", "*" }), rc({ "BOGUS" }, 0), { R, resp({ "AUTH", "x" }), 0, {}, {} },
        { M, "set mk 0 0 4\r\nv\r\nw\r\n", 1, {}, { "mk", "v\r\nw" } }, { M, "get mk k\r\n", 1, {}, { "mk", "k" } },
        { G, pm('Q', Z("set gk 'x y'")), 1, { "set", "gk", "x y" }, {} }, { H, "PUT /hk HTTP/1.1\r\nContent-Length: 2\r\n\r\n\n\"", 1, {}, { "hk", "\n\"" } }, rc({ "FLUSHALL" }) };
}
// events of monitors and commands in every order
void events(int depth) {
    std::vector<Cmd> C = core(); int nc = C.size(), na = nc + 9;
    for (int d = 1; d <= depth; d++) {
        std::vector<int> v(d, 0);
        while (1) {
            bool any = false; for (int k : v) any |= k == nc || k == nc + 1;
            if (any && mine()) {
                mc_tick(); std::vector<std::string> want; outcome = 5; Map d0;
                cur = "events"; for (int k : v) cur += k < nc ? " | " + C[k].bytes : vfmt(" | monitor event %d", k - nc);
                srv_fresh(); { World w; for (int k : v) if (k < nc) want.push_back(w.run(C[k])); d0 = srv_dump(); w.close(); } srv_endcase();
                srv_fresh(); World w; Mon *slot[2] = { 0, 0 }; size_t wi = 0;
                for (int k : v) {
                    mc_transitions++;
                    if (k < nc) { std::string r = w.run(C[k]); if (r != want[wi++]) mc_fail("reply", "%s is answered with %s but without monitors with %s", esc(C[k].bytes).c_str(), esc(r).c_str(), esc(want[wi - 1]).c_str()); shown(C[k]); outcome = mc_hash64(k, outcome); continue; }
                    int s = (k - nc) & 1, e = (k - nc) / 2; Mon *&m = slot[k - nc == 8 ? 0 : s];
                    if (k - nc == 8) { if (m) { size_t w0 = m->c->wrote.size(); if (!input(m, "\r\n", 0)) mc_fail("monitor", "an empty line ended the monitor"); if (m->c->wrote.size() != w0) mc_fail("monitor", "an empty line was answered"); } continue; }
                    if (e == 0) { if (!m) m = start("MONITOR\r\n"); }
                    else if (!m) continue;
                    else if (e == 1) { size_t w0 = m->c->wrote.size(); if (!input(m, resp({ "PING" }), 0) || m->c->wrote.substr(w0) != "+PONG\r\n") mc_fail("ping", "a PING of a monitor is answered with %s", esc(m->c->wrote.substr(w0)).c_str()); m->seen = m->c->wrote.size(); }
                    else if (e == 2) { stop(m, s + 1); m = 0; }
                    else { Mon *x = m; m = 0; if (input(x, s ? "GET k\r\n" : "*1\r\n$3\r\nxx", 0)) mc_fail("monitor", "monitoring goes on after another command"); srv_close(x->c); delete x; }
                }
                if (!(srv_dump() == d0)) mc_fail("state", "monitoring changed the result");
                while (!mons.empty()) stop(mons.back(), 1);
                w.close(); srv_endcase(); mc_traces++; mc_outcome(outcome); uint64_t st = 9; for (auto &x : d0) st = mc_hash(x.first.data(), x.first.size(), st); mc_state(st);
            }
            int i = d - 1; while (i >= 0 && ++v[i] == na) v[i--] = 0;
            if (i < 0) break;
        }
    }
}
void run() {
    srv_popts.nshards = 2; srv_popts.usecas = true; srv_read_hook = hook;
    // the list of monitors grows once and is then kept: before anything is counted
    { srv_fresh(); for (int i = 0; i < 4; i++) start("MONITOR\r\n"); while (!mons.empty()) stop(mons[0], 1); pogocache_free(cache); cache = 0; }
    // every command of every protocol
    for (auto &a : alphabet(false)) {
        if (a[0][0] == '@') continue; std::string c = low(a[0]);
        bool unknown = c == "bogus", never = c == "quit" || c == "monitor";
        for (int n : { 1, 2, 4 }) if (mine()) commands({ rc({ "SET", "k", "5" }), rc(a, !unknown && !never) }, n);
    }
    for (const char *t : { "set k 7 100 3\r\nabc\r\n", "add k 0 0 3\r\nabc\r\n", "append k 0 0 3\r\nabc\r\n", "prepend k 0 0 3\r\nabc\r\n", "replace k 0 0 3\r\nabc\r\n", "set k 0 0 3 noreply\r\nabc\r\n" }) if (mine()) commands({ { M, t, 1, {}, { "k", "abc" } } }, 2);
    for (const char *t : { "get k\r\n", "gets k\r\n", "delete k\r\n", "incr k 1\r\n", "touch k 100\r\n", "delete k noreply\r\n" }) if (mine()) commands({ { M, t, 1, {}, { "k" } } }, 2);
    for (const char *t : { "flush_all\r\n", "version\r\n" }) if (mine()) commands({ { M, t, 1, {}, {} } }, 2);
    for (const char *t : { "bogus\r\n", "set k 0 0 x\r\n", "\r\n" }) if (mine()) commands({ { M, t, 0, {}, {} } }, 2);
    for (const char *t : { "get k", "set k v", "mget k j", "keys *", "flush", "get", "incr k" }) if (mine()) { Args a = words(t); commands({ { G, pm('Q', Z(t)), 1, a, {} } }, 2); commands({ { G, pm('P', Z("") + Z(t) + be16(0)) + pgbind("", "", {}) + pm('E', Z("") + be32(0)) + pm('S', ""), 1, a, {} } }, 1); }
    if (mine()) { commands({ { G, pm('P', Z("") + Z("set $1 $2") + be16(0)) + pgbind("", "", { "a\nb", "\x01\\" }) + pm('E', Z("") + be32(0)) + pm('S', ""), 1, { "set", "a\nb", "\x01\\" }, {} } }, 1); commands({ { G, pm('Q', Z("begin")), 0, {}, {} } }, 1); }
    // every byte, pairs of bytes, and lengths
    for (int a = 0; a < 256; a++) for (int b = -1; b < 256; b++) {
        if (!mc_thorough && b > 0 && !strchr("\t\n\r \"\\'[]+x0n\x7f\x80\xff", b)) continue;
        if (!mine()) continue;
        std::string x(1, (char)a); if (b >= 0) x += (char)b;
        std::vector<Cmd> s = { rc({ "SET", x, x + x }), rc({ "GET", x, x }), rc({ "ECHO", "x41" + x }), { H, "PUT /k HTTP/1.1\r\nContent-Length: " + std::to_string(x.size()) + "\r\n\r\n" + x, 1, {}, { "k", x } } };
        commands(s, 2);
    }
    for (size_t l : { 0, 1, 200, 255, 256, 257, 511, 512, 1023, 1024, 4096, 65536, 300000 }) for (char ch : { 'q', '\0', '"' }) if (mine()) { std::string x(l, ch); commands({ rc({ "SET", x, "v", "EX", "9" }), rc({ "GET", x }), rc({ "DEL", "", x, "", x }) }, 2); }
    if (mine()) { Args a = { "DEL" }; for (int i = 0; i < 3000; i++) a.push_back(std::to_string(i)); commands({ rc(a) }, 2); }
    events(mc_thorough ? 5 : 4);
    // passwords
    useauth = true; auth = (char *)"s3cret";
    auto secret = [&](std::vector<Cmd> S, const char *what) {
        if (!mine()) return; mc_tick(); cur = what; for (auto &x : S) cur += " | " + x.bytes;
        srv_fresh(); useauth = false; Mon *m = start("MONITOR\r\n"); useauth = true; World w; mc_transitions += S.size();
        for (auto &x : S) { w.run(x); const std::string &l = m->c->wrote; for (auto bad : { "s3cret", "wr0ng", "s3c\\\"ret", "wr\\\"0ng" }) if (l.find(bad) != std::string::npos) mc_fail("secret", "%s: a password is shown: %s", what, esc(l).c_str()); shown(x); }
        stop(m, 1); w.close(); srv_endcase(); mc_traces++;
    };
    for (auto p : { "s3cret", "wr0ng" }) {
        bool ok = !strcmp(p, "s3cret");
        for (auto v : { "AUTH", "auth", "Auth", "aUTH" }) {
            secret({ rc({ v, p }, 0), rc({ "GET", "k" }, ok), rc({ v, "wr0ng" }, 0), rc({ v, "u", "wr0ng" }, 0), rc({ v, p, p, p }, 0), rc({ v }, 0) }, "RESP");
            secret({ { R, std::string("AUTH ") + p + "\r\n", 0, {}, {} }, { R, std::string(v) + " '" + p + "' x\r\n", 0, {}, {} }, { R, "GET k\r\n", ok, {}, {} } }, "telnet");
            secret({ { M, std::string(v) + " " + p + "\r\n", 0, {}, {} } }, "memcache");
            secret({ { G, pm('p', Z(p)), 0, {}, {} }, { G, pm('Q', Z(std::string(v) + " " + p)), 0, {}, {} } }, "Postgres");
        }
        secret({ { H, std::string("GET /k?auth=") + p + " HTTP/1.1\r\n\r\n", ok, {}, {} }, { H, std::string("GET /k HTTP/1.1\r\nAuthorization: Bearer ") + p + "\r\n\r\n", ok, {}, {} }, { H, std::string("PUT /k?ttl=5&auth=") + p + "&flags=3 HTTP/1.1\r\nContent-Length: 1\r\n\r\nv", ok, {}, {} }, { H, std::string("DELETE /k?auth=") + p + " HTTP/1.1\r\n\r\n", ok, {}, {} }, { H, std::string("GET /k?auth=wr0ng HTTP/1.1\r\nAuthorization: Bearer ") + p + "\r\n\r\n", 0, {}, {} } }, "HTTP");
    }
    useauth = false; auth = (char *)"";
    if (mc_part == 0) mc_note("cases", idx);
}
Reg r1("monitor", { "--shards=2", "--cas=yes" }, run);
}
