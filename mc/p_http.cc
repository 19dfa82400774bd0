// HTTP: every combination of request parts against the documented outcome.
// The expectation is computed from the parts (each carries its meaning), not
// by parsing the request text again.
#include "proto.h"
extern "C" { extern int verb; }
extern "C" bool useauth; extern "C" char *auth;
struct Q { std::string text; enum { NONE, TTL, FLAGS, CAS, NX, XX, AUTH, UNTTL, UNFLAGS, UNCAS, UNAUTH } what; std::string val; };
// A parameter is its name, up to the first '=', and its value, the rest; a
// name without '=' has no value, and only nx and xx mean something that way.
static Q param(const std::string &s) {
    size_t e = s.find('='); bool v = e != std::string::npos;
    std::string n = s.substr(0, e), val = v ? s.substr(e + 1) : "";
    if (n == "nx") return { s, Q::NX, val };
    if (n == "xx") return { s, Q::XX, val };
    if (n == "ttl" || n == "ex") return { s, v ? Q::TTL : Q::UNTTL, val };
    if (n == "flags") return { s, v ? Q::FLAGS : Q::UNFLAGS, val };
    if (n == "cas") return { s, v ? Q::CAS : Q::UNCAS, val };
    if (n == "auth") return { s, v ? Q::AUTH : Q::UNAUTH, val };
    return { s, Q::NONE, "" };
}
static std::vector<Q> params(const std::string &s) {
    std::vector<Q> r; size_t a = 0;
    while (1) { size_t b = s.find('&', a); r.push_back(param(s.substr(a, b == std::string::npos ? b : b - a))); if (b == std::string::npos) return r; a = b + 1; }
}
struct H { std::string text; enum { NONE, BAD, CL, AUTH, HTML } what; std::string val; };
struct Req {
    std::string method, path; std::vector<Q> q; std::string ver; bool verok; std::vector<H> h; std::string body;
    std::string text() const {
        std::string s = method + " " + path;
        for (size_t i = 0; i < q.size(); i++) s += (i ? "&" : "?") + q[i].text;
        s += " " + ver + "\r\n";
        for (auto &x : h) s += x.text;
        return s + "\r\n" + body;
    }
};
static std::string unhex(const std::string &s) { return s; }
static bool validkey(const std::string &k) {
    if (k.empty() || k.size() > 250) return false;
    for (unsigned char c : k) if (c <= ' ' || c >= 0x7f || strchr("%+@$?=", c)) return false;
    return true;
}
static bool dec(const std::string &s, bool uns, __int128 &v) {
    size_t i = 0; bool neg = false; v = 0;
    if (s.empty() || s.size() > 21) return false;
    if (s[0] == '-' || s[0] == '+') { neg = s[0] == '-'; i = 1; }
    if (i == s.size() || (neg && uns)) return false;
    for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    return uns ? v <= UINT64_MAX : v >= INT64_MIN && v <= INT64_MAX;
}
static bool usecas = true;
struct Want { int code = 0; std::string body; bool anybody = false; bool wait = false; };
// The documented outcome; m is updated.
static Want expect(const Req &r, Map &m, const std::string &pw) {
    Want w;
    auto is = [&](int c, const char *b) { w.code = c; w.body = b; return w; };
    auto bad = [&] { return is(400, "Bad Request\r\n"); };
    if (!r.verok) return bad();
    bool html = false, hascl = false; std::string cl, tok; bool badauth = false, hasauth = false;
    for (auto &h : r.h) {
        if (h.what == H::BAD) return bad();
        if (h.what == H::CL) { __int128 v; if (!dec(h.val, true, v) || v > 500 * 1024 * 1024 || (hascl && cl != h.val)) return bad(); hascl = true; cl = h.val; }
        if (h.what == H::HTML) html = true;
        if (h.what == H::AUTH) { hasauth = !h.val.empty(); badauth = hasauth && !starts(h.val, "Bearer "); tok = badauth || !hasauth ? "" : h.val.substr(7); }
    }
    size_t need = 0; if (hascl) { __int128 v; dec(cl, true, v); need = (size_t)v; }
    if (r.body.size() < need) { w.wait = true; return w; }
    if (r.path.empty() || r.path[0] != '/') return bad();
    std::string key = r.path.substr(1), ttl, flags, cas, qa; bool nx = false, xx = false, httl = false, hfl = false, hcas = false;
    for (auto &q : r.q) switch (q.what) {
        case Q::TTL: ttl = q.val; httl = true; break; case Q::FLAGS: flags = q.val; hfl = true; break; case Q::CAS: cas = q.val; hcas = true; break;
        case Q::NX: nx = true; break; case Q::XX: xx = true; break; case Q::AUTH: qa = q.val; break;
        case Q::UNTTL: httl = false; break; case Q::UNFLAGS: hfl = false; break; case Q::UNCAS: hcas = false; break; case Q::UNAUTH: qa.clear(); break; default:;
    }
    if (r.method != "GET" && r.method != "PUT" && r.method != "DELETE") return is(405, "Method Not Allowed\r\n");
    if (!key.empty() && key[0] == '@') return bad();
    if (key.empty() && r.method == "GET") { w.code = 200; w.anybody = true; (void)html; return w; }
    if (!validkey(key)) return is(500, "ERR Invalid Key\r\n");
    if (!qa.empty()) tok = qa; else if (badauth) return is(401, "Unauthorized\r\n");
    if ((!pw.empty() || !tok.empty()) && tok != pw) return is(401, "Unauthorized\r\n");
    if (r.method == "GET") { if (!m.count(key)) return is(404, "Not Found\r\n"); w.code = 200; w.body = m[key].val; return w; }
    if (r.method == "DELETE") { if (!m.count(key)) return is(404, "Not Found\r\n"); m.erase(key); return is(200, "Deleted\r\n"); }
    __int128 v; uint64_t cv = 0; int64_t exp = 0; uint32_t fl = 0;
    w.anybody = true; w.code = 500;
    if (hcas) { if (!dec(cas, true, v)) return w; cv = (uint64_t)v; }
    if (httl) { if (!dec(ttl, false, v) || v <= 0) return w; exp = clampadd((__int128)srv_mono + v * SEC); }
    if (hfl) { if (!dec(flags, true, v) || v > UINT32_MAX) return w; fl = (uint32_t)v; }
    if (nx && xx) return w;
    w.anybody = false;
    bool there = m.count(key);
    if ((nx && !hcas && there) || (xx && !there) || (hcas && (!there || !usecas || m[key].cas != cv))) return is(404, "Not Found\r\n");
    Ent e; e.val = r.body.substr(0, need); e.exp = exp; e.flags = fl; m[key] = e;
    return is(200, "Stored\r\n");
}
// Splits a response; false when it is not exactly one well-formed response.
static bool parse_response(const std::string &s, int &code, std::string &body) {
    size_t e = s.find("\r\n\r\n");
    if (e == std::string::npos || !starts(s, "HTTP/1.1 ") || s.size() < 15) return false;
    code = atoi(s.c_str() + 9);
    if (code < 100 || code > 599 || s[12] != ' ') return false;
    long cl = -1; bool close = false; size_t p = s.find("\r\n") + 2;
    while (p < e + 2) {
        size_t q = s.find("\r\n", p); std::string l = s.substr(p, q - p); p = q + 2;
        if (starts(l, "Content-Length: ")) { if (cl >= 0) return false; cl = atol(l.c_str() + 16); }
        else if (l == "Connection: Close") close = true;
        else if (l.find(": ") == std::string::npos) return false;
    }
    body = s.substr(e + 4);
    return cl == (long)body.size() && close;
}
struct HRun {
    Map m; uint64_t h = 0;
    void begin(const char *pw) { srv_fresh(); auth = (char *)pw; useauth = *pw; m.clear(); h = 0; cur = vfmt("auth=%s cas=%d", pw, usecas); }
    void learn() { Map d = srv_dump(); for (auto &x : d) if (m.count(x.first)) m[x.first].cas = x.second.cas; }
    void step(const Req &r) {
        mc_transitions++;
        for (auto i = m.begin(); i != m.end();) if (i->second.exp && i->second.exp <= srv_mono) i = m.erase(i); else ++i;
        std::string q = r.text(); cur += " | " + q;
        Map before = m;
        Want w = expect(r, m, auth);
        net_conn *c = srv_open();
        std::string got = srv_req(c, q);
        if (w.wait) {
            if (!got.empty() || c->closed) mc_fail("early", "a request whose body is still missing was answered: %s", esc(got).c_str());
            check_dump(m, "with a body missing");
        } else {
            int code = 0; std::string body;
            if (!parse_response(got, code, body)) mc_fail("malformed", "not exactly one well-formed response: %s", esc(got).c_str());
            bool ok = w.code == 500 ? code >= 400 && code != 401 && code != 404 && code != 405 : code == w.code;
            if (!ok) mc_fail("status", "status %d (%s) but must be %d", code, esc(body).c_str(), w.code);
            if (w.anybody ? body.empty() : body != w.body) mc_fail("body", "body %s but must be %s", esc(body).c_str(), esc(w.body).c_str());
            if (!c->closed) mc_fail("open", "Connection: Close was announced but the connection stays open");
        }
        Map d = srv_dump();
        if (!(d == m)) mc_fail("state", "the cache is %s but must be %s", showdump(d).c_str(), showdump(m).c_str());
        for (auto &x : d) if (usecas && before.count(x.first) && before[x.first].cas && (before[x.first] == m[x.first]) && r.method != "PUT" && before[x.first].cas != x.second.cas) mc_fail("version", "an untouched entry changed its version");
        for (auto &x : d) m[x.first].cas = x.second.cas;
        h = mc_hash(got.data(), got.size(), h); h = mc_hash64(d.size(), h);
        srv_close(c);
    }
    void end() { uint64_t s = 3; for (auto &x : m) { s = mc_hash(x.first.data(), x.first.size(), s); s = mc_hash(x.second.val.data(), x.second.val.size(), s); s = mc_hash64(x.second.exp + x.second.flags, s); } mc_state(s); mc_outcome(h); srv_endcase(); mc_traces++; if (mc_traces % 200000 == 1) mc_sample("%s", esc(cur).c_str()); }
    // what the cache holds first: 0 nothing, 1 k, 2 k with a ttl and flags, 3 an expired k
    void put(const std::string &k, const std::string &v, std::vector<Q> q = {}) {
        Req r{ "PUT", "/" + k, q, "HTTP/1.1", true, { { "Content-Length: " + std::to_string(v.size()) + "\r\n", H::CL, std::to_string(v.size()) } }, v };
        if (*auth) r.q.push_back({ "auth=" + std::string(auth), Q::AUTH, auth });
        step(r);
    }
    void start(int st) {
        if (st == 1) put("k", "old");
        if (st == 2) put("k", "old2", { { "ttl=10", Q::TTL, "10" }, { "flags=9", Q::FLAGS, "9" } });
        if (st == 3) { put("k", "gone", { { "ttl=1", Q::TTL, "1" } }); srv_mono += SEC; srv_real += SEC; }
        if (st) put("other", "o");
    }
};
static std::vector<Q> queries() {
    return { { "ttl=5", Q::TTL, "5" }, { "ex=7", Q::TTL, "7" }, { "ttl=0", Q::TTL, "0" }, { "ttl=-1", Q::TTL, "-1" }, { "ttl=x", Q::TTL, "x" }, { "ttl=", Q::TTL, "" }, { "ttl=9223372036854775807", Q::TTL, "9223372036854775807" }, { "ttl=9223372036854775808", Q::TTL, "9223372036854775808" },
        { "ttl=5 ", Q::NONE, "" },
        { "flags=3", Q::FLAGS, "3" }, { "flags=4294967295", Q::FLAGS, "4294967295" }, { "flags=4294967296", Q::FLAGS, "4294967296" }, { "flags=", Q::FLAGS, "" }, { "flags=1x", Q::FLAGS, "1x" },
        { "cas=1", Q::CAS, "1" }, { "cas=%cur", Q::CAS, "%cur" }, { "cas=x", Q::CAS, "x" }, { "cas=", Q::CAS, "" },
        { "nx", Q::NX, "" }, { "xx", Q::XX, "" }, { "nx=yes", Q::NX, "" }, { "xx=", Q::XX, "" }, { "", Q::NONE, "" }, { "bogus", Q::NONE, "" }, { "bogus=1", Q::NONE, "" }, { "NX", Q::NONE, "" }, { "ttlx=5", Q::NONE, "" }, { "tt", Q::NONE, "" },
        { "auth=pw", Q::AUTH, "pw" }, { "auth=pX", Q::AUTH, "pX" }, { "auth=p", Q::AUTH, "p" }, { "auth=pww", Q::AUTH, "pww" }, { "auth=", Q::AUTH, "" }, { "a", Q::NONE, "" }, { "=", Q::NONE, "" }, { "=ttl=5", Q::NONE, "" } };
}
static std::vector<H> headers(size_t n) {
    std::string N = std::to_string(n);
    return { { "Content-Length: " + N + "\r\n", H::CL, N }, { "content-length:" + N + "\r\n", H::CL, N }, { "Content-Length: 0\r\n", H::CL, "0" }, { "Content-Length: 99\r\n", H::CL, "99" },
        { "Content-Length: \r\n", H::CL, "" }, { "Content-Length: -1\r\n", H::CL, "-1" }, { "Content-Length: x\r\n", H::CL, "x" }, { "Content-Length: 1x\r\n", H::CL, "1x" }, { "Content-Length: 99999999999999999999\r\n", H::CL, "99999999999999999999" }, { "Content-Length: 18446744073709551615\r\n", H::CL, "18446744073709551615" },
        { "Host: x\r\n", H::NONE, "" }, { "Accept: text/html\r\n", H::HTML, "" }, { "Accept: */*\r\n", H::NONE, "" }, { "Connection: keep-alive\r\n", H::NONE, "" }, { "X: \r\n", H::NONE, "" }, { "X:\r\n", H::NONE, "" }, { "A: b: c\r\n", H::NONE, "" },
        { "nocolon\r\n", H::BAD, "" }, { ": v\r\n", H::BAD, "" }, { "N : v\r\n", H::BAD, "" }, { "X: y\n", H::BAD, "" }, { "\n", H::BAD, "" }, { "Transfer-Encoding: chunked\r\n", H::BAD, "" }, { "Transfer-Encoding: identity\r\n", H::BAD, "" },
        { "Authorization: Bearer pw\r\n", H::AUTH, "Bearer pw" }, { "authorization:Bearer pX\r\n", H::AUTH, "Bearer pX" }, { "Authorization: Bearer p\r\n", H::AUTH, "Bearer p" }, { "Authorization: Basic cHc=\r\n", H::AUTH, "Basic cHc=" }, { "Authorization: pw\r\n", H::AUTH, "pw" }, { "Authorization: \r\n", H::AUTH, "" }, { "Authorization: Bearer \r\n", H::AUTH, "Bearer " }, { "Authorization: bearer pw\r\n", H::AUTH, "bearer pw" } };
}
static uint64_t idx;
static bool mine() { mc_tick(); return (int)(idx++ % mc_nparts) == mc_part; }
// every request of these parts in every starting content
static void one(HRun &R, const char *pw, int st, Req r) {
    if (!mine()) return;
    R.begin(pw); R.start(st);
    for (auto &q : r.q) if (q.val == "%cur") { q.val = std::to_string(R.m.count("k") ? R.m["k"].cas : 1); q.text = "cas=" + q.val; }
    R.step(r);
    Req g{ "GET", "/k", {}, "HTTP/1.1", true, {}, "" }; if (*pw) g.h.push_back({ std::string("Authorization: Bearer ") + pw + "\r\n", H::AUTH, std::string("Bearer ") + pw });
    R.step(g);
    R.end();
}
static void run() {
    HRun R; (void)unhex;
    std::vector<Q> qs = queries(); int nq = qs.size();
    H cl3{ "Content-Length: 3\r\n", H::CL, "3" };
    srv_popts.nshards = 2;
    // queries of up to two (three) parameters
    int depth = mc_thorough ? 3 : 2;
    for (int cas = 0; cas < 2; cas++) { srv_popts.usecas = usecas = cas; for (const char *pw : { "", "pw" }) for (int st = 0; st < 4; st++) for (int d = 0; d <= depth; d++) {
        std::vector<int> v(d, 0);
        while (1) {
            Req r{ "PUT", "/k", {}, "HTTP/1.1", true, { cl3 }, "new" }; bool skip = false;
            for (int i : v) { r.q.push_back(qs[i]); if (qs[i].text == "ttl=5 ") skip = true; }
            if (!skip) { if (d == depth && d == 3 && (st == 3 || !cas)) ; else one(R, pw, st, r); }
            int i = d - 1; while (i >= 0 && ++v[i] == nq) v[i--] = 0;
            if (i < 0) break;
        }
    } }
    srv_popts.usecas = usecas = true;
    // values that hold '=' themselves, passwords among them
    for (const char *pw : { "", "p", "p=w", "p=w==", "=", "==", "=p" }) for (int st = 0; st < 2; st++) for (const char *pre : { "", "ttl=5&", "nx&", "bogus=a=b&", "flags=3&" }) for (const char *post : { "", "&", "&ttl=5", "&nx", "&x=&y", "&flags=3" })
        for (const char *q : { "auth=", "auth=p", "auth=p=", "auth=p=w", "auth=p=w=", "auth=p=w==", "auth=p=w===", "auth==", "auth===", "auth==p", "auth=w", "auth", "p=w==", "flags=3=4", "ttl=5=", "ttl==5", "cas=1=2", "nx=auth=p", "bogus=ttl=5", "bogus=auth=p=w==", "bogus==", "?auth=p" }) {
            Req r{ "PUT", "/k", params(std::string(pre) + q + post), "HTTP/1.1", true, { cl3 }, "new" }; one(R, pw, st, r);
            r.h.push_back({ "Authorization: Bearer p=w==\r\n", H::AUTH, "Bearer p=w==" }); one(R, pw, st, r);
        }
    // every query string of up to five (six) of these pieces
    {
        const char *tok[] = { "=", "&", "nx", "xx", "ttl", "flags", "auth", "pw", "5", "?", "x" }; int nt = 11;
        for (int len = 1; len <= (mc_thorough ? 6 : 5); len++) {
            std::vector<int> t(len, 0);
            while (1) {
                std::string s; for (int i : t) s += tok[i];
                for (const char *pw : { "", "pw" }) one(R, pw, len % 2, { "PUT", "/k", params(s), "HTTP/1.1", true, { cl3 }, "new" });
                int i = len - 1; while (i >= 0 && ++t[i] == nt) t[i--] = 0;
                if (i < 0) break;
            }
        }
    }
    // methods, paths, versions and up to two (three) headers
    struct { const char *v; bool ok; } vers[] = { { "HTTP/1.1", 1 }, { "HTTP/1.0", 1 }, { "HTTP/0.9", 1 }, { "HTTP/2.9", 1 }, { "HTTP/3.0", 0 }, { "HTTP/0.8", 0 }, { "HTTP/x.1", 0 }, { "HTTP/1.x", 0 } };
    const char *meths[] = { "GET", "PUT", "DELETE", "POST", "HEAD", "get", "PUTX", "PU", "OPTIONS" };
    std::vector<std::string> paths = { "/k", "/", "", "k", "/@stats", "/@flushall", "/nokey", "//k", "/k/", "/k%20", "/k+", "/a=b", "/$k", "*", "http://h/k", "/k@", "/@" };
    paths.push_back("/" + std::string(250, 'a')); paths.push_back("/" + std::string(251, 'a')); paths.push_back("/\x7f"); paths.push_back("/\xff"); paths.push_back("/a\tb"); paths.push_back("/~!#^&*()_-{}|:<>,.;'\"[]\\`");
    std::vector<H> hs = headers(3); int nh = hs.size();
    for (const char *pw : { "", "pw" }) for (const char *m : meths) for (auto &p : paths) for (int st = 0; st < 3; st++) for (auto &v : vers) for (size_t b : { 0, 3, 4 }) for (int h = -1; h < nh; h++) {
        Req r{ m, p, {}, v.v, v.ok, {}, std::string("new!").substr(0, b) };
        if (h >= 0) r.h.push_back(hs[h]);
        if (!mc_thorough && v.v != vers[0].v && (b == 4 || st == 1)) continue;
        one(R, pw, st, r);
    }
    int hd = mc_thorough ? 3 : 2;
    for (const char *pw : { "", "pw" }) for (const char *m : { "GET", "PUT", "DELETE" }) for (int st = 0; st < 2; st++) {
        std::vector<int> v(hd, 0);
        while (1) {
            for (int qi = 0; qi < 3; qi++) {
                Req r{ m, "/k", {}, "HTTP/1.1", true, {}, "new" };
                if (qi) { Q q{ qi == 1 ? "auth=pw" : "auth=pX", Q::AUTH, qi == 1 ? "pw" : "pX" }; r.q.push_back(q); }
                for (int i : v) r.h.push_back(hs[i]);
                one(R, pw, st, r);
            }
            int i = hd - 1; while (i >= 0 && ++v[i] == nh) v[i--] = 0;
            if (i < 0) break;
        }
    }
    // every byte in the key and in the body, every body length near a boundary
    for (int b = 0; b < 256; b++) if (b != ' ' && b != '\n') for (int pos = 0; pos < 3; pos++) for (const char *m : { "PUT", "GET", "DELETE" }) {
        std::string k = "aa"; k.insert(pos, 1, (char)b);
        Req r{ m, "/" + k, {}, "HTTP/1.1", true, { cl3 }, std::string(1, (char)b) + "\n" + (char)b };
        if (b == '?') { if (pos != 2) continue; r.path = "/aa"; r.q.push_back({ "", Q::NONE, "" }); }
        one(R, "", 1, r);
    }
    for (size_t l : { 0, 1, 63, 64, 127, 128, 255, 256, 1023, 4095, 4096, 65535, 65536, 1000000 }) for (int extra : { 0, 1 }) {
        if (!mine()) continue;
        std::string N = std::to_string(l), v(l, '\0'); for (size_t i = 0; i < l; i++) v[i] = (char)(i * 7);
        R.begin(""); Req r{ "PUT", "/k", {}, "HTTP/1.1", true, { { "Content-Length: " + N + "\r\n", H::CL, N } }, v + std::string(extra, 'z') };
        R.step(r); R.step({ "GET", "/k", {}, "HTTP/1.0", true, {}, "" }); R.end();
    }
    // short sequences of requests, with time passing
    std::vector<Req> S; std::vector<H> c1 = { { "Content-Length: 1\r\n", H::CL, "1" } };
    for (const char *k : { "/k", "/j" }) {
        S.push_back({ "GET", k, {}, "HTTP/1.1", true, {}, "" }); S.push_back({ "DELETE", k, {}, "HTTP/1.1", true, {}, "" });
        S.push_back({ "PUT", k, {}, "HTTP/1.1", true, c1, "1" }); S.push_back({ "PUT", k, { { "ttl=2", Q::TTL, "2" } }, "HTTP/1.1", true, c1, "2" });
        S.push_back({ "PUT", k, { { "nx", Q::NX, "" } }, "HTTP/1.1", true, c1, "3" }); S.push_back({ "PUT", k, { { "xx", Q::XX, "" }, { "flags=5", Q::FLAGS, "5" } }, "HTTP/1.1", true, c1, "4" });
        S.push_back({ "PUT", k, { { "nx", Q::NX, "" }, { "ex=1", Q::TTL, "1" } }, "HTTP/1.1", true, c1, "5" });
        S.push_back({ "PUT", k, { { "cas=%cur", Q::CAS, "%cur" } }, "HTTP/1.1", true, c1, "6" });
    }
    int ns = S.size() + 2, sd = 3;
    for (verb = 3; verb >= 0; verb -= 3, sd = mc_thorough ? 5 : 4) { // a verbose server answers the same
    std::vector<int> v(sd, 0);
    while (1) {
        if (mine()) {
            R.begin("");
            for (int i : v) {
                if (i >= (int)S.size()) { int64_t t = i == (int)S.size() ? 2 * SEC - 1 : 1; srv_mono += t; srv_real += t; cur += vfmt(" | advance %lld", (long long)t); continue; }
                Req r = S[i]; std::string k = r.path.substr(1);
                for (auto &q : r.q) if (q.val == "%cur") { q.val = std::to_string(R.m.count(k) ? R.m[k].cas : 1); q.text = "cas=" + q.val; }
                R.step(r);
            }
            R.end();
        }
        int i = sd - 1; while (i >= 0 && ++v[i] == ns) v[i--] = 0;
        if (i < 0) break;
    }
    }
    verb = 0;
    if (mc_part == 0) mc_note("http_cases", idx);
}
static Reg r1("http", { "--shards=2", "--cas=yes" }, run);
