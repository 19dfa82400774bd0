// Postgres wire protocol: message sequences, quoting, parameters and command
// replies against a reference model of the session and of the cache.
#include "rmodel.h"
#include "pgmsg.h"
extern "C" { extern bool useauth; extern char *auth; extern const char *version; }
static std::string rowdesc(const Strs &cols, int oid) {
    std::string b = be16(cols.size());
    for (auto &c : cols) b += Z(c) + be32(0) + be16(0) + be32(oid) + be16(0xFFFF) + be32(0xFFFFFFFF) + be16(1);
    return pm('T', b);
}
static std::string row(const Strs &cols) { std::string b = be16(cols.size()); for (auto &c : cols) b += be32(c.size()) + c; return pm('D', b); }
static std::string tag(const std::string &t) { return pm('C', Z(t)); }
static const std::string READY = pm('Z', "I");
struct Msg { char t; std::string b; };
// false when the bytes are not a sequence of whole messages
static bool msgs(const std::string &s, std::vector<Msg> *out) {
    size_t p = 0;
    auto rd = [&](size_t at) { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (uint8_t)s[at + i]; return v; };
    while (p < s.size()) {
        if (s.size() - p < 5) return false;
        uint32_t l = rd(p + 1);
        if (l < 4 || l > s.size() - p - 1) return false;
        if (out) out->push_back({ s[p], s.substr(p + 5, l - 4) });
        p += l + 1;
    }
    return true;
}
static uint32_t rd16(const std::string &s, size_t p) { return (uint8_t)s[p] << 8 | (uint8_t)s[p + 1]; }
static bool rowcols(const std::string &b, Strs &cols) {
    if (b.size() < 2) return false;
    size_t n = rd16(b, 0), p = 2;
    for (size_t i = 0; i < n; i++) {
        if (b.size() - p < 4) return false;
        uint32_t l = 0; for (int k = 0; k < 4; k++) l = l << 8 | (uint8_t)b[p + k];
        p += 4; if (l > b.size() - p) return false;
        cols.push_back(b.substr(p, l)); p += l;
    }
    return p == b.size();
}
// an error message: terminated fields, severity, code and text among them
static bool iserr(const Msg &m) {
    if (m.t != 'E' || m.b.empty() || m.b.back()) return false;
    std::string seen; size_t p = 0;
    while (p < m.b.size() && m.b[p]) { seen += m.b[p]; size_t e = m.b.find('\0', p); if (e == std::string::npos) return false; p = e + 1; }
    return p == m.b.size() - 1 && seen.find('S') != std::string::npos && seen.find('C') != std::string::npos && seen.find('M') != std::string::npos;
}
// ---------------------------------------------------------------- query text
enum { Q_OK, Q_ERR, Q_EMPTY, Q_UNCLAIMED };
struct Tok { std::string s; int param; bool join; };
static void utf8(std::string &o, uint32_t c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int hex4(const std::string &s, size_t i) { if (i + 4 > s.size()) return -1; int v = 0; for (int k = 0; k < 4; k++) { char c = s[i + k]; if (!isxdigit((unsigned char)c)) return -1; v = v * 16 + (isdigit(c) ? c - '0' : tolower(c) - 'a' + 10); } return v; }
static int text(const std::string &s, std::vector<Tok> &out) {
    size_t i = 0, n = s.size(); bool unclaimed = false, adj = false;
    int verdict = Q_OK;
    while (1) {
        if (i < n && ws(s[i])) { while (i < n && ws(s[i])) i++; adj = false; }
        if (i >= n) break;
        Tok t{ "", 0, adj };
        char c = s[i];
        if (c == ';') { bool other = false, blank = false; for (; i < n; i++) if (ws(s[i])) blank = true; else if (s[i] != ';') other = true; if (other) { verdict = Q_ERR; } else if (blank) unclaimed = true; break; }
        if (c == '"') return Q_ERR;
        if (c == '\'') {
            for (i++;; i++) {
                if (i >= n) return Q_ERR;
                if (s[i] == '\'') { if (i + 1 < n && s[i + 1] == '\'') i++; else break; }
                t.s += s[i];
            }
            i++;
        } else if (c == '$') {
            if (i + 1 >= n || !isdigit((unsigned char)s[i + 1])) return Q_ERR;
            long v = 0; for (i++; i < n && isdigit((unsigned char)s[i]); i++) v = std::min(v * 10 + (s[i] - '0'), 1000000L);
            if (v == 0 || v > 65535) return Q_ERR;
            t.param = v;
        } else if ((c == 'E' || c == 'e') && i + 1 < n && s[i + 1] == '\'') {
            size_t st = i + 2, e = st;
            while (e < n && s[e] != '\'') e += s[e] == '\\' ? 2 : 1;
            if (e >= n) return Q_ERR;
            std::string x = s.substr(st, e - st);
            for (size_t k = 0; k < x.size(); k++) {
                if (x[k] != '\\') { t.s += x[k]; continue; }
                char d = x[++k];
                if (d == 'b') t.s += '\b'; else if (d == 'f') t.s += '\f'; else if (d == 'n') t.s += '\n'; else if (d == 'r') t.s += '\r'; else if (d == 't') t.s += '\t';
                else if (d == '\\' || d == '\'' || d == '"' || d == '/') t.s += d;
                else if (d == 'u') {
                    int h = hex4(x, k + 1);
                    if (h < 0) { unclaimed = true; continue; }
                    k += 4;
                    if (h >= 0xD800 && h < 0xE000) {
                        if (k + 2 < x.size() && x[k + 1] == '\\' && x[k + 2] == 'u') {
                            int l = hex4(x, k + 3);
                            if (h < 0xDC00 && l >= 0xDC00 && l < 0xE000) { h = 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00); k += 6; }
                            else { unclaimed = true; continue; }
                        } else h = 0xFFFD;
                    }
                    utf8(t.s, h);
                } else if (isalnum((unsigned char)d)) unclaimed = true; // \x, octal and the like differ among databases
                else t.s += d;
            }
            i = e + 1;
        } else while (i < n && !ws(s[i]) && !strchr(";'\"$", s[i])) t.s += s[i++];
        out.push_back(t); adj = true;
    }
    if (verdict == Q_ERR) return Q_ERR;
    if (unclaimed) return Q_UNCLAIMED;
    return out.empty() ? Q_EMPTY : Q_OK;
}
// ------------------------------------------------------------------- sessions
struct Stmt { std::vector<Tok> toks; int nparams; uint64_t gen; };
struct Portal { std::string stmt; Strs params; uint64_t gen; };
struct World { RModel M; uint64_t gen = 0; };
struct Sess {
    World &W; net_conn *c; std::map<std::string, Stmt> st; std::map<std::string, Portal> po; int oid = 25; bool failed = false, ext = false, open = true, pwonly = false;
    uint64_t h = 0;
    Sess(World &w) : W(w) { c = srv_open(); }
    void start() {
        std::string got = srv_req(c, pgstart());
        std::string want = pm('R', be32(0)) + pm('S', Z("client_encoding") + Z("UTF8")) + pm('S', Z("server_encoding") + Z("UTF8")) + pm('S', Z("server_version") + Z(std::string(version) + " (Pogocache)")) + READY;
        if (got != want) mc_fail("startup", "the startup reply is %s but must be %s", esc(got).c_str(), esc(want).c_str());
    }
    void end() { srv_close(c); }
    void differ(const std::string &q, const std::string &got, const std::string &want) { mc_fail("reply", "the reply to %s is %s but must be %s", esc(q).c_str(), esc(got).c_str(), esc(want).c_str()); }
    // Feed bytes and compare; want "E" = an error (then READY unless extended)
    void expect(const std::string &bytes, const std::string &want, const std::string &shown) {
        srv_realthreads = starts(want, tag("LOAD OK"));  // its workers wait for one another
        std::string got = srv_req(c, bytes);
        srv_realthreads = false;
        h = mc_hash(got.data(), got.size(), h);
        std::vector<Msg> m;
        if (!msgs(got, &m)) mc_fail("framing", "the reply to %s is not a sequence of whole messages: %s", esc(shown).c_str(), esc(got).c_str());
        if (want == "E") {
            bool rdy = !ext;
            if (m.size() != (rdy ? 2u : 1u) || !iserr(m[0]) || (rdy && (m[1].t != 'Z' || m[1].b != "I"))) differ(shown, got, rdy ? "an error and ready" : "an error alone");
            if (ext) failed = true;
        } else if (got != want) differ(shown, got, want);
        if (c->closed == open) mc_fail("closed", "%s: connection closed=%d", esc(shown).c_str(), c->closed);
        Map d = srv_dump();
        if (!(d == W.M.m)) mc_fail("state", "after %s the cache is %s but must be %s", esc(shown).c_str(), showdump(d).c_str(), showdump(W.M.m).c_str());
        for (auto &x : d) { W.M.m[x.first].cas = x.second.cas; W.M.everkeys.insert(x.first); }
    }
    // Executes a command delivered by these bytes, and checks everything.
    void command(Args a, const std::string &bytes, const std::string &shown) {
        std::string rdy = ext ? "" : READY;
        // directives
        if (starts(a[0], "::")) {
            std::string w = low(a[0]);
            if (w == "::bytea" || w == "::bytes") oid = 17; else if (w == "::text") oid = 25; else { expect(bytes, "E", shown); return; }
            a.erase(a.begin());
            if (a.empty()) { expect(bytes, tag(oid == 17 ? "BYTEA" : "TEXT") + rdy, shown); return; }
        }
        std::string c0 = low(a[0]);
        if (c0 == "begin" || c0 == "commit" || c0 == "rollback") { for (auto &ch : c0) ch = toupper(ch); expect(bytes, tag(c0) + rdy, shown); return; }
        std::string C = c0; for (auto &ch : C) ch = toupper(ch);
        std::vector<std::string> keys;
        W.M.prune(); Map before = W.M.m; size_t ever = W.M.everkeys.size();
        std::string r = W.M.handle(a, &keys), want; size_t n = a.size();
        auto num = [&] { return r.substr(1, r.size() - 3); };
        auto val = [&] { size_t e = r.find("\r\n"); return r.substr(e + 2, r.size() - e - 4); };
        if (r == ERR) { expect(bytes, "E", shown); return; }
        if (c0 == "set" || c0 == "setex") {
            bool get = false;
            if (c0 == "set") for (size_t i = 3; i < n; i++) { std::string w = low(a[i]); if (w == "get") get = true; else if (w == "ex" || w == "px" || w == "exat" || w == "pxat" || w == "flags" || w == "cas") i++; }
            if (get) want = rowdesc({ "value" }, oid) + (r == NIL ? "" : row({ val() })) + tag(r == NIL ? "SET 0" : "SET 1");
            else want = tag(C + (r == OK ? " 1" : " 0"));
        } else if (c0 == "get") want = rowdesc({ "value" }, oid) + (r == NIL ? "" : row({ val() })) + tag(r == NIL ? "GET 0" : "GET 1");
        else if (c0 == "mget" || c0 == "mgets") {
            want = rowdesc(c0 == "mget" ? Strs{ "key", "value" } : Strs{ "key", "flags", "cas", "value" }, oid); int k = 0;
            for (size_t i = 1; i < n; i++) if (before.count(a[i])) { Ent &e = before[a[i]]; k++; want += c0 == "mget" ? row({ a[i], e.val }) : row({ a[i], std::to_string(e.flags), std::to_string(e.cas), e.val }); }
            want += tag("MGET " + std::to_string(k));
        } else if (c0 == "del" || c0 == "touch" || c0 == "expire") want = tag(C + " " + num());
        else if (c0 == "exists") want = rowdesc({ "exists" }, oid) + row({ num() }) + tag("EXISTS");
        else if (c0 == "ttl" || c0 == "pttl") want = rowdesc({ c0 }, oid) + (num() == "-2" ? tag(C + " 0") : row({ num() }) + tag(C + " 1"));
        else if (c0.find("incr") != std::string::npos || c0.find("decr") != std::string::npos) want = rowdesc({ "value" }, oid) + row({ num() }) + tag(c0[0] == 'u' ? C.substr(1) : C);
        else if (c0 == "append" || c0 == "prepend") want = tag(C + " " + num());
        else if (starts(c0, "flush")) { bool as = false; for (size_t i = 1; i < n; i++) { std::string w = low(a[i]); if (w == "async") as = true; if (w == "sync") as = false; if (w == "delay" && atoi(a[++i].c_str())) as = true; } want = tag(C + (as ? " ASYNC" : " SYNC")); }
        else if (c0 == "sweep" || c0 == "purge") want = tag(C + (n == 2 && low(a[1]) == "async" ? " ASYNC" : " SYNC"));
        else if (c0 == "save" || c0 == "load") want = tag(C + " OK");
        else if (c0 == "debug" && r == OK) want = tag("DEBUG POPULATE " + a[2]);
        else if (c0 == "echo") want = rowdesc({ "message" }, oid) + row({ a[1] }) + tag("ECHO");
        else if (c0 == "ping") want = rowdesc({ "message" }, oid) + row({ n == 1 ? "PONG" : a[1] }) + tag("PING");
        else if (c0 == "version") want = rowdesc({ "version" }, oid) + row({ version }) + tag("VERSION 1");
        if (!want.empty()) { expect(bytes, want + rdy, shown); return; }
        // replies whose exact bytes are not determined
        std::string got = srv_req(c, bytes); std::vector<Msg> m;
        h = mc_hash(got.data(), std::min(got.size(), (size_t)200), h);
        if (!msgs(got, &m) || m.empty()) mc_fail("framing", "the reply to %s is not a sequence of whole messages: %s", esc(shown).c_str(), esc(got).c_str());
        if (!ext) { if (m.back().t != 'Z' || m.back().b != "I") differ(shown, got, "... and ready"); m.pop_back(); }
        else if (m.back().t == 'Z') differ(shown, got, "no ready before sync");
        auto rows = [&](const Strs &cols, const std::string &tg, std::vector<Strs> &R) {
            std::string d = rowdesc(cols, oid), t = tag(tg);
            if (m.size() < 2 || m[0].t != 'T' || m[0].b != d.substr(5) || m.back().t != 'C' || (!tg.empty() && m.back().b != t.substr(5))) return false;
            for (size_t i = 1; i + 1 < m.size(); i++) { Strs v; if (m[i].t != 'D' || !rowcols(m[i].b, v) || v.size() != cols.size()) return false; R.push_back(v); }
            return true;
        };
        std::vector<Strs> R; bool ok = true;
        if (r == "dbsize") ok = rows({ "count" }, "DBSIZE", R) && R.size() == 1 && atoll(R[0][0].c_str()) >= (long long)before.size() && atoll(R[0][0].c_str()) <= (long long)ever;
        else if (r == "keys") { ok = rows({ "key" }, "KEYS " + std::to_string(keys.size()), R); std::vector<std::string> g; for (auto &v : R) g.push_back(v[0]); std::sort(g.begin(), g.end()); std::sort(keys.begin(), keys.end()); ok = ok && g == keys; }
        else if (r == "scan") {
            ok = rows({ "key", "cursor" }, "", R);
            bool full = a[1] == "0"; std::vector<std::string> g; for (auto &v : R) g.push_back(v[0]);
            for (int guard = 0; ok && full && !R.empty() && R[0][1] != "0" && guard < 1000; guard++) {
                a[1] = R[0][1]; R.clear(); m.clear(); std::string q = pm('Q', Z([&] { std::string s; for (auto &x : a) { s += "'"; for (char ch : x) { s += ch; if (ch == '\'') s += ch; } s += "' "; } return s; }()));
                if (ext) { srv_req(c, pm('S', "")); }
                bool e = ext; got = srv_req(c, q); ok = msgs(got, &m) && !m.empty() && m.back().t == 'Z'; if (ok) { m.pop_back(); ok = rows({ "key", "cursor" }, "", R); } ext = e && false;
                for (auto &v : R) g.push_back(v[0]);
            }
            std::set<std::string> us(g.begin(), g.end()); if (us.size() != g.size()) ok = false;
            std::sort(g.begin(), g.end()); std::sort(keys.begin(), keys.end());
            if (full) ok = ok && g == keys; else for (auto &k : g) if (!std::count(keys.begin(), keys.end(), k)) ok = false;
        } else if (c0 == "stats") ok = rows({ "stat", "value" }, "STATS " + std::to_string(m.size() - 2), R) && R.size() > 10;
        else if (c0 == "debug") ok = rows({ "detach" }, "DEBUG DETACH", R);
        if (!ok) differ(shown, got, "its documented reply");
        if (c->closed == open) mc_fail("closed", "%s: connection closed=%d", esc(shown).c_str(), c->closed);
        Map d = srv_dump();
        if (!(d == W.M.m)) mc_fail("state", "after %s the cache is %s but must be %s", esc(shown).c_str(), showdump(d).c_str(), showdump(W.M.m).c_str());
    }
    // false: nothing further is claimed about this session
    bool simple(const std::string &q) {
        mc_transitions++; cur += " | Q " + q;
        std::string b = pm('Q', Z(q));
        if (failed) { expect(b, "", "Q " + q); return true; }
        ext = false;
        std::vector<Tok> t; int v = text(q, t);
        bool par = false, join = false; for (auto &x : t) { if (x.param) par = true; if (x.join) join = true; }
        if (v == Q_UNCLAIMED || (v == Q_OK && join)) { std::string got = srv_req(c, b); std::vector<Msg> m; if (!msgs(got, &m) || m.empty() || m.back().t != 'Z') mc_fail("framing", "the reply to Q %s is %s", esc(q).c_str(), esc(got).c_str()); return false; }
        if (v == Q_ERR || par) expect(b, "E", "Q " + q);
        else if (v == Q_EMPTY) expect(b, pm('I', "") + READY, "Q " + q);
        else { Args a; for (auto &x : t) a.push_back(x.s); command(a, b, "Q " + q); }
        return true;
    }
    bool parse(const std::string &name, const std::string &q, int ntypes = 0) {
        mc_transitions++; cur += " | Parse " + name + ": " + q;
        std::string ty = be16(ntypes); for (int i = 0; i < ntypes; i++) ty += be32(25);
        std::string b = pm('P', Z(name) + Z(q) + ty);
        if (failed) { expect(b, "", "Parse"); return true; }
        ext = true;
        std::vector<Tok> t; int v = text(q, t);
        if (v == Q_UNCLAIMED) return false;
        int np = 0; std::set<int> ps; for (auto &x : t) if (x.param) ps.insert(x.param), np = std::max(np, x.param);
        if (v == Q_ERR || (int)ps.size() != np || name.size() >= 64) { expect(b, "E", "Parse"); return true; }
        expect(b, pm('1', ""), "Parse");
        st[name] = { t, np, ++W.gen };
        return true;
    }
    bool bind(const std::string &p, const std::string &s, const Strs &params) {
        mc_transitions++; cur += " | Bind " + p + "<-" + s; for (auto &x : params) cur += " [" + x + "]";
        std::string b = pgbind(p, s, params);
        if (failed) { expect(b, "", "Bind"); return true; }
        ext = true;
        if (p.size() >= 64 || s.size() >= 64) { expect(b, "E", "Bind"); return true; }
        if (!st.count(s)) return false;
        expect(b, pm('2', ""), "Bind");
        po[p] = { s, params, st[s].gen };
        return true;
    }
    bool describe(const std::string &s) {
        mc_transitions++; cur += " | Describe statement " + s;
        std::string b = pm('D', "S" + Z(s));
        if (failed) { expect(b, "", "Describe"); return true; }
        ext = true;
        if (!st.count(s)) { expect(b, "E", "Describe"); return true; }
        std::string d = be16(st[s].nparams); for (int i = 0; i < st[s].nparams; i++) d += be32(oid);
        expect(b, pm('t', d), "Describe");
        return true;
    }
    bool describeportal(const std::string &p) {          // answered together with the rows
        mc_transitions++; cur += " | Describe portal " + p;
        std::string b = pm('D', "P" + Z(p));
        if (failed) { expect(b, "", "Describe"); return true; }
        ext = true;
        expect(b, po.count(p) ? "" : "E", "Describe");
        return true;
    }
    bool execute(const std::string &p, int max = 0) {
        mc_transitions++; cur += " | Execute " + p;
        std::string b = pm('E', Z(p) + be32(max));
        if (failed) { expect(b, "", "Execute"); return true; }
        ext = true;
        if (!po.count(p)) { expect(b, "E", "Execute"); return true; }
        Portal &P = po[p];
        if (st[P.stmt].gen != P.gen) return false;      // prepared again since
        Stmt &S = st[P.stmt];
        if ((int)P.params.size() != S.nparams) { expect(b, "E", "Execute"); return true; }
        Args a;
        for (auto &t : S.toks) { std::string v = t.param ? P.params[t.param - 1] : t.s; if (t.join && !a.empty()) a.back() += v; else a.push_back(v); }
        if (a.empty()) return false;
        std::string shown = "Execute"; for (auto &x : a) shown += " [" + x + "]";
        command(a, b, shown);
        return true;
    }
    bool sync() {
        mc_transitions++; cur += " | Sync"; failed = ext = false;
        expect(pm('S', ""), READY, "Sync"); return true;
    }
    bool terminate() { mc_transitions++; cur += " | Terminate"; open = false; expect(pm('X', ""), "", "Terminate"); return false; }
};
static void fin(World &W, uint64_t h) {
    uint64_t sh = 7;
    for (auto &x : W.M.m) { sh = mc_hash(x.first.data(), x.first.size(), sh); sh = mc_hash(x.second.val.data(), x.second.val.size(), sh); sh = mc_hash64(x.second.exp ^ ((uint64_t)x.second.flags << 40), sh); }
    mc_state(sh); mc_outcome(h); srv_endcase(); mc_traces++;
    if (mc_traces % 60000 == 1) mc_sample("%s", esc(cur).c_str());
}
extern "C" { extern int verb, nshards; }
static void fresh(const char *what) { static bool ready; if (!ready || !mfs_log.empty()) { mfs_reset(); mfs_begin(); ready = true; } srv_fresh(); cur = what; mc_tick(); }
// ------------------------------------------------------- commands, all quotings
static std::string quoted(const Args &a, int style) {
    std::string s;
    for (size_t i = 0; i < a.size(); i++) {
        const std::string &x = a[i]; bool plain = !x.empty() && style == 0;
        for (char ch : x) if (!isalnum((unsigned char)ch) && !strchr("_*?.:-", ch)) plain = false;
        if (plain) s += x;
        else if (style == 2) { s += i & 1 ? "e'" : "E'"; for (char ch : x) { if (ch == '\'' || ch == '\\') s += '\\'; if (ch == '\n') { s += "\\n"; continue; } s += ch; } s += "'"; }
        else { s += "'"; for (char ch : x) { s += ch; if (ch == '\'') s += ch; } s += "'"; }
        s += style == 1 ? "\t" : " ";
    }
    s.pop_back();
    return s + (style == 1 ? ";" : style == 2 ? ";;" : "");
}
static bool skip(const Args &a) { std::string c = low(a[0]); return c == "select" || c == "quit" || c == "monitor" || (c == "debug" && (a.size() < 2 || low(a[1]) != "populate")); }
static void commands(bool cas, int shards, const char *shape) {
    usecas = cas; srv_popts.usecas = cas; nshards = srv_popts.nshards = shards;
    static std::vector<Args> F, C, AD;
    if (F.empty()) {
        for (auto &a : alphabet(false)) if (!skip(a)) F.push_back(a);
        for (auto &a : alphabet(true)) if (!skip(a)) C.push_back(a);
        for (auto &s : { "::bytea", "::text get k", "::bytes get k", "::bogus get k", "begin", "Commit", "rollback", "GET 'k'", "set k a'b" }) { F.push_back(words(s)); }
        for (auto &a : admin()) if (!skip(a)) AD.push_back(a);
        C.push_back(words("::bytea")); C.push_back(words("::text get k"));
    }
    std::vector<const std::vector<Args> *> S; for (const char *p = shape; *p; p++) S.push_back(*p == 'f' ? &F : *p == 'a' ? &AD : &C);
    int depth = S.size(); std::vector<int> v(depth, 0); uint64_t idx = 0;
    while (1) {
        if ((int)(idx++ % mc_nparts) == mc_part) {
            fresh(cas ? "cas" : "nocas");
            World W; Sess A(W); A.start();
            for (int i = 0; i < depth; i++) {
                Args a = (*S[i])[v[i]];
                if (a[0][0] == '@') { int64_t ns = atoll(a[0].c_str() + 1); srv_mono += ns; srv_real += ns; W.M.prune(); cur += " | advance"; continue; }
                Map d0 = srv_dump();
                for (auto &x : a) if (x[0] == '%' && x.size() > 3) { uint64_t now = a.size() > 1 && d0.count(a[1]) ? d0[a[1]].cas : 0; x = std::to_string(x == "%cur" ? now : now + 1); }
                int how = (v[0] + v[i] + i) % 4;
                if (how < 3) { if (!A.simple(quoted(a, how))) break; }
                else { // every argument a parameter
                    std::string q; Strs ps; size_t k = starts(a[0], "::") && a.size() > 1 ? 1 : 0;
                    q = quoted(Args(a.begin(), a.begin() + k + 1), 1); q = q.substr(0, q.size() - 1);
                    for (size_t j = k + 1; j < a.size(); j++) { q += " $" + std::to_string(j - k); ps.push_back(a[j]); }
                    if (!A.parse("", q, ps.size() % 3) || !A.describe("") || !A.bind("", "", ps) || !A.execute("") || !A.sync()) break;
                }
            }
            uint64_t h = A.h; A.end(); fin(W, h);
        }
        int i = depth - 1;
        while (i >= 0 && ++v[i] == (int)S[i]->size()) v[i--] = 0;
        if (i < 0) break;
    }
}
// ------------------------------------------------------------ message sequences
struct L { const char *name; std::function<bool(Sess &)> f; };
static std::vector<L> letters() {
    std::string n63(63, 'n'), n64(64, 'n');
    return {
        { "P", [](Sess &s) { return s.parse("", "set $1 $2"); } },
        { "Ps", [](Sess &s) { return s.parse("s", "get $1;"); } },
        { "Pt", [](Sess &s) { return s.parse("t", "set a$1$2 'x'$2 flags $3", 2); } },
        { "Pt2", [](Sess &s) { return s.parse("t", "append $2 $1"); } },
        { "Pd", [](Sess &s) { return s.parse("s", "::bytea mget $1 k"); } },
        { "Pbad", [](Sess &s) { return s.parse("s", "get 'open"); } },
        { "Pgap", [](Sess &s) { return s.parse("", "set $1 $3"); } },
        { "Perr", [](Sess &s) { return s.parse("s", "incr $1 x"); } },
        { "Pname", [=](Sess &s) { return s.parse(n63, "get k"); } },
        { "Plong", [=](Sess &s) { return s.parse(n64, "get k"); } },
        { "B", [](Sess &s) { return s.bind("", "", { "k", "v" }); } },
        { "Bps", [](Sess &s) { return s.bind("p", "s", { "k" }); } },
        { "Bs", [](Sess &s) { return s.bind("", "s", { "ab" }); } },
        { "Bpt", [](Sess &s) { return s.bind("p", "t", { "b", std::string("c\0'", 3), "9" }); } },
        { "Bqt", [](Sess &s) { return s.bind("q", "t", { "k", "" }); } },
        { "Bn", [=](Sess &s) { return s.bind(n63, n63, {}); } },
        { "Blong", [=](Sess &s) { return s.bind(n64, "s", { "k" }); } },
        { "Ds", [](Sess &s) { return s.describe("s"); } },
        { "Dt", [](Sess &s) { return s.describe("t"); } },
        { "E", [](Sess &s) { return s.execute(""); } },
        { "Ep", [](Sess &s) { return s.execute("p", 1); } },
        { "Eq", [](Sess &s) { return s.execute("q"); } },
        { "En", [=](Sess &s) { return s.execute(n63); } },
        { "S", [](Sess &s) { return s.sync(); } },
        { "Qset", [](Sess &s) { return s.simple("set k 'it''s'"); } },
        { "Qget", [](Sess &s) { return s.simple("get k"); } },
        { "Qbytea", [](Sess &s) { return s.simple("::bytea"); } },
        { "Qempty", [](Sess &s) { return s.simple(" ; "); } },
        { "Qbad", [](Sess &s) { return s.simple("get k; get k"); } },
        { "X", [](Sess &s) { return s.terminate(); } },
    };
}
static std::vector<L> more() {
    std::string n64(64, 'n'); std::vector<L> A = letters();
    std::vector<L> B = {
        { "Qlead", [](Sess &s) { return s.simple(" \t\n get k"); } },
        { "Qtext", [](Sess &s) { return s.simple("::text"); } },
        { "Qbytes", [](Sess &s) { return s.simple("  ::bytes  "); } },
        { "Plead", [](Sess &s) { return s.parse("s", "\r\n  set $1 'w'"); } },
        { "Bslong", [=](Sess &s) { return s.bind("p", n64, { "k" }); } },
        { "Bnone", [](Sess &s) { return s.bind("p", "s", {}); } },
        { "Bmany", [](Sess &s) { return s.bind("", "s", { "a", "b", "c" }); } },
        { "DP", [](Sess &s) { return s.describeportal(""); } },
        { "DPp", [](Sess &s) { return s.describeportal("p"); } },
        { "DPlong", [=](Sess &s) { return s.describeportal(n64); } },
        { "Dlong", [=](Sess &s) { return s.describe(n64); } },
        { "Elong", [=](Sess &s) { return s.execute(n64); } },
    };
    A.insert(A.end(), B.begin(), B.end()); return A;
}
static void sequences(const std::vector<L> &A, int depth, int nconn) {
    usecas = true; srv_popts.usecas = true; nshards = srv_popts.nshards = 2;
    int na = A.size() * nconn;
    std::vector<int> v(depth, 0); uint64_t idx = 0;
    while (1) {
        int stop = depth;
        if ((int)(idx++ % mc_nparts) == mc_part) {
            fresh("messages"); World W; std::vector<Sess *> S;
            for (int i = 0; i < nconn; i++) { S.push_back(new Sess(W)); S[i]->start(); }
            int i = 0;
            for (; i < depth; i++) { int k = v[i] / (int)A.size(); if (nconn > 1) cur += vfmt(" #%d", k); if (!A[v[i] % A.size()].f(*S[k])) { stop = i + 1; break; } }
            uint64_t h = 0; for (auto s : S) { h = mc_hash64(s->h, h); s->end(); delete s; } fin(W, h);
        }
        (void)stop;
        int i = depth - 1;
        while (i >= 0 && ++v[i] == na) v[i--] = 0;
        if (i < 0) break;
    }
}
// -------------------------------------------------------------- quoted strings
static void quoting(int depth) {
    usecas = true; srv_popts.usecas = true; srv_popts.nshards = 1;
    static const char al[] = "'\\anu ;$E\"1";
    int na = strlen(al); uint64_t idx = 0;
    for (int d = 0; d <= depth; d++) {
        std::vector<int> v(d, 0);
        uint64_t base = idx; (void)base;
        fresh("quoting"); World W; Sess *A = new Sess(W); A->start(); uint64_t used = 0;
        while (1) {
            if ((int)(idx++ % mc_nparts) == mc_part) {
                std::string s; for (int x : v) s += al[x];
                if (++used % 500 == 0) { A->end(); delete A; srv_endcase(); W = World(); fresh("quoting"); A = new Sess(W); A->start(); }
                cur = ""; mc_tick();
                A->simple("echo " + s); A->simple("echo E'" + s + "'"); mc_traces++;
                if (d < depth) { A->simple("echo '" + s + "'"); A->simple("echo 'a' " + s); if (A->parse("", "echo " + s) && A->st.count("") && !A->failed && A->bind("", "", A->st[""].nparams ? Strs{ "<'>" } : Strs{})) A->execute(""); A->sync(); }
                mc_outcome(A->h);
            }
            int i = d - 1;
            while (i >= 0 && ++v[i] == na) v[i--] = 0;
            if (i < 0) break;
        }
        A->end(); delete A; srv_endcase();
    }
}
static void unicode() {
    fresh("unicode"); World W; Sess A(W); A.start(); char b[64];
    for (int cp = 0; cp < 65536; cp++) {
        if (cp % mc_nparts != mc_part) continue;
        mc_tick(); mc_traces++;
        for (int up = 0; up < 2; up++) { cur = ""; snprintf(b, sizeof b, up ? "echo E'\\u%04X'" : "echo E'x\\u%04xy'", cp); A.simple(b); }
        if (cp >= 0xD800 && cp < 0xDC00) for (int lo : { 0xDC00, 0xDC01, 0xDEAD, 0xDFFF }) { cur = ""; snprintf(b, sizeof b, "echo E'\\u%04x\\u%04X'", cp, lo); A.simple(b); }
        if (cp >= 0xDC00 && cp < 0xE000) for (int hi : { 0xD800, 0xD83D, 0xDBFF }) { cur = ""; snprintf(b, sizeof b, "echo E'a\\u%04x\\u%04Xz'", hi, cp); A.simple(b); }
    }
    uint64_t h = A.h; A.end(); fin(W, h);
}
// every byte value and length as parameter; every message truncated and extended
static void bytes() {
    int n = 0;
    for (int b1 = 0; b1 < 256; b1++) for (int b2 : { -1, 0, 39, 92, 255 }) {
        if (n++ % mc_nparts != mc_part) continue;
        std::string x(1, (char)b1); if (b2 >= 0) x += (char)b2;
        fresh("bytes"); World W; Sess A(W); A.start();
        A.parse("s", "set $1 $2 flags $3"); A.parse("g", "mgets $1 $2"); A.parse("e", "echo p$1$1"); A.parse("x", "$1 $2"); A.parse("k", "keys *"); A.sync();
        A.bind("", "s", { x, x, "7" }); A.execute(""); A.bind("", "g", { x, "no" }); A.execute(""); A.bind("", "e", { x }); A.execute(""); A.bind("", "k", {}); A.execute(""); A.bind("", "x", { x, x }); A.execute(""); A.sync();
        A.bind("", "s", { "q", "q", x }); A.execute(""); A.sync(); A.bind("", "x", { "::" + x, "get" }); A.execute(""); A.sync();
        if (b1 && b2) { A.simple(quoted({ "set", "j", x }, 1)); A.simple(quoted({ "set", x, "j" + x }, 2)); A.simple(quoted({ x }, 1)); A.parse("", quoted({ "echo", x }, 2)); A.bind("", "", {}); A.execute(""); A.sync(); }
        uint64_t h = A.h; A.end(); fin(W, h);
    }
    for (size_t l : { 0, 1, 63, 64, 127, 128, 255, 256, 1000, 4096, 65535, 65536, 200000 }) {
        if (n++ % mc_nparts != mc_part) continue;
        fresh("lengths"); World W; Sess A(W); A.start();
        std::string k(l, 'k'), v(l, 'v');
        A.parse("s", "set $1 $2"); A.bind("", "s", { k, v }); A.execute(""); A.parse("g", "mget $1 $2 $1"); A.bind("", "g", { k, v }); A.execute(""); A.sync(); A.simple(quoted({ "get", k }, 1)); A.simple(quoted({ "set", v, k }, 2)); A.simple(quoted({ k, k }, 1)); A.simple(quoted({ "::" + k, k }, 0)); A.simple("scan 0 type '" + k + "'"); A.simple("keys *");
        uint64_t h = A.h; A.end(); fin(W, h);
    }
    if (mc_part == 0) { // many parameters, and parameters out of order
        fresh("many"); World W; Sess A(W); A.start(); std::string q = "mget"; Strs ps;
        for (int i = 1; i <= 300; i++) { q += " $" + std::to_string((i * 7) % 300 + 1) + " $" + std::to_string(i); ps.push_back("k" + std::to_string(i % 50)); }
        for (int i = 0; i < 50; i += 3) A.simple("set k" + std::to_string(i) + " v" + std::to_string(i));
        A.parse("m", q); A.describe("m"); A.bind("", "m", ps); A.execute(""); ps.pop_back(); A.bind("", "m", ps); A.execute(""); A.sync();
        for (int i = 0; i < 200; i++) { std::string nm = "s" + std::to_string(i); A.parse(nm, "echo " + nm + "$1"); A.bind("p" + nm, nm, { "-" + nm }); mc_tick(); }
        for (int i = 199; i >= 0; i--) { A.execute("ps" + std::to_string(i)); mc_tick(); }
        A.parse("g", "echo $65535"); A.sync(); A.parse("g", "echo $65536"); A.sync(); A.parse("g", "echo $0"); A.sync(); A.parse("g", "echo $1$2$4"); A.sync(); A.parse("g", "echo $2 $2 $1 $3"); A.sync();
        uint64_t h = A.h; A.end(); fin(W, h);
    }
}
// ----------------------------------------------------------------------- startup
static void startup() {
    static char pw[] = "pa ss"; static char none[] = "";
    const Strs encs = { "", "UTF8", "LATIN1", "utf8" };
    for (int a = 0; a < 2; a++) for (auto &enc : encs) for (int perm = 0; perm < 24; perm++) for (int pwk = 0; pwk < (a ? 7 : 2); pwk++) for (int ssl = 0; ssl < 2; ssl++) {
        if ((a + perm + pwk) % mc_nparts != mc_part) continue;
        fresh("startup"); useauth = a; auth = a ? pw : none;
        cur = vfmt("startup auth=%d enc=%s perm=%d password=%d ssl=%d", a, enc.c_str(), perm, pwk, ssl);
        std::vector<std::pair<std::string, std::string>> P = { { "user", "u" }, { "database", perm % 2 ? "d" : "client_encoding" }, { "application_name", "app" }, { "x", "y" } };
        if (!enc.empty()) P.push_back({ "client_encoding", enc });
        std::rotate(P.begin(), P.begin() + perm % P.size(), P.end()); if (perm / 4 % 2) std::reverse(P.begin(), P.end()); if (perm >= 16) P.pop_back();
        bool bad = false; std::string b = be32(196608); for (auto &p : P) { b += Z(p.first) + Z(p.second); if (p.first == "client_encoding" && p.second != "UTF8") bad = true; }
        b += std::string(1, '\0'); b = be32(b.size() + 4) + b;
        net_conn *c = srv_open(); mc_transitions++;
        std::string ok = pm('R', be32(0)) + pm('S', Z("client_encoding") + Z("UTF8")) + pm('S', Z("server_encoding") + Z("UTF8")) + pm('S', Z("server_version") + Z(std::string(version) + " (Pogocache)")) + READY;
        if (ssl) { std::string r = srv_req(c, be32(8) + be32(80877103)); if (r != "N") mc_fail("ssl", "the reply to SSLRequest is %s", esc(r).c_str()); }
        std::string r = srv_req(c, b); std::vector<Msg> m; uint64_t h = mc_hash(r.data(), r.size(), 0);
        auto want = [&](const std::string &got, const std::string &w) { if (got != w) mc_fail("startup", "the reply is %s but must be %s", esc(got).c_str(), esc(w).c_str()); };
        auto rejected = [&](const std::string &got) { m.clear(); if (!msgs(got, &m) || !c->closed) mc_fail("startup", "the reply is %s (closed=%d) but must be a refusal", esc(got).c_str(), c->closed); for (auto &x : m) if (x.t == 'R' || x.t == 'Z') { if (x.t == 'R') mc_fail("startup", "a refused client got %s", esc(got).c_str()); } };
        std::string probe = pm('Q', Z("set k v"));
        if (bad) rejected(r);
        else if (!a) { want(r, ok); want(srv_req(c, probe), tag("SET 1") + READY); }
        else {
            want(r, pm('R', be32(3)));
            std::string p = pwk == 0 ? "pa ss" : pwk == 1 ? "" : pwk == 2 ? "pa" : pwk == 3 ? "pa ssx" : pwk == 4 ? "PA SS" : "pa ss";
            if (pwk == 5) { r = srv_req(c, probe); if (!srv_dump().empty()) mc_fail("noauth", "a command ran before the password"); if (msgs(r, &m)) for (auto &x : m) if (x.t == 'C') mc_fail("noauth", "a command completed before the password: %s", esc(r).c_str()); }
            else if (pwk == 6) { r = srv_req(c, pm('P', Z("") + Z("set k v") + be16(0)) + pgbind("", "", {}) + pm('E', Z("") + be32(0)) + pm('S', "")); if (!srv_dump().empty()) mc_fail("noauth", "a command ran before the password"); m.clear(); if (msgs(r, &m)) for (auto &x : m) if (x.t == 'C') mc_fail("noauth", "a command completed before the password: %s", esc(r).c_str()); }
            else {
                r = srv_req(c, pm('p', Z(p)));
                if (p == "pa ss") { want(r, ok); want(srv_req(c, probe), tag("SET 1") + READY); }
                else { rejected(r); if (m.empty() || !iserr(m[0])) mc_fail("startup", "a wrong password is not answered with an error"); srv_feed(c, probe); if (!srv_dump().empty()) mc_fail("noauth", "a command ran after a wrong password"); }
            }
        }
        h = mc_hash(r.data(), r.size(), h); mc_outcome(h); mc_state(mc_hash(cur.data(), cur.size(), 3)); mc_traces++;
        srv_close(c); srv_endcase();
    }
    useauth = false; auth = none;
    for (uint32_t len : { 0u, 4u, 7u, 8u, 9u, 65536u, 65537u, 0x00ffffffu }) for (uint32_t magic : { 196608u, 80877103u, 80877102u, 0u, 196609u, 131072u }) for (int cut = 0; cut < 2; cut++) {
        if ((len + magic) % mc_nparts != (uint32_t)mc_part) continue;
        fresh("magic"); cur = vfmt("startup length %u magic %u", len, magic); mc_transitions++; mc_traces++;
        net_conn *c = srv_open(); std::string b = be32(len) + be32(magic); b.resize(std::max<size_t>(8, std::min<size_t>(len, 65540)), 0); if (cut) b.pop_back();
        std::string r = srv_req(c, b);
        if (len < 8 || len > 65536) { if (!c->closed) mc_fail("startup", "not refused: %s", esc(r).c_str()); }
        else if (!cut && (magic == 0 || magic == 196609 || magic == 131072 || magic == 80877102) && !c->closed) mc_fail("startup", "not refused: %s", esc(r).c_str());
        else if (cut && (c->closed || !r.empty())) mc_fail("startup", "answered before complete: %s", esc(r).c_str());
        srv_close(c); srv_endcase();
    }
}
static Reg r1("pg", { "--shards=2", "--cas=yes" }, [] {
    startup();
    commands(true, 2, "ff"); commands(false, 1, mc_thorough ? "cfc" : "cc");
    if (mc_thorough) commands(true, 1, "ccc");
    verb = 3; commands(true, 3, "ca"); commands(true, 2, "aa"); commands(false, 2, "fc"); if (mc_thorough) commands(true, 2, "aca"); verb = 0;
    sequences(more(), mc_thorough ? 4 : 3, 1);
    auto A = letters();
    sequences(A, 4, 1); sequences(A, 2, 2);
    if (mc_thorough) { sequences(A, 5, 1); sequences(A, 3, 2); }
    // a shorter alphabet, deeper: two statements, two portals, errors in between
    std::vector<L> B; for (auto &l : A) for (auto n : { "Ps", "Pt2", "Perr", "Bps", "Bpt", "Ep", "S", "Qset", "Pbad", "Ds" }) if (!strcmp(l.name, n)) B.push_back(l);
    sequences(B, mc_thorough ? 7 : 5, 1); sequences(B, mc_thorough ? 4 : 3, 2);
    quoting(mc_thorough ? 6 : 5); unicode(); bytes();
});
