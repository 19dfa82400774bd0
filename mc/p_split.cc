// Every way to cut and to join a client's byte stream: replies and cache
// contents must be those of the same requests delivered one by one.
#include "rmodel.h"
#include "reqs.h"
struct Stream { Strs reqs; };
struct Res { std::string out; bool closed; Map dump; };
static bool same(const Map &a, const Map &b) { if (a.size() != b.size()) return false; for (auto &x : a) { auto i = b.find(x.first); if (i == b.end() || !(i->second == x.second) || i->second.cas != x.second.cas) return false; } return true; }
// Delivers the chunks; after each one, out must not be shorter than what the requests complete by then are owed.
static Res deliver(const Strs &chunks, const std::vector<size_t> *ends, const std::vector<size_t> *owed, const std::string *whole) {
    srv_fresh(); net_conn *c = srv_open();
    size_t fed = 0; mc_transitions++;
    for (auto &s : chunks) {
        srv_feed(c, s); fed += s.size();
        if (owed) {
            size_t o = 0; for (size_t i = 0; i < ends->size(); i++) if ((*ends)[i] <= fed) o = (*owed)[i];
            if (c->out.size() < o) mc_fail("late", "after %zu bytes a complete request was not answered: %s so far, of %s", fed, esc(c->out).c_str(), esc(*whole).c_str());
            if (c->out.size() > whole->size() || whole->compare(0, c->out.size(), c->out)) mc_fail("differs", "after %zu bytes the reply is %s but must be a beginning of %s", fed, esc(c->out).c_str(), esc(*whole).c_str());
        }
    }
    Res r{ c->out, c->closed, srv_dump() };
    srv_close(c); srv_endcase(); mc_traces++;
    return r;
}
static uint64_t idx;
static void check(const Strs &reqs, int cuts) {
    if ((int)(idx++ % mc_nparts) != mc_part) return;
    mc_tick();
    std::string all; std::vector<size_t> ends, owed;
    for (auto &r : reqs) all += r;
    cur = "one by one";
    for (auto &r : reqs) cur += " | " + r;
    std::string base = cur;
    srv_fresh(); net_conn *c = srv_open(); size_t n = 0;
    for (auto &r : reqs) { srv_feed(c, r); n += r.size(); ends.push_back(n); owed.push_back(c->out.size()); }
    Res ref{ c->out, c->closed, srv_dump() };
    srv_close(c); srv_endcase(); mc_traces++;
    mc_outcome(mc_hash(ref.out.data(), ref.out.size(), 1));
    mc_state(mc_hash(all.data(), all.size(), 1));
    auto cmp = [&](const Strs &ch, const char *what) {
        cur = base + " || cut as"; for (auto &s : ch) cur += " | " + s;
        Res r = deliver(ch, &ends, &owed, &ref.out);
        if (r.out != ref.out) mc_fail("reply", "%s: the replies are %s but must be %s", what, esc(r.out).c_str(), esc(ref.out).c_str());
        if (r.closed != ref.closed) mc_fail("closed", "%s: closed=%d but must be %d", what, r.closed, ref.closed);
        if (!same(r.dump, ref.dump)) mc_fail("state", "%s: the cache is %s but must be %s", what, showdump(r.dump).c_str(), showdump(ref.dump).c_str());
    };
    cmp({ all }, "in one delivery");
    Strs bytes; for (char ch : all) bytes.push_back(std::string(1, ch));
    cmp(bytes, "byte by byte");
    size_t L = all.size();
    for (size_t a = 1; a < L; a++) {
        cmp({ all.substr(0, a), all.substr(a) }, "one cut");
        if (cuts >= 2) for (size_t b = a + 1; b < L; b++) {
            cmp({ all.substr(0, a), all.substr(a, b - a), all.substr(b) }, "two cuts");
            if (cuts >= 3) for (size_t d = b + 1; d < L; d++) cmp({ all.substr(0, a), all.substr(a, b - a), all.substr(b, d - b), all.substr(d) }, "three cuts");
        }
    }
    if (idx % 97 == 1) mc_sample("%s", esc(base).c_str());
}
static void run() {
    srv_popts.nshards = 2; srv_popts.usecas = true;
    std::vector<Strs> P; Strs pre; lists(P, pre);
    for (size_t p = 0; p < P.size(); p++) {
        Strs &L = P[p]; int n = L.size();
        auto mk = [&](Strs v) { if (!pre[p].empty()) v.insert(v.begin(), pre[p]); return v; };
        for (int a = 0; a < n; a++) check(mk({ L[a] }), mc_thorough && p < 3 ? 3 : 2);
        if (p == 2) continue;
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) check(mk({ L[a], L[b] }), 2);
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) if (mc_thorough || p < 2) check(mk({ L[a], L[b], L[c] }), 1);
        if (p == 3) { // the usual extended sequence, every pair of cuts
            check({ pgstart(), L[10], L[11], L[13], L[16], L[17], L[18], L[13], L[16] }, 2);
            check({ pgstart(), L[10] + L[15] + L[16], L[11] + L[13], L[16] }, 2);
        }
    }
    // startup variants
    std::string ssl = be32(8) + be32(80877103), can = be32(16) + be32(80877102) + be32(1) + be32(2);
    for (auto &s : { ssl, can, pgstart(""), be32(8) + be32(196608), be32(9) + be32(196608) + std::string(1, '\0'), be32(4), be32(0), be32(7) + "abc", ssl + pgstart(), pgstart() + pgstart() }) check({ s }, 2), check({ s, pm('Q', Z("get k")) }, 2);
    // a value longer than any buffer step, in every protocol, cut near the interesting places
    for (size_t vl : { 255, 256, 1023, 1024, 4096, 65536, 1048576 - 40, 1048576, 1100000 }) for (int p = 0; p < 4; p++) {
        std::string v(vl, 'v'), N = std::to_string(vl);
        std::string set = p == 0 ? resp({ "SET", "k", v }) : p == 1 ? "set k 0 0 " + N + "\r\n" + v + "\r\n" : p == 2 ? "PUT /k HTTP/1.1\r\nContent-Length: " + N + "\r\n\r\n" + v : pm('Q', Z("set k " + v));
        std::string get = p == 0 ? resp({ "GET", "k" }) : p == 1 ? "get k\r\n" : p == 2 ? "" : pm('Q', Z("get k"));
        if ((int)(idx++ % mc_nparts) != mc_part) continue;
        mc_tick();
        Strs whole; if (p == 3) whole.push_back(pgstart()); whole.push_back(set); if (!get.empty()) { whole.push_back(get); whole.push_back(get); }
        std::string all; for (auto &s : whole) all += s;
        cur = vfmt("protocol %d, value of %zu bytes", p, vl);
        Res ref = deliver(whole, 0, 0, 0);
        if (p != 2 && ref.out.size() < 2 * vl) mc_fail("reply", "the value did not come back");
        size_t hs = all.size() - vl; size_t vstart = all.find(v);
        std::vector<size_t> cuts = { 1, vstart - 1, vstart, vstart + 1, vstart + vl - 1, vstart + vl, vstart + vl + 1, vstart + vl + 2, all.size() - 1, all.size() / 2 }; (void)hs;
        for (size_t a : cuts) for (size_t b : cuts) {
            if (a >= b || b >= all.size()) continue;
            if (vl > 100000 && a != vstart && b != vstart + vl) continue;
            mc_tick();
            Res r = deliver({ all.substr(0, a), all.substr(a, b - a), all.substr(b) }, 0, 0, 0);
            if (r.out != ref.out || r.closed != ref.closed || !same(r.dump, ref.dump)) mc_fail("reply", "cut at %zu and %zu the replies differ", a, b);
        }
    }
    if (mc_part == 0) mc_note("streams", idx);
}
static Reg r1("split", { "--shards=2", "--cas=yes" }, run);
