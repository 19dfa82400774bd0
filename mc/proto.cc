#include "proto.h"
#include <stdarg.h>
#include <unistd.h>
std::string cur;
struct Mode { std::string name; std::vector<std::string> args; std::function<void()> fn; };
static std::vector<Mode> &modes() { static std::vector<Mode> m; return m; }
void register_mode(const char *n, std::vector<std::string> a, std::function<void()> f) { modes().push_back({ n, a, f }); }
static void printer(char *b, size_t n) { snprintf(b, n, "%s", esc(cur).c_str()); for (char *p = b; *p; p++) if (*p == '\n') *p = ' '; }
std::string vfmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
bool starts(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
int64_t clampadd(__int128 x) { return x > INT64_MAX ? INT64_MAX : x < INT64_MIN ? INT64_MIN : (int64_t)x; }
void each_seq(int na, int depth, std::function<void(const std::vector<int> &)> fn) {
    uint64_t idx = 0;  // sequences before
    for (int d = 1; d <= depth; d++) {
        std::vector<int> v(d, 0);
        while (1) {
            if ((int)(idx++ % mc_nparts) == mc_part) { mc_tick(); fn(v); }
            int i = d - 1;
            while (i >= 0 && ++v[i] == na) v[i--] = 0;
            if (i < 0) break;
        }
    }
}
void check_dump(const Map &model, const char *where) {
    Map d = srv_dump();
    if (!(d == model)) mc_fail("state", "%s: the cache is %s but must be %s", where, showdump(d).c_str(), showdump(model).c_str());
}
int main(int argc, char **argv) {
    mc_init(argc, argv);
    mc_case_printer(printer);
    // the server's own messages are not part of any property
    if (!freopen("/dev/null", "w", stdout)) return 3;
    for (auto &m : modes()) if (m.name == mc_mode) {
        std::vector<std::string> a = { "--allocator=stock", "--seed=1", "--trackallocs=yes", "--threads=2", "--uring=no", "--maxmemory=unlimited" };
        for (auto &x : m.args) a.push_back(x);
        srv_boot(a, m.fn);
    }
    mc_die("unknown mode %s", mc_mode);
}
