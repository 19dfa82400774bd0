#ifndef PROTO_H
#define PROTO_H
#include "srv.h"
typedef std::map<std::string, Ent> Map;
extern std::string cur;                     // the case being executed, for reports
// every sequence of 1..depth letters; this process's share
void each_seq(int nalpha, int depth, std::function<void(const std::vector<int> &)> fn);
void check_dump(const Map &model, const char *where);
std::string vfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
bool starts(const std::string &s, const std::string &p);
static const int64_t SEC = 1000000000LL;
int64_t clampadd(__int128 x);
extern std::vector<std::string> boot_args;
void register_mode(const char *name, std::vector<std::string> args, std::function<void()> fn);
struct Reg { Reg(const char *n, std::vector<std::string> a, std::function<void()> f) { register_mode(n, a, f); } };
#endif
