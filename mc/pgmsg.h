// Postgres wire messages.
#ifndef PGMSG_H
#define PGMSG_H
#include "proto.h"
typedef std::vector<std::string> Strs;
static std::string be32(uint32_t v) { std::string s; for (int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); return s; }
static std::string be16(uint32_t v) { return be32(v).substr(2); }
static std::string Z(const std::string &s) { return s + std::string(1, '\0'); }
static std::string pm(char t, const std::string &b) { return std::string(1, t) + be32(b.size() + 4) + b; }
static std::string pgstart(const std::string &user = "u") { std::string b = be32(196608) + Z("user") + Z(user) + Z("database") + Z("d") + std::string(1, '\0'); return be32(b.size() + 4) + b; }
static std::string pgbind(const std::string &portal, const std::string &stmt, const Strs &params) {
    std::string b = Z(portal) + Z(stmt) + be16(0) + be16(params.size());
    for (auto &p : params) b += be32(p.size()) + p;
    return pm('B', b + be16(0));
}
#endif
