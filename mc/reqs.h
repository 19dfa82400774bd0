// Requests of every protocol, well formed and malformed.
#ifndef REQS_H
#define REQS_H
#include "rmodel.h"
#include "pgmsg.h"
static void lists(std::vector<std::vector<std::string>> &P, Strs &pre) {
    P.clear(); pre.clear();
    P.push_back({ // RESP
        resp({ "SET", "k", "v" }), resp({ "GET", "k" }), resp({ "SET", "k", "" }), resp({ "ECHO", "\r\n$1\r\n" }), resp({ "PING" }), resp({ "KEYS", "*" }), resp({ "FLUSHALL" }), resp({ "SWEEP" }),
        resp({ "INCR", "n" }), resp({ "MGETS", "k", "n" }), resp({ "BOGUS", "x" }), resp({ "SET", "k" }), resp({ "QUIT" }), resp({ "APPEND", "k", "12345678901" }), resp({ "SCAN", "0" }), resp({ "DEL", "k" }),
        "*0\r\n", "\r\n", "\n", "PING\r\n", "SET k abc\r\n", "GET k\n", "SET \"a b\" 'c d'\r\n", "ECHO \"\\x41\\n\"\r\n", "SET k \"unbalanced\r\n", "*1\r\n$x\r\n", "*-1\r\n", "*2\r\n$3\r\nGET\r\n:1\r\n", "*1\r\n$4\r\nPINGxx", "*x\r\n", "*1\r\n$-1\r\n", "   PING   \r\n", "*03\r\n$03\r\nSET\r\n$1\r\nk\r\n$02\r\nzz\r\n", "PURGE\r\n", "KEYS k\r\n" });
    P.push_back({ // memcache
        "set k 0 0 3\r\nabc\r\n", "set k 7 0 0\r\n\r\n", "set k 0 100 2\r\n\r\n\r\n", "get k\r\n", "gets k j\r\n", "delete k\r\n", "add j 010 0 1\r\nj\r\n", "append k 0 0 2\r\nzz\r\n", "cas k 0 0 1 3\r\nq\r\n", "incr k 1\r\n", "touch k 10\r\n", "flush_all\r\n", "version\r\n",
        "set k 0 0 1 noreply\r\nn\r\n", "delete k noreply\r\n", "bogus\r\n", "\r\n", "\n", "get k\n", "set k 0 0 2\r\nabcd", "set k x 0 1\r\n", "set k 0 0\r\n", "flush_all noreply\r\n", "incr k 1 noreply\r\n", "  get k\r\n", "get  k\r\n", "quit\r\n", "replace k 1 0 1 noreply\r\nr\r\n", "set k 1 0 3\r\nget\r\n" });
    P.push_back({ // HTTP: one request a connection
        "GET /k HTTP/1.1\r\n\r\n", "PUT /k HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", "PUT /k?ttl=5&nx HTTP/1.0\r\ncontent-length:2\r\nX: y\r\n\r\n\r\n", "DELETE /k HTTP/1.1\r\nHost: h\r\nAuthorization: Bearer z\r\n\r\n", "POST /k HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nAccept: text/html\r\n\r\n", "GET /a%20b HTTP/1.1\r\n\r\n",
        "GET /k HTTP/1.1\r\nbad\r\n\r\n", "PUT /k HTTP/1.1\r\n\r\n", "GET /k HTTP/9.1\r\n\r\n", "GET /k HTTP/1.1\r\nX: y\n\r\n", "PUT /k HTTP/1.1\r\nContent-Length: x\r\n\r\n", "GET /k?auth=x HTTP/1.1\r\n\r\n", "GET /k HTTP/1.1\r\n\rX", "PUT /k HTTP/1.1\r\nContent-Length: 1\r\nContent-Length: 1\r\n\r\nz" });
    pre = { "", "", "", pgstart() };
    P.push_back({ // Postgres, after the startup message
        pm('Q', Z("SET k v;")), pm('Q', Z("get k")), pm('Q', Z("set 'a''b' $x$y$x$; get 'a''b';")), pm('Q', Z("")), pm('Q', Z("bogus")), pm('Q', Z("get 'open")), pm('Q', Z("keys *")), pm('Q', Z("mget k n; flush; get k")), pm('Q', Z("::text get k")), pm('Q', Z("begin")),
        pm('P', Z("s") + Z("set $1 $2") + be16(0)), pgbind("", "s", { "k", "w" }), pgbind("p", "s", { "k", "" }), pm('E', Z("") + be32(0)), pm('E', Z("p") + be32(0)), pm('D', "S" + Z("s")), pm('S', ""), pm('P', Z("") + Z("get k") + be16(0)), pgbind("", "", {}), pm('X', ""), pm('H', ""), pm('C', "S" + Z("s")), pm('Z', "xx"), pm('p', Z("pw")) });
}
#endif
