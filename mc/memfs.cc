#include "memfs.h"
extern "C" {
#include "mc.h"
}
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <pthread.h>
MFs mfs; std::vector<MOp> mfs_log; bool mfs_unknown_types;
std::vector<MFault> mfs_faults; int mfs_nops; std::vector<int> mfs_ways; std::vector<std::string> mfs_trace; bool mfs_faulted_hard;
void (*mfs_point)(void);
namespace {
struct Fd { int ino; size_t off; int flags; std::string dir; };
std::map<int, Fd> fds; int nextfd = 1000000;
struct Dir { std::vector<std::pair<std::string, int>> e; size_t i = 0; struct dirent d; };
std::set<Dir *> dirs;
// a spin lock: never held across a scheduling point or a blocking call
volatile int lk;
struct L { L() { while (__sync_lock_test_and_set(&lk, 1)) ; } ~L() { __sync_lock_release(&lk); } };
bool ours(const char *p) { return p && (p[0] != '/' || !strncmp(p, "/mcfs", 5)); }
std::string norm(const char *p) {
    std::string s = p[0] == '/' ? p : std::string("/mcfs/cwd/") + p, r; size_t i = 0;
    std::vector<std::string> v;
    while (i < s.size()) {
        size_t e = s.find('/', i); if (e == std::string::npos) e = s.size();
        std::string c = s.substr(i, e - i); i = e + 1;
        if (c.empty() || c == ".") continue;
        if (c == "..") { if (!v.empty()) v.pop_back(); continue; }
        v.push_back(c);
    }
    for (auto &c : v) r += "/" + c;
    return r.empty() ? "/" : r;
}
std::string dirof(const std::string &p) { size_t e = p.rfind('/'); return e ? p.substr(0, e) : "/"; }
void logop(int k, int ino, size_t off, const std::string &data, const std::string &a, const std::string &b) { mfs_log.push_back({ k, ino, off, data, a, b }); }
// counts the operation; returns the way it must fail, or -1
int step(const char *what, const std::string &arg, int ways) {
    if (mfs_point) mfs_point();
    L l;
    mfs_nops++; mfs_ways.push_back(ways); mfs_trace.push_back(std::string(what) + " " + arg);
    for (auto &f : mfs_faults) if (f.op == mfs_nops && f.how < ways) return f.how;
    return -1;
}
int hard(int e) { mfs_faulted_hard = true; errno = e; return -1; }
int openit(const char *p0, int flags) {
    std::string p = norm(p0);
    int f = step("open", p, 2); if (f >= 0) return hard(f ? EMFILE : EACCES);
    L l;
    auto it = mfs.names.find(p);
    if (it == mfs.names.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        auto d = mfs.names.find(dirof(p));
        if (d == mfs.names.end() || !mfs.ino[d->second].dir) { errno = ENOENT; return -1; }
        mfs.ino.push_back(MInode()); mfs.names[p] = mfs.ino.size() - 1;
        logop(M_CREATE, mfs.ino.size() - 1, 0, "", p, "");
        it = mfs.names.find(p);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (mfs.ino[it->second].dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        if (flags & O_TRUNC) { mfs.ino[it->second].data.clear(); logop(M_TRUNC, it->second, 0, "", p, ""); }
    }
    int fd = nextfd++;
    fds[fd] = { it->second, 0, flags, mfs.ino[it->second].dir ? p : "" };
    return fd;
}
ssize_t wr(int fd, const void *b, size_t n, ssize_t at) {
    int f = step("write", std::to_string(n), 6);
    if (f == 0) return hard(EIO); if (f == 1) return hard(ENOSPC);
    if (f == 5) return hard(EINTR);
    size_t m = n; if (f == 2) m = n ? 1 : 0; if (f == 3) m = n / 2 ? n / 2 : n; if (f == 4) m = n > 1 ? n - 1 : n;
    L l;
    auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; }
    Fd &x = it->second;
    if ((x.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    std::string &d = mfs.ino[x.ino].data;
    size_t off = at >= 0 ? at : x.flags & O_APPEND ? d.size() : x.off;
    if (d.size() < off + m) d.resize(off + m);
    d.replace(off, m, (const char *)b, m);
    logop(M_WRITE, x.ino, off, std::string((const char *)b, m), "", "");
    if (at < 0) x.off = off + m;
    return m;
}
ssize_t rd(int fd, void *b, size_t n, ssize_t at) {
    int f = step("read", std::to_string(n), 4);
    if (f == 0) return hard(EIO);
    L l;
    auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; }
    Fd &x = it->second;
    if (mfs.ino[x.ino].dir) { errno = EISDIR; return -1; }
    std::string &d = mfs.ino[x.ino].data;
    size_t off = at >= 0 ? at : x.off, have = off < d.size() ? d.size() - off : 0, m = n < have ? n : have;
    if (f == 1 && m > 1) m = 1; if (f == 2 && m > 1) m /= 2; if (f == 3 && m > 1) m--;
    memcpy(b, d.data() + off, m);
    if (at < 0) x.off = off + m;
    return m;
}
int sync_(int fd) {
    int f = step("fsync", "", 2); if (f >= 0) return hard(f ? ENOSPC : EIO);
    L l;
    auto it = fds.find(fd); if (it == fds.end()) { errno = EBADF; return -1; }
    if (mfs.ino[it->second.ino].dir) logop(M_FSYNCDIR, it->second.ino, 0, "", it->second.dir, ""); else logop(M_FSYNC, it->second.ino, 0, "", "", "");
    return 0;
}
int ren(const char *a0, const char *b0) {
    std::string a = norm(a0), b = norm(b0);
    int f = step("rename", a + " " + b, 2); if (f >= 0) return hard(f ? EACCES : EIO);
    L l;
    auto it = mfs.names.find(a); if (it == mfs.names.end()) { errno = ENOENT; return -1; }
    auto t = mfs.names.find(b); if (t != mfs.names.end() && mfs.ino[t->second].dir != mfs.ino[it->second].dir) { errno = EISDIR; return -1; }
    if (!mfs.names.count(dirof(b))) { errno = ENOENT; return -1; }
    int ino = it->second; mfs.names.erase(it); mfs.names[b] = ino;
    logop(M_RENAME, ino, 0, "", a, b);
    return 0;
}
int unl(const char *p0, bool dir) {
    std::string p = norm(p0);
    int f = step("unlink", p, 2); if (f >= 0) return hard(f ? EACCES : EIO);
    L l;
    auto it = mfs.names.find(p); if (it == mfs.names.end()) { errno = ENOENT; return -1; }
    if (mfs.ino[it->second].dir && !dir) { errno = EISDIR; return -1; }
    logop(M_UNLINK, it->second, 0, "", p, ""); mfs.names.erase(it);
    return 0;
}
int trunc_(int ino, off_t n) {
    int f = step("truncate", "", 1); if (f >= 0) return hard(EIO);
    L l; mfs.ino[ino].data.resize(n); logop(M_TRUNC, ino, n, "", "", ""); return 0;
}
int fillstat(int ino, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = mfs.ino[ino].dir ? S_IFDIR | 0755 : mfs.ino[ino].dtype == DT_LNK ? S_IFLNK | 0777 : S_IFREG | 0644; st->st_size = mfs.ino[ino].data.size(); st->st_ino = ino + 1; st->st_nlink = 1; return 0; }
}
MForeign mfs_foreign;
extern "C" {
#define R(ret, name, ...) ret __real_##name(__VA_ARGS__);
R(int, open, const char *, int, ...) R(ssize_t, write, int, const void *, size_t) R(ssize_t, pwrite, int, const void *, size_t, off_t) R(ssize_t, writev, int, const struct iovec *, int)
R(ssize_t, read, int, void *, size_t) R(ssize_t, pread, int, void *, size_t, off_t) R(ssize_t, readv, int, const struct iovec *, int) R(off_t, lseek, int, off_t, int) R(int, close, int) R(int, fsync, int) R(int, fdatasync, int)
R(int, rename, const char *, const char *) R(int, link, const char *, const char *) R(int, unlink, const char *) R(int, remove, const char *) R(int, access, const char *, int) R(int, stat, const char *, struct stat *) R(int, lstat, const char *, struct stat *) R(int, fstat, int, struct stat *)
R(DIR *, opendir, const char *) R(struct dirent *, readdir, DIR *) R(int, closedir, DIR *) R(int, ftruncate, int, off_t) R(int, truncate, const char *, off_t) R(int, openat, int, const char *, int, ...) R(int, unlinkat, int, const char *, int) R(int, faccessat, int, const char *, int, int) R(int, renameat, int, const char *, int, const char *) R(int, mkstemp, char *)
static bool my(int fd) { return fd >= 1000000; }
#define FOREIGN(fd) (mfs_foreign.mine && mfs_foreign.mine(fd))
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return ours(p) ? openit(p, fl) : __real_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return ours(p) ? openit(p, fl) : __real_open(p, fl, m); }
int __wrap_openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return d == AT_FDCWD && ours(p) ? openit(p, fl) : __real_openat(d, p, fl, m); }
int __wrap_creat(const char *p, mode_t m) { return ours(p) ? openit(p, O_CREAT | O_WRONLY | O_TRUNC) : __real_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_mkstemp(char *t) { if (!ours(t)) return __real_mkstemp(t); static int n; snprintf(t + strlen(t) - 6, 7, "%06d", ++n); return openit(t, O_CREAT | O_EXCL | O_RDWR); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (FOREIGN(fd)) return mfs_foreign.wr(fd, b, n); return my(fd) ? wr(fd, b, n, -1) : __real_write(fd, b, n); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return my(fd) ? wr(fd, b, n, o) : __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { if (FOREIGN(fd)) { std::string s; for (int i = 0; i < n; i++) s.append((char *)v[i].iov_base, v[i].iov_len); return mfs_foreign.wr(fd, s.data(), s.size()); } if (!my(fd)) return __real_writev(fd, v, n); std::string s; for (int i = 0; i < n; i++) s.append((char *)v[i].iov_base, v[i].iov_len); return wr(fd, s.data(), s.size(), -1); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (FOREIGN(fd)) return mfs_foreign.rd(fd, b, n); return my(fd) ? rd(fd, b, n, -1) : __real_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return my(fd) ? rd(fd, b, n, o) : __real_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { if (!my(fd)) return __real_readv(fd, v, n); size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; std::string s(t, 0); ssize_t r = rd(fd, &s[0], t, -1); size_t o = 0; for (int i = 0; i < n && r > 0 && o < (size_t)r; i++) { size_t m = std::min((size_t)r - o, v[i].iov_len); memcpy(v[i].iov_base, &s[o], m); o += m; } return r; }
off_t __wrap_lseek(int fd, off_t o, int w) { if (!my(fd)) return __real_lseek(fd, o, w); step("lseek", "", 0); L l; Fd &x = fds[fd]; off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)x.off : (off_t)mfs.ino[x.ino].data.size(); if (b + o < 0) { errno = EINVAL; return -1; } return x.off = b + o; }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_close(int fd) {
    if (FOREIGN(fd)) return mfs_foreign.cl(fd);
    if (!my(fd)) return __real_close(fd);
    int f = step("close", "", 1);
    L l; if (!fds.erase(fd)) mc_fail("close", "close of a descriptor that is not open");
    if (f >= 0) { errno = EIO; return -1; }         // not hard: the data was synced or not before
    return 0;
}
int __wrap_fsync(int fd) { return my(fd) ? sync_(fd) : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return my(fd) ? sync_(fd) : __real_fdatasync(fd); }
int __wrap_rename(const char *a, const char *b) { return ours(a) ? ren(a, b) : __real_rename(a, b); }
int __wrap_renameat(int d, const char *a, int e, const char *b) { return d == AT_FDCWD && e == AT_FDCWD && ours(a) ? ren(a, b) : __real_renameat(d, a, e, b); }
int __wrap_link(const char *a0, const char *b0) {
    if (!ours(a0)) return __real_link(a0, b0);
    std::string a = norm(a0), b = norm(b0); int f = step("link", a + " " + b, 1); if (f >= 0) return hard(EIO);
    L l; if (!mfs.names.count(a)) { errno = ENOENT; return -1; } if (mfs.names.count(b)) { errno = EEXIST; return -1; }
    mfs.names[b] = mfs.names[a]; logop(M_LINK, mfs.names[a], 0, "", b, ""); return 0;
}
int __wrap_unlink(const char *p) { return ours(p) ? unl(p, false) : __real_unlink(p); }
int __wrap_unlinkat(int d, const char *p, int fl) { return d == AT_FDCWD && ours(p) ? unl(p, fl & AT_REMOVEDIR) : __real_unlinkat(d, p, fl); }
int __wrap_remove(const char *p) { return ours(p) ? unl(p, true) : __real_remove(p); }
int __wrap_access(const char *p, int m) { if (!ours(p)) return __real_access(p, m); if (step("access", p, 1) >= 0) return hard(EACCES); L l; if (mfs.names.count(norm(p))) return 0; errno = ENOENT; return -1; }
int __wrap_faccessat(int d, const char *p, int m, int f) { return d == AT_FDCWD && ours(p) ? __wrap_access(p, m) : __real_faccessat(d, p, m, f); }
int __wrap_lstat(const char *p, struct stat *st) { if (!ours(p)) return __real_lstat(p, st); step("stat", p, 0); L l; auto it = mfs.names.find(norm(p)); if (it == mfs.names.end()) { errno = ENOENT; return -1; } return fillstat(it->second, st); }
int __wrap_stat(const char *p, struct stat *st) { if (!ours(p)) return __real_stat(p, st); int r = __wrap_lstat(p, st); if (!r && S_ISLNK(st->st_mode)) st->st_mode = S_IFREG | 0644; return r; }
int __wrap_fstat(int fd, struct stat *st) { if (!my(fd)) return __real_fstat(fd, st); step("fstat", "", 0); L l; return fillstat(fds[fd].ino, st); }
DIR *__wrap_opendir(const char *p0) {
    if (!ours(p0)) return __real_opendir(p0);
    std::string p = norm(p0); int f = step("opendir", p, 1); if (f >= 0) { hard(EACCES); return 0; }
    L l; auto it = mfs.names.find(p); if (it == mfs.names.end()) { errno = ENOENT; return 0; } if (!mfs.ino[it->second].dir) { errno = ENOTDIR; return 0; }
    Dir *d = new Dir; d->e.push_back({ ".", DT_DIR }); d->e.push_back({ "..", DT_DIR });
    for (auto &x : mfs.names) if (x.first != p && dirof(x.first) == p) d->e.push_back({ x.first.substr(p == "/" ? 1 : p.size() + 1), mfs.ino[x.second].dir ? DT_DIR : mfs.ino[x.second].dtype });
    dirs.insert(d); return (DIR *)d;
}
struct dirent *__wrap_readdir(DIR *d0) {
    Dir *d = (Dir *)d0; { L l; if (!dirs.count(d)) { d = 0; } } if (!d) return __real_readdir(d0);
    if (d->i == d->e.size()) return 0;
    memset(&d->d, 0, sizeof d->d); snprintf(d->d.d_name, sizeof d->d.d_name, "%s", d->e[d->i].first.c_str()); d->d.d_type = mfs_unknown_types ? DT_UNKNOWN : d->e[d->i].second; d->i++;
    return &d->d;
}
struct dirent *__wrap_readdir64(DIR *d) { return __wrap_readdir(d); }
int __wrap_closedir(DIR *d0) { Dir *d = (Dir *)d0; { L l; if (dirs.erase(d)) { delete d; return 0; } } return __real_closedir(d0); }
int __wrap_ftruncate(int fd, off_t n) { return my(fd) ? trunc_(fds[fd].ino, n) : __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char *p, off_t n) { if (!ours(p)) return __real_truncate(p, n); auto it = mfs.names.find(norm(p)); if (it == mfs.names.end()) { errno = ENOENT; return -1; } return trunc_(it->second, n); }
}
void mfs_reset() { mfs = MFs(); fds.clear(); mfs_mkdir("/mcfs"); mfs_mkdir("/mcfs/d"); mfs_mkdir("/mcfs/cwd"); mfs_unknown_types = false; mfs_faults.clear(); mfs_begin(); }
void mfs_begin() { mfs_log.clear(); mfs_nops = 0; mfs_ways.clear(); mfs_trace.clear(); mfs_faulted_hard = false; }
void mfs_mkdir(const std::string &p) { MInode i; i.dir = true; i.dtype = DT_DIR; mfs.ino.push_back(i); mfs.names[p] = mfs.ino.size() - 1; }
void mfs_put(const std::string &p, const std::string &d, int t) { MInode i; i.data = d; i.dtype = t; mfs.ino.push_back(i); mfs.names[p] = mfs.ino.size() - 1; }
bool mfs_exists(const std::string &p) { return mfs.names.count(norm(p.c_str())); }
std::string mfs_get(const std::string &p) { auto it = mfs.names.find(norm(p.c_str())); return it == mfs.names.end() ? "" : mfs.ino[it->second].data; }
int mfs_openfds() { return fds.size() + dirs.size(); }
static void apply_names(MFs &f, const MOp &o) {
    switch (o.kind) {
    case M_CREATE: case M_LINK: f.names[o.a] = o.ino; break;
    case M_RENAME: { auto it = f.names.find(o.a); if (it != f.names.end() && it->second == o.ino) f.names.erase(it); f.names[o.b] = o.ino; break; }
    case M_UNLINK: { auto it = f.names.find(o.a); if (it != f.names.end() && it->second == o.ino) f.names.erase(it); break; }
    }
}
static void put(std::string &d, size_t off, const std::string &x) { if (d.size() < off + x.size()) d.resize(off + x.size()); d.replace(off, x.size(), x); }
static void apply_data(MFs &f, const MOp &o) { if (o.kind == M_WRITE) put(f.ino[o.ino].data, o.off, o.data); else if (o.kind == M_TRUNC) f.ino[o.ino].data.resize(o.off); }
void mfs_crash(const MFs &base, const std::vector<MOp> &log, size_t n, bool kill, const std::string &target, std::function<void(const MFs &)> fn) {
    MFs b = base; int maxino = b.ino.size();
    for (auto &o : log) if (o.ino >= maxino) maxino = o.ino + 1;
    b.ino.resize(maxino);
    if (kill) {
        MFs f = b; for (size_t i = 0; i < n; i++) { apply_names(f, log[i]); apply_data(f, log[i]); }
        fn(f);
        // in the middle of the next write
        if (n < log.size() && log[n].kind == M_WRITE && log[n].data.size() > 1) for (size_t cut : { (size_t)1, log[n].data.size() / 2, log[n].data.size() - 1 }) {
            MFs g = f; MOp o = log[n]; o.data.resize(cut); apply_data(g, o); fn(g);
        }
        return;
    }
    // names: which of the unsynced directory operations survive
    std::vector<size_t> pend; MFs dur = b;
    auto isname = [](int k) { return k == M_CREATE || k == M_RENAME || k == M_LINK || k == M_UNLINK; };
    for (size_t i = 0; i < n; i++) {
        if (!isname(log[i].kind)) continue;
        auto synced = [&](const std::string &d) { for (size_t j = i + 1; j < n; j++) if (log[j].kind == M_FSYNCDIR && log[j].a == d) return true; return false; };
        bool s = synced(dirof(log[i].a)) && (log[i].kind != M_RENAME || synced(dirof(log[i].b)));
        if (!s) pend.push_back(i);
    }
    std::set<size_t> pset(pend.begin(), pend.end());
    size_t np = pend.size() > 12 ? 12 : pend.size(); if (pend.size() > 12) mc_cap_hit("more than 12 unsynced directory operations");
    std::set<std::string> seen;
    for (uint64_t mask = 0; mask < 1ull << np; mask++) {
        MFs f = b;
        for (size_t i = 0; i < n; i++) {
            if (!isname(log[i].kind)) continue;
            bool on = true;
            if (pset.count(i)) { size_t k = 0; while (pend[k] != i) k++; on = k >= np || mask >> k & 1; }
            if (on) apply_names(f, log[i]);
        }
        // data: durable up to the last fsync of the file; for files other than the
        // target and their unsynced data the contents do not matter
        std::vector<size_t> pw; int tino = f.names.count(target) ? f.names[target] : -1;
        for (size_t i = 0; i < n; i++) {
            if (log[i].kind != M_WRITE && log[i].kind != M_TRUNC) continue;
            bool s = false; for (size_t j = i + 1; j < n; j++) if (log[j].kind == M_FSYNC && log[j].ino == log[i].ino) s = true;
            if (s) apply_data(f, log[i]); else if (log[i].ino == tino) pw.push_back(i); else apply_data(f, log[i]);
        }
        auto emit = [&](const MFs &g) {
            std::string k; for (auto &x : g.names) k += x.first + "=" + std::to_string(x.second) + ";";
            if (tino >= 0) k += g.ino[tino].data;
            if (seen.insert(k).second) fn(g);
        };
        if (pw.empty()) { emit(f); continue; }
        size_t nw = pw.size() > 5 ? 5 : pw.size(); if (pw.size() > 5) mc_cap_hit("more than 5 unsynced writes to the target");
        uint64_t tot = 1; for (size_t i = 0; i < nw; i++) tot *= 5;
        for (uint64_t c = 0; c < tot; c++) {
            MFs g = f; uint64_t x = c; std::string &d = g.ino[tino].data;
            for (size_t k = 0; k < pw.size(); k++) {
                const MOp &o = log[pw[k]]; int way = k < nw ? x % 5 : 1; if (k < nw) x /= 5;
                if (o.kind == M_TRUNC) { if (way) d.resize(o.off); continue; }
                size_t h = o.data.size() / 2;
                switch (way) {
                case 0: break;                                              // lost
                case 1: put(d, o.off, o.data); break;                       // kept
                case 2: if (d.size() < o.off + o.data.size()) d.resize(o.off + o.data.size()); break;  // only the length
                case 3: put(d, o.off, o.data.substr(0, h)); break;          // torn
                case 4: if (d.size() < o.off + o.data.size()) d.resize(o.off + o.data.size()); put(d, o.off + h, o.data.substr(h)); break;
                }
            }
            emit(g);
        }
    }
}
