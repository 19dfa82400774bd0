// A file system in memory, reached through link-time wrapping of the file
// functions. Paths below /mcfs and relative paths live here, everything else
// passes through. Keeps a log of the operations, injects faults, and can
// rebuild every state a crash at any point of the log may leave behind.
#ifndef MEMFS_H
#define MEMFS_H
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdint.h>
struct MInode { std::string data; bool dir = false; int dtype = 8; };
struct MFs { std::map<std::string, int> names; std::vector<MInode> ino; };
enum MKind { M_CREATE, M_WRITE, M_TRUNC, M_FSYNC, M_FSYNCDIR, M_RENAME, M_LINK, M_UNLINK, M_OTHER };
struct MOp { int kind; int ino; size_t off; std::string data, a, b; };
extern MFs mfs;                       // the current (volatile) state
extern std::vector<MOp> mfs_log;      // effects since mfs_begin
extern bool mfs_unknown_types;        // readdir does not report types
void mfs_reset();                     // empty, with /mcfs, /mcfs/d, /mcfs/cwd
void mfs_begin();                     // start a log and the operation counter
void mfs_put(const std::string &path, const std::string &data, int dtype = 8);
void mfs_mkdir(const std::string &path);
bool mfs_exists(const std::string &path);
std::string mfs_get(const std::string &path);
// faults: the op-th file operation of the run (counted from 1) fails in a way
// of its own; how counts the ways of the operation
struct MFault { int op; int how; };
extern std::vector<MFault> mfs_faults;
extern int mfs_nops;                  // operations executed so far
extern std::vector<int> mfs_ways;     // ways to fail of each operation executed
extern std::vector<std::string> mfs_trace;  // their descriptions
extern bool mfs_faulted_hard;         // an error (not just a short count) was injected
extern void (*mfs_point)(void);       // scheduling point before each operation
int mfs_openfds();
// Every state that may be left by a crash after n operations of the log, from base.
// kill: the process ended, everything it did is visible. Otherwise power loss.
void mfs_crash(const MFs &base, const std::vector<MOp> &log, size_t n, bool kill, const std::string &target, std::function<void(const MFs &)> fn);
// descriptors of another simulated kernel part (sockets)
struct MForeign { bool (*mine)(int fd); ssize_t (*rd)(int, void *, size_t); ssize_t (*wr)(int, const void *, size_t); int (*cl)(int); };
extern MForeign mfs_foreign;
#define MEMFS_WRAPS "open open64 openat creat write pwrite pwrite64 writev read pread pread64 readv lseek lseek64 close fsync fdatasync rename renameat link unlink unlinkat remove access faccessat stat lstat fstat opendir readdir readdir64 closedir ftruncate ftruncate64 truncate mkstemp"
#endif
