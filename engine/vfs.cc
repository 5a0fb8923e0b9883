// A model POSIX file system with per-process descriptors and record locks,
// fault injection and a durability model; or the real kernel, re-rooted.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include "internal.h"

namespace lmc {
std::string g_scratch;

struct PLock { int proc; const void* ofd; int type; int64_t lo, hi; };
struct Pend1 { int kind; int64_t off; std::string data; };               // 0 write, 1 truncate
struct Isle { int64_t first; std::string second; const char* ref = nullptr; size_t n = 0; size_t size() const { return ref ? n : second.size(); } const char* data() const { return ref ? ref : second.data(); } };
struct PendD { std::vector<std::pair<std::string, int>> set; };          // name -> ino (-1 remove)
struct Inode {
  int ino = 0; bool dir = false; int nlink = 0, opens = 0; int parent = 0;
  int mode = 0; bool lnk = false; std::string target;
  bool huge = false; std::vector<Isle> isles;     // a sparse file: what was put where, in order
  size_t size = 0, touched = 0; char* buf = nullptr;
  std::string dur; std::vector<Pend1> pend;
  std::map<std::string, int> ents, dents; std::vector<PendD> dpend;
  std::vector<PLock> locks;
};
struct OFile { int ino; int64_t pos = 0; int flags = 0; int refs = 1; };
struct Map { int proc; char* addr; size_t len, rlen; int ino; bool live; };

static std::vector<Inode*> g_ino;
static std::map<int, OFile*> g_fd[MAXPROC];
static std::vector<OFile*> g_ofs;
static std::vector<Map> g_maps;
static int g_maxmaps[MAXPROC], g_maxfds[MAXPROC];
static bool g_faults, g_shortonly, g_crash_on, g_crashed, g_realmode, g_procmode;
static bool g_wide, g_notype;
static uint64_t g_mask = ~0ull, g_hits, g_errs, g_soft, g_short; static int g_last_errno;
static void hit(int e) { g_hits++; g_last_errno = e; g_errs |= 1ull << (e < 63 ? e : 63); }
static int64_t g_calls;
static uint64_t g_rlim = 1024; static bool g_rlim_fail;
static std::map<std::string, std::string> g_env; static unsigned g_euid;
static std::string g_lastname;

static int g_fdskip;        // that many are given out above it first
static int FD0 = 1000;      // the lowest descriptor given out
static char* const MAPBASE = (char*)0x300000000000ull;
static const size_t MAPSPAN = 1ull << 36;
static char* g_mapnext;
static const size_t SLOT = 8 << 20; static const int NSLOT = 640;
static char* g_slots; static int g_memfd = -1; static pid_t g_mempid;

struct Cookie { int fd; FILE* fp; bool dead; int proc; void* mark; int owner, depth; Clock clk; };
static std::vector<Cookie*> g_cookies;
struct DirS { uint32_t magic; std::vector<std::pair<std::string, int>> names; size_t i; int fd; struct dirent de; DIR* rd; };
static std::vector<DirS*> g_dirs;
static std::set<int> g_realfds;
static std::set<int> g_inherit[MAXPROC];      // descriptors without FD_CLOEXEC
static std::set<int> g_basefds;               // real mode: the descriptors open before the library's

bool vfs_region(const void* p) { return (uintptr_t)p - (uintptr_t)MAPBASE < MAPSPAN; }
bool vfs_mapped(const void* p, size_t n) {
  const char* a = (const char*)p;
  for (auto& m : g_maps) if (m.live && a >= m.addr && a + n <= m.addr + m.rlen) {
    size_t lim = (g_ino[m.ino]->size + 4095) & ~4095ul;
    return (size_t)(a + n - m.addr) <= lim;
  }
  return false;
}
static void ensure_slots() {
  if (g_mempid == getpid()) return;
  g_mempid = getpid();
  if (g_slots) { munmap(g_slots, SLOT * NSLOT); close(g_memfd); }
  g_memfd = syscall(SYS_memfd_create, "lmc", 0);
  if (g_memfd < 0) { char t[] = "/tmp/lmcXXXXXX"; g_memfd = mkstemp(t); unlink(t); }
  if (g_memfd < 0 || ftruncate(g_memfd, SLOT * NSLOT)) { perror("memfd"); _exit(9); }
  g_slots = (char*)mmap(nullptr, SLOT * NSLOT, PROT_READ | PROT_WRITE, MAP_SHARED, g_memfd, 0);
  if (g_slots == MAP_FAILED) { perror("mmap slots"); _exit(9); }
}
void vfs_init() {}
static int new_inode(bool dir) {
  Inode* n = new Inode; n->ino = g_ino.size(); n->dir = dir; n->mode = dir ? 0755 : 0644;
  if (!dir) { if (n->ino >= NSLOT) fail("model file system: too many files"); n->buf = g_slots + (size_t)n->ino * SLOT; }
  g_ino.push_back(n); return n->ino;
}
static void helpers_reset();
static void end_cleanup() {
  for (auto* c : g_cookies) { if (c->fp) { c->dead = true; fclose(c->fp); } else delete c; }
  g_cookies.clear();
  for (auto* d : g_dirs) delete d;
  g_dirs.clear();
  for (auto& m : g_maps) if (m.live) munmap(m.addr, m.rlen);
  g_maps.clear();
  for (auto* o : g_ofs) delete o;
  g_ofs.clear();
  for (auto& t : g_fd) t.clear();
  for (auto& t : g_inherit) t.clear();
  for (auto* n : g_ino) { if (n->buf && n->touched) memset(n->buf, 0, n->touched); delete n; }
  g_ino.clear();
  for (int fd : g_realfds) close(fd);
  g_realfds.clear();
  if (g_procmode) helpers_reset();
  g_realmode = g_procmode = false;
}
void vfs_exec_reset() {
  ensure_slots();
  end_cleanup();
  g_mapnext = MAPBASE;
  memset(g_maxmaps, 0, sizeof g_maxmaps); memset(g_maxfds, 0, sizeof g_maxfds);
  FD0 = 1000; g_fdskip = 0; g_wide = g_notype = false; g_faults = g_shortonly = g_crash_on = g_crashed = false; g_mask = ~0ull; g_hits = g_errs = g_soft = g_short = 0; g_last_errno = 0; g_calls = 0;
  g_rlim = 1024; g_rlim_fail = false; g_env.clear(); g_euid = 1234; g_lastname.clear();
  new_inode(true);  // root = 0
  for (const char* d : {"cwd", "tmp"}) { int i = new_inode(true); g_ino[0]->ents[d] = g_ino[0]->dents[d] = i; g_ino[i]->nlink = 1; }
}

// ---- paths --------------------------------------------------------------------
static const int CWD = 1;
static int dir_name(int ino, const std::string& c) { auto& e = g_ino[ino]->ents; auto it = e.find(c); return it == e.end() ? -1 : it->second; }
static bool may(Inode* n, int bits) { return g_euid == 0 || (n->mode >> 6 & bits) == bits; }
// Resolve; on success *dir,*last give the parent and last component ("" for root/dots)
static int walk(const char* path, int* dir, std::string* last, bool* slash, bool follow = false) {   // 0 or errno
  if (!*path) return ENOENT;
  std::string p = path; int links = 0; int d = p[0] == '/' ? 0 : CWD;
  if (p.size() >= PATH_MAX) return ENAMETOOLONG;
  *slash = p.size() > 1 && p.back() == '/';
  std::vector<std::string> cs;         // still to come, reversed
  auto push = [&](const std::string& q) { std::vector<std::string> v; size_t i = 0; while (i < q.size()) { size_t j = q.find('/', i); if (j == std::string::npos) j = q.size(); if (j > i) v.push_back(q.substr(i, j - i)); i = j + 1; } cs.insert(cs.end(), v.rbegin(), v.rend()); };
  push(p);
  while (!cs.empty()) {
    std::string c = cs.back(); cs.pop_back(); bool fin = cs.empty();
    if (c.size() > NAME_MAX) return ENAMETOOLONG;
    if (!g_ino[d]->dir) return ENOTDIR;
    if (!may(g_ino[d], 1)) return EACCES;
    if (c == "." || c == "..") { if (c == "..") d = g_ino[d]->parent; if (fin) { *dir = d; *last = ""; return 0; } continue; }
    int n = dir_name(d, c);
    if (n >= 0 && g_ino[n]->lnk && (!fin || follow || *slash)) { if (++links > 40) return ELOOP; const std::string& t = g_ino[n]->target; if (t[0] == '/') d = 0; push(t); continue; }
    if (fin) { *dir = d; *last = c; return 0; }
    if (n < 0) return ENOENT;
    d = n;
  }
  if (!g_ino[d]->dir) return ENOTDIR;
  *dir = d; *last = ""; return 0;
}
static int lookup(const char* path, int* ino, bool follow = true) {
  int d; std::string l; bool sl; int e = walk(path, &d, &l, &sl, follow);
  if (e) return e;
  if (l.empty()) { *ino = d; return 0; }
  int n = dir_name(d, l); if (n < 0) return ENOENT;
  if (sl && !g_ino[n]->dir) return ENOTDIR;
  *ino = n; return 0;
}
static void dir_set(int d, std::vector<std::pair<std::string, int>> set) {
  for (auto& s : set) { if (s.second < 0) g_ino[d]->ents.erase(s.first); else g_ino[d]->ents[s.first] = s.second; }
  g_ino[d]->dpend.push_back({set});
}
static void unlink_ino(int n) { g_ino[n]->nlink--; }

// ---- data -----------------------------------------------------------------------
static const char* g_share; static uint64_t g_nshare;      // memory the harness promises not to change: giant writes are not copied
static bool shared(const void* p) { return g_share && (const char*)p >= g_share && (const char*)p < g_share + g_nshare; }
static void data_read(Inode* n, int64_t off, void* p, size_t len) {
  if (!n->huge) { memcpy(p, n->buf + off, len); return; }
  memset(p, 0, len);
  for (auto& s : n->isles) { int64_t lo = std::max(off, s.first), hi = std::min(off + (int64_t)len, s.first + (int64_t)s.size()); if (lo < hi) memcpy((char*)p + (lo - off), s.data() + (lo - s.first), hi - lo); }
}
static void data_write(Inode* n, int64_t off, const void* p, size_t len, bool durable) {
  if (!n->huge && g_share && (size_t)off + len > SLOT - 4096) { std::string was(n->buf, n->size); n->huge = true; n->isles.clear(); n->isles.push_back({0, was}); }
  if (n->huge) { if (shared(p)) n->isles.push_back({off, std::string(), (const char*)p, len}); else n->isles.push_back({off, std::string((const char*)p, len)}); n->size = std::max(n->size, (size_t)off + len); return; }
  memcpy(n->buf + off, p, len);
  n->touched = std::max(n->touched, (size_t)off + len);
  n->size = std::max(n->size, (size_t)off + len);
  if (g_crash_on && !durable) n->pend.push_back({0, off, std::string((const char*)p, len)});
  if (durable) { n->dur.assign(n->buf, n->size); n->pend.clear(); }
}
static void data_trunc(Inode* n, size_t len) {
  if (n->huge) { n->size = len; if (len == 0) { n->huge = false; n->isles.clear(); } else n->isles.push_back({(int64_t)len, std::string()}); return; }
  if (len < n->size) memset(n->buf + len, 0, n->size - len);
  n->size = len; n->touched = std::max(n->touched, len);
  if (g_crash_on) n->pend.push_back({1, (int64_t)len, ""});
}
static void make_durable(Inode* n) {
  if (n->dir) { n->dents = n->ents; n->dpend.clear(); }
  else { if (g_crash_on) n->dur.assign(n->buf, n->size); n->pend.clear(); }
}

// ---- faults, crashes ---------------------------------------------------------------
enum { F_OPEN = 1, F_READ = 2, F_WRITE = 4, F_CLOSE = 8, F_SYNC = 16, F_STAT = 32, F_MMAP = 64, F_LCK = 128, F_DIR = 256, F_NAME = 512, F_SEEK = 1024, F_STDIO = 2048, F_READDIR = 4096 };
// What else each class of calls can report (asked for by vfs_wide_errnos).
static const std::vector<int>& more_errs(unsigned cls) {
  static const std::map<unsigned, std::vector<int>> T = {
    {F_OPEN, {EACCES, EROFS, ENOSPC, EDQUOT, ENFILE, EISDIR, ENOTDIR, ELOOP, ENXIO, EPERM, ETXTBSY, ENOMEM, EBUSY, ESTALE, EOVERFLOW}},
    {F_READ, {EISDIR, EINVAL, EBADF, ENOMEM}},
    {F_WRITE, {EDQUOT, EFBIG, EPIPE, EPERM, EINVAL, ENOMEM, EBADF}},
    {F_CLOSE, {ENOSPC, EDQUOT, EBADF}},
    {F_SYNC, {ENOSPC, EDQUOT, EROFS, EINVAL, EBADF, ENOTSUP, ENOSYS, EPERM, EACCES}},
    {F_STAT, {EACCES, EOVERFLOW, ENOMEM, ELOOP, EBADF, ESTALE}},
    {F_MMAP, {EACCES, EAGAIN, ENODEV, EPERM, ENFILE, EINVAL, EOVERFLOW}},
    {F_LCK, {EACCES, ENOLCK, EDEADLK, EINVAL, EBADF, ENOTSUP, ENOSYS}},
    {F_DIR, {EACCES, ENFILE, ENOMEM, ENOTDIR, ELOOP}},
    {F_NAME, {EACCES, EPERM, EBUSY, EROFS, EDQUOT, EISDIR, ENOTEMPTY, EXDEV, EMLINK, EINVAL, ELOOP, ENOMEM, EEXIST, ESTALE, ETXTBSY}},
    {F_SEEK, {ESPIPE, EOVERFLOW, EINVAL, EBADF}},
    {F_STDIO, {EINVAL, EMFILE}},
    {F_READDIR, {EBADF, ENOENT, EOVERFLOW}}};
  static const std::vector<int> none; auto it = T.find(cls); return g_wide && it != T.end() ? it->second : none;
}
static int fault(unsigned cls, std::initializer_list<int> errs, const char* what) {
  if (!g_faults || g_shortonly || !(g_mask & cls)) return 0;
  auto& m = more_errs(cls); int b = errs.size();
  int c = choice(1 + b + m.size(), K_DEV, true, what);
  if (!c) return 0;
  int e = c <= b ? errs.begin()[c - 1] : m[c - 1 - b];
  if (e == EINTR) g_soft++; else hit(e);
  trace("%s fails: %s", what, strerrorname_np(e));
  return e;
}
static void crash_now() {
  g_crashed = true; g_crash_on = false; g_faults = false;
  trace("CRASH");
  for (int i = 1; i < g_nfib; i++) if (i != g_cur) kill_fiber(i);
  if (g_cur == 0) fail("harness: crash in the monitor thread");
  finish_dead();
}
static void crash_point(const char* what) {
  if (!g_crash_on || g_crashed) return;
  if (choice(2, K_DEV, true, what)) { trace("crash before %s", what); crash_now(); }
}
struct Enter {
  Eng e;
  Enter(const char* what) { g_calls++; if (g_live > 1) sched(what); }
};
#define IN() (in_fiber())
static int P() { return cur().proc; }
static OFile* of(int fd) { auto it = g_fd[P()].find(fd); return it == g_fd[P()].end() ? nullptr : it->second; }
static int new_fd(OFile* o) {
  auto& t = g_fd[P()]; int fd = FD0; if (g_fdskip > 0) { g_fdskip--; fd++; } while (t.count(fd)) fd++;
  t[fd] = o; g_ino[o->ino]->opens++; if ((int)t.size() > g_maxfds[P()]) g_maxfds[P()] = t.size(); return fd;
}
static void drop_of(OFile* o) {
  if (--o->refs == 0) {
    auto& l = g_ino[o->ino]->locks;
    for (size_t i = 0; i < l.size();) if (l[i].ofd == o) l.erase(l.begin() + i); else i++;
  }
}
static int mark_fd(int fd, bool cloexec) { if (!cloexec) g_inherit[P()].insert(fd); return fd; }
static void close_fd(int proc, int fd) {
  g_inherit[proc].erase(fd);
  OFile* o = g_fd[proc][fd]; g_fd[proc].erase(fd);
  Inode* n = g_ino[o->ino]; n->opens--;
  auto& l = n->locks;     // POSIX: any close drops the process's record locks
  for (size_t i = 0; i < l.size();) if (!l[i].ofd && l[i].proc == proc) { trace("record lock on inode %d dropped by close", n->ino); l.erase(l.begin() + i); } else i++;
  drop_of(o);
}
#define ERR(e) do { errno = (e); return -1; } while (0)

// real mode
static std::string rp(const char* path) {
  std::string p = path, out; if (p.empty()) return "";
  std::vector<std::string> cs; size_t i = 0; if (p[0] != '/') cs.push_back("cwd");
  bool sl = p.size() > 1 && p.back() == '/';
  while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); std::string c = p.substr(i, j - i); if (c == "..") { if (!cs.empty()) cs.pop_back(); } else if (c != "." && !c.empty()) cs.push_back(c); i = j + 1; }
  out = g_scratch; for (auto& c : cs) out += "/" + c;
  if (sl) out += "/";
  if (p.size() >= 2 && p.compare(p.size() - 2, 2, "/.") == 0) out += "/.";
  return out;
}

// ---- two real processes: system calls on descriptors are made by a helper process each ----
enum { R_OPEN, R_CLOSE, R_LK, R_FCNTL, R_FLOCK, R_FSTAT, R_READ, R_WRITE, R_TRUNC, R_SYNC, R_SEEK, R_RESET, R_COUNT };
struct Rpc { int op, fd, cmd, err; long a, ret; struct flock fl; struct stat st; char data[512]; };
static int g_hsock[MAXPROC]; static pid_t g_hpid[MAXPROC], g_hown;
static void helper_main(int s) {
  prctl(PR_SET_PDEATHSIG, SIGKILL); for (int i = 3; i < 1024; i++) if (i != s) close(i);
  static std::set<int> open_; static Rpc r; open_.clear();
  for (;;) {
    if (recv(s, &r, sizeof r, MSG_WAITALL) != (ssize_t)sizeof r) _exit(0);
    errno = 0;
    switch (r.op) {
      case R_OPEN: r.ret = open(r.data, r.cmd, (int)r.a); if (r.ret >= 0) open_.insert(r.ret); break;
      case R_CLOSE: r.ret = close(r.fd); if (!r.ret) open_.erase(r.fd); break;
      case R_LK: r.ret = fcntl(r.fd, r.cmd, &r.fl); break;
      case R_FCNTL: r.ret = fcntl(r.fd, r.cmd, r.a); if ((r.cmd == F_DUPFD || r.cmd == F_DUPFD_CLOEXEC) && r.ret >= 0) open_.insert(r.ret); break;
      case R_FLOCK: r.ret = flock(r.fd, r.cmd); break;
      case R_FSTAT: r.ret = fstat(r.fd, &r.st); break;
      case R_READ: r.ret = read(r.fd, r.data, r.a); break;
      case R_WRITE: r.ret = write(r.fd, r.data, r.a); break;
      case R_TRUNC: r.ret = ftruncate(r.fd, r.a); break;
      case R_SYNC: r.ret = fsync(r.fd); break;
      case R_SEEK: r.ret = lseek(r.fd, r.a, r.cmd); break;
      case R_RESET: for (int fd : open_) close(fd); open_.clear(); r.ret = 0; break;
      case R_COUNT: r.ret = open_.size(); break;
    }
    r.err = errno; if (send(s, &r, sizeof r, MSG_NOSIGNAL) != (ssize_t)sizeof r) _exit(0);
  }
}
static void helper_start(int p) {
  if (g_hown != getpid()) { g_hown = getpid(); for (int i = 0; i < MAXPROC; i++) { g_hpid[i] = 0; } }
  if (g_hpid[p]) return;
  int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) fail("engine: socketpair");
  g_hpid[p] = fork(); if (g_hpid[p] < 0) fail("engine: fork");
  if (!g_hpid[p]) { close(sv[0]); helper_main(sv[1]); _exit(0); }
  close(sv[1]); g_hsock[p] = sv[0];
}
static void helper_stop(int p) { if (g_hown != getpid() || !g_hpid[p]) return; kill(g_hpid[p], SIGKILL); int st; waitpid(g_hpid[p], &st, 0); close(g_hsock[p]); g_hpid[p] = 0; }
static long rpc(Rpc& r, int p = -1) {
  if (p < 0) p = P();
  helper_start(p); if (send(g_hsock[p], &r, sizeof r, MSG_NOSIGNAL) != (ssize_t)sizeof r || recv(g_hsock[p], &r, sizeof r, MSG_WAITALL) != (ssize_t)sizeof r) fail("engine: helper process lost");
  errno = r.err; return r.ret;
}
static long rpc1(int op, int fd, int cmd = 0, long a = 0) { Rpc r; memset(&r, 0, sizeof r); r.op = op; r.fd = fd; r.cmd = cmd; r.a = a; return rpc(r); }
static void helpers_reset() { if (g_hown == getpid()) for (int p = 0; p < MAXPROC; p++) if (g_hpid[p]) { Rpc r; memset(&r, 0, sizeof r); r.op = R_RESET; rpc(r, p); } }
static int m_open(const char* path, int flags, int mode) {
  Enter en("open");
  trace("open(%s, %s%s%s%s%s)", path, (flags & O_ACCMODE) == O_RDONLY ? "r" : (flags & O_ACCMODE) == O_WRONLY ? "w" : "rw", flags & O_CREAT ? " creat" : "", flags & O_TRUNC ? " trunc" : "", flags & O_APPEND ? " append" : "", flags & O_EXCL ? " excl" : "");
  if (g_procmode) { Rpc r; memset(&r, 0, sizeof r); r.op = R_OPEN; r.cmd = flags; r.a = mode; snprintf(r.data, sizeof r.data, "%s", rp(path).c_str()); return rpc(r); }
  if (g_realmode) { int fd = open(rp(path).c_str(), flags, mode); if (fd >= 0) g_realfds.insert(fd); return fd; }
  if (flags & (O_CREAT | O_TRUNC)) crash_point("open");
  if (int e = fault(F_OPEN, {EIO, ENOENT, EMFILE}, "open")) ERR(e);
  int d; std::string l; bool sl; bool nof = (flags & O_NOFOLLOW) || ((flags & O_CREAT) && (flags & O_EXCL)); int e = walk(path, &d, &l, &sl, !nof);
  if (e) ERR(e);
  int n = l.empty() ? d : dir_name(d, l);
  int acc = flags & O_ACCMODE;
  if (n >= 0 && g_ino[n]->lnk) ERR((flags & O_EXCL) ? EEXIST : ELOOP);
  if (n < 0) {
    if (!(flags & O_CREAT)) ERR(ENOENT);
    if (sl) ERR(EISDIR);
    if (!may(g_ino[d], 3)) ERR(EACCES);
    n = new_inode(false); g_ino[n]->nlink = 1; g_ino[n]->mode = mode & 07777 & ~022; dir_set(d, {{l, n}});
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) ERR(EEXIST);
    if (g_ino[n]->dir && (acc != O_RDONLY || (flags & O_CREAT))) ERR(EISDIR);
    if (!g_ino[n]->dir && (sl || (flags & O_DIRECTORY))) ERR(ENOTDIR);
    if (!may(g_ino[n], acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6)) ERR(EACCES);
    if ((flags & O_TRUNC) && !g_ino[n]->dir && acc != O_RDONLY) data_trunc(g_ino[n], 0);
  }
  OFile* o = new OFile; g_ofs.push_back(o); o->ino = n; o->flags = flags;
  int fd = mark_fd(new_fd(o), flags & O_CLOEXEC);
  trace("  = %d", fd);
  return fd;
}
static ssize_t do_write(OFile* o, const void* p, size_t n, int64_t* pos, bool append) {
  Inode* f = g_ino[o->ino];
  if ((o->flags & O_ACCMODE) == O_RDONLY) ERR(EBADF);
  if (f->dir) ERR(EBADF);
  int64_t at = append ? (int64_t)f->size : *pos;
  if (!f->huge && !g_share && (size_t)at + n > SLOT - 4096) ERR(EFBIG);
  data_write(f, at, p, n, o->flags & (O_SYNC | O_DSYNC));
  *pos = at + n;
  return n;
}
static ssize_t m_write(int fd, const void* p, size_t n, int64_t* ppos, void* pc, bool stdio = false) {
  OFile* o = of(fd); if (!o) ERR(EBADF);
  if (!stdio) note_read(p, n, pc);
  if (n == 0) return 0;
  crash_point("write");
  size_t k = std::min<size_t>(n, 0x7ffff000);      // no kernel writes more in one call
  if (g_faults && (g_mask & F_WRITE)) {
    auto& m = more_errs(F_WRITE); int c = choice(g_shortonly ? 4 : 6 + (int)m.size(), K_DEV, true, "write outcome");
    if (c == 1 || c == 2 || c == 3) g_soft++;
    if (c == 2 || c == 3) g_short++;
    if (c == 1) { trace("write interrupted"); ERR(EINTR); }
    if (c == 2) k = 1;
    if (c == 3) k = n - n / 2 < n ? n - n / 2 : n;
    if (c >= 4) { int e = c == 4 ? EIO : c == 5 ? ENOSPC : m[c - 6]; hit(e); trace("write fails: %s", strerrorname_np(e)); ERR(e); }
  }
  int64_t tmp = ppos ? *ppos : 0;
  ssize_t r = do_write(o, p, k, ppos ? &tmp : &o->pos, (o->flags & O_APPEND) != 0);
  trace("write(%d, %zu) = %zd", fd, n, r);
  return r;
}
static ssize_t m_read(int fd, void* p, size_t n, int64_t* ppos, void* pc) {
  OFile* o = of(fd); if (!o) ERR(EBADF);
  Inode* f = g_ino[o->ino];
  if ((o->flags & O_ACCMODE) == O_WRONLY) ERR(EBADF);
  if (f->dir) ERR(EISDIR);
  int64_t at = ppos ? *ppos : o->pos;
  if (at < 0 || (n <= INT64_MAX && at > INT64_MAX - (int64_t)n)) ERR(EINVAL);
  size_t k = (size_t)at >= f->size ? 0 : std::min(n, f->size - (size_t)at);
  if (g_faults && (g_mask & F_READ)) {
    auto& m = more_errs(F_READ); int base = (g_shortonly ? 2 : 3) + (k > 1), c = choice(base + (g_shortonly ? 0 : (int)m.size()), K_DEV, true, "read outcome");
    if (c >= base) { int e = m[c - base]; hit(e); trace("read fails: %s", strerrorname_np(e)); ERR(e); }
    if (c == 1) { g_soft++; trace("read interrupted"); ERR(EINTR); }
    if (c == 2 && !g_shortonly) { hit(EIO); trace("read fails"); ERR(EIO); }
    if (c >= 2) { g_soft++; g_short++; k = k / 2; }
  }
  if (k) { note_write(p, k, pc); data_read(f, at, p, k); }
  if (!ppos) o->pos += k;
  trace("read(%d, %zu) at %lld = %zu", fd, n, (long long)at, k);
  return k;
}
static int m_close(int fd, bool stdio = false) {
  if (fd < 0) ERR(EBADF);
  if (!of(fd)) { if (fd >= FD0) fail("close of descriptor %d, which is not open (closed twice?)", fd); return close(fd); }
  trace("close(%d)", fd);
  crash_point("close");
  int e = (of(fd)->flags & O_ACCMODE) == O_RDONLY ? 0 : fault(F_CLOSE, {EIO}, "close");
  close_fd(P(), fd);
  if (e) ERR(e);
  return 0;
}
static int m_sync(int fd, const char* what) {
  OFile* o = of(fd); if (!o) ERR(EBADF);
  crash_point(what);
  if (int e = fault(F_SYNC, {EIO, ENOENT}, what)) ERR(e);
  make_durable(g_ino[o->ino]);
  trace("%s(%d) = 0", what, fd);
  return 0;
}
static void fill_stat(Inode* n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_ino = n->ino + 1; st->st_nlink = n->nlink; st->st_size = n->dir ? 4096 : n->lnk ? n->target.size() : n->size; st->st_mode = (n->dir ? S_IFDIR : n->lnk ? S_IFLNK : S_IFREG) | n->mode; st->st_blksize = 4096; st->st_dev = 7;
  st->st_blocks = (st->st_size + 511) / 512;
}
static int m_stat(const char* path, struct stat* st, void* pc, bool follow = true) {
  Enter en("stat"); trace("stat(%s)", path);
  if (g_realmode) return follow ? stat(rp(path).c_str(), st) : lstat(rp(path).c_str(), st);
  if (int e = fault(F_STAT, {EIO, ENOENT}, "stat")) ERR(e);
  int n; if (int e = lookup(path, &n, follow)) ERR(e);
  note_write(st, sizeof *st, pc); fill_stat(g_ino[n], st); return 0;
}
static int m_unlink(const char* path) {
  Enter en("unlink"); trace("unlink(%s)", path);
  if (g_realmode) return unlink(rp(path).c_str());
  crash_point("unlink");
  if (int e = fault(F_NAME, {EIO, ENOENT}, "unlink")) ERR(e);
  int d; std::string l; bool sl; if (int e = walk(path, &d, &l, &sl)) ERR(e);
  if (l.empty()) ERR(EISDIR);
  int n = dir_name(d, l); if (n < 0) ERR(ENOENT);
  if (!may(g_ino[d], 3)) ERR(EACCES);
  if (g_ino[n]->dir) ERR(EISDIR);
  if (sl) ERR(ENOTDIR);
  unlink_ino(n); dir_set(d, {{l, -1}}); return 0;
}
static int m_rmdir(const char* path) {
  Enter en("rmdir"); trace("rmdir(%s)", path);
  if (g_realmode) return rmdir(rp(path).c_str());
  crash_point("rmdir");
  if (int e = fault(F_NAME, {EIO, ENOENT}, "rmdir")) ERR(e);
  int d; std::string l; bool sl; if (int e = walk(path, &d, &l, &sl)) ERR(e);
  if (l.empty()) { std::string p = path; if (p.size() >= 2 && p.substr(p.size() - 2) == "..") ERR(ENOTEMPTY); if (p.back() == '.') ERR(EINVAL); ERR(EBUSY); }
  int n = dir_name(d, l); if (n < 0) ERR(ENOENT);
  if (!may(g_ino[d], 3)) ERR(EACCES);
  if (!g_ino[n]->dir) ERR(ENOTDIR);
  if (!g_ino[n]->ents.empty()) ERR(ENOTEMPTY);
  dir_set(d, {{l, -1}}); unlink_ino(n); return 0;
}
static int m_mkdir(const char* path, mode_t mode) {
  Enter en("mkdir"); trace("mkdir(%s)", path);
  if (g_realmode) return mkdir(rp(path).c_str(), mode);
  crash_point("mkdir");
  if (int e = fault(F_NAME, {EIO, ENOSPC}, "mkdir")) ERR(e);
  int d; std::string l; bool sl; if (int e = walk(path, &d, &l, &sl)) ERR(e);
  if (l.empty() || dir_name(d, l) >= 0) ERR(EEXIST);
  if (!may(g_ino[d], 3)) ERR(EACCES);
  int n = new_inode(true); g_ino[n]->nlink = 1; g_ino[n]->mode = mode & 07777 & ~022; g_ino[n]->parent = d; dir_set(d, {{l, n}}); return 0;
}
static int m_rename(const char* a, const char* b) {
  Enter en("rename"); trace("rename(%s, %s)", a, b);
  if (g_realmode) return rename(rp(a).c_str(), rp(b).c_str());
  crash_point("rename");
  if (int e = fault(F_NAME, {EIO, ENOENT}, "rename")) ERR(e);
  int da, db; std::string la, lb; bool sa, sb;
  if (int e = walk(a, &da, &la, &sa)) ERR(e);
  if (int e = walk(b, &db, &lb, &sb)) ERR(e);
  if (la.empty() || lb.empty()) ERR(EBUSY);
  int n = dir_name(da, la), m = dir_name(db, lb);
  if (n < 0) ERR(ENOENT);
  if (!may(g_ino[da], 3) || !may(g_ino[db], 3)) ERR(EACCES);
  bool nd = g_ino[n]->dir;
  if (!nd && (sa || sb)) ERR(ENOTDIR);
  if (nd) for (int x = db; ; x = g_ino[x]->parent) { if (x == n) ERR(EINVAL); if (x == 0) break; }
  if (m >= 0) for (int x = da; x != 0; x = g_ino[x]->parent) if (x == m) ERR(ENOTEMPTY);
  if (n == m) return 0;
  if (m >= 0) {
    if (nd && !g_ino[m]->dir) ERR(ENOTDIR);
    if (!nd && g_ino[m]->dir) ERR(EISDIR);
    if (g_ino[m]->dir && !g_ino[m]->ents.empty()) ERR(ENOTEMPTY);
    unlink_ino(m);
  }
  if (nd) g_ino[n]->parent = db;
  if (da == db) dir_set(da, {{la, -1}, {lb, n}});
  else { dir_set(db, {{lb, n}}); dir_set(da, {{la, -1}}); }
  return 0;
}
static int m_link(const char* a, const char* b) {
  Enter en("link"); trace("link(%s, %s)", a, b);
  if (g_realmode) return link(rp(a).c_str(), rp(b).c_str());
  crash_point("link");
  if (int e = fault(F_NAME, {EIO}, "link")) ERR(e);
  int n; if (int e = lookup(a, &n, false)) ERR(e);
  if (g_ino[n]->dir) ERR(EPERM);
  int d; std::string l; bool sl; if (int e = walk(b, &d, &l, &sl)) ERR(e);
  if (l.empty() || dir_name(d, l) >= 0) ERR(EEXIST);
  g_ino[n]->nlink++; dir_set(d, {{l, n}}); return 0;
}
// locks
static bool overlap(const PLock& a, int64_t lo, int64_t hi) { return a.lo <= hi && lo <= a.hi; }
static const PLock* conflict(Inode* f, int proc, const void* ofd, int type, int64_t lo, int64_t hi, bool flk) {
  for (auto& l : f->locks) {
    bool isflk = l.lo == -7;
    if (isflk != flk) continue;
    bool same = ofd ? l.ofd == ofd : (!l.ofd && l.proc == proc);
    if (same) continue;
    if (!flk && !overlap(l, lo, hi)) continue;
    if (l.type == F_WRLCK || type == F_WRLCK) return &l;
  }
  return nullptr;
}
static void set_lock(Inode* f, int proc, const void* ofd, int type, int64_t lo, int64_t hi) {
  std::vector<PLock> out;
  for (auto& l : f->locks) {
    bool same = ofd ? l.ofd == ofd : (!l.ofd && l.proc == proc);
    if (!same || l.lo == -7 || !overlap(l, lo, hi)) { out.push_back(l); continue; }
    if (l.lo < lo) { PLock x = l; x.hi = lo - 1; out.push_back(x); }
    if (l.hi > hi) { PLock x = l; x.lo = hi + 1; out.push_back(x); }
  }
  if (type != F_UNLCK) out.push_back({proc, ofd, type, lo, hi});
  f->locks = out;
}
static int m_setlk(int fd, int cmd, struct flock* fl) {
  OFile* o = of(fd); if (!o) ERR(EBADF);
  Inode* f = g_ino[o->ino];
  int64_t lo = fl->l_start; if (fl->l_whence == SEEK_CUR) lo += o->pos; else if (fl->l_whence == SEEK_END) lo += f->size;
  int64_t hi = fl->l_len > 0 ? lo + fl->l_len - 1 : INT64_MAX;
  if (fl->l_len < 0) { hi = lo - 1; lo += fl->l_len; }
  if (lo < 0) ERR(EINVAL);
  bool ofdl = cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_GETLK;
  const void* own = ofdl ? o : nullptr;
  int proc = P();
  if (cmd == F_GETLK || cmd == F_OFD_GETLK) {
    const PLock* c = conflict(f, proc, own, fl->l_type, lo, hi, false);
    if (!c) fl->l_type = F_UNLCK; else { fl->l_type = c->type; fl->l_whence = SEEK_SET; fl->l_start = c->lo; fl->l_len = c->hi == INT64_MAX ? 0 : c->hi - c->lo + 1; fl->l_pid = c->ofd ? -1 : 100 + c->proc; }
    return 0;
  }
  const char* nm = fl->l_type == F_UNLCK ? "fcntl unlock" : "fcntl lock";
  if (int e = fl->l_type == F_UNLCK ? fault(F_LCK, {EIO}, nm) : fault(F_LCK, {EIO, EAGAIN, EINTR}, nm)) ERR(e);
  int acc = o->flags & O_ACCMODE;
  if (fl->l_type == F_WRLCK && acc == O_RDONLY) ERR(EBADF);
  if (fl->l_type == F_RDLCK && acc == O_WRONLY) ERR(EBADF);
  if (fl->l_type != F_UNLCK && conflict(f, proc, own, fl->l_type, lo, hi, false)) {
    if (cmd == F_SETLK || cmd == F_OFD_SETLK) { trace("%s(%d): held by another", nm, fd); ERR(EAGAIN); }
    int type = fl->l_type;
    wait_until([=] { return !conflict(f, proc, own, type, lo, hi, false); }, "fcntl(F_SETLKW)");
  }
  set_lock(f, proc, own, fl->l_type, lo, hi);
  trace("%s(%d) = 0", nm, fd);
  return 0;
}
static ssize_t ck_write(void* ck, const char* b, size_t n) {
  Cookie* c = (Cookie*)ck; if (c->dead || !g_exec) return n;
  size_t done = 0;
  while (done < n) { ssize_t r = m_write(c->fd, b + done, n - done, nullptr, nullptr, true); if (r < 0) return done; done += r; }
  return done;
}
static ssize_t ck_read(void* ck, char* b, size_t n) { Cookie* c = (Cookie*)ck; if (c->dead) return 0; return m_read(c->fd, b, n, nullptr, nullptr); }
static int ck_seek(void* ck, off64_t* off, int wh) {
  Cookie* c = (Cookie*)ck; if (c->dead) return -1; OFile* o = of(c->fd); if (!o) return -1;
  int64_t np = wh == SEEK_SET ? *off : wh == SEEK_CUR ? o->pos + *off : (int64_t)g_ino[o->ino]->size + *off;
  if (np < 0) { errno = EINVAL; return -1; } o->pos = np; *off = np; return 0;
}
static int ck_close(void* ck) { Cookie* c = (Cookie*)ck; int r = 0; if (!c->dead) r = m_close(c->fd, true); c->fp = nullptr; return r; }
static FILE* mk_file(int fd, const char* mode) {
  Cookie* c = new Cookie{fd, nullptr, false, P(), nullptr, -1, 0, Clock()};
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
  c->fp = fopencookie(c, mode, f);
  g_cookies.push_back(c); return c->fp;
}
static int mode_flags(const char* m) {
  bool plus = strchr(m, '+'); int f = strchr(m, 'e') ? O_CLOEXEC : 0;
  if (m[0] == 'r') return f | (plus ? O_RDWR : O_RDONLY);
  if (m[0] == 'a') return f | O_CREAT | O_APPEND | (plus ? O_RDWR : O_WRONLY);
  return f | O_CREAT | O_TRUNC | (plus ? O_RDWR : O_WRONLY);
}
static Cookie* ck_of(FILE* fp) { for (auto* c : g_cookies) if (c->fp == fp) return c; return nullptr; }
}  // namespace lmc
using namespace lmc;

extern "C" {
// ---- harness view -----------------------------------------------------------------
void vfs_real(int on) { Eng e; g_realmode = on; if (on) { g_basefds.clear(); if (DIR* d = opendir("/proc/self/fd")) { while (auto* de = readdir(d)) if (de->d_name[0] != '.') g_basefds.insert(atoi(de->d_name)); g_basefds.erase(dirfd(d)); closedir(d); } if (g_scratch.empty()) fail("no scratch directory");
    std::string base = g_scratch; char b[64]; snprintf(b, sizeof b, "/w%d", (int)getpid());
    static std::string root; static pid_t rpid; if (rpid != getpid()) { root = base; rpid = getpid(); }
    g_scratch = root; if (g_scratch.size() < strlen(b) || g_scratch.compare(g_scratch.size() - strlen(b), strlen(b), b)) { g_scratch += b; root = g_scratch; }
    std::string cmd = "rm -rf '" + g_scratch + "'; mkdir -p '" + g_scratch + "/cwd' '" + g_scratch + "/tmp'"; if (g_scratch.size() < 12 || system(cmd.c_str())) fail("scratch setup"); } }
void vfs_real_processes() { vfs_real(1); Eng e; g_procmode = true; helpers_reset(); }
int vfs_is_real() { return g_realmode; }
void vfs_reset() { Eng e; vfs_exec_reset(); }
void vfs_mkdir(const char* p) {
  Eng e; if (g_realmode) { mkdir(rp(p).c_str(), 0755); return; }
  int d; std::string l; bool sl; if (walk(p, &d, &l, &sl) || l.empty()) fail("harness: mkdir %s", p);
  if (dir_name(d, l) >= 0) return;
  int n = new_inode(true); g_ino[n]->nlink = 1; g_ino[n]->parent = d; g_ino[d]->ents[l] = n; g_ino[d]->dents[l] = n;
}
void vfs_put(const char* p, const void* data, size_t n) {
  Eng e;
  if (g_realmode) { FILE* f = fopen(rp(p).c_str(), "w"); if (!f) fail("harness: put %s", p); fwrite(data, 1, n, f); fclose(f); return; }
  int d; std::string l; bool sl; if (walk(p, &d, &l, &sl) || l.empty()) fail("harness: put %s", p);
  int i = dir_name(d, l); if (i < 0) { i = new_inode(false); g_ino[i]->nlink = 1; g_ino[d]->ents[l] = i; }
  g_ino[d]->dents[l] = i;
  Inode* f = g_ino[i]; if (f->size > n) memset(f->buf + n, 0, f->size - n);
  f->huge = false; f->isles.clear();
  memcpy(f->buf, data, n); f->size = n; f->touched = std::max(f->touched, n); f->dur.assign((const char*)data, n); f->pend.clear();
}
void vfs_share(const void* p, uint64_t n) { Eng e; g_share = (const char*)p; g_nshare = n; }
void vfs_put_huge(const char* p, uint64_t size) {
  vfs_put(p, "", 0); Eng e;
  if (g_realmode) { if (truncate(rp(p).c_str(), size)) fail("harness: sparse file"); return; }
  int n; lookup(p, &n); g_ino[n]->huge = true; g_ino[n]->size = size;
}
void vfs_poke(const char* p, uint64_t off, const void* data, size_t k) {
  Eng e; if (g_realmode) { int fd = open(rp(p).c_str(), O_WRONLY); if (fd < 0 || pwrite(fd, data, k, off) != (ssize_t)k) fail("harness: poke"); close(fd); return; }
  int n; if (lookup(p, &n)) fail("harness: poke %s", p); bool c = g_crash_on; g_crash_on = false; data_write(g_ino[n], off, data, k, false); g_crash_on = c;
}
void vfs_peek(const char* p, uint64_t off, void* data, size_t k) {
  Eng e; if (g_realmode) { int fd = open(rp(p).c_str(), O_RDONLY); if (fd < 0 || pread(fd, data, k, off) != (ssize_t)k) fail("harness: peek"); close(fd); return; }
  int n; if (lookup(p, &n)) fail("harness: peek %s", p); data_read(g_ino[n], off, data, k);
}
void vfs_chmod(const char* p, int mode) { Eng e; if (g_realmode) { chmod(rp(p).c_str(), mode); return; } int n; if (lookup(p, &n)) fail("harness: chmod %s", p); g_ino[n]->mode = mode; }
void vfs_symlink(const char* target, const char* p) {
  Eng e; if (g_realmode) { std::string t = target[0] == '/' ? rp(target) : target; if (symlink(t.c_str(), rp(p).c_str())) fail("harness: symlink"); return; }
  int d; std::string l; bool sl; if (walk(p, &d, &l, &sl) || l.empty() || dir_name(d, l) >= 0) fail("harness: symlink %s", p);
  int i = new_inode(false); g_ino[i]->nlink = 1; g_ino[i]->lnk = true; g_ino[i]->mode = 0777; g_ino[i]->target = target; g_ino[d]->ents[l] = g_ino[d]->dents[l] = i;
}
void vfs_notype(int on) { g_notype = on; }
int vfs_exists(const char* p) {
  Eng e; if (g_realmode) { struct stat st; if (stat(rp(p).c_str(), &st)) return 0; return S_ISDIR(st.st_mode) ? 2 : 1; }
  int n; if (lookup(p, &n)) return 0; return g_ino[n]->dir ? 2 : 1;
}
int64_t vfs_size(const char* p) {
  Eng e; if (g_realmode) { struct stat st; if (stat(rp(p).c_str(), &st)) return -1; return st.st_size; }
  int n; if (lookup(p, &n)) return -1; return g_ino[n]->size;
}
size_t vfs_get(const char* p, void* buf, size_t cap) {
  Eng e;
  if (g_realmode) { FILE* f = fopen(rp(p).c_str(), "r"); if (!f) return 0; size_t k = fread(buf, 1, cap, f); fclose(f); return k; }
  int n; if (lookup(p, &n)) return 0; size_t k = std::min(cap, g_ino[n]->size); memcpy(buf, g_ino[n]->buf, k); return k;
}
const char* vfs_data(const char* p, size_t* k) {
  Eng e; int n;
  if (g_realmode) {
    static std::string d; *k = 0; int fd = open(rp(p).c_str(), O_RDONLY); if (fd < 0) return nullptr; struct stat st; if (fstat(fd, &st)) st.st_size = 0; d.resize(st.st_size + 1);
    ssize_t r = 0; size_t at = 0; while (at < d.size() && (r = read(fd, &d[at], d.size() - at)) > 0) at += r; close(fd); *k = at; return d.data();
  }
  if (lookup(p, &n)) { *k = 0; return nullptr; } *k = g_ino[n]->size; return g_ino[n]->buf; }
int vfs_list(const char* p, char* out, size_t cap) {   // names separated by '\n', sorted
  Eng e; std::set<std::string> s;
  if (g_realmode) { DIR* d = opendir(rp(p).c_str()); if (!d) return -1; while (auto* de = readdir(d)) { std::string x = de->d_name; if (x != "." && x != "..") s.insert(x); } closedir(d); }
  else { int n; if (lookup(p, &n) || !g_ino[n]->dir) return -1; for (auto& x : g_ino[n]->ents) s.insert(x.first); }
  std::string r; for (auto& x : s) r += x + "\n"; snprintf(out, cap, "%s", r.c_str()); return s.size();
}
// The descriptors that a program started now would inherit: those without FD_CLOEXEC.
int vfs_inheritable(int proc) {
  Enter en("exec");
  if (!g_realmode) return g_inherit[proc].size();
  int k = 0; DIR* d = opendir("/proc/self/fd"); if (!d) fail("engine: /proc/self/fd");
  while (auto* de = readdir(d)) { int fd = atoi(de->d_name); if (de->d_name[0] == '.' || fd == dirfd(d) || g_basefds.count(fd)) continue; int f = fcntl(fd, F_GETFD); if (f >= 0 && !(f & FD_CLOEXEC)) k++; }
  closedir(d); return k;
}
int vfs_open_fds(int proc) { if (g_procmode) { Eng e; Rpc r; memset(&r, 0, sizeof r); r.op = R_COUNT; return rpc(r, proc); } if (g_realmode) return g_realfds.size(); return g_fd[proc].size(); }
int vfs_live_maps(int proc) { int k = 0; for (auto& m : g_maps) if (m.live && m.proc == proc) k++; return k; }
int vfs_max_maps(int proc) { return g_maxmaps[proc]; }
int vfs_max_fds(int proc) { return g_maxfds[proc]; }
void vfs_faults(int on) { g_faults = on; }
void vfs_first_fd(int fd, int after) { FD0 = fd; g_fdskip = after; }
void vfs_wide_errnos(int on) { g_wide = on; }
void vfs_fault_mask(uint64_t m) { g_mask = m; }
void vfs_short_only(int on) { g_shortonly = on; }
uint64_t vfs_faults_hit() { return g_hits; }
uint64_t vfs_soft_faults() { return g_soft; }
uint64_t vfs_short_faults() { return g_short; }
uint64_t vfs_fault_errnos() { uint64_t e = g_errs; g_errs = 0; return e; }
int vfs_last_fault_errno() { return g_last_errno; }
int vfs_lock_owner(const char* p) {
  Eng e; int n;
  if (g_procmode) {   // ask the kernel, as a third process would
    int fd = open(rp(p).c_str(), O_RDWR); if (fd < 0) return -1;
    struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = F_WRLCK; fl.l_whence = SEEK_SET; int r = fcntl(fd, F_GETLK, &fl), o = -1; if (r) fail("engine: F_GETLK");
    if (fl.l_type == F_WRLCK && fl.l_start == 0 && fl.l_len == 0) for (int i = 0; i < MAXPROC; i++) if (g_hpid[i] && g_hpid[i] == fl.l_pid) o = i;
    if (fl.l_type != F_UNLCK && fl.l_pid == -1) o = LMC_SOMEBODY;
    if (o < 0 && flock(fd, LOCK_EX | LOCK_NB)) o = LMC_SOMEBODY;
    close(fd); return o;
  } if (lookup(p, &n)) return -1;
  for (auto& l : g_ino[n]->locks) if (l.type == F_WRLCK && (l.lo == -7 || (l.lo == 0 && l.hi == INT64_MAX))) return l.proc;
  return -1;
}
void vfs_rlimit_nofile(uint64_t c) { g_rlim = c; }
void vfs_rlimit_fail(int on) { g_rlim_fail = on; }
void vfs_set_env(const char* n, const char* v) { Eng e; if (v) g_env[n] = v; else g_env.erase(n); }
void vfs_set_euid(unsigned u) { g_euid = u; }
int64_t vfs_syscalls() { return g_calls; }
void vfs_crash_enable(int on) { Eng e; g_crash_on = on; if (on) for (auto* n : g_ino) { if (n->dir) { n->dents = n->ents; n->dpend.clear(); } else { n->dur.assign(n->buf, n->size); n->pend.clear(); } } }
void vfs_crash_here() { Eng e; g_crashed = true; g_crash_on = false; g_faults = false; trace("CRASH (after the last call)"); for (int i = 1; i < g_nfib; i++) if (i != g_cur) kill_fiber(i); }
int vfs_crashed() { return g_crashed; }
void vfs_recover() {
  Eng e;
  for (auto* n : g_ino) {
    if (n->dir) {
      n->ents = n->dents;
      for (auto& p : n->dpend) if (choice(2, K_CHOOSE, false, "directory update survives")) {
        for (auto& s : p.set) { if (s.second < 0) n->ents.erase(s.first); else n->ents[s.first] = s.second; }
      }
      n->dents = n->ents; n->dpend.clear();
    } else {
      std::string c = n->dur;
      for (auto& p : n->pend) {
        int k = choice(p.kind == 0 && p.data.size() > 1 ? 3 : 2, K_CHOOSE, false, "data write survives (0 no, 1 yes, 2 torn)");
        if (k == 0) continue;
        if (p.kind == 1) { c.resize(p.off, 0); continue; }
        size_t len = k == 2 ? p.data.size() / 2 : p.data.size();
        if (c.size() < p.off + len) c.resize(p.off + len, 0);
        c.replace(p.off, len, p.data, 0, len);
      }
      memset(n->buf, 0, n->touched); memcpy(n->buf, c.data(), c.size()); n->size = c.size(); n->touched = std::max(n->touched, c.size());
      n->dur = c; n->pend.clear(); n->locks.clear();
    }
  }
  for (int p = 0; p < MAXPROC; p++) g_fd[p].clear(), g_inherit[p].clear();
  for (auto* c : g_cookies) c->dead = true;
}
void vfs_process_exit(int proc) {
  Eng e; trace("process %d exits", proc); if (g_procmode) helper_stop(proc);
  for (int i = 0; i < g_nfib; i++) if (g_fib[i].proc == proc && i != g_cur) kill_fiber(i);
  std::vector<int> fds; for (auto& x : g_fd[proc]) fds.push_back(x.first);
  for (int fd : fds) close_fd(proc, fd);
  for (auto* n : g_ino) for (size_t i = 0; i < n->locks.size();) if (!n->locks[i].ofd && n->locks[i].proc == proc) n->locks.erase(n->locks.begin() + i); else i++;
  for (auto& m : g_maps) if (m.live && m.proc == proc) { munmap(m.addr, m.rlen); m.live = false; }
}

// ---- system calls made by the library --------------------------------------------------
int __wrap_open(const char* path, int flags, ...) {
  int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  if (!IN()) return open(path, flags, mode);
  return m_open(path, flags, mode);
}
int __wrap_open64(const char* path, int flags, ...) {
  int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  return __wrap_open(path, flags, mode);
}
int __wrap_openat(int d, const char* path, int flags, ...) {
  int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  if (!IN()) return openat(d, path, flags, mode);
  if (d != AT_FDCWD && path[0] != '/') fail("unmodelled: openat relative to a descriptor");
  return m_open(path, flags, mode);
}
int __wrap_creat(const char* path, mode_t mode) { return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
ssize_t __wrap_read(int fd, void* p, size_t n) { if (!IN()) return read(fd, p, n); void* pc = LMC_PC; Enter en("read"); if (g_procmode) { Rpc r; memset(&r, 0, sizeof r); r.op = R_READ; r.fd = fd; r.a = std::min<size_t>(n, sizeof r.data); long k = rpc(r); if (k > 0) memcpy(p, r.data, k); return k; } if (g_realmode) return read(fd, p, n); return m_read(fd, p, n, nullptr, pc); }
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t off) { if (!IN()) return pread(fd, p, n, off); void* pc = LMC_PC; Enter en("pread"); if (g_procmode) lmc_prune(); if (g_realmode) return pread(fd, p, n, off); int64_t o = off; return m_read(fd, p, n, &o, pc); }
ssize_t __wrap_pread64(int fd, void* p, size_t n, off_t off) { return __wrap_pread(fd, p, n, off); }
ssize_t __wrap_write(int fd, const void* p, size_t n) { if (!IN()) return write(fd, p, n); void* pc = LMC_PC; Enter en("write"); if (g_procmode && fd > 2) { Rpc r; memset(&r, 0, sizeof r); r.op = R_WRITE; r.fd = fd; r.a = std::min<size_t>(n, sizeof r.data); memcpy(r.data, p, r.a); return rpc(r); } if (g_realmode || (fd >= 0 && fd <= 2 && !of(fd))) return write(fd, p, n); return m_write(fd, p, n, nullptr, pc); }
ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t off) { if (!IN()) return pwrite(fd, p, n, off); void* pc = LMC_PC; Enter en("pwrite"); if (g_procmode) lmc_prune(); if (g_realmode) return pwrite(fd, p, n, off); int64_t o = off; return m_write(fd, p, n, &o, pc); }
ssize_t __wrap_pwrite64(int fd, const void* p, size_t n, off_t off) { return __wrap_pwrite(fd, p, n, off); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
  if (!IN()) return writev(fd, v, c);
  void* pc = LMC_PC; Enter en("writev"); if (g_procmode) lmc_prune(); if (g_realmode) return writev(fd, v, c);
  std::string s; for (int i = 0; i < c; i++) { if (v[i].iov_len && shared(v[i].iov_base)) { if (s.empty()) return m_write(fd, v[i].iov_base, v[i].iov_len, nullptr, pc); break; } note_read(v[i].iov_base, v[i].iov_len, pc); s.append((const char*)v[i].iov_base, v[i].iov_len); }
  return m_write(fd, s.data(), s.size(), nullptr, pc, true);
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) {
  if (!IN()) return readv(fd, v, c);
  void* pc = LMC_PC; Enter en("readv"); if (g_procmode) lmc_prune(); if (g_realmode) return readv(fd, v, c);
  ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = m_read(fd, v[i].iov_base, v[i].iov_len, nullptr, pc); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
ssize_t __wrap_preadv(int fd, const struct iovec* v, int c, off_t off) {
  if (!IN()) return preadv(fd, v, c, off);
  void* pc = LMC_PC; Enter en("preadv"); if (g_procmode) lmc_prune(); if (g_realmode) return preadv(fd, v, c, off);
  ssize_t t = 0; int64_t at = off; for (int i = 0; i < c; i++) { ssize_t r = m_read(fd, v[i].iov_base, v[i].iov_len, &at, pc); if (r < 0) return t ? t : r; t += r; at += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int c, off_t off) {
  if (!IN()) return pwritev(fd, v, c, off);
  void* pc = LMC_PC; Enter en("pwritev"); if (g_procmode) lmc_prune(); if (g_realmode) return pwritev(fd, v, c, off);
  int64_t at = off;
  std::string s; for (int i = 0; i < c; i++) { if (v[i].iov_len && shared(v[i].iov_base)) { if (s.empty()) return m_write(fd, v[i].iov_base, v[i].iov_len, &at, pc); break; } note_read(v[i].iov_base, v[i].iov_len, pc); s.append((const char*)v[i].iov_base, v[i].iov_len); }
  return m_write(fd, s.data(), s.size(), &at, pc, true);
}
int __wrap_close(int fd) { if (!IN()) return close(fd); Enter en("close"); if (g_procmode) return rpc1(R_CLOSE, fd); if (g_realmode) { g_realfds.erase(fd); return close(fd); } return m_close(fd); }
off_t __wrap_lseek(int fd, off_t off, int wh) {
  if (!IN()) return lseek(fd, off, wh);
  Enter en("lseek"); if (g_procmode) return rpc1(R_SEEK, fd, wh, off); if (g_realmode) return lseek(fd, off, wh);
  OFile* o = of(fd); if (!o) ERR(EBADF);
  if (int e = fault(F_SEEK, {EIO}, "lseek")) ERR(e);
  __int128 np = wh == SEEK_SET ? (__int128)off : wh == SEEK_CUR ? (__int128)o->pos + off : wh == SEEK_END ? (__int128)g_ino[o->ino]->size + off : -1;
  if (np < 0 || np > INT64_MAX / 2) ERR(EINVAL);
  o->pos = (int64_t)np; trace("lseek(%d) = %lld", fd, (long long)np); return (off_t)np;
}
off_t __wrap_lseek64(int fd, off_t off, int wh) { return __wrap_lseek(fd, off, wh); }
int __wrap_fsync(int fd) { if (!IN()) return fsync(fd); Enter en("fsync"); if (g_procmode) return rpc1(R_SYNC, fd); if (g_realmode) return fsync(fd); return m_sync(fd, "fsync"); }
int __wrap_fdatasync(int fd) { if (!IN()) return fdatasync(fd); Enter en("fdatasync"); if (g_procmode) return rpc1(R_SYNC, fd); if (g_realmode) return fdatasync(fd); return m_sync(fd, "fdatasync"); }
int __wrap_sync_file_range(int, off_t, off_t, unsigned) { return 0; }
int __wrap_syncfs(int fd) { if (!IN()) return syncfs(fd); Enter en("syncfs"); crash_point("syncfs"); if (int e = fault(F_SYNC, {EIO}, "syncfs")) ERR(e); for (auto* n : g_ino) make_durable(n); return 0; }
void __wrap_sync() { if (!IN()) return; Enter en("sync"); crash_point("sync"); for (auto* n : g_ino) make_durable(n); }
int __wrap_ftruncate(int fd, off_t len) {
  if (!IN()) return ftruncate(fd, len);
  Enter en("ftruncate"); if (g_procmode) return rpc1(R_TRUNC, fd, 0, len); if (g_realmode) return ftruncate(fd, len);
  crash_point("ftruncate"); if (int e = fault(F_WRITE, {EIO}, "ftruncate")) ERR(e);
  OFile* o = of(fd); if (!o) ERR(EBADF); if (len < 0 || (o->flags & O_ACCMODE) == O_RDONLY) ERR(EINVAL); if (!g_ino[o->ino]->huge && (size_t)len > SLOT - 4096) ERR(EFBIG);
  data_trunc(g_ino[o->ino], len); return 0;
}
int __wrap_truncate(const char* p, off_t len) {
  if (!IN()) return truncate(p, len);
  Enter en("truncate"); if (g_realmode) return truncate(rp(p).c_str(), len);
  int n; if (int e = lookup(p, &n)) ERR(e); if (g_ino[n]->dir) ERR(EISDIR); if (len < 0) ERR(EINVAL); if ((size_t)len > SLOT - 4096) ERR(EFBIG);
  data_trunc(g_ino[n], len); return 0;
}
int __wrap_posix_fadvise(int, off_t, off_t, int) { return 0; }
int __wrap_posix_fallocate(int, off_t, off_t) { return EOPNOTSUPP; }
int __wrap_fallocate(int, int, off_t, off_t) { ERR(EOPNOTSUPP); }
int __wrap_madvise(void*, size_t, int) { return 0; }
int __wrap_posix_madvise(void*, size_t, int) { return 0; }
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  if (!IN()) return mmap(a, len, prot, flags, fd, off);
  Enter en("mmap"); if (g_procmode && fd >= 0) lmc_prune(); if (g_realmode || fd < 0) return mmap(a, len, prot, flags, fd, off);
  if (int e = fault(F_MMAP, {ENOMEM, EIO}, "mmap")) { errno = e; return MAP_FAILED; }
  OFile* o = of(fd); if (!o) { errno = EBADF; return MAP_FAILED; }
  if (len == 0 || (off & 4095)) { errno = EINVAL; return MAP_FAILED; }
  Inode* n = g_ino[o->ino]; if (n->dir) { errno = ENODEV; return MAP_FAILED; }
  if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EACCES; return MAP_FAILED; }
  size_t rl = (len + 4095) & ~4095ul;
  if (rl > (n->huge ? MAPSPAN / 4 : SLOT) || off < 0 || (!n->huge && off + rl > SLOT)) { errno = ENOMEM; return MAP_FAILED; }
  char* at = g_mapnext; g_mapnext += rl + 8192; char* p;
  if (n->huge) {       // a copy: these files do not change while mapped
    p = (char*)mmap(at, rl, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) fail("engine: mmap");
    for (auto& s : n->isles) { int64_t lo = std::max<int64_t>(off, s.first), hi = std::min<int64_t>(off + (int64_t)len, s.first + (int64_t)s.size()); if (lo < hi) memcpy(p + (lo - off), s.data() + (lo - s.first), hi - lo); }
    mprotect(p, rl, PROT_READ);
  } else p = (char*)mmap(at, rl, prot & ~PROT_WRITE, MAP_SHARED | MAP_FIXED, g_memfd, (off_t)n->ino * SLOT + off);
  if (p == MAP_FAILED) fail("engine: mmap");
  g_maps.push_back({P(), p, len, rl, n->ino, true});
  int k = 0; for (auto& m : g_maps) if (m.live && m.proc == P()) k++;
  if (k > g_maxmaps[P()]) g_maxmaps[P()] = k;
  trace("mmap(fd %d, %zu)", fd, len);
  return p;
}
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
int __wrap_munmap(void* a, size_t len) {
  if (!IN()) return munmap(a, len);
  Enter en("munmap"); if (g_realmode || !vfs_region(a)) return munmap(a, len);
  size_t rl = (len + 4095) & ~4095ul;
  for (auto& m : g_maps) if (m.live && m.addr == a) {
    if (len == 0) ERR(EINVAL);
    if (rl < m.rlen) { munmap(a, rl); m.addr += rl; m.rlen -= rl; trace("partial munmap"); return 0; }
    munmap(m.addr, m.rlen); m.live = false; trace("munmap(%zu)", len); return 0;
  }
  fail("munmap of an address that is not mapped");
}
int __wrap_stat(const char* p, struct stat* st) { if (!IN()) return stat(p, st); return m_stat(p, st, LMC_PC); }
int __wrap_stat64(const char* p, struct stat* st) { if (!IN()) return stat(p, st); return m_stat(p, st, LMC_PC); }
int __wrap_lstat(const char* p, struct stat* st) { if (!IN()) return lstat(p, st); return m_stat(p, st, LMC_PC, false); }
int __wrap_fstatat(int d, const char* p, struct stat* st, int fl) { if (!IN()) return fstatat(d, p, st, fl); return m_stat(p, st, LMC_PC, !(fl & AT_SYMLINK_NOFOLLOW)); }
int __wrap_fstat(int fd, struct stat* st) {
  if (!IN()) return fstat(fd, st);
  Enter en("fstat"); if (g_procmode) { Rpc r; memset(&r, 0, sizeof r); r.op = R_FSTAT; r.fd = fd; int k = rpc(r); if (!k) *st = r.st; return k; } if (g_realmode) return fstat(fd, st);
  if (int e = fault(F_STAT, {EIO}, "fstat")) ERR(e);
  OFile* o = of(fd); if (!o) ERR(EBADF); fill_stat(g_ino[o->ino], st); return 0;
}
int __wrap_fstat64(int fd, struct stat* st) { return __wrap_fstat(fd, st); }
int __wrap_access(const char* p, int m) {
  if (!IN()) return access(p, m);
  Enter en("access"); trace("access(%s)", p); if (g_realmode) return access(rp(p).c_str(), m);
  if (int e = fault(F_STAT, {EIO}, "access")) ERR(e);
  int n; if (int e = lookup(p, &n)) ERR(e); if (m && !may(g_ino[n], m & 7)) ERR(EACCES); return 0;
}
int __wrap_faccessat(int, const char* p, int m, int) { return __wrap_access(p, m); }
int __wrap_euidaccess(const char* p, int m) { return __wrap_access(p, m); }
int __wrap_unlink(const char* p) { if (!IN()) return unlink(p); return m_unlink(p); }
int __wrap_rmdir(const char* p) { if (!IN()) return rmdir(p); return m_rmdir(p); }
int __wrap_unlinkat(int, const char* p, int fl) { if (fl & AT_REMOVEDIR) return __wrap_rmdir(p); return __wrap_unlink(p); }
int __wrap_remove(const char* p) {
  if (!IN()) return remove(p);
  int r = m_unlink(p); if (r && errno == EISDIR) r = m_rmdir(p); return r;
}
int __wrap_rename(const char* a, const char* b) { if (!IN()) return rename(a, b); return m_rename(a, b); }
int __wrap_renameat(int, const char* a, int, const char* b) { return __wrap_rename(a, b); }
int __wrap_renameat2(int, const char* a, int, const char* b, unsigned fl) { if (fl) ERR(EINVAL); return __wrap_rename(a, b); }
int __wrap_link(const char* a, const char* b) { if (!IN()) return link(a, b); return m_link(a, b); }
int __wrap_mkdir(const char* p, mode_t m) { if (!IN()) return mkdir(p, m); return m_mkdir(p, m); }
int __wrap_mkdirat(int, const char* p, mode_t m) { return __wrap_mkdir(p, m); }
int __wrap_chmod(const char* p, mode_t m) { if (!IN()) return chmod(p, m); Enter en("chmod"); if (g_realmode) return chmod(rp(p).c_str(), m); int n; if (int e = lookup(p, &n)) ERR(e); g_ino[n]->mode = m & 07777; return 0; }
int __wrap_fchmod(int fd, mode_t m) { if (!IN()) return fchmod(fd, m); Enter en("fchmod"); if (g_realmode) return fchmod(fd, m); OFile* o = of(fd); if (!o) ERR(EBADF); g_ino[o->ino]->mode = m & 07777; return 0; }
int __wrap_symlink(const char* t, const char* p) {
  if (!IN()) return symlink(t, p);
  Enter en("symlink"); if (g_realmode) return symlink(t, rp(p).c_str());
  crash_point("symlink"); if (int e = fault(F_NAME, {EIO}, "symlink")) ERR(e);
  int d; std::string l; bool sl; if (int e = walk(p, &d, &l, &sl)) ERR(e); if (l.empty() || dir_name(d, l) >= 0) ERR(EEXIST); if (!*t) ERR(ENOENT);
  int i = new_inode(false); g_ino[i]->nlink = 1; g_ino[i]->lnk = true; g_ino[i]->mode = 0777; g_ino[i]->target = t; dir_set(d, {{l, i}}); return 0;
}
ssize_t __wrap_readlink(const char* p, char* b, size_t k) {
  if (!IN()) return readlink(p, b, k);
  void* pc = LMC_PC; Enter en("readlink"); if (g_realmode) return readlink(rp(p).c_str(), b, k);
  if (int e = fault(F_STAT, {EIO}, "readlink")) ERR(e);
  int n; if (int e = lookup(p, &n, false)) ERR(e); if (!g_ino[n]->lnk) ERR(EINVAL);
  k = std::min(k, g_ino[n]->target.size()); note_write(b, k, pc); memcpy(b, g_ino[n]->target.data(), k); return k;
}
int __wrap_statx(int d, const char* p, int fl, unsigned mask, struct statx* x) {
  if (!IN()) return statx(d, p, fl, mask, x);
  struct stat st; int r = (fl & AT_EMPTY_PATH) && !*p ? __wrap_fstat(d, &st) : m_stat(p, &st, LMC_PC, !(fl & AT_SYMLINK_NOFOLLOW)); if (r) return r;
  memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = st.st_mode; x->stx_size = st.st_size; x->stx_ino = st.st_ino; x->stx_nlink = st.st_nlink; x->stx_blksize = 4096; x->stx_blocks = st.st_blocks; return 0;
}
static int dtype(int i) { return g_ino[i]->dir ? DT_DIR : g_ino[i]->lnk ? DT_LNK : DT_REG; }
DIR* __wrap_opendir(const char* p) {
  if (!IN()) return opendir(p);
  Enter en("opendir"); trace("opendir(%s)", p);
  DirS* d = new DirS; d->magic = 0xd1d1; d->i = 0; d->fd = -1; d->rd = nullptr;
  if (g_realmode) { d->rd = opendir(rp(p).c_str()); if (!d->rd) { int e = errno; delete d; errno = e; return nullptr; } g_dirs.push_back(d); return (DIR*)d; }
  if (int e = fault(F_DIR, {EIO, ENOENT, EMFILE}, "opendir")) { delete d; errno = e; return nullptr; }
  int n; int e = lookup(p, &n); if (!e && !g_ino[n]->dir) e = ENOTDIR; if (!e && !may(g_ino[n], 4)) e = EACCES;
  if (e) { delete d; errno = e; return nullptr; }
  OFile* o = new OFile; g_ofs.push_back(o); o->ino = n; o->flags = O_RDONLY | O_DIRECTORY; d->fd = new_fd(o);
  d->names.push_back({".", DT_DIR}); d->names.push_back({"..", DT_DIR});
  for (auto& x : g_ino[n]->ents) d->names.push_back({x.first, dtype(x.second)});
  g_dirs.push_back(d); return (DIR*)d;
}
DIR* __wrap_fdopendir(int fd) {
  if (!IN()) return fdopendir(fd);
  Enter en("fdopendir"); DirS* d = new DirS; d->magic = 0xd1d1; d->i = 0; d->fd = -1; d->rd = nullptr;
  if (g_realmode) { d->rd = fdopendir(fd); if (!d->rd) { int e = errno; delete d; errno = e; return nullptr; } g_realfds.erase(fd); g_dirs.push_back(d); return (DIR*)d; }
  OFile* o = of(fd); int e = !o ? EBADF : !g_ino[o->ino]->dir ? ENOTDIR : fault(F_DIR, {EIO}, "fdopendir"); if (e) { delete d; errno = e; return nullptr; }
  d->fd = fd; d->names.push_back({".", DT_DIR}); d->names.push_back({"..", DT_DIR});
  for (auto& x : g_ino[o->ino]->ents) d->names.push_back({x.first, dtype(x.second)});
  g_dirs.push_back(d); return (DIR*)d;
}
struct dirent* __wrap_readdir(DIR* dp) {
  if (!IN()) return readdir(dp);
  Enter en("readdir"); DirS* d = (DirS*)dp;
  bool known = false; for (auto* x : g_dirs) known |= x == d;
  if (!known) fail("readdir on a closed directory stream");
  if (d->rd) { return readdir(d->rd); }
  if (int e = fault(F_READDIR, {EIO}, "readdir")) { errno = e; return nullptr; }
  if (d->i >= d->names.size()) return nullptr;
  auto& x = d->names[d->i++];
  memset(&d->de, 0, sizeof d->de); d->de.d_ino = d->i; d->de.d_type = g_notype ? DT_UNKNOWN : x.second; snprintf(d->de.d_name, sizeof d->de.d_name, "%s", x.first.c_str());
  return &d->de;
}
struct dirent* __wrap_readdir64(DIR* d) { return __wrap_readdir(d); }
int __wrap_readdir_r(DIR* d, struct dirent* e, struct dirent** r) { errno = 0; struct dirent* x = __wrap_readdir(d); if (x) { *e = *x; *r = e; return 0; } *r = nullptr; return errno; }
int __wrap_closedir(DIR* dp) {
  if (!IN()) return closedir(dp);
  Enter en("closedir"); DirS* d = (DirS*)dp;
  auto it = std::find(g_dirs.begin(), g_dirs.end(), d);
  if (it == g_dirs.end()) fail("closedir on a closed directory stream");
  g_dirs.erase(it); int r = 0;
  if (d->rd) r = closedir(d->rd); else close_fd(P(), d->fd);
  delete d; return r;
}
int __wrap_dirfd(DIR* dp) { return ((DirS*)dp)->fd; }
void __wrap_rewinddir(DIR* dp) { ((DirS*)dp)->i = 0; }
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  if (!IN()) return fcntl(fd, cmd, arg);
  Enter en("fcntl");
  if (g_procmode) {
    if (cmd != F_GETLK && cmd != F_SETLK && cmd != F_SETLKW && cmd != F_OFD_GETLK && cmd != F_OFD_SETLK && cmd != F_OFD_SETLKW) return rpc1(R_FCNTL, fd, cmd, (long)arg);
    Rpc r; memset(&r, 0, sizeof r); r.op = R_LK; r.fd = fd; r.fl = *(struct flock*)arg; bool wait = cmd == F_SETLKW || cmd == F_OFD_SETLKW; r.cmd = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
    int k = rpc(r); if (!k) *(struct flock*)arg = r.fl; else if (wait && (errno == EAGAIN || errno == EACCES)) fail("waits for a lock"); return k;
  }
  if (g_realmode) { int k = fcntl(fd, cmd, arg); if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && k >= 0) g_realfds.insert(k); return k; }
  OFile* o = of(fd); if (!o) ERR(EBADF);
  switch (cmd) {
    case F_GETLK: case F_SETLK: case F_SETLKW: case F_OFD_GETLK: case F_OFD_SETLK: case F_OFD_SETLKW: return m_setlk(fd, cmd, (struct flock*)arg);
    case F_GETFD: return g_inherit[P()].count(fd) ? 0 : FD_CLOEXEC; case F_SETFD: if ((int)(long)arg & FD_CLOEXEC) g_inherit[P()].erase(fd); else g_inherit[P()].insert(fd); return 0; case F_GETFL: return o->flags & (O_ACCMODE | O_APPEND); case F_SETFL: o->flags = (o->flags & ~O_APPEND) | ((int)(long)arg & O_APPEND); return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: o->refs++; return mark_fd(new_fd(o), cmd == F_DUPFD_CLOEXEC);
  }
  ERR(EINVAL);
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap); return __wrap_fcntl(fd, cmd, arg); }
int __wrap_flock(int fd, int op) {
  if (!IN()) return flock(fd, op);
  Enter en("flock"); if (g_procmode) { int k = rpc1(R_FLOCK, fd, op | LOCK_NB); if (k && errno == EWOULDBLOCK && !(op & LOCK_NB)) fail("waits for a lock"); return k; } if (g_realmode) return flock(fd, op);
  OFile* o = of(fd); if (!o) ERR(EBADF); Inode* f = g_ino[o->ino];
  if (int e = fault(F_LCK, {EIO, EINTR}, "flock")) ERR(e);
  auto drop = [&] { for (size_t i = 0; i < f->locks.size();) if (f->locks[i].ofd == o && f->locks[i].lo == -7) f->locks.erase(f->locks.begin() + i); else i++; };
  if ((op & ~LOCK_NB) == LOCK_UN) { drop(); return 0; }
  int type = (op & LOCK_EX) ? F_WRLCK : F_RDLCK;
  if (conflict(f, P(), o, type, 0, 0, true)) { if (op & LOCK_NB) ERR(EWOULDBLOCK); wait_until([=] { return !conflict(f, 0, o, type, 0, 0, true); }, "flock"); }
  drop(); f->locks.push_back({P(), o, type, -7, -7}); return 0;
}
int __wrap_lockf(int fd, int cmd, off_t len) {
  struct flock fl; memset(&fl, 0, sizeof fl); fl.l_whence = SEEK_CUR; fl.l_len = len; fl.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  return __wrap_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &fl);
}
int __wrap_dup2(int fd, int to) {
  if (!IN()) return dup2(fd, to);
  Enter en("dup2"); if (g_procmode) lmc_prune(); if (g_realmode) return dup2(fd, to);
  OFile* o = of(fd); if (!o) ERR(EBADF); if (fd == to) return to; if (of(to)) close_fd(P(), to); o->refs++; g_fd[P()][to] = o; g_ino[o->ino]->opens++; return mark_fd(to, false);
}
int __wrap_dup3(int fd, int to, int fl) { if (!IN()) return dup3(fd, to, fl); if (fd == to) ERR(EINVAL); if (g_realmode && !g_procmode) { Enter en("dup3"); return dup3(fd, to, fl); } int r = __wrap_dup2(fd, to); if (r >= 0 && (fl & O_CLOEXEC)) g_inherit[P()].erase(r); return r; }
ssize_t __wrap_sendfile(int out, int in, off_t* off, size_t n) {
  if (!IN()) return sendfile(out, in, off, n);
  Enter en("sendfile"); if (g_procmode) lmc_prune(); if (g_realmode) return sendfile(out, in, off, n);
  OFile* o = of(in); if (!o || !of(out)) ERR(EBADF); std::string b(std::min<size_t>(n, 1 << 20), 0); int64_t at = off ? *off : o->pos;
  ssize_t r = m_read(in, &b[0], b.size(), &at, nullptr); if (r <= 0) return r; r = m_write(out, b.data(), r, nullptr, nullptr, true); if (r > 0) { if (off) *off += r; else o->pos += r; } return r;
}
ssize_t __wrap_copy_file_range(int in, off64_t* io, int out, off64_t* oo, size_t n, unsigned) {
  if (!IN()) return copy_file_range(in, io, out, oo, n, 0);
  Enter en("copy_file_range"); if (g_procmode) lmc_prune(); if (g_realmode) return copy_file_range(in, io, out, oo, n, 0);
  OFile* o = of(in); if (!o || !of(out)) ERR(EBADF); std::string b(std::min<size_t>(n, 1 << 20), 0); int64_t at = io ? *io : o->pos;
  ssize_t r = m_read(in, &b[0], b.size(), &at, nullptr); if (r <= 0) return r; int64_t to = oo ? *oo : 0; r = m_write(out, b.data(), r, oo ? &to : nullptr, nullptr, true); if (r > 0) { if (io) *io += r; else o->pos += r; if (oo) *oo += r; } return r;
}
int __wrap_dup(int fd) { if (!IN()) return dup(fd); Enter en("dup"); if (g_procmode) lmc_prune(); if (g_realmode) { int k = dup(fd); if (k >= 0) g_realfds.insert(k); return k; } OFile* o = of(fd); if (!o) ERR(EBADF); if (int e = fault(F_OPEN, {EMFILE}, "dup")) ERR(e); o->refs++; return mark_fd(new_fd(o), false); }
int __wrap_getrlimit(int r, struct rlimit* l) { if (!IN()) return getrlimit((__rlimit_resource)r, l); if (g_rlim_fail) ERR(EINVAL); l->rlim_cur = l->rlim_max = g_rlim; return 0; }
char* __wrap_getenv(const char* n) { if (!IN()) return getenv(n); Eng e; auto it = g_env.find(n); return it == g_env.end() ? nullptr : (char*)it->second.c_str(); }
char* __wrap_secure_getenv(const char* n) { return __wrap_getenv(n); }
uid_t __wrap_geteuid() { return IN() ? g_euid : geteuid(); }
uid_t __wrap_getuid() { return IN() ? g_euid + 1 : getuid(); }
char* __wrap_realpath(const char* p, char* out) {
  if (!IN()) return realpath(p, out);
  Enter en("realpath"); int n; if (int e = lookup(p, &n)) { errno = e; return nullptr; }
  std::string s = p[0] == '/' ? p : std::string("/cwd/") + p; std::vector<std::string> cs; size_t i = 0;
  while (i < s.size()) { size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string c = s.substr(i, j - i); if (c == "..") { if (!cs.empty()) cs.pop_back(); } else if (c != "." && !c.empty()) cs.push_back(c); i = j + 1; }
  std::string r; for (auto& c : cs) r += "/" + c; if (r.empty()) r = "/";
  if (!out) out = (char*)pool_alloc(r.size() + 1, 16, 0);
  memcpy(out, r.c_str(), r.size() + 1); return out;
}
char* __wrap_getcwd(char* b, size_t n) { if (!IN()) return getcwd(b, n); snprintf(b, n, "/cwd"); return b; }

// ---- stdio ----------------------------------------------------------------------------------
static void acquire_stream(Cookie* c) { acquire_clock(c->clk); }
static void release_stream(Cookie* c) { release_clock(c->clk); }
// A stream's lock: one holder. The unlocked functions touch the stream as plain memory.
struct Use {
  Cookie* c;
  explicit Use(FILE* f) : c(ck_of(f)) { if (c && c->owner >= 0 && c->owner != g_cur) { Cookie* k = c; wait_until([=] { return k->owner < 0; }, "stream lock"); } if (c) acquire_stream(c); }
  ~Use() { if (c) release_stream(c); }
};
static void touch(FILE* f, void* pc) { Cookie* c = ck_of(f); if (!c) return; if (!c->mark) { g_quiet++; c->mark = pool_alloc(8, 16, 0); g_quiet--; } note_write(c->mark, 8, pc); }
void __wrap_flockfile(FILE* f) { if (!IN()) return flockfile(f); Enter en("flockfile"); Cookie* c = ck_of(f); if (!c) return; if (c->owner >= 0 && c->owner != g_cur) wait_until([=] { return c->owner < 0; }, "flockfile"); c->owner = g_cur; c->depth++; acquire_stream(c); }
int __wrap_ftrylockfile(FILE* f) { if (!IN()) return ftrylockfile(f); Enter en("ftrylockfile"); Cookie* c = ck_of(f); if (!c) return 0; if (c->owner >= 0 && c->owner != g_cur) return -1; c->owner = g_cur; c->depth++; acquire_stream(c); return 0; }
void __wrap_funlockfile(FILE* f) { if (!IN()) return funlockfile(f); Enter en("funlockfile"); Cookie* c = ck_of(f); if (!c) return; if (c->owner != g_cur) fail("funlockfile of a stream that this thread has not locked"); release_stream(c); if (--c->depth == 0) c->owner = -1; }
size_t __wrap_fwrite_unlocked(const void* p, size_t a, size_t b, FILE* f) { if (!IN()) return fwrite_unlocked(p, a, b, f); void* pc = LMC_PC; note_read(p, a * b, pc); Enter en("fwrite_unlocked"); if (f == stderr || f == stdout) return b; touch(f, pc); return fwrite(p, a, b, f); }
int __wrap_fflush_unlocked(FILE* f) { if (!IN()) return fflush_unlocked(f); void* pc = LMC_PC; Enter en("fflush_unlocked"); touch(f, pc); return fflush(f); }
int __wrap_fputs_unlocked(const char* s, FILE* f) { if (!IN()) return fputs_unlocked(s, f); void* pc = LMC_PC; Enter en("fputs_unlocked"); if (f == stderr || f == stdout) return 1; touch(f, pc); return fputs(s, f); }
int __wrap_fputc_unlocked(int c, FILE* f) { if (!IN()) return fputc_unlocked(c, f); void* pc = LMC_PC; Enter en("fputc_unlocked"); if (f == stderr || f == stdout) return c; touch(f, pc); return fputc(c, f); }
int __wrap_putc_unlocked(int c, FILE* f) { return __wrap_fputc_unlocked(c, f); }
int __wrap_vdprintf(int fd, const char* fmt, va_list ap) {
  if (!IN()) return vdprintf(fd, fmt, ap);
  std::vector<char> b; int n; { Eng e; va_list k; va_copy(k, ap); n = vsnprintf(nullptr, 0, fmt, k); va_end(k); if (n < 0) return n; b.resize(n + 1); vsnprintf(b.data(), n + 1, fmt, ap); }
  if (fd == 1 || fd == 2) return n;
  for (int at = 0; at < n;) { Enter en("dprintf"); ssize_t r = m_write(fd, b.data() + at, n - at, nullptr, nullptr, true); if (r < 0) { Eng e; return -1; } at += r; }
  return n;
}
int __wrap_dprintf(int fd, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vdprintf(fd, fmt, ap); va_end(ap); return r; }
FILE* __wrap_fopen(const char* p, const char* mode) {
  if (!IN()) return fopen(p, mode);
  if (g_procmode) lmc_prune();
  if (g_realmode) { Eng e; return fopen(rp(p).c_str(), mode); }
  int fd = m_open(p, mode_flags(mode), 0666); if (fd < 0) return nullptr;
  Eng e; return mk_file(fd, mode);
}
FILE* __wrap_fopen64(const char* p, const char* mode) { return __wrap_fopen(p, mode); }
FILE* __wrap_fdopen(int fd, const char* mode) {
  if (!IN()) return fdopen(fd, mode);
  Enter en("fdopen"); if (g_realmode) return fdopen(fd, mode);
  if (int e = fault(F_STDIO, {ENOMEM, ENOENT}, "fdopen")) { errno = e; return nullptr; }
  if (!of(fd)) { errno = EBADF; return nullptr; }
  return mk_file(fd, mode);
}
int __wrap_fclose(FILE* f) { if (!IN()) return fclose(f); Enter en("fclose"); Cookie* c = ck_of(f); if (!c && !g_realmode && f != stderr && f != stdout) fail("fclose of a stream that is not open"); return fclose(f); }
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) { if (!IN()) return fwrite(p, a, b, f); note_read(p, a * b, LMC_PC); Enter en("fwrite"); Use u(f); if (f == stderr || f == stdout) return b; trace("fwrite(%zu)", a * b); return fwrite(p, a, b, f); }
int __wrap_fflush(FILE* f) { if (!IN()) return fflush(f); Enter en("fflush"); Use u(f); return fflush(f); }
int __wrap_fputs(const char* s, FILE* f) { if (!IN()) return fputs(s, f); Enter en("fputs"); Use u(f); if (f == stderr || f == stdout) return 1; return fputs(s, f); }
int __wrap_fputc(int c, FILE* f) { if (!IN()) return fputc(c, f); Enter en("fputc"); Use u(f); if (f == stderr || f == stdout) return c; return fputc(c, f); }
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_vfprintf(FILE* f, const char* fmt, va_list ap) { if (!IN()) return vfprintf(f, fmt, ap); Enter en("fprintf"); Use u(f); if (f == stderr || f == stdout) return 1; return vfprintf(f, fmt, ap); }
int __wrap_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vfprintf(f, fmt, ap); va_end(ap); return r; }
int __wrap_fileno(FILE* f) { if (!IN()) return fileno(f); Eng e; Cookie* c = ck_of(f); return c ? c->fd : fileno(f); }
size_t __wrap_fread(void* p, size_t a, size_t b, FILE* f) { if (!IN()) return fread(p, a, b, f); Enter en("fread"); Use u(f); return fread(p, a, b, f); }
int __wrap_fseek(FILE* f, long o, int w) { if (!IN()) return fseek(f, o, w); Enter en("fseek"); Use u(f); return fseek(f, o, w); }
}
