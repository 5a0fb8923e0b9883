// C32: a program that the process starts inherits none of the environment's files.
#include "posix_common.h"
using lsmdb::FileLock; using lsmdb::Logger;
namespace lsmdb { Status WriteStringToFileSync(Env*, const Slice&, const std::string&); }

static const char *D = "/tmp/d", *F = "/tmp/d/f", *G = "/tmp/d/g", *M = "/tmp/d/MANIFEST-1", *L = "/tmp/L", *LOGF = "/tmp/LOG";
enum Kind { SEQ, SREAD, SKIP, RND, RREAD, WRITE, APP, PUT, SYNC, CLOSE, MAN, MSYNC, LOCK, UNLOCK, LOGGER, LOG, LIST, WHOLE, WHOLESYNC, READALL, NAMES, SCHED, GONE, NKIND };
static const char* KN[] = {"open sequentially", "read", "skip", "open for random reads", "random read", "open for writing", "open for appending", "append", "sync", "close", "open a manifest", "sync the manifest", "lock", "unlock", "open a log", "log", "list", "write a whole file", "write a whole file and sync", "read a whole file", "naming calls", "schedule", "close everything"};
struct World {
  Env* e; SequentialFile* q[2] = {}; RandomAccessFile* r[2] = {}; WritableFile *w[2] = {}, *m[2] = {}; FileLock* l[2] = {}; Logger* lg[2] = {}; int jobs = 0; std::string names[2][7]; bool over = false;
  void drop(int t) { delete q[t]; delete r[t]; delete w[t]; delete m[t]; delete lg[t]; q[t] = nullptr; r[t] = nullptr; w[t] = m[t] = nullptr; lg[t] = nullptr; if (l[t]) { FileLock* x = l[t]; l[t] = nullptr; e->UnlockFile(x); } }
};
static World* W;
extern "C" void c32_job(void*) { std::string s; ReadFileToString(W->e, W->names[0][1], &s); }
static void exec_now(const char* when) { int k = vfs_inheritable(0); CHECK(k == 0, "a program started %s inherits %d of the environment's descriptors", when, k); }
static int g_loglen = 20;
// Whether the call was made (not: whether it succeeded).
static bool run(int t, int kind) {
  World* w = W; Env* e = w->e; const std::string* n = w->names[t]; const std::string &d = n[0], &f = n[1], &g = n[2], &m = n[3], &l = n[4], &lg = n[5]; char* b; { Quiet z; b = new char[64]; } Slice s; bool ok = true;
  NOTE("thread %d: %s", t, KN[kind]);
  switch (kind) {
    case SEQ: { SequentialFile* x = nullptr; if (e->NewSequentialFile(f, &x).ok()) { delete w->q[t]; w->q[t] = x; } break; }
    case SREAD: if ((ok = w->q[t])) w->q[t]->Read(3, &s, b); break;
    case SKIP: if ((ok = w->q[t])) w->q[t]->Skip(2); break;
    case RND: { RandomAccessFile* x = nullptr; if (e->NewRandomAccessFile(f, &x).ok()) { delete w->r[t]; w->r[t] = x; } break; }
    case RREAD: if ((ok = w->r[t])) w->r[t]->Read(1, 5, &s, b); break;
    case WRITE: case APP: { WritableFile* x = nullptr; if ((kind == APP ? e->NewAppendableFile(g, &x) : e->NewWritableFile(g, &x)).ok()) { delete w->w[t]; w->w[t] = x; } break; }
    case PUT: if ((ok = w->w[t])) { w->w[t]->Append("abc"); w->w[t]->Flush(); } break;
    case SYNC: if ((ok = w->w[t])) w->w[t]->Sync(); break;
    case CLOSE: if ((ok = w->w[t])) { w->w[t]->Close(); delete w->w[t]; w->w[t] = nullptr; } break;
    case MAN: { WritableFile* x = nullptr; if (e->NewWritableFile(m, &x).ok()) { delete w->m[t]; w->m[t] = x; } break; }
    case MSYNC: if ((ok = w->m[t])) { w->m[t]->Append("x"); w->m[t]->Sync(); } break;
    case LOCK: { FileLock* x = nullptr; if (e->LockFile(l, &x).ok()) w->l[t] = x; break; }
    case UNLOCK: if ((ok = w->l[t])) { FileLock* x = w->l[t]; w->l[t] = nullptr; e->UnlockFile(x); } break;
    case LOGGER: { Logger* x = nullptr; if (e->NewLogger(lg, &x).ok()) { delete w->lg[t]; w->lg[t] = x; } break; }
    case LOG: if ((ok = w->lg[t])) lsmdb::Log(w->lg[t], "%0*d", g_loglen, t); break;
    case LIST: { std::vector<std::string> v; e->GetChildren(d, &v); break; }
    case WHOLE: WriteStringToFile(e, "whole", g); break;
    case WHOLESYNC: WriteStringToFileSync(e, "whole", m); break;
    case READALL: { std::string* x = new std::string; ReadFileToString(e, f, x); delete x; break; }
    case NAMES: { uint64_t k; e->FileExists(f); e->GetFileSize(f, &k); e->RenameFile(g, n[6]); e->RenameFile(n[6], g); e->RemoveFile(n[6]); e->CreateDir(n[6]); e->RemoveDir(n[6]); std::string* x = new std::string; e->GetTestDirectory(x); delete x; break; }
    case SCHED: { Quiet z; w->jobs++; } e->Schedule(c32_job, nullptr); break;
    case GONE: w->drop(t); break;
  }
  { Quiet z; delete[] b; }
  return ok;
}
static void begin(int mode) {
  { Quiet z; W = new World; for (int t = 0; t < 2; t++) { const char* ns[] = {D, F, G, M, L, LOGF, "/tmp/d/h"}; for (int i = 0; i < 7; i++) W->names[t][i] = std::string(ns[i]) + (t && i && i != 1 ? "2" : ""); } }
  vfs_mkdir(D); vfs_put(F, "abcdefghij", 10); W->e = posix_env(mode == 2 ? 0 : -1, mode ? 0 : -1);
}
static void finish(uint64_t oh) {
  if (W->jobs) lmc_drain();
  exec_now("at the end"); W->drop(0); W->drop(1); lmc_outcome(mix(oh, vfs_inheritable(0))); { Quiet z; delete W; } W = nullptr;
}
// What the history makes possible: a call on an object needs one.
static bool sane(const int* k, int n) {
  bool q = false, r = false, w = false, m = false, l = false, lg = false;
  for (int i = 0; i < n; i++) switch (k[i]) {
    case SEQ: q = true; break; case RND: r = true; break; case WRITE: case APP: w = true; break; case MAN: m = true; break; case LOCK: l = true; break; case LOGGER: lg = true; break; case GONE: if (!(q || r || w || m || l || lg)) return false; q = r = w = m = l = lg = false; break;
    case SREAD: case SKIP: if (!q) return false; break; case RREAD: if (!r) return false; break; case PUT: case SYNC: if (!w) return false; break; case CLOSE: if (!w) return false; w = false; break; case MSYNC: if (!m) return false; break; case UNLOCK: if (!l) return false; l = false; break; case LOG: if (!lg) return false; break;
  }
  return true;
}
// One thread works, the other starts a program at any moment.
static void moments(int n, int modes) {
  int mode = lmc_choose(modes, "how files are read"), k[4]; for (int i = 0; i < n; i++) { k[i] = lmc_choose(NKIND, "call"); if (!sane(k, i + 1)) lmc_prune(); }
  begin(mode); uint64_t* oh; { Quiet z; oh = new uint64_t(mode); }
  run_threads({[&k, n, oh] { for (int i = 0; i < n; i++) { bool b = run(0, k[i]); Quiet z; *oh = mix(*oh, b * 100 + k[i]); } }, [] { exec_now("in the middle of a call"); }});
  uint64_t h; { Quiet z; h = *oh; delete oh; } finish(h);
}
static void moment() { moments(3, 3); }
// Longer histories; a program is started after each call.
static void histories(int n, int modes) {
  int mode = lmc_choose(modes, "how files are read"), k[8]; for (int i = 0; i < n; i++) { k[i] = lmc_choose(NKIND, "call"); if (!sane(k, i + 1)) lmc_prune(); }
  begin(mode); uint64_t oh = mode; for (int i = 0; i < n; i++) { bool b = run(0, k[i]); oh = mix(oh, b * 100 + k[i]); exec_now("after a call"); } finish(oh);
}
static void history() { histories(deep(4, 5), 3); }
// Calls that fail: the program is started at any moment.
static void failing() {
  int mode = lmc_choose(3, "how files are read"), n = 2, k[3]; for (int i = 0; i < n; i++) { k[i] = lmc_choose(NKIND, "call"); if (!sane(k, i + 1)) lmc_prune(); }
  begin(mode); vfs_wide_errnos(1); vfs_faults(1);
  run_threads({[&k, n] { for (int i = 0; i < n; i++) run(0, k[i]); }, [] { exec_now("in the middle of a call"); }});
  vfs_faults(0); finish(k[0] * 100 + k[1]);
}
static void fail_history() {
  int mode = lmc_choose(3, "how files are read"), n = deep(3, 4), k[4]; for (int i = 0; i < n; i++) { k[i] = lmc_choose(NKIND, "call"); if (!sane(k, i + 1)) lmc_prune(); }
  begin(mode); vfs_faults(1); uint64_t oh = mode; for (int i = 0; i < n; i++) { run(0, k[i]); oh = mix(oh, k[i]); exec_now("after a call that failed"); } vfs_faults(0); finish(oh);
}
// Two threads work, a third starts the program.
static void beside() {
  int n = deep(1, 2), k[2][2]; for (int t = 0; t < 2; t++) for (int i = 0; i < n; i++) { k[t][i] = lmc_choose(NKIND, "call"); if (!sane(k[t], i + 1)) lmc_prune(); } if (k[1][0] < k[0][0]) lmc_prune();
  begin(lmc_choose(3, "how files are read"));
  run_threads({[&k, n] { for (int i = 0; i < n; i++) run(0, k[0][i]); }, [&k, n] { for (int i = 0; i < n; i++) run(1, k[1][i]); }, [] { exec_now("in the middle of calls"); }});
  finish(k[0][0] * 100 + k[1][0]);
}
// Many objects of a kind at once: past the limits on mappings and descriptors.
static void crowd() {
  int kind = lmc_choose(5, "kind"), n = lmc_choose(2, "how many") ? 40 : 5, maps = lmc_choose(3, "mappings allowed"), fds = lmc_choose(3, "descriptors allowed"); vfs_mkdir(D); vfs_put(F, "abcdefghij", 10); Env* e = posix_env(fds * 2, maps * 2);
  std::vector<RandomAccessFile*> rs; std::vector<SequentialFile*> qs; std::vector<WritableFile*> ws; std::vector<FileLock*> ls; std::vector<Logger*> gs;
  for (int i = 0; i < n; i++) {
    char nm[40]; snprintf(nm, sizeof nm, "/tmp/d/%s%d", i % 3 ? "x" : "MANIFEST-", i);
    switch (kind) {
      case 0: { RandomAccessFile* x; fine(e->NewRandomAccessFile(F, &x), "NewRandomAccessFile"); rs.push_back(x); char b[8]; Slice s; fine(x->Read(0, 4, &s, b), "Read"); break; }
      case 1: { SequentialFile* x; fine(e->NewSequentialFile(F, &x), "NewSequentialFile"); qs.push_back(x); break; }
      case 2: { WritableFile* x; fine(i & 1 ? e->NewAppendableFile(nm, &x) : e->NewWritableFile(nm, &x), "NewWritableFile"); ws.push_back(x); fine(x->Append("x"), "Append"); fine(x->Sync(), "Sync"); break; }
      case 3: { FileLock* x; fine(e->LockFile(nm, &x), "LockFile"); ls.push_back(x); break; }
      case 4: { Logger* x; fine(e->NewLogger(nm, &x), "NewLogger"); gs.push_back(x); lsmdb::Log(x, "message"); break; }
    }
    exec_now("beside many open files");
  }
  for (auto* x : rs) { char b[8]; Slice s; fine(x->Read(2, 4, &s, b), "Read"); exec_now("after a read"); }
  while (rs.size() || qs.size() || ws.size() || ls.size() || gs.size()) {
    if (rs.size()) delete rs.back(), rs.pop_back(); if (qs.size()) delete qs.back(), qs.pop_back(); if (ws.size()) delete ws.back(), ws.pop_back(); if (gs.size()) delete gs.back(), gs.pop_back(); if (ls.size()) { fine(e->UnlockFile(ls.back()), "UnlockFile"); ls.pop_back(); }
    exec_now("while files are closed");
  }
  lmc_outcome(kind * 1000 + n * 10 + maps * 3 + fds);
}
// Large contents and long messages: paths with buffers and reallocation.
static void large() {
  int kind = lmc_choose(3, "what"), n = lmc_choose(2, "size") ? 200000 : 66000; begin(lmc_choose(3, "how files are read")); std::string* t; { Quiet z; t = new std::string(TEXT, n); }
  if (kind == 0) { WriteStringToFile(W->e, *t, W->names[0][2]); exec_now("after a large write"); ReadFileToString(W->e, W->names[0][2], t); }
  if (kind == 1) { run(0, WRITE); W->w[0]->Append(*t); exec_now("after a large append"); W->w[0]->Append(*t); W->w[0]->Sync(); exec_now("after a large sync"); run(0, CLOSE); }
  if (kind == 2) { g_loglen = n; run(0, LOGGER); run(0, LOG); exec_now("after a long message"); run(0, LOG); g_loglen = 20; }
  exec_now("after a large call"); { Quiet z; delete t; } finish(kind * 10 + n);
}
// The kernel's own flags.
static void kernel() {
  int mode = lmc_choose(3, "how files are read"), n = deep(2, 3), k[3]; for (int i = 0; i < n; i++) { k[i] = lmc_choose(NKIND, "call"); if (k[i] == SCHED || !sane(k, i + 1)) lmc_prune(); }
  vfs_real(1); begin(mode); uint64_t oh = mode; for (int i = 0; i < n; i++) { bool b = run(0, k[i]); oh = mix(oh, b * 100 + k[i]); exec_now("after a call"); } finish(oh);
}
LMC_SCENARIOS(
  {"moment", moment, {1, 2}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"history", history, {0, 0}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"failing", failing, {1, 1}, {1, 2}, {0, 0}, {60, 600}, 0},
  {"fail_history", fail_history, {0, 0}, {1, 2}, {0, 0}, {60, 600}, 0},
  {"beside", beside, {1, 2}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"crowd", crowd, {0, 0}, {0, 0}, {0, 0}, {60, 300}, 0},
  {"large", large, {0, 0}, {0, 0}, {0, 0}, {60, 300}, 0},
  {"kernel", kernel, {0, 0}, {0, 0}, {0, 0}, {60, 600}, 0})
