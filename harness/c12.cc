// C12: limits on mappings and descriptors; nothing leaks.
#include "posix_common.h"
using lsmdb::FileLock; using lsmdb::Logger;
static RandomAccessFile* W;
static int maps() { return vfs_live_maps(0); }
static int fds() { return vfs_open_fds(0); }
static RandomAccessFile* open(Env* e, const char* p) { RandomAccessFile* f = nullptr; Status s = e->NewRandomAccessFile(p, &f); if (!s.ok()) { CHECK(!f, "a failed open leaves a pointer"); return nullptr; } CHECK(f, "no file object"); return f; }
static void read_ok(RandomAccessFile* f, const char* text, size_t size, const char* what) { char b[16]; Slice r; Status s = f->Read(1, 16, &r, b); CHECK(s.ok(), "%s cannot be read: %s", what, s.ToString().c_str()); size_t want = size < 1 ? 0 : std::min<size_t>(16, size - 1); CHECK(r.size() == want && (!want || !memcmp(r.data(), text + 1, want)), "%s reads wrongly", what); }
// How many mappings and descriptors can be kept by opening n files now.
struct Cap { int m, f; };
static Cap capacity(Env* e, int n) { int m0 = maps(), f0 = fds(); std::vector<RandomAccessFile*> v; for (int i = 0; i < n; i++) { v.push_back(open(e, "/tmp/f0")); CHECK(v.back(), "an ordinary open fails"); read_ok(v.back(), TEXT, 20, "a file opened beyond the limits"); } Cap c = {maps() - m0, fds() - f0}; for (auto* x : v) delete x; CHECK(maps() == m0 && fds() == f0, "closing files leaves %d mappings and %d descriptors", maps() - m0, fds() - f0); return c; }
static void files() { vfs_put("/tmp/f0", TEXT, 20); vfs_put("/tmp/f1", TEXT + 100, 5000); vfs_put("/tmp/empty", "", 0); }
static const char* const NAME[] = {"/tmp/f0", "/tmp/f1", "/tmp/empty", "/tmp/none", "/tmp"};
static const size_t OFF[] = {0, 100, 0}; static const size_t SZ[] = {20, 5000, 0};

static void limits(int F, int M) { CHECK(maps() <= M, "%d mappings are open, the limit is %d", maps(), M); CHECK(vfs_max_maps(0) <= M, "%d mappings were open, the limit is %d", vfs_max_maps(0), M); CHECK(fds() <= F, "%d random-access descriptors are open, the limit is %d", fds(), F); }
static void run_history(int L, int depth, bool fl) {
  int F = lmc_choose(L, "fd limit"), M = lmc_choose(L, "map limit"); files(); Env* e = posix_env(F, M);
  Cap c0 = capacity(e, F + M + 1); CHECK(c0.m <= M && c0.f <= F, "%d mappings and %d descriptors are kept, the limits are %d and %d", c0.m, c0.f, M, F);
  for (int i = 0; i < 2; i++) for (const char* n : NAME) delete open(e, n);
  Heap heap; if (fl) vfs_faults(1);
  RandomAccessFile* o[4] = {}; int w[4]; uint64_t oh = 1;
  for (int i = 0; i < depth; i++) {
    int free = 0; while (free < 4 && o[free]) free++;
    int c = lmc_choose(5 + 4 + (fl ? 4 : 0), "operation");
    if (c < 5) { if (free == 4) lmc_prune(); uint64_t h = vfs_faults_hit(); NOTE("open %s", NAME[c]); int mb = maps(), fb = fds(); o[free] = open(e, NAME[c]); w[free] = c; if (!o[free]) { CHECK(c >= 3 || vfs_faults_hit() != h, "opening %s fails", NAME[c]); CHECK(maps() == mb && fds() == fb, "a failed open leaks"); } else { CHECK(c != 3, "opening a missing file succeeds"); CHECK(maps() - mb + fds() - fb <= 1, "one open file uses %d mappings and %d descriptors", maps() - mb, fds() - fb); } }
    else if (c < 9) { if (!o[c - 5]) lmc_prune(); NOTE("close %d", c - 5); delete o[c - 5]; o[c - 5] = nullptr; }
    else { int k = c - 9; if (!o[k]) lmc_prune(); int mb = maps(), fb = fds(); if (w[k] < 3 && !fl) read_ok(o[k], TEXT + OFF[w[k]], SZ[w[k]], "a file"); else { char b[16]; Slice r; o[k]->Read(1, 16, &r, b); } CHECK(maps() == mb && fds() == fb, "a read leaks"); }
    int live = 0; for (auto* x : o) live += !!x; limits(F, M); CHECK(maps() + fds() <= live, "%d files are open, they use %d mappings and %d descriptors", live, maps(), fds());
    oh = mix(oh, maps() * 10 + fds());
  }
  if (!fl) for (int k = 0; k < 4; k++) if (o[k] && w[k] < 3) read_ok(o[k], TEXT + OFF[w[k]], SZ[w[k]], "a file");
  for (auto*& x : o) { delete x; x = nullptr; }
  CHECK(maps() == 0 && fds() == 0, "%d mappings and %d descriptors are left", maps(), fds());
  vfs_faults(0); heap.same("by opening, reading and closing files"); Cap c1 = capacity(e, F + M + 1); CHECK(c1.m == c0.m && c1.f == c0.f, "the capacity was %d mappings and %d descriptors and is now %d and %d", c0.m, c0.f, c1.m, c1.f);
  lmc_outcome(oh);
}
static void history() { run_history(3, deep(6, 7), false); }
static void faulty() { run_history(2, deep(4, 5), true); }
// how the default limits come about
static void defaults() {
  static const uint64_t RL[] = {0, 4, 5, 11, 1024, ~0ull}; int k = lmc_choose(7, "rlimit"), m = lmc_choose(2, "maps"); files(); if (k == 6) vfs_rlimit_fail(1); else vfs_rlimit_nofile(RL[k]);
  Env* e = posix_env(-1, m ? -1 : 0); uint64_t F = k == 6 ? 50 : k == 5 ? 1000000 : RL[k] / 5; int M = m ? 1000 : 0;
  std::vector<RandomAccessFile*> v; for (int i = 0; i < deep(300, 600) + M; i++) { v.push_back(open(e, "/tmp/f0")); CHECK(v.back(), "an ordinary open fails"); }
  NOTE("%d mappings, %d descriptors", maps(), fds()); CHECK(maps() <= M && (uint64_t)fds() <= F, "%d mappings and %d descriptors are kept, the limits are %d and %llu", maps(), fds(), M, (unsigned long long)F); CHECK(maps() == M || !m, "only %d mappings are kept", maps());
  for (auto* x : v) { read_ok(x, TEXT, 20, "a file"); delete x; } CHECK(maps() == 0 && fds() == 0, "something is left"); lmc_outcome(k * 2 + m);
}
// threads opening, reading and closing at once
static void threads() {
  int lim = lmc_choose(4, "limits"); int F = lim & 1, M = lim >> 1; files(); Env* e = posix_env(F, M); int T = deep(2, 3), cc = lmc_choose(2, "files"); if (lmc_tier() == 0 && lmc_choose(2, "threads")) T = 3;
  Cap c0 = capacity(e, F + M + 1); int base = fds();
  std::vector<std::function<void()>> t; for (int i = 0; i < T; i++) t.push_back([=] { int n = cc ? i % 2 : 2 * (i == 0); RandomAccessFile* f = open(e, NAME[n]); CHECK(f, "an ordinary open fails"); if (T < 3) read_ok(f, TEXT + OFF[n], SZ[n], "a file"); if (i || T < 3) delete f; else { Quiet q; W = f; } });
  W = nullptr; run_threads(t);
  CHECK(vfs_max_maps(0) <= M, "%d mappings were open, the limit is %d", vfs_max_maps(0), M); CHECK(vfs_max_fds(0) - base <= F + T, "%d descriptors were open with %d calls under way, the limit is %d", vfs_max_fds(0), T, F);
  limits(F, M); delete W; CHECK(maps() == 0 && fds() == 0, "%d mappings and %d descriptors are left", maps(), fds());
  Cap c1 = capacity(e, F + M + 1); CHECK(c1.m == c0.m && c1.f == c0.f, "the capacity was %d mappings and %d descriptors and is now %d and %d", c0.m, c0.f, c1.m, c1.f); lmc_outcome(vfs_max_maps(0) * 10 + vfs_max_fds(0));
}
// two files kept by each thread: at rest, no more than the limits
static void keep() {
  int lim = lmc_choose(3, "limits"); int F = lim == 2 ? 2 : lim, M = lim == 1 ? 2 : 1; files(); Env* e = posix_env(F, M); Cap c0 = capacity(e, F + M + 2);
  auto** o = new RandomAccessFile*[4]; auto th = [=](int i) { return [=] { o[i] = open(e, NAME[0]); o[i + 1] = open(e, NAME[1]); CHECK(o[i] && o[i + 1], "an ordinary open fails"); if (i == 0 && lim) { delete o[0]; o[0] = nullptr; } }; };
  run_threads({th(0), th(2)}); limits(F, M); for (int i = 0; i < 4; i++) { if (o[i]) read_ok(o[i], TEXT + OFF[i % 2], SZ[i % 2], "a file"); delete o[i]; } delete[] o;
  CHECK(maps() == 0 && fds() == 0, "%d mappings and %d descriptors are left", maps(), fds()); Cap c1 = capacity(e, F + M + 2); CHECK(c1.m == c0.m && c1.f == c0.f, "the capacity was %d mappings and %d descriptors and is now %d and %d", c0.m, c0.f, c1.m, c1.f);
}
// every kind of operation, with failures: what is open belongs to a live object
struct Anything {
  Env* const e; SequentialFile* sq = nullptr; RandomAccessFile* ra = nullptr; WritableFile* w = nullptr; Logger* lg = nullptr; FileLock* lk = nullptr; char b[32]; Slice r; uint64_t sz; std::vector<std::string> ch; std::string str;
  explicit Anything(Env* env) : e(env) {}
  // false: no such object to work on
  bool run(int c) {
    switch (c) {
      case 0: if (sq) { delete sq; sq = nullptr; } else e->NewSequentialFile("/tmp/f0", &sq); break;
      case 1: if (ra) { delete ra; ra = nullptr; } else e->NewRandomAccessFile("/tmp/f1", &ra); break;
      case 2: if (w) { delete w; w = nullptr; } else e->NewWritableFile("/tmp/d/MANIFEST-1", &w); break;
      case 3: if (w) { w->Close(); CHECK(fds() == !!sq + !!lg + !!lk + (ra && !maps()), "Close leaves the descriptor open"); delete w; w = nullptr; } else e->NewAppendableFile("/tmp/d/x", &w); break;
      case 4: if (!w) return false; w->Append(Slice(TEXT, 70000)); break;
      case 5: if (!w) return false; w->Sync(); break;
      case 6: if (sq) { sq->Read(5, &r, b); sq->Skip(3); } else return false; break;
      case 7: if (ra) ra->Read(5, 20, &r, b); else return false; break;
      case 8: if (lg) { delete lg; lg = nullptr; } else e->NewLogger("/tmp/LOG", &lg); break;
      case 9: if (!lg) return false; lsmdb::Log(lg, "hello %d", 1); break;
      case 16: if (!lg) return false; lsmdb::Log(lg, "%0700d", 1); break;
      case 10: if (lk) { if (e->UnlockFile(lk).ok()) lk = nullptr; } else e->LockFile("/tmp/LOCK", &lk); break;
      case 11: { FileLock* l2 = nullptr; if (!lk) return false; e->LockFile("/tmp/LOCK", &l2); CHECK(!l2, "a second holder"); break; }
      case 12: e->GetChildren("/tmp", &ch); ch.clear(); break;
      case 13: e->GetFileSize("/tmp/f1", &sz); e->FileExists("/tmp/f0"); e->RenameFile("/tmp/d/x", "/tmp/d/y"); e->CreateDir("/tmp/d/z"); e->RemoveDir("/tmp/d/z"); break;
      case 14: lsmdb::WriteStringToFile(e, "hello", "/tmp/d/s"); break;
      case 15: lsmdb::ReadFileToString(e, "/tmp/f1", &str); break;
    }
    return true;
  }
  void check(int c) {
    int lo = !!sq + !!w + !!lg + !!lk, n = fds(); CHECK(maps() <= !!ra, "mappings leak"); CHECK(n >= lo, "a live object lost its descriptor"); CHECK(n + maps() <= lo + !!ra, "%d descriptors are open after operation %d, live objects account for %d", n, c, lo);
  }
  void finish() { delete sq; delete ra; delete w; delete lg; vfs_faults(0); if (lk) fine(e->UnlockFile(lk), "UnlockFile"); }
};
static void setup() { files(); vfs_mkdir("/tmp/d"); vfs_put("/tmp/d/x", "x", 1); }
static void everything() {
  Env* e = posix_env(1, 1);
  for (int r = 0; r < 2; r++) { setup(); Anything* a = new Anything(e); for (int c : {0, 1, 2, 4, 5, 6, 7, 8, 9, 16, 10, 11, 12, 13, 14, 15, 0, 1, 2, 3, 4, 3, 8, 10, 0, 1, 3, 8}) a->run(c); a->finish(); delete a; for (const char* p : {"/tmp/d/y", "/tmp/d/s", "/tmp/d/MANIFEST-1"}) e->RemoveFile(p); }
  vfs_put("/tmp/d/x", "x", 1); Heap heap; vfs_faults(1); Anything* a = new Anything(e);
  for (int i = 0; i < deep(3, 4); i++) { int c = lmc_choose(17, "operation"); if (!a->run(c)) lmc_prune(); a->check(c); }
  a->finish(); delete a; heap.same("by operations on the environment");
  CHECK(maps() == 0 && fds() == 0, "%d mappings and %d descriptors are left", maps(), fds());
}
// the standard descriptors are closed, so that 0, 1 and 2 are given out like others
static void low() {
  int lim = lmc_choose(3, "limits"); Env* e = posix_env(lim == 2, lim == 1); for (int r = 0; r < 2; r++) { files(); vfs_mkdir("/tmp/d"); if (r == 0) { capacity(e, 3); std::string d; (void)lsmdb::ReadFileToString(e, "/tmp/f0", &d); } }
  vfs_first_fd(0); SequentialFile* q = nullptr; RandomAccessFile* ra = nullptr; WritableFile *w = nullptr, *m = nullptr; Logger* lg = nullptr; FileLock* lk = nullptr; char b[64]; Slice g; uint64_t h = 1;
  for (int i = 0; i < deep(4, 5); i++) {
    int c = lmc_choose(9, "operation"); h = mix(h, c);
    switch (c) {
      case 0: if (q) { fine(q->Read(3, &g, b), "Read"); CHECK(g.size() == 3, "a read of 3 gives %zu", g.size()); delete q; q = nullptr; } else fine(e->NewSequentialFile("/tmp/f1", &q), "NewSequentialFile"); break;
      case 1: if (ra) { read_ok(ra, TEXT, 20, "a file"); delete ra; ra = nullptr; } else fine(e->NewRandomAccessFile("/tmp/f0", &ra), "NewRandomAccessFile"); break;
      case 2: if (w) { fine(w->Append("more"), "Append"); fine(w->Sync(), "Sync"); size_t n; const char* p = vfs_data("/tmp/d/w", &n); CHECK(n >= 4 && !memcmp(p + n - 4, "more", 4), "appended data is not in the file"); if (i & 1) fine(w->Close(), "Close"); delete w; w = nullptr; } else if (i & 1) fine(e->NewWritableFile("/tmp/d/w", &w), "NewWritableFile"); else fine(e->NewAppendableFile("/tmp/d/w", &w), "NewAppendableFile"); break;
      case 3: if (m) { fine(m->Append("edit"), "Append"); fine(m->Sync(), "Sync"); delete m; m = nullptr; } else fine(e->NewWritableFile("/tmp/d/MANIFEST-1", &m), "NewWritableFile"); break;
      case 4: if (lg) { lsmdb::Log(lg, "%s", "text"); size_t n; const char* p = vfs_data("/tmp/LOG", &n); CHECK(n > 5 && !memcmp(p + n - 5, "text\n", 5), "a message is not in the file"); delete lg; lg = nullptr; } else fine(e->NewLogger("/tmp/LOG", &lg), "NewLogger"); break;
      case 5: if (lk) { CHECK(vfs_lock_owner("/tmp/LOCK") == 0, "a held lock is not in force"); FileLock* l2 = nullptr; CHECK(!e->LockFile("/tmp/LOCK", &l2).ok() && !l2, "a second holder"); fine(e->UnlockFile(lk), "UnlockFile"); lk = nullptr; } else fine(e->LockFile("/tmp/LOCK", &lk), "LockFile"); break;
      case 6: { std::vector<std::string> ch; fine(e->GetChildren("/tmp", &ch), "GetChildren"); CHECK(ch.size() >= 3, "a listing gives %zu names", ch.size()); uint64_t n = 0; fine(e->GetFileSize("/tmp/f1", &n), "GetFileSize"); CHECK(n == 5000, "size"); break; }
      case 7: { fine(lsmdb::WriteStringToFile(e, "hello", "/tmp/d/s"), "WriteStringToFile"); std::string d; fine(lsmdb::ReadFileToString(e, "/tmp/d/s", &d), "ReadFileToString"); CHECK(d == "hello", "a file read back holds something else"); break; }
      case 8: { std::string d; CHECK(lsmdb::ReadFileToString(e, "/tmp/none", &d).IsNotFound(), "a missing file"); RandomAccessFile* x = nullptr; CHECK(!e->NewRandomAccessFile("/tmp/none", &x).ok() && !x, "a missing file is opened"); break; }
    }
    int lo = !!q + !!w + !!m + !!lg + !!lk, n = fds(); CHECK(maps() <= !!ra && n >= lo && n + maps() <= lo + !!ra, "%d descriptors and %d mappings are open after operation %d, live objects account for %d", n, maps(), c, lo + !!ra);
  }
  delete q; delete ra; delete w; delete m; delete lg; if (lk) fine(e->UnlockFile(lk), "UnlockFile"); CHECK(maps() == 0 && fds() == 0, "%d mappings and %d descriptors are left", maps(), fds()); lmc_outcome(h);
}
static void errnos() { vfs_wide_errnos(1); if (lmc_choose(2, "kind")) everything(); else run_history(2, deep(2, 3), true); }
LMC_SCENARIOS(
  {"defaults", defaults, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"low", low, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"history", history, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"faulty", faulty, {0, 0}, {2, 2}, {0, 0}, {60, 900}, 0},
  {"threads", threads, {3, 5}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"keep", keep, {4, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"errnos", errnos, {0, 0}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"everything", everything, {0, 0}, {2, 3}, {0, 0}, {60, 900}, 0})
