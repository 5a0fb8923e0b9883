// C09: failures on the write path are reported.
#include "posix_common.h"

struct Run {
  Env* e; WritableFile* w = nullptr; std::string path, old; size_t done = 0; bool bad = false; uint64_t hits = 0; uint64_t oh = 1;
  // judge one call's status against the errors injected during it
  void judge(const Status& s, const char* what) {
    uint64_t h = vfs_faults_hit(), errs = vfs_fault_errnos(); bool failed = h != hits; hits = h;
    oh = mix(mix(oh, s.ok()), failed);
    NOTE("%s -> %s", what, s.ToString().c_str());
    if (failed) {
      CHECK(!s.ok(), "%s returns OK although a system call it needed failed", what);
      bool noent = errs >> ENOENT & 1, other = errs & ~(1ull << ENOENT);
      CHECK(s.IsNotFound() || s.IsIOError(), "%s reports a failed system call as %s", what, s.ToString().c_str());
      CHECK(!s.IsNotFound() || noent, "%s reports not found although nothing was missing", what);
      CHECK(!s.IsIOError() || other, "%s does not report a missing file as not found: %s", what, s.ToString().c_str());
      bad = true;
    } else if (!bad) CHECK(s.ok(), "%s fails though nothing went wrong: %s", what, s.ToString().c_str());
  }
  void stored(const char* what, bool all) {
    Quiet q; size_t n; const char* p = vfs_data(path.c_str(), &n); if (!p) { CHECK(!all, "%s: the file is gone", what); return; }
    size_t want = old.size() + done;
    CHECK(n <= want, "%s: the file has %zu bytes, only %zu were appended", what, n, want);
    if (all) CHECK(n == want, "%s: every call returned OK but the file has %zu bytes of %zu", what, n, want);
    size_t o = std::min(n, old.size()); CHECK(!memcmp(p, old.data(), o), "%s: the previous contents changed", what); CHECK(n >= old.size(), "%s: the previous contents are cut", what);
    for (size_t i = o; i < n; i += 4096) { size_t k = std::min<size_t>(4096, n - i); CHECK(!memcmp(p + i, TEXT + i - o, k), "%s: the file does not hold an unbroken prefix of what was appended", what); }
  }
  bool open(int mode) {
    WritableFile* x = (WritableFile*)&done; 
    Status s = mode < 2 ? e->NewWritableFile(path, &x) : e->NewAppendableFile(path, &x);
    judge(s, mode < 2 ? "NewWritableFile" : "NewAppendableFile");
    if (!s.ok()) { CHECK(!x, "a failed open leaves a pointer"); CHECK(vfs_open_fds(0) == 0, "a failed open leaks a descriptor"); return false; }
    CHECK(x, "no file object"); w = x; return true;
  }
  void append(size_t n) { NOTE("append %zu", n); char* b; { Quiet q; b = new char[n + 1]; memcpy(b, TEXT + done, n); } Status s = w->Append(Slice(b, n)); { Quiet q; delete[] b; } done += n; judge(s, "Append"); stored("after append", false); }
  void flush() { judge(w->Flush(), "Flush"); stored("after flush", !bad); }
  void sync() { judge(w->Sync(), "Sync"); stored("after sync", !bad); }
  void end(bool close) {
    if (close) { judge(w->Close(), "Close"); stored("after close", !bad); CHECK(vfs_open_fds(0) == 0, "Close leaks a descriptor"); }
    delete w; w = nullptr; uint64_t h = vfs_faults_hit(); bool failed = h != hits; stored("after destruction", !bad && !failed);
    CHECK(vfs_open_fds(0) == 0, "a descriptor leaks");
  }
};
static void history(const char* path, const std::vector<size_t>& sizes, int depth, int modes) {
  Run r; r.e = posix_env(); r.path = path; int mode = lmc_choose(modes, "mode");
  if (mode & 1) { std::string o(mode == 1 ? 70000 : 5, 'o'); vfs_put(path, o.data(), o.size()); if (mode == 3) r.old = o; }
  vfs_faults(1);
  if (r.open(mode)) {
    int n = sizes.size(); bool stop = false;
    for (int i = 0; i < depth && !stop; i++) {
      int c = lmc_choose(r.bad ? 3 : n + 3, "operation"); if (r.bad) c += n;     // nothing more is appended once an error was reported
      if (c < n) r.append(sizes[c]); else if (c == n) r.flush(); else if (c == n + 1) r.sync(); else stop = true;
    }
    r.end(lmc_choose(2, "close") == 1);
  }
  lmc_outcome(r.oh);
}
static void plain() { history("/tmp/f", {3, 65536, 70000}, deep(3, 5), 4); }
static void manifest() { history("/tmp/MANIFEST-7", {3, 65536, 140000}, deep(4, 5), 4); }
static void small() { history("/tmp/f", {1, 9}, deep(5, 7), 4); }
static void rel_manifest() { history("MANIFEST", {5, 70000}, deep(3, 5), 2); }
static void root_manifest() { history("/MANIFEST-1", {5, 70000}, deep(3, 5), 2); }
// every error the system can report, one at a time
static void errnos() { vfs_wide_errnos(1); history(lmc_choose(2, "manifest") ? "/tmp/MANIFEST-7" : "/tmp/f", {3, 70000}, deep(3, 4), 4); }
// failures that need no injection
static void natural() {
  Env* e = posix_env(); vfs_mkdir("/tmp/dir"); vfs_put("/tmp/file", "x", 1);
  struct { std::string p; int nf; } C[] = {{"/tmp/none/f", 1}, {"/none/f", 1}, {"", 1}, {"/tmp/dir", 0}, {"/tmp/file/f", 0}, {"/tmp/" + std::string(300, 'n'), 0}, {"/tmp/" + std::string(5000, 'n'), 0}, {"/tmp/dir/", 0}};
  auto& c = C[lmc_choose(8, "name")]; WritableFile* w = (WritableFile*)&c; int k = lmc_choose(2, "append");
  Status s = k ? e->NewAppendableFile(c.p, &w) : e->NewWritableFile(c.p, &w);
  CHECK(!s.ok(), "opening \"%s\" for writing succeeds", c.p.substr(0, 20).c_str()); CHECK(!w, "a failed open leaves a pointer");
  CHECK(c.nf ? s.IsNotFound() : s.IsIOError(), "opening \"%s\" for writing is reported as %s", c.p.substr(0, 20).c_str(), s.ToString().c_str()); CHECK(vfs_open_fds(0) == 0, "a descriptor leaks");
}
// as if the standard descriptors were closed: 0, 1 and 2 are files like others
static void low_fds() { vfs_first_fd(0, lmc_choose(2, "after")); history(lmc_choose(2, "manifest") ? "/tmp/MANIFEST-7" : "/tmp/f", {3, 70000}, 3, 4); }
LMC_SCENARIOS(
  {"low_fds", low_fds, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"natural", natural, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"errnos", errnos, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"plain", plain, {0, 0}, {2, 2}, {0, 0}, {60, 900}, 0},
  {"manifest", manifest, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"small", small, {0, 0}, {2, 3}, {0, 0}, {60, 900}, 0},
  {"rel_manifest", rel_manifest, {0, 0}, {2, 3}, {0, 0}, {60, 900}, 0},
  {"root_manifest", root_manifest, {0, 0}, {2, 3}, {0, 0}, {60, 900}, 0})
