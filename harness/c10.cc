// C10: what a sync covers survives every crash.
#include <set>
#include "posix_common.h"
namespace lsmdb { extern Status WriteStringToFileSync(Env*, const Slice&, const std::string&); }

// One file as the workload knows it.
struct File {
  std::string dir; std::vector<std::string> names;   // names it has had (never used by another file)
  WritableFile* w = nullptr; size_t base = 0, appended = 0, synced = 0; bool bad = false, removed = false, manifest = false;
  // After a failed call: at least `kept` of the first `upto` bytes are in the file, what is appended later follows them.
  bool failed = false; size_t kept = 0, upto = 0, resynced = 0; bool again = false;
};
struct DirOp { std::string gone, made; };             // what a directory operation removed and created
// A sync of a manifest: what was already written when it began, which directory operations came before it.
struct MSync { File* f; size_t written; size_t nops; bool ok; bool started; size_t until; };
struct World {
  Env* e; std::string dir; std::vector<File*> files; std::vector<DirOp> ops; std::vector<MSync> syncs; std::vector<std::pair<std::string, size_t>> whole; bool torn_ops = false;
  std::string at(const std::string& n) { return dir + n; }
  File* open(const std::string& n, int mode) {        // 0 new, 1 existing truncated, 2 existing appended
    File* f; { Quiet q; f = new File; f->names.push_back(n); f->manifest = !n.compare(0, 8, "MANIFEST"); files.push_back(f); }
    Status s; NOTE("open %s", n.c_str());
    if (mode == 2) { Quiet q; f->base = f->appended = f->synced = vfs_size(at(n).c_str()); }
    s = mode == 2 ? e->NewAppendableFile(at(n), &f->w) : e->NewWritableFile(at(n), &f->w);
    Quiet q; if (!s.ok()) { f->bad = true; f->w = nullptr; f->base = f->appended = f->synced = 0; } else if (mode == 0) ops.push_back({"", n});
    return f;
  }
  void fail(File* f, size_t n) { Quiet q; if (f->failed) { f->bad = true; return; } f->failed = true; f->appended += n; f->upto = f->appended; f->kept = std::min<size_t>(f->upto, vfs_size(at(f->names.back()).c_str())); }
  void append(File* f, size_t n) { if (!f->w || f->bad) return; NOTE("append %zu", n); char* b; { Quiet q; b = new char[n]; memcpy(b, TEXT + f->appended, n); } Status s = f->w->Append(Slice(b, n)); Quiet q; delete[] b; if (s.ok()) f->appended += n; else fail(f, n); }
  void flush(File* f) { if (!f->w || f->bad) return; NOTE("flush"); if (!f->w->Flush().ok()) fail(f, 0); }
  void sync(File* f) {
    if (!f->w || f->bad) return; size_t i; NOTE("sync %s", f->names[0].c_str());
    { Quiet q; i = syncs.size(); syncs.push_back({f, (size_t)vfs_size(at(f->names.back()).c_str()), ops.size(), false, f->manifest, SIZE_MAX}); }
    Status s = f->w->Sync(); NOTE("sync -> %s", s.ToString().c_str());
    Quiet q; if (s.ok()) { if (f->failed) { f->resynced = f->appended; f->again = true; } else f->synced = f->appended; syncs[i].ok = true; } else { fail(f, 0); syncs[i].until = vfs_size(at(f->names.back()).c_str()); }
  }
  void close(File* f) { if (f->w) { if (!f->w->Close().ok()) f->bad = true; delete f->w; f->w = nullptr; } }
  void rename(File* f, const std::string& to) { std::string from = f->names.back(); NOTE("rename to %s", to.c_str()); { Quiet q; f->names.push_back(to); } if (e->RenameFile(at(from), at(to)).ok()) { Quiet q; ops.push_back({from, to}); } else { Quiet q; f->names.pop_back(); } }
  void remove(const std::string& n) { NOTE("remove %s", n.c_str()); if (e->RemoveFile(at(n)).ok()) { Quiet q; ops.push_back({n, ""}); } }
  void mkdir(const std::string& n) { NOTE("mkdir %s", n.c_str()); if (e->CreateDir(at(n)).ok()) { Quiet q; ops.push_back({"", n}); } }
  void put(const std::string& n, size_t k) { NOTE("write string synced %s", n.c_str()); Status s = lsmdb::WriteStringToFileSync(e, Slice(TEXT, k), at(n)); Quiet q; if (s.ok()) { whole.push_back({n, k}); ops.push_back({"", n}); } }

  // After the crash.
  uint64_t check() {
    uint64_t h = 1;
    for (File* f : files) for (auto& n : f->names) {
      size_t len; const char* p = vfs_data(at(n).c_str(), &len); h = mix(h, p ? len + 1 : 0);
      if (!p) continue;
      CHECK(len >= f->synced, "%s has %zu bytes after the crash although a sync of %zu returned OK", n.c_str(), len, f->synced);
      CHECK(!memcmp(p, TEXT, f->synced), "%s holds other bytes after the crash than were synced", n.c_str());
      if (f->again) {
        bool ok = false; size_t more = f->resynced - f->upto; for (size_t k = f->upto + 1; k-- > f->kept && !ok;) ok = len >= k + more && !memcmp(p + k, TEXT + f->upto, more) && !memcmp(p, TEXT, k);
        CHECK(ok, "%s does not hold after the crash what a sync, following a failed call, covered when it returned OK (%zu bytes, %zu of the first %zu were written)", n.c_str(), len, f->kept, f->upto);
      }
    }
    for (auto& w : whole) { size_t len; const char* p = vfs_data(at(w.first).c_str(), &len); if (!p) continue; CHECK(len == w.second && !memcmp(p, TEXT, len), "%s was written with a sync but has %zu bytes of %zu after the crash", w.first.c_str(), len, w.second); }
    for (auto& s : syncs) if (s.started) {
      size_t len = 0; const char* p = nullptr; std::string nm;
      for (auto& n : s.f->names) { p = vfs_data(at(n).c_str(), &len); nm = n; if (p) break; }
      if (s.ok) CHECK(p, "%s is gone after the crash although its sync returned OK", s.f->names[0].c_str());
      bool exposed = false; if (p) for (size_t i = s.written; i < std::min(len, s.until); i++) if (p[i] == TEXT[i] && p[i]) { exposed = true; break; }
      if (!s.ok && !exposed) continue;
      // Later operations may or may not have survived; what they touch is not judged here.
      std::set<std::string> later; for (size_t i = s.nops; i < ops.size(); i++) { later.insert(ops[i].gone); later.insert(ops[i].made); }
      for (auto& n : pending) later.insert(n);
      std::map<std::string, bool> want; for (size_t i = 0; i < s.nops; i++) { if (!ops[i].gone.empty()) want[ops[i].gone] = false; if (!ops[i].made.empty()) want[ops[i].made] = true; }
      for (auto& w : want) if (!later.count(w.first))
        CHECK((vfs_exists(at(w.first).c_str()) != 0) == w.second, "the crash exposes bytes of %s that a sync wrote out, but %s, %s before, is %s", nm.c_str(), w.first.c_str(), w.second ? "created" : "removed", w.second ? "missing" : "back");
    }
    return h;
  }
  std::vector<std::string> pending;                   // names of an operation under way
};
static World* W; static std::function<void()>* BODY;
static void run(std::vector<std::function<void()>> threads) {
  vfs_crash_enable(1); vfs_faults(1);
  // the monitor thread watches from outside
  if (threads.size() == 1) { BODY = new std::function<void()>(threads[0]); int t = lmc_spawn([](void*) { (*BODY)(); }, nullptr, "workload"); lmc_join(t); }
  else run_threads(threads);
  if (!vfs_crashed()) vfs_crash_here();
  vfs_recover();
  lmc_outcome(W->check());
}
static World* world(const std::string& dir) {
  World* w = new World; W = w; w->e = posix_env(); w->dir = dir;
  std::string d = dir; if (d.size() > 1) { d.pop_back(); if (!vfs_exists(d.c_str())) vfs_mkdir(d.c_str()); }
  vfs_put(w->at("old").c_str(), "o", 1); return w;
}
static File* manifest(World* w, const std::string& nm = "MANIFEST-1") {
  int m = lmc_choose(3, "manifest"); 
  char other[9]; for (int i = 0; i < 9; i++) other[i] = ~TEXT[i];
  if (m == 1) vfs_put(w->at(nm).c_str(), other, 9); else if (m) vfs_put(w->at(nm).c_str(), TEXT, 4);
  return w->open(nm, m);
}
static void history(const char* dir, int depth, std::vector<int> sizes) {
  World* w = world(dir);
  run({[=] {
    File* m = manifest(w); File* d = nullptr; int last = 0; bool renamed = false, removed = false, made = false, put = false;
    for (int i = 0; i < depth; i++) {
      int c = lmc_choose(8 + sizes.size(), "operation"); if (c == 0) break; if (c <= 2 && last == c && !m->failed) lmc_prune(); last = c;
      switch (c) {
        case 1: w->sync(m); break;
        case 2: w->flush(m); break;
        case 3: if (!d) { w->pending = {"1"}; d = w->open("1", 0); w->pending.clear(); w->append(d, 6); } else { if (d->appended > 20) lmc_prune(); w->append(d, 8); } break;
        case 4: if (!d) lmc_prune(); w->sync(d); break;
        case 5: if (!d || renamed) lmc_prune(); renamed = true; w->pending = {"1", "2"}; w->rename(d, "2"); w->pending.clear(); break;
        case 6: if (removed) lmc_prune(); removed = true; w->pending = {"old"}; w->remove("old"); w->pending.clear(); break;
        case 7: if (made || put) lmc_prune(); made = put = true; w->pending = {"sub", "tmp0"}; w->mkdir("sub"); w->put("tmp0", 11); w->pending.clear(); break;
        default: w->append(m, sizes[c - 8]);
      }
    }
  }});
}
static void sub() { history("/tmp/db/", deep(4, 5), {5}); }
static void big() { history("/tmp/db/", deep(3, 4), {5, 70000}); }
// every form of name and directory
static void names() {
  static const char* D[] = {"/tmp/db/", "/tmp/MANIFEST-d/", "MANIFEST-d/", "", "/", "/tmp/d.d/"}; const std::string N[] = {"MANIFEST", "MANIFEST-", "MANIFEST-000001", "MANIFEST.tmp", "MANIFESTO", "MANIFEST" + std::string(200, '7'), "MANIFEST-1/"};
  World* w = world(D[lmc_choose(6, "directory")]); std::string nm = N[lmc_choose(6, "name")]; int order = lmc_choose(3, "order");
  run({[=] { File* d; if (order == 0) { w->pending = {"1"}; d = w->open("1", 0); w->pending.clear(); } File* m = manifest(w, nm); if (order) { w->pending = {"1"}; d = w->open("1", 0); w->pending.clear(); } w->append(d, 3); if (order == 2) w->append(m, 4); w->sync(d); w->append(m, 5); w->sync(m); w->append(m, 2); w->sync(m); }});
}
// every error the calls of a sync can report, then a crash
static void errnos() {
  vfs_wide_errnos(1); World* w = world("/tmp/db/"); vfs_fault_mask(VF_SYNC | VF_WRITE | VF_OPEN | VF_CLOSE);
  run({[=] { File* m = manifest(w); w->pending = {"1"}; File* d = w->open("1", 0); w->pending.clear(); w->append(d, 3); w->sync(d); w->append(m, 5); w->sync(m); }});
}
static void rel() { history("db/", deep(3, 5), {5}); }
static void cwd() { history("", deep(3, 4), {5}); }
static void root() { history("/", deep(3, 5), {5}); }
// data files alone, longer histories, all sizes
static void data() {
  World* w = world("/tmp/db/"); int m = lmc_choose(3, "kind"); if (m) vfs_put("/tmp/db/f", TEXT, m == 1 ? 9 : 4);
  run({[=] {
    File* f = w->open("f", m); static const size_t S[] = {7, 65536, 1, 140001}; int ns = deep(2, 4);
    int depth = deep(3, 4); for (int i = 0; i < depth; i++) { int c = lmc_choose(3 + ns, "operation"); if (c == 0) { w->close(f); break; } if (c == 1) w->sync(f); else if (c == 2) w->flush(f); else w->append(f, S[c - 3]); }
  }});
}
// two objects on one file: whichever is synced, all that was written before is durable
static void others() {
  World* w = world("/tmp/db/"); int third = lmc_choose(3, "sync through"); bool grow = lmc_choose(2, "existing"); if (grow) vfs_put("/tmp/db/f", TEXT, 9);
  run({[=] {
    Env* e = w->e; WritableFile* x[3]; size_t at = grow ? 9 : 0, flushed = at, pend[2] = {0, 0}; File* f; { Quiet q; f = new File; f->names.push_back("f"); f->base = f->appended = f->synced = at; w->files.push_back(f); }
    if (!grow) { w->pending = {"f"}; WritableFile* n = nullptr; if (!e->NewWritableFile("/tmp/db/f", &n).ok()) return; delete n; w->pending.clear(); }
    for (int i = 0; i < 2; i++) if (!e->NewAppendableFile("/tmp/db/f", &x[i]).ok()) return;
    // one of them appends at a time, and flushes before the other goes on
    for (int i = 0; i < deep(3, 4); i++) {
      int c = lmc_choose(5, "operation"); if (c == 0) break; int o = (c - 1) & 1;
      if (c <= 2) { if (pend[!o]) lmc_prune(); if (!x[o]->Append(Slice(TEXT + at, 7)).ok()) return; at += 7; pend[o] += 7; if (lmc_choose(2, "flush")) { if (!x[o]->Flush().ok()) return; flushed = at; pend[o] = 0; } }
      else { if (pend[!o]) lmc_prune(); bool ok = x[o]->Sync().ok(); if (!ok) return; flushed = at; pend[o] = 0; f->synced = flushed; }
    }
    if (pend[0] || pend[1]) lmc_prune();
    WritableFile* y = nullptr; if (third == 2) { if (!e->NewAppendableFile("/tmp/db/f", &y).ok()) return; } else y = x[third];
    NOTE("the last sync"); if (!y->Sync().ok()) return; f->synced = flushed;
  }});
}
// two threads: each creates a file, then syncs its own manifest
static void threads() {
  World* w = world("/tmp/db/");
  auto one = [=](const char* d, const char* m, bool both) { return [=] {
    if (both) { File* x = w->open(d, 0); w->append(x, 3); w->sync(x); }
    File* f; f = w->open(m, 0); w->append(f, 5); w->sync(f); }; };
  run({one("1", "MANIFEST-1", true), one("2", "MANIFEST-2", lmc_tier())});
}
// as if the standard descriptors were closed: 0, 1 and 2 are files like others
static void low_fds() { vfs_first_fd(0, lmc_choose(2, "after")); history("/tmp/db/", deep(3, 4), {5}); }
LMC_SCENARIOS(
  {"low_fds", low_fds, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"sub", sub, {0, 0}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"faults", cwd, {0, 0}, {2, 2}, {0, 0}, {60, 900}, 0},
  {"names", names, {0, 0}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"errnos", errnos, {0, 0}, {2, 2}, {0, 0}, {60, 900}, 0},
  {"rel", rel, {0, 0}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"root", root, {0, 0}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"big", big, {0, 0}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"data", data, {0, 0}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"others", others, {0, 0}, {0, 1}, {0, 0}, {60, 900}, 0},
  {"threads", threads, {1, 2}, {1, 1}, {0, 0}, {60, 900}, 0})
