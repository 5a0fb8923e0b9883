// C30: the POSIX environment used by several threads at once.
#include "posix_common.h"
using lsmdb::FileLock; using lsmdb::Logger;

static const char *D = "/tmp/d", *F = "/tmp/d/f", *G = "/tmp/d/g", *S = "/tmp/d/s", *L = "/tmp/L";
enum Kind { MKDIR, RMDIR, REMOVE, REMOVE_S, REN_FG, REN_GF, EXISTS, SIZE, LIST, NEWW, NEWA, APPEND, SYNC, OPENS, SREAD, OPENR, RREAD, LOCK, UNLOCK, TESTDIR, LOG, SCHED, START, NKIND };
static const char* KN[] = {"create directory", "remove directory", "remove f", "remove s", "rename f g", "rename g f", "exists f", "size f", "list", "open f for writing", "open f for appending", "append", "append and sync", "open f sequentially", "read", "open f for random reads", "random read", "lock", "unlock", "test directory", "log", "schedule", "start a thread"};
struct Op { int kind = 0, thr = 0; uint64_t inv = 0, res = 0; std::string arg; int st = 0; std::string got; uint64_t num = 0; };   // st: 0 ok, 1 not found, 2 other error
static int code(const Status& s) { return s.ok() ? 0 : s.IsNotFound() ? 1 : 2; }
struct Handle { int file = -1; size_t pos = 0; bool app = false; size_t size = 0; };
static int mode;   // random access: 0 by mapping, 1 by a descriptor, 2 opening at every read
struct Model {
  std::map<std::string, int> names; std::vector<std::string> files; bool dir = false; int holder = -1; Handle w[3], q[3], r[3], shared;
  bool apply(const Op& o) {
    auto f = names.find("f"), g = names.find("g"); int t = o.thr;
    switch (o.kind) {
      case MKDIR: if (dir) return o.st == 2; dir = true; return !o.st;
      case RMDIR: if (!dir) return o.st == 1; dir = false; return !o.st;
      case REMOVE_S: return o.st == (dir ? 2 : 1);
      case REMOVE: if (f == names.end()) return o.st == 1; names.erase(f); return !o.st;
      case REN_FG: if (f == names.end()) return o.st == 1; names["g"] = f->second; names.erase("f"); return !o.st;
      case REN_GF: if (g == names.end()) return o.st == 1; names["f"] = g->second; names.erase("g"); return !o.st;
      case EXISTS: return o.num == (uint64_t)(f != names.end());
      case SIZE: if (f == names.end()) return o.st == 1; return !o.st && o.num == files[f->second].size();
      case LIST: return !o.st && o.num == (uint64_t)((f != names.end()) | (g != names.end()) << 1 | dir << 2);
      case NEWW: if (o.st) return false; if (f == names.end()) { names["f"] = files.size(); files.push_back(""); } else files[f->second] = ""; w[t] = Handle(); w[t].file = names["f"]; return true;
      case NEWA: if (o.st) return false; if (f == names.end()) { names["f"] = files.size(); files.push_back(""); } w[t] = Handle(); w[t].file = names["f"]; w[t].app = true; return true;
      case APPEND: case SYNC: { if (o.st) return false; std::string& d = files[w[t].file]; size_t at = w[t].app ? d.size() : w[t].pos; if (d.size() < at + o.arg.size()) d.resize(at + o.arg.size(), 0); d.replace(at, o.arg.size(), o.arg); w[t].pos = at + o.arg.size(); return true; }
      case OPENS: if (f == names.end()) return o.st == 1; q[t] = Handle(); q[t].file = f->second; return !o.st;
      case SREAD: { if (o.st) return false; const std::string& d = files[q[t].file]; std::string e = q[t].pos < d.size() ? d.substr(q[t].pos, 3) : ""; q[t].pos += e.size(); return o.got == e; }
      case OPENR: if (f == names.end()) return o.st == 1; r[t] = Handle(); r[t].file = f->second; r[t].size = files[f->second].size(); return !o.st;
      case RREAD: { Handle& h = o.num ? r[t] : shared; if (mode == 2) { if (f == names.end()) return o.st == 1; h.file = f->second; } if (o.st) return false; const std::string& d = files[h.file]; size_t lo = mode ? d.size() > 1 ? std::min<size_t>(20, d.size() - 1) : 0 : h.size > 1 ? std::min<size_t>(20, h.size - 1) : 0; return o.got.size() >= lo && o.got == (d.size() > 1 ? d.substr(1, o.got.size()) : std::string()); }
      case LOCK: if (holder >= 0) return o.st == 2; holder = t; return !o.st;
      case UNLOCK: holder = -1; return !o.st;
      default: return !o.st;
    }
  }
};
struct World { Env* e; WritableFile* w[3]; SequentialFile* q[3]; RandomAccessFile *r[3], *shared; FileLock* l[3]; Logger* lg; std::vector<Op> ops; Model m; int logs = 0, jobs = 0, ran = 0; char sum[8] = {}; };
static World* W;
extern "C" void c30_job(void* p) { W->sum[(long)p] += 1; uint64_t n = 0; Status s = W->e->GetFileSize(L, &n); Quiet z; CHECK(s.ok(), "GetFileSize fails in the background: %s", s.ToString().c_str()); W->ran++; }
static void rec(Op& o) { o.res = lmc_tick(); Quiet z; NOTE("%s -> status %d, %zu bytes, %llu", KN[o.kind], o.st, o.got.size(), (unsigned long long)o.num); W->ops.push_back(o); }
static void run(int t, int kind) {
  World* w = W; Env* e = w->e; Op* po; char* buf; std::string *f, *g, *s, *d; { Quiet z; po = new Op; buf = new char[64]; f = new std::string(F); g = new std::string(G); s = new std::string(S); d = new std::string(D); } Op& o = *po; o.kind = kind; o.thr = t;
  switch (kind) {
    case MKDIR: o.inv = lmc_tick(); o.st = code(e->CreateDir(*s)); break;
    case RMDIR: o.inv = lmc_tick(); o.st = code(e->RemoveDir(*s)); break;
    case REMOVE: o.inv = lmc_tick(); o.st = code(e->RemoveFile(*f)); break;
    case REMOVE_S: o.inv = lmc_tick(); o.st = code(e->RemoveFile(*s)); break;
    case REN_FG: o.inv = lmc_tick(); o.st = code(e->RenameFile(*f, *g)); break;
    case REN_GF: o.inv = lmc_tick(); o.st = code(e->RenameFile(*g, *f)); break;
    case EXISTS: o.inv = lmc_tick(); o.num = e->FileExists(*f); break;
    case SIZE: { o.inv = lmc_tick(); uint64_t n = 0; o.st = code(e->GetFileSize(*f, &n)); o.num = o.st ? 0 : n; break; }
    case LIST: {
      std::vector<std::string>* v; { Quiet z; v = new std::vector<std::string>; } o.inv = lmc_tick(); o.st = code(e->GetChildren(*d, v)); o.res = lmc_tick();
      for (auto& x : *v) { if (x == "." || x == "..") continue; int b = x == "f" ? 1 : x == "g" ? 2 : x == "s" ? 4 : 0; CHECK(b && !(o.num & b), "a listing gives a wrong or repeated name"); o.num |= b; } delete v; break;
    }
    case NEWW: case NEWA: { WritableFile* x = nullptr; o.inv = lmc_tick(); o.st = code(kind == NEWW ? e->NewWritableFile(*f, &x) : e->NewAppendableFile(*f, &x)); rec(o); CHECK(o.st || x, "no file object"); if (!o.st) { delete w->w[t]; w->w[t] = x; } goto done; }
    case APPEND: case SYNC: { { Quiet z; o.arg = t == 0 ? "01234" : t == 1 ? "PQRST" : "xyz"; } o.inv = lmc_tick(); Status a = w->w[t]->Append(Slice(o.arg)), b = kind == SYNC ? w->w[t]->Sync() : w->w[t]->Flush(); o.st = code(a.ok() ? b : a); break; }
    case OPENS: { SequentialFile* x = nullptr; o.inv = lmc_tick(); o.st = code(e->NewSequentialFile(*f, &x)); rec(o); CHECK(o.st || x, "no file object"); if (!o.st) { delete w->q[t]; w->q[t] = x; } goto done; }
    case SREAD: { Slice r; o.inv = lmc_tick(); o.st = code(w->q[t]->Read(3, &r, buf)); if (!o.st) { Quiet z; CHECK(r.size() <= 3, "a read of 3 gives %zu bytes", r.size()); o.got = r.ToString(); } break; }
    case OPENR: { RandomAccessFile* x = nullptr; o.inv = lmc_tick(); o.st = code(e->NewRandomAccessFile(*f, &x)); rec(o); CHECK(o.st || x, "no file object"); if (!o.st) { delete w->r[t]; w->r[t] = x; } goto done; }
    case RREAD: { Slice r; o.num = w->r[t] != nullptr; o.inv = lmc_tick(); o.st = code((w->r[t] ? w->r[t] : w->shared)->Read(1, 20, &r, buf)); if (!o.st) { CHECK(r.size() <= 20, "a read of 20 gives %zu bytes", r.size()); std::string* k = new std::string(r.data(), r.size()); { Quiet z; o.got = *k; } delete k; } break; }
    case LOCK: { FileLock* x = nullptr; std::string* n; { Quiet z; n = new std::string(L); } o.inv = lmc_tick(); Status st = e->LockFile(*n, &x); o.st = code(st); rec(o); CHECK(o.st || x, "no lock object"); if (!o.st) w->l[t] = x; { Quiet z; delete n; } goto done; }
    case UNLOCK: if (!w->l[t]) goto done; o.inv = lmc_tick(); o.st = code(e->UnlockFile(w->l[t])); w->l[t] = nullptr; break;
    case TESTDIR: { std::string* n; { Quiet z; n = new std::string; } o.inv = lmc_tick(); o.st = code(e->GetTestDirectory(n)); CHECK(*n == "/tmp/lsmdbtest-0" || n->size() > 5, "the test directory is %s", n->c_str()); delete n; break; }
    case LOG: { Quiet z; w->logs++; } lsmdb::Log(w->lg, "message of thread %d", t); goto done;
    case SCHED: case START: { long k; { Quiet z; k = w->jobs++; } if (kind == SCHED) e->Schedule(c30_job, (void*)k); else e->StartThread(c30_job, (void*)k); goto done; }
  }
  rec(o);
 done:
  { Quiet z; delete po; delete[] buf; delete f; delete g; delete s; delete d; }
}
static void go(int T, const int* len, const std::vector<int>& menu, bool gtoo, int md = 0) {
  mode = md;
  int pr[3][3]; long prev = -1; int nm = menu.size(); bool sym = true, trunc = false, rnd = false; for (int t = 1; t < T; t++) sym &= len[t] == len[0];
  for (int t = 0; t < T; t++) { long c0 = 0; bool locked = false; for (int i = 0; i < len[t]; i++) { int c = lmc_choose(nm, "op"); pr[t][i] = menu[c]; c0 = c0 * nm + c; int k = menu[c]; trunc |= k == NEWW; rnd |= k == OPENR || k == RREAD; if (k == LOCK) { if (locked) lmc_prune(); locked = true; } if (k == UNLOCK && !locked) lmc_prune(); } if (sym && c0 < prev) lmc_prune(); prev = c0; }
  if (trunc && rnd && !mode) lmc_prune();     // files that shrink under a mapping are outside what the library supports
  World* w; { Quiet z; w = new World; } W = w; vfs_mkdir(D); vfs_put(F, "abcdefg", 7); vfs_put(L, "", 0); if (gtoo) vfs_put(G, "gg", 2); Env* e = w->e = posix_env(mode == 2 ? 0 : -1, mode ? 0 : -1); bool dir = lmc_choose(2, "s exists") == 1; if (dir) vfs_mkdir(S);
  { Quiet z; w->m.names["f"] = 0; w->m.files.push_back("abcdefg"); w->m.dir = dir; if (gtoo) { w->m.names["g"] = 1; w->m.files.push_back("gg"); } w->m.shared.file = 0; w->m.shared.size = 7; }
  bool bg = false, logs = false; for (int t = 0; t < T; t++) for (int i = 0; i < len[t]; i++) { bg |= pr[t][i] == SCHED || pr[t][i] == START; logs |= pr[t][i] == LOG; }
  for (int t = 0; t < 3; t++) {
    w->w[t] = nullptr; w->q[t] = nullptr; w->r[t] = nullptr; w->l[t] = nullptr; if (t >= T) continue; w->m.w[t].file = w->m.q[t].file = 0; w->m.w[t].app = true; w->m.q[t].pos = 3;
    fine(e->NewAppendableFile(F, &w->w[t]), "NewAppendableFile"); fine(e->NewSequentialFile(F, &w->q[t]), "NewSequentialFile"); char b[4]; Slice r; fine(w->q[t]->Read(3, &r, b), "Read");
  }
  w->shared = nullptr; if (rnd) fine(e->NewRandomAccessFile(F, &w->shared), "NewRandomAccessFile"); w->lg = nullptr; if (logs) fine(e->NewLogger("/tmp/LOG", &w->lg), "NewLogger");
  std::vector<std::function<void()>> fs; for (int t = 0; t < T; t++) fs.push_back([t, &pr, len] { for (int i = 0; i < len[t]; i++) run(t, pr[t][i]); });
  run_threads(fs); if (bg) lmc_drain();
  CHECK(w->ran == w->jobs, "of %d functions given away %d ran", w->jobs, w->ran); for (int i = 0; i < w->jobs; i++) CHECK(w->sum[i] == 1, "function %d ran %d times", i, w->sum[i]);
  uint64_t oh = dir; { Quiet z; for (auto& o : w->ops) oh = mixs(mix(mix(oh, o.st), o.num), o.got); }
  {
    Quiet z; std::map<std::string, std::string> fin; for (const char* n : {"f", "g"}) { std::string p = std::string(D) + "/" + n; if (vfs_exists(p.c_str())) { fin[n] = content(p.c_str()); oh = mixs(oh, fin[n]); } } bool fd = vfs_exists(S) == 2;
    auto accept = [&](const Model& m) { if (m.names.size() != fin.size() || m.dir != fd) return false; for (auto& kv : m.names) { auto it = fin.find(kv.first); if (it == fin.end() || it->second != m.files[kv.second]) return false; } return true; };
    if (!linearizable<Model, Op>(w->m, w->ops, 0, nullptr, accept)) {
      std::string s; for (auto& o : w->ops) { char b[200]; snprintf(b, sizeof b, " t%d:%s=%d,\"%s\",%llu[%llu-%llu]", o.thr + 1, KN[o.kind], o.st, o.got.c_str(), (unsigned long long)o.num, (unsigned long long)o.inv, (unsigned long long)o.res); s += b; }
      for (auto& x : fin) s += " finally " + x.first + ":\"" + x.second + "\""; lmc_fail("no sequential order explains the results:%s", s.c_str());
    }
    if (logs) { delete w->lg; std::string t = content("/tmp/LOG"); int n = 0; size_t at = 0; for (;;) { size_t nl = t.find('\n', at); if (nl == std::string::npos) break; std::string l = t.substr(at, nl - at); CHECK(l.size() > 19 && l.compare(l.size() - 19, 18, "message of thread ") == 0, "a line of the log is \"%s\"", l.c_str()); n++; at = nl + 1; } CHECK(at == t.size() && n == w->logs, "%d messages gave %d lines", w->logs, n); }
  }
  for (int t = 0; t < T; t++) { if (w->l[t]) { CHECK(vfs_lock_owner(L) == 0, "a held lock is not in force"); fine(e->UnlockFile(w->l[t]), "UnlockFile"); } delete w->w[t]; delete w->q[t]; delete w->r[t]; } delete w->shared;
  CHECK(vfs_lock_owner(L) < 0, "a lock nobody holds is in force"); CHECK(vfs_open_fds(0) == 0 && vfs_live_maps(0) == 0, "%d descriptors and %d mappings are left", vfs_open_fds(0), vfs_live_maps(0));
  FileLock* l = nullptr; fine(e->LockFile(L, &l), "locking when all is over"); fine(e->UnlockFile(l), "UnlockFile");
  lmc_outcome(oh); { Quiet z; delete w; } W = nullptr;
}
static const int L11[] = {1, 1}, L21[] = {2, 1}, L22[] = {2, 2}, L111[] = {1, 1, 1}, L33[] = {3, 3}, L211[] = {2, 1, 1};
static const std::vector<int> all = {MKDIR, RMDIR, REMOVE, REMOVE_S, REN_FG, REN_GF, EXISTS, SIZE, LIST, NEWW, NEWA, APPEND, SYNC, OPENS, SREAD, OPENR, RREAD, LOCK, UNLOCK, TESTDIR, LOG, SCHED, START};
static const std::vector<int> singles = {MKDIR, RMDIR, REMOVE, REN_FG, REN_GF, SIZE, LIST, NEWW, NEWA, APPEND, SYNC, OPENS, SREAD, OPENR, RREAD, LOCK, TESTDIR, LOG, SCHED, START};
static void reopened() { int md = 1 + lmc_choose(2, "how files are read"); go(2, deep(0, 1) ? L33 : L22, {NEWW, OPENR, RREAD, REN_GF, REN_FG, REMOVE}, true, md); }
static void one_each() { go(2, L11, all, lmc_choose(2, "g exists")); }
static void two_one() { go(2, L21, all, true); }
static void two_each() { go(2, L22, all, true); }
static void three() { go(3, L111, singles, true); }
static void files3() { go(2, L33, {NEWW, NEWA, APPEND, SREAD, REMOVE}, false); }
static void reads3() { go(2, L33, {NEWA, APPEND, OPENR, RREAD, REN_GF}, true); }
static void names3() { go(2, L33, {REN_FG, REN_GF, REMOVE, LIST, NEWA}, true); }
static void three_files() { go(3, L211, {NEWW, NEWA, APPEND, OPENS, SREAD, REMOVE, REN_GF}, true); }
LMC_SCENARIOS(
  {"one_each", one_each, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"two_one", two_one, {1, 3}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"files3", files3, {1, 4}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"reads3", reads3, {1, 4}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"names3", names3, {1, 4}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"reopened", reopened, {3, 3}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"three", three, {1, 3}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"three_files", three_files, {1, 3}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"two_each", two_each, {1, 2}, {0, 0}, {0, 0}, {60, 900}, LMC_THOROUGH_ONLY})
