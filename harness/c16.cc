// C16: names, directories and sizes against a plain file-system model.
#include <memory>
#include "posix_common.h"
static const int NF = 1, IO = 2, OK = 4;   // how a call may end
struct Node { bool dir; std::string data; std::map<std::string, std::shared_ptr<Node>> kids; };
typedef std::shared_ptr<Node> N;
struct Fs {
  N root;
  Fs() { root = std::make_shared<Node>(); root->dir = true; for (const char* d : {"tmp", "cwd"}) { N n = std::make_shared<Node>(); n->dir = true; root->kids[d] = n; } }
  static std::vector<std::string> split(const std::string& p) { std::vector<std::string> c; size_t i = 0; if (p.empty() || p[0] != '/') c.push_back("cwd"); while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i) c.push_back(p.substr(i, j - i)); i = j + 1; } return c; }
  // 0 if the parent was found
  int parent(const std::string& p, N* par, std::string* last) const {
    if (p.empty()) return NF; auto c = split(p); N n = root;
    for (size_t i = 0; i + 1 < c.size(); i++) { if (!n->dir) return IO; if (c[i].size() > 255) return IO; auto it = n->kids.find(c[i]); if (it == n->kids.end()) return NF; n = it->second; }
    if (!n->dir || c.back().size() > 255) return IO;
    *par = n; *last = c.back(); return 0;
  }
  int find(const std::string& p, N* out) const { N par; std::string l; if (int e = parent(p, &par, &l)) return e; auto it = par->kids.find(l); if (it == par->kids.end()) return NF; if (p.back() == '/' && !it->second->dir) return IO; *out = it->second; return 0; }
  int create(const std::string& p, bool trunc) { N par; std::string l; if (int e = parent(p, &par, &l)) return e; auto it = par->kids.find(l); if (it != par->kids.end()) { if (it->second->dir || p.back() == '/') return IO; if (trunc) it->second->data.clear(); return OK; } if (p.back() == '/') return IO; N n = std::make_shared<Node>(); n->dir = false; par->kids[l] = n; return OK; }
  int mkdir(const std::string& p) { N par; std::string l; if (int e = parent(p, &par, &l)) return e; if (par->kids.count(l)) return IO; N n = std::make_shared<Node>(); n->dir = true; par->kids[l] = n; return OK; }
  int rmdir(const std::string& p) { N par, n; std::string l; if (int e = parent(p, &par, &l)) return e; if (int e = find(p, &n)) return e; if (!n->dir || !n->kids.empty()) return IO; par->kids.erase(l); return OK; }
  int remove(const std::string& p) { N par, n; std::string l; if (int e = parent(p, &par, &l)) return e; if (int e = find(p, &n)) return e; if (n->dir) return IO; par->kids.erase(l); return OK; }
  static bool below(const N& a, const N& b) { if (a == b) return true; for (auto& k : a->kids) if (below(k.second, b)) return true; return false; }
  int rename(const std::string& a, const std::string& b) {
    N pa, pb, n, m; std::string la, lb; int ea = parent(a, &pa, &la), eb = parent(b, &pb, &lb);
    if (ea || eb) return ea && eb ? ea | eb : ea ? ea : eb | (pa->kids.count(la) ? 0 : NF);
    auto it = pa->kids.find(la); if (it == pa->kids.end()) return NF; n = it->second;
    if (!n->dir && (a.back() == '/' || b.back() == '/')) return IO;
    if (n->dir && below(n, pb)) return IO;                        // into itself
    auto jt = pb->kids.find(lb);
    if (jt != pb->kids.end()) { m = jt->second; if (m == n) return OK; if (below(m, pa) && m->dir) return IO; if (n->dir != m->dir || (m->dir && !m->kids.empty())) return IO; }
    pa->kids.erase(la); pb->kids[lb] = n; return OK;
  }
};
static void ends(const Status& s, int want, const char* what, const std::string& name) {
  int got = s.ok() ? OK : s.IsNotFound() ? NF : s.IsIOError() ? IO : 0;
  CHECK(got & want, "%s(%s) gives \"%s\", a file system %s", what, name.substr(0, 60).c_str(), s.ToString().substr(0, 120).c_str(), want == OK ? "succeeds" : want == NF ? "reports a missing name" : want == IO ? "fails, but not for a missing name" : "fails");
}
struct World { Env* e; Fs fs; std::vector<std::string> names; bool faulty = false; };
// Everything one can see through the environment agrees with the model.
static void observe(World* w) {
  for (auto& n : w->names) {
    N x; int e = w->fs.find(n, &x); CHECK(w->e->FileExists(n) == (e == 0), "FileExists(%s) is %s", n.c_str(), e ? "true" : "false");
    uint64_t size = 777; Status s = w->e->GetFileSize(n, &size); ends(s, e ? e : OK, "GetFileSize", n);
    if (!e && !x->dir) CHECK(size == x->data.size(), "GetFileSize(%s) gives %llu, the file has %zu bytes", n.c_str(), (unsigned long long)size, x->data.size()); if (e) CHECK(size == 0, "a failed GetFileSize(%s) leaves a stale size", n.c_str());
  }
}
static void children(World* w, const std::string& n, bool quietfs = false) {
  std::vector<std::string> r = {"stale"}; N x; int e = w->fs.find(n, &x); Status s = w->e->GetChildren(n, &r);
  if (!e && !x->dir) e = IO; ends(s, e ? e : OK, "GetChildren", n);
  std::set<std::string> got; for (auto& c : r) if (c != "." && c != "..") CHECK(got.insert(c).second, "GetChildren(%s) lists %s twice", n.c_str(), c.c_str());
  std::set<std::string> want; if (!e) for (auto& k : x->kids) want.insert(k.first);
  if (got != want) { for (auto& c : got) CHECK(want.count(c), "GetChildren(%s) lists %s, which is not there", n.c_str(), c.c_str()); for (auto& c : want) CHECK(got.count(c), "GetChildren(%s) does not list %s", n.c_str(), c.c_str()); }
}
static void create(World* w, const std::string& n, bool append, size_t k) {
  int e = append ? w->fs.create(n, false) : w->fs.create(n, true); WritableFile* f = (WritableFile*)w; NOTE("%s %s", append ? "append" : "create", n.c_str());
  Status s = append ? w->e->NewAppendableFile(n, &f) : w->e->NewWritableFile(n, &f); ends(s, e, append ? "NewAppendableFile" : "NewWritableFile", n);
  if (!s.ok()) { CHECK(!f, "a failed open leaves a pointer"); return; }
  if (k) { fine(f->Append(Slice(TEXT, k)), "Append"); N x; w->fs.find(n, &x); x->data += std::string(TEXT, k); } fine(f->Close(), "Close"); delete f;
}
static uint64_t hash(const N& n) { uint64_t h = n->dir ? 1 : 2 + n->data.size(); for (auto& k : n->kids) h = mix(mixs(h, k.first), hash(k.second)); return h; }
static void step(World* w, int c, const std::vector<std::string>& U) {
  int n = U.size(); int k = c / n; const std::string& a = U[c % n];
  switch (k) {
    case 0: create(w, a, false, 3); break;
    case 1: create(w, a, true, 2); break;
    case 2: { NOTE("mkdir %s", a.c_str()); int e = w->fs.mkdir(a); ends(w->e->CreateDir(a), e, "CreateDir", a); break; }
    case 3: { NOTE("rmdir %s", a.c_str()); int e = w->fs.rmdir(a); ends(w->e->RemoveDir(a), e, "RemoveDir", a); break; }
    case 4: { NOTE("remove %s", a.c_str()); int e = w->fs.remove(a); ends(w->e->RemoveFile(a), e, "RemoveFile", a); break; }
    default: { const std::string& b = U[k - 5]; NOTE("rename %s %s", a.c_str(), b.c_str()); int e = w->fs.rename(a, b); ends(w->e->RenameFile(a, b), e, "RenameFile", a + ", " + b); }
  }
}
static void history(const std::vector<std::string>& U, const std::vector<std::string>& dirs, int depth, bool real) {
  if (real) vfs_real(1); World* w = new World; w->e = posix_env(); w->names = U;
  for (int i = 0; i < depth; i++) { int c = lmc_choose(U.size() * (5 + U.size()), "operation"); step(w, c, U); observe(w); for (auto& d : dirs) children(w, d); }
  CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); lmc_outcome(hash(w->fs.root));
}
static void wide() { history({"/tmp/a", "/tmp/d", "/tmp/d/x", "/tmp/d/e", "/tmp/a/x", "/tmp/d/", "rel", "", "/tmp/none/x"}, {"/tmp", "/tmp/d", "/tmp/a", ""}, deep(2, 3), false); }
static void odd_names() { history({"/tmp/.a", "/tmp/..b", "/tmp/.d", "/tmp/.d/.x", "/tmp/~ \n"}, {"/tmp", "/tmp/.d"}, deep(2, 3), false); }
static void deep_names() { history({"/tmp/a", "/tmp/d", "/tmp/d/x"}, {"/tmp", "/tmp/d"}, deep(4, 5), false); }
static void dirs() { history({"/tmp/d", "/tmp/e", "/tmp/d/e"}, {"/tmp", "/tmp/d", "/tmp/e"}, deep(4, 5), false); }
// the same on the kernel itself: the harness's model and the model system agree with it
static void kernel() { history({"/tmp/a", "/tmp/d", "/tmp/d/x", "/tmp/a/x", "/tmp/d/", "rel", "", "/tmp/none/x"}, {"/tmp", "/tmp/d", "/tmp/a", ""}, 2, true); }
static void kernel_deep() { history({"/tmp/a", "/tmp/d", "/tmp/d/e"}, {"/tmp", "/tmp/d"}, deep(3, 3), true); }
// ---- failing calls ------------------------------------------------------------------
static void faults() {
  std::vector<std::string> U = {"/tmp/a", "/tmp/d", "/tmp/d/x"}; World* w = new World; w->e = posix_env(); w->names = U;
  create(w, "/tmp/a", false, 3); w->fs.mkdir("/tmp/d"); fine(w->e->CreateDir("/tmp/d"), "CreateDir"); create(w, "/tmp/d/x", false, 5);
  for (int i = 0; i < deep(2, 3); i++) {
    vfs_faults(1); uint64_t h0 = vfs_faults_hit(); vfs_fault_errnos(); int n = U.size(), c = lmc_choose(n * (5 + n) + 4, "operation"); bool hit = false; Status s; std::string what; int want = OK;
    auto judge = [&] { hit = vfs_faults_hit() != h0; uint64_t er = vfs_fault_errnos(); vfs_faults(0); if (hit) { CHECK(!s.ok(), "%s returns OK although a system call failed", what.c_str()); bool ne = er >> ENOENT & 1; CHECK(ne || !s.IsNotFound(), "%s reports not found although nothing was missing", what.c_str()); CHECK(!ne || s.IsNotFound() || (er & ~(1ull << ENOENT)), "%s does not report a missing name as not found", what.c_str()); } else ends(s, want, what.c_str(), ""); };
    int k = c / n; std::string a = U[c % n];
    if (c >= n * (5 + n)) {
      int j = c - n * (5 + n);
      if (j < 2) { std::string d = j ? "/tmp/d" : "/tmp"; std::vector<std::string> r = {"stale"}; s = w->e->GetChildren(d, &r); what = "GetChildren"; N x; want = w->fs.find(d, &x) ? NF : x->dir ? OK : IO; judge(); if (!s.ok()) CHECK(r.empty(), "a failed GetChildren leaves a listing"); }
      else if (j == 2) { uint64_t size = 777; s = w->e->GetFileSize("/tmp/a", &size); what = "GetFileSize"; N x; int e = w->fs.find("/tmp/a", &x); want = e ? e : OK; judge(); if (!s.ok()) CHECK(size == 0, "a failed GetFileSize leaves a stale size"); }
      else { vfs_faults(0); lmc_prune(); }
    } else if (k < 2) { WritableFile* f = (WritableFile*)w; what = k ? "NewAppendableFile" : "NewWritableFile"; s = k ? w->e->NewAppendableFile(a, &f) : w->e->NewWritableFile(a, &f); if (vfs_faults_hit() == h0) want = w->fs.create(a, !k);   // (the model's operation is applied only if the call was not made to fail)
      judge(); if (s.ok()) delete f; else CHECK(!f, "a failed open leaves a pointer"); }
    else {
      std::string b = k >= 5 ? U[k - 5] : "";
      switch (k) { case 2: what = "CreateDir"; s = w->e->CreateDir(a); break; case 3: what = "RemoveDir"; s = w->e->RemoveDir(a); break; case 4: what = "RemoveFile"; s = w->e->RemoveFile(a); break; default: what = "RenameFile"; s = w->e->RenameFile(a, b); }
      if (vfs_faults_hit() == h0) want = k == 2 ? w->fs.mkdir(a) : k == 3 ? w->fs.rmdir(a) : k == 4 ? w->fs.remove(a) : w->fs.rename(a, b);
      judge();
    }
    observe(w); children(w, "/tmp"); children(w, "/tmp/d");
  }
  CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); lmc_outcome(hash(w->fs.root));
}
static void errnos() { vfs_wide_errnos(1); faults(); }
// directories of many sizes; long names
static void listing() {
  World* w = new World; w->e = posix_env(); int n = lmc_choose(deep(40, 100), "files"); vfs_mkdir("/tmp/d"); w->fs.mkdir("/tmp/d");
  for (int i = 0; i < n; i++) { static const char* const B[] = {"", ".", "..", "-", " ", "\n", "a/", "~", "\x01", "\xff", "#", "*"};   // (a/ : an ordinary name)
    std::string b = B[i % 12]; if (b == "a/") b = "a"; std::string p = "/tmp/d/" + b + std::string(1 + (i * 37) % 200, 'a' + i % 26) + std::to_string(i); vfs_put(p.c_str(), "x", 1); w->fs.create(p, true); }
  children(w, "/tmp/d"); children(w, "/tmp"); if (n) { ends(w->e->RemoveDir("/tmp/d"), IO, "RemoveDir", "/tmp/d"); children(w, "/tmp/d"); } lmc_outcome(n);
}
static void long_names() {
  World* w = new World; w->e = posix_env(); static const int L[] = {254, 255, 256, 5000}; int len = L[lmc_choose(4, "length")]; std::string p = "/tmp/" + std::string(len, 'n'); w->names = {p, "/tmp/a"};
  int k = lmc_choose(7, "operation"); create(w, "/tmp/a", false, 4);
  std::vector<std::string> U = {p, "/tmp/a"}; step(w, k * 2 + (k == 6), U); observe(w); children(w, "/tmp"); if (len < 256 && k < 2) { step(w, 8, U); observe(w); }
}
// sizes
static void sizes() {
  World* w = new World; w->e = posix_env(); w->names = {"/tmp/f"}; static const size_t S[] = {0, 1, 65535, 65536, 65537, 200000}; size_t a = S[lmc_choose(6, "size")], b = S[lmc_choose(6, "size")];
  create(w, "/tmp/f", false, a); observe(w); create(w, "/tmp/f", true, b); observe(w); step(w, 0, w->names); observe(w); lmc_outcome(a * 7 + b);
}
// files of 2 GB and more
static void huge() {
  static const uint64_t S[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 5, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 7, 5ull << 30, 1ull << 40, (1ull << 43) + 11};
  bool real = lmc_choose(2, "kernel"); uint64_t n = S[lmc_choose(9, "size")]; if (real) vfs_real(1); Env* e = posix_env(); vfs_put_huge("/tmp/f", n); uint64_t k = 777;
  fine(e->GetFileSize("/tmp/f", &k), "GetFileSize"); CHECK(k == n, "GetFileSize gives %llu, the file has %llu bytes", (unsigned long long)k, (unsigned long long)n); CHECK(e->FileExists("/tmp/f"), "FileExists of a big file is false");
  fine(e->RenameFile("/tmp/f", "/tmp/g"), "RenameFile"); WritableFile* f; fine(e->NewAppendableFile("/tmp/g", &f), "NewAppendableFile"); fine(f->Append(Slice("xyz", 3)), "Append"); fine(f->Close(), "Close"); delete f;
  fine(e->GetFileSize("/tmp/g", &k), "GetFileSize"); CHECK(k == n + 3, "GetFileSize gives %llu, the file has %llu bytes", (unsigned long long)k, (unsigned long long)(n + 3)); char b[5]; vfs_peek("/tmp/g", n - 2, b, 5); CHECK(!memcmp(b, "\0\0xyz", 5), "the appended bytes are not at the end");
  CHECK(!e->FileExists("/tmp/f"), "the old name is still there"); fine(e->RemoveFile("/tmp/g"), "RemoveFile"); CHECK(!e->FileExists("/tmp/g"), "a removed file is still there"); lmc_outcome(n);
}
// a call that fails hands back no object, and never what was there before
template <class T> static T* junk() { static char c[64]; return reinterpret_cast<T*>(c); }
template <class T> static Status handed(Status s, T*& p) { CHECK(s.ok() ? p && p != junk<T>() : !p, s.ok() ? "no file object" : "a failed open leaves a pointer"); return s; }
// names and directories one may not read, write or search
static void permissions() {
  static const int FM[] = {0, 0200, 0400, 0600}, DM[] = {0, 0100, 0200, 0300, 0400, 0500, 0600, 0700};
  int fm = FM[lmc_choose(4, "file mode")], dm = DM[lmc_choose(8, "directory mode")]; bool root = lmc_choose(2, "superuser"); Env* e = posix_env();
  vfs_mkdir("/tmp/d"); vfs_mkdir("/tmp/d/e"); vfs_put("/tmp/a", "abc", 3); vfs_put("/tmp/d/x", "defgh", 5); vfs_chmod("/tmp/a", fm); vfs_chmod("/tmp/d/x", fm); vfs_chmod("/tmp/d", dm); if (root) vfs_set_euid(0);
  bool R = root || fm & 0400, W = root || fm & 0200, DR = root || dm & 0400, DX = root || dm & 0100, DW = DX && (root || dm & 0200);
  auto yes = [](bool b, int other = IO) { return b ? OK : other; }; Status s; uint64_t size = 777; std::vector<std::string> r; SequentialFile* q = junk<SequentialFile>(); RandomAccessFile* ra = junk<RandomAccessFile>(); WritableFile* w = junk<WritableFile>();
  CHECK(e->FileExists("/tmp/a"), "FileExists is false for a file of mode %o", fm); CHECK(e->FileExists("/tmp/d"), "FileExists is false for a directory of mode %o", dm); CHECK(e->FileExists("/tmp/d/x") == DX, "FileExists below a directory of mode %o is %d", dm, !DX); CHECK(!e->FileExists("/tmp/d/none"), "FileExists is true for nothing");
  ends(e->GetFileSize("/tmp/a", &size), OK, "GetFileSize", "/tmp/a"); CHECK(size == 3, "GetFileSize gives %llu", (unsigned long long)size); ends(e->GetFileSize("/tmp/d/x", &size), yes(DX), "GetFileSize", "/tmp/d/x"); CHECK(size == (DX ? 5 : 0), "GetFileSize gives %llu", (unsigned long long)size); ends(e->GetFileSize("/tmp/d/none", &size), DX ? NF : IO, "GetFileSize", "/tmp/d/none");
  ends(e->GetChildren("/tmp/d", &r), yes(DR), "GetChildren", "/tmp/d"); int kids = 0; for (auto& c : r) kids += c != "." && c != ".."; CHECK(kids == (DR ? 2 : 0), "GetChildren lists %d names", kids);
  int op = lmc_choose(16, "operation"); const char* nm[] = {"/tmp/a", "/tmp/d/x", "/tmp/d/none"}; int k = lmc_choose(3, "name"); std::string n = nm[k]; bool sr = k == 0 || DX, sw = k == 0 || DW, have = k < 2;
  switch (op) {
    case 0: ends(handed(e->NewSequentialFile(n, &q), q), !sr ? IO : !have ? NF : yes(R), "NewSequentialFile", n); delete q; break;
    case 1: ends(handed(e->NewRandomAccessFile(n, &ra), ra), !sr ? IO : !have ? NF : yes(R), "NewRandomAccessFile", n); delete ra; break;
    case 2: ends(handed(e->NewWritableFile(n, &w), w), !sr ? IO : have ? yes(W) : yes(sw), "NewWritableFile", n); delete w; CHECK(k == 2 || !sr || vfs_size(n.c_str()) == (W ? 0 : k ? 5 : 3), "a refused NewWritableFile changed the file"); break;
    case 3: ends(handed(e->NewAppendableFile(n, &w), w), !sr ? IO : have ? yes(W) : yes(sw), "NewAppendableFile", n); delete w; break;
    case 4: ends(e->RemoveFile(n), !sr ? IO : !have ? NF : yes(sw), "RemoveFile", n); break;
    case 5: ends(e->CreateDir(n), have ? IO : yes(sw), "CreateDir", n); break;
    case 6: ends(e->RemoveDir("/tmp/d/e"), yes(DW), "RemoveDir", "/tmp/d/e"); break;
    case 7: ends(e->RemoveDir("/tmp/d"), IO, "RemoveDir", "/tmp/d"); break;
    case 8: ends(e->RenameFile(n, "/tmp/z"), !sr ? IO : !have ? NF : yes(sw), "RenameFile", n); break;
    case 9: ends(e->RenameFile("/tmp/a", "/tmp/d/y"), yes(DW), "RenameFile", "/tmp/a, /tmp/d/y"); break;
    case 10: ends(e->RenameFile("/tmp/a", "/tmp/d/x"), yes(DW), "RenameFile", "/tmp/a, /tmp/d/x"); break;
    case 11: ends(e->RenameFile("/tmp/d", "/tmp/z"), OK, "RenameFile", "/tmp/d"); break;
    case 12: { lsmdb::FileLock* l = junk<lsmdb::FileLock>(); s = e->LockFile(n, &l); ends(s, !sr ? IO : have ? yes(R && W) : yes(sw), "LockFile", n); if (l) fine(e->UnlockFile(l), "UnlockFile"); break; }
    case 13: { lsmdb::Logger* l = junk<lsmdb::Logger>(); ends(handed(e->NewLogger(n, &l), l), !sr ? IO : have ? yes(W) : yes(sw), "NewLogger", n); delete l; break; }
    case 14: ends(e->RemoveFile("/tmp/d/e"), IO, "RemoveFile", "/tmp/d/e"); break;
    case 15: { std::string d = "old"; ends(lsmdb::ReadFileToString(e, n, &d), !sr ? IO : !have ? NF : yes(R), "ReadFileToString", n); break; }
  }
  if (k == 2 && DW && (op == 2 || op == 3 || op == 13)) { SequentialFile* f = nullptr; fine(e->NewSequentialFile(n, &f), "opening a file just created"); delete f; fine(e->NewAppendableFile(n, &w), "appending to a file just created"); delete w; }
  CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); lmc_outcome(op * 8 + s.ok());
}
// symbolic links: a name stands for what it points to, removing and renaming concern the name itself
static void links() {
  bool real = lmc_choose(2, "kernel"); if (real) vfs_real(1); Env* e = posix_env(); int to = lmc_choose(3, "target: file, directory, nothing"); bool rel = lmc_choose(2, "relative");
  vfs_put("/tmp/a", "abc", 3); vfs_mkdir("/tmp/d"); vfs_put("/tmp/d/x", "defgh", 5); const char* T[] = {"a", "d", "none"}; std::string t = std::string(rel ? "" : "/tmp/") + T[to], tp = std::string("/tmp/") + T[to];
  vfs_symlink(t.c_str(), "/tmp/l"); std::vector<std::string> r; uint64_t size = 777; Status s; SequentialFile* q = junk<SequentialFile>(); RandomAccessFile* ra = junk<RandomAccessFile>(); WritableFile* w = junk<WritableFile>(); auto have = [&](const std::string& d, const char* n) { fine(e->GetChildren(d, &r), "GetChildren"); return std::count(r.begin(), r.end(), n); };
  CHECK(have("/tmp", "l") == 1 && have("/tmp", "a") == 1 && have("/tmp", "d") == 1, "GetChildren does not list a name once"); CHECK(e->FileExists("/tmp/l") == (to < 2), "FileExists of a link to %s is %d", T[to], to == 2);
  ends(e->GetFileSize("/tmp/l", &size), to == 2 ? NF : OK, "GetFileSize", "/tmp/l"); CHECK(to == 1 || size == (to ? 0u : 3u), "GetFileSize of a link gives %llu", (unsigned long long)size);
  int op = lmc_choose(14, "operation");
  auto still = [&](bool l) { CHECK(have("/tmp", "l") == l, "the link itself is %s", l ? "gone" : "still there"); CHECK(vfs_size("/tmp/a") == 3 && vfs_size("/tmp/d/x") == 5, "the target of the link changed"); };
  switch (op) {
    case 0: ends(e->RemoveFile("/tmp/l"), OK, "RemoveFile", "link"); still(false); break;
    case 1: ends(e->RenameFile("/tmp/l", "/tmp/m"), OK, "RenameFile", "link"); still(false); CHECK(have("/tmp", "m") == 1, "the renamed link is not there"); CHECK(e->FileExists("/tmp/m") == (to < 2), "the renamed link points elsewhere"); break;
    case 2: ends(handed(e->NewWritableFile("/tmp/l", &w), w), to == 1 ? IO : OK, "NewWritableFile", "link"); if (w) { fine(w->Append(Slice("12345", 5)), "Append"); fine(w->Close(), "Close"); CHECK(vfs_size(tp.c_str()) == 5, "writing through a link does not reach its target"); delete w; } CHECK(have("/tmp", "l") == 1, "the link is gone"); break;
    case 3: ends(handed(e->NewAppendableFile("/tmp/l", &w), w), to == 1 ? IO : OK, "NewAppendableFile", "link"); if (w) { fine(w->Append(Slice("12", 2)), "Append"); fine(w->Close(), "Close"); CHECK(vfs_size(tp.c_str()) == (to ? 2 : 5), "appending through a link does not reach its target"); delete w; } break;
    case 4: { ends(handed(e->NewSequentialFile("/tmp/l", &q), q), to == 2 ? NF : to == 1 ? OK | IO : OK, "NewSequentialFile", "link"); if (q && !to) { char b[9]; Slice x; fine(q->Read(9, &x, b), "Read"); CHECK(x == Slice("abc"), "reading through a link gives other bytes"); } delete q; still(true); break; }
    case 5: { ends(handed(e->NewRandomAccessFile("/tmp/l", &ra), ra), to == 2 ? NF : to == 1 ? OK | IO : OK, "NewRandomAccessFile", "link"); if (ra && !to) { char b[9]; Slice x; fine(ra->Read(1, 9, &x, b), "Read"); CHECK(x == Slice("bc"), "reading through a link gives other bytes"); } delete ra; still(true); break; }
    case 6: ends(e->GetChildren("/tmp/l", &r), to == 2 ? NF : to == 1 ? OK : IO, "GetChildren", "link"); if (to == 1) CHECK(std::count(r.begin(), r.end(), "x") == 1, "the directory a link points to is not listed"); still(true); break;
    case 7: ends(e->RemoveDir("/tmp/l"), IO, "RemoveDir", "link"); still(true); break;
    case 8: ends(e->CreateDir("/tmp/l"), IO, "CreateDir", "link"); still(true); break;
    case 9: ends(e->RenameFile("/tmp/a", "/tmp/l"), OK, "RenameFile", "onto a link"); CHECK(!e->FileExists("/tmp/a") || false, "the old name is still there"); CHECK(e->GetFileSize("/tmp/l", &size).ok() && size == 3, "the renamed file is not there"); CHECK(vfs_size("/tmp/d/x") == 5, "the target of the link changed"); break;
    case 10: ends(handed(e->NewWritableFile("/tmp/l/y", &w), w), to == 1 ? OK : to == 2 ? NF : IO, "NewWritableFile", "below a link"); if (w) { fine(w->Close(), "Close"); delete w; CHECK(vfs_exists("/tmp/d/y") == 1, "a file created below a link is not there"); } break;
    case 11: ends(e->RemoveFile("/tmp/l/x"), to == 1 ? OK : to == 2 ? NF : IO, "RemoveFile", "below a link"); CHECK(vfs_exists("/tmp/d/x") == (to != 1), "removing below a link"); break;
    case 12: { lsmdb::FileLock* l = junk<lsmdb::FileLock>(); ends(handed(e->LockFile("/tmp/l", &l), l), to == 1 ? IO : OK, "LockFile", "link"); if (l) { if (!real) CHECK(vfs_lock_owner(tp.c_str()) == 0, "the target of the link is not locked"); fine(e->UnlockFile(l), "UnlockFile"); } break; }
    case 13: { std::string d; ends(lsmdb::ReadFileToString(e, "/tmp/l/x", &d), to == 1 ? OK : to == 2 ? NF : IO, "ReadFileToString", "below a link"); CHECK(to != 1 || d == "defgh", "reading below a link gives other bytes"); break; }
  }
  if (op == 9 && to == 0) {} CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); lmc_outcome(op * 3 + to);
}
// file systems that do not tell the kind of an entry while listing
static void untyped() {
  vfs_notype(1); World* w = new World; w->e = posix_env(); w->names = {"/tmp/a", "/tmp/d", "/tmp/d/x"};
  for (int i = 0; i < deep(3, 4); i++) { int c = lmc_choose(24, "operation"); step(w, c, w->names); observe(w); children(w, "/tmp"); children(w, "/tmp/d"); }
  lmc_outcome(hash(w->fs.root));
}
// as if the standard descriptors were closed: 0, 1 and 2 are files like others
static void low_fds() { vfs_first_fd(0, lmc_choose(2, "after")); wide(); }
LMC_SCENARIOS(
  {"low_fds", low_fds, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"huge", huge, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"permissions", permissions, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"links", links, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"untyped", untyped, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"wide", wide, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"odd_names", odd_names, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"deep_names", deep_names, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"dirs", dirs, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"faults", faults, {0, 0}, {2, 2}, {0, 0}, {60, 900}, 0},
  {"errnos", errnos, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"listing", listing, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"long_names", long_names, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"sizes", sizes, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"kernel", kernel, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"kernel_deep", kernel_deep, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0})
