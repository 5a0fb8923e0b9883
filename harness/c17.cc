// C17: whole-file helpers on every environment, with every step failing.
#include "posix_common.h"
#include "beside.h"
#include "helpers/memenv/memenv.h"
namespace lsmdb { extern Status WriteStringToFileSync(Env*, const Slice&, const std::string&); }
using lsmdb::FileLock; using lsmdb::Logger;
static Status write(Env* e, const char* data, size_t n, const std::string& f, bool sync) {
  char* b; { Quiet q; b = new char[n ? n : 1]; if (n) memcpy(b, data, n); } Status s = sync ? lsmdb::WriteStringToFileSync(e, Slice(b, n), f) : lsmdb::WriteStringToFile(e, Slice(b, n), f); { Quiet q; if (n) memset(b, 'z', n); delete[] b; } return s;
}
static bool same(const std::string& s, const char* d, size_t n) { Quiet q; return s.size() == n && !memcmp(s.data(), d, n); }
static void readback(Env* e, const std::string& f, const char* data, size_t n) {
  std::string* out = new std::string("what was here before"); Status s = lsmdb::ReadFileToString(e, f, out); CHECK(s.ok(), "reading %zu bytes back fails: %s", n, s.ToString().c_str());
  CHECK(same(*out, data, n), "wrote %zu bytes, read %zu%s", n, out->size(), out->size() == n ? " other ones" : ""); delete out;
}
static const size_t EDGE[] = {4095, 8191, 12288, 16383, 32767, 65535, 73727, 131071, 139263, 262143, 1048574};
static size_t pick_len(int upto) { int c = lmc_choose(upto + 33, "length"); return c < upto ? c : EDGE[(c - upto) / 3] + (c - upto) % 3; }
static void lengths_on(Env* e, const std::string& f, int upto) {
  size_t n = pick_len(upto); bool sync = lmc_choose(2, "sync"); static const size_t OLD[] = {0, 3, 70000}; int old = lmc_choose(4, "what was there");
  if (old) fine(write(e, TEXT + 1000, OLD[old - 1], f, false), "the first WriteStringToFile");
  CHECK(e->FileExists(f) == (old != 0), "FileExists is wrong before the write");
  fine(write(e, TEXT, n, f, sync), "WriteStringToFile"); uint64_t size = 5; fine(e->GetFileSize(f, &size), "GetFileSize"); CHECK(size == n, "the file has %llu bytes of %zu", (unsigned long long)size, n);
  readback(e, f, TEXT, n); readback(e, f, TEXT, n); lmc_outcome(n);
}
static void posix_lengths() { Env* e = posix_env(); lengths_on(e, "/tmp/f", deep(2500, 9000)); CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); }
static void mem_lengths() { Env* m = lsmdb::NewMemEnv(posix_env()); lengths_on(m, "/dir/f", deep(2500, 9000)); delete m; }
static void kernel() { vfs_real(1); Env* e = posix_env(); lengths_on(e, "/tmp/f", deep(40, 1000)); }
static void contents() {
  bool mem = lmc_choose(2, "environment"); Env* e = posix_env(); if (mem) e = lsmdb::NewMemEnv(e); static const char A[] = {0, '\n', '\r', (char)0x1a, (char)0xff, 'a'}; std::string* s; { Quiet q; s = new std::string; }
  if (lmc_choose(2, "one byte")) { int c = lmc_choose(256, "byte"); Quiet q; s->assign(3, (char)c); } else { int n = lmc_choose(deep(4, 5) + 1, "length"); for (int i = 0; i < n; i++) { int c = lmc_choose(6, "byte"); Quiet q; s->push_back(A[c]); } }
  fine(write(e, s->data(), s->size(), "/tmp/f", false), "WriteStringToFile"); readback(e, "/tmp/f", s->data(), s->size()); if (mem) delete e;
}
static void absent() {   // missing files, directories, names below nothing
  bool mem = lmc_choose(2, "environment"); Env* e = posix_env(); if (mem) e = lsmdb::NewMemEnv(e); else fine(e->CreateDir("/tmp/dir"), "CreateDir");
  std::string out = "before"; Status s = lsmdb::ReadFileToString(e, "/tmp/none", &out); CHECK(s.IsNotFound(), "reading a missing file gives \"%s\"", s.ToString().c_str()); CHECK(out.empty(), "reading a missing file leaves %zu bytes", out.size());
  if (!mem) { s = lsmdb::ReadFileToString(e, "/tmp/dir", &out); CHECK(!s.ok(), "reading a directory succeeds"); for (int k = 0; k < 2; k++) { s = write(e, "abc", 3, "/tmp/dir", k); CHECK(!s.ok(), "writing a directory succeeds"); CHECK(e->FileExists("/tmp/dir"), "writing to a directory's name removed it"); s = write(e, "abc", 3, "/tmp/none/f", k); CHECK(s.IsNotFound(), "writing below a missing directory gives \"%s\"", s.ToString().c_str()); } CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); }
  else delete e;
}
// ---- failing system calls -----------------------------------------------------------
static const size_t FL[] = {0, 1, 65536, 65537, 200000};
static void write_faults() {
  Env* e = posix_env(); size_t n = FL[lmc_choose(5, "length")]; bool sync = lmc_choose(2, "sync"), old = lmc_choose(2, "what was there"), man = lmc_choose(2, "manifest"), names = lmc_choose(2, "removal may fail"); if (!names) vfs_fault_mask(~512ull); std::string f = man ? "/tmp/MANIFEST-1" : "/tmp/f"; if (old) vfs_put(f.c_str(), TEXT + 1000, 10);
  vfs_faults(1); uint64_t h0 = vfs_faults_hit(); int64_t h = 0; Status s = write(e, TEXT, n, f, sync); vfs_faults(0); h = vfs_faults_hit() - h0; NOTE("-> %s", s.ToString().c_str()); size_t len = 0; const char* p = vfs_data(f.c_str(), &len);
  if (!h) CHECK(s.ok(), "the write fails although no system call did: %s", s.ToString().c_str());
  if (s.ok()) CHECK(p && len == n && !memcmp(p, TEXT, n), "WriteStringToFile returns OK but the file %s", !p ? "is missing" : "holds something else");
  if (h && !man) CHECK(!s.ok(), "WriteStringToFile returns OK although a system call failed");
  if (!s.ok()) { bool untouched = old && p && len == 10 && !memcmp(p, TEXT + 1000, 10); CHECK(!p || untouched || (names && h >= 2), "a failed WriteStringToFile leaves a file of %zu bytes", len); }
  CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); lmc_outcome(h * 4 + s.ok() * 2 + (p != 0));
}
static void write_errnos() { vfs_wide_errnos(1); write_faults(); }
static void read_faults() {
  Env* e = posix_env(); static const size_t L[] = {0, 1, 8191, 8192, 8193, 30000}; size_t n = L[lmc_choose(6, "length")]; vfs_put("/tmp/f", TEXT, n); std::string* out = new std::string("before");
  vfs_faults(1); uint64_t h0 = vfs_faults_hit(); vfs_fault_errnos(); Status s = lsmdb::ReadFileToString(e, "/tmp/f", out); vfs_faults(0); bool hit = vfs_faults_hit() != h0; bool ne = vfs_fault_errnos() >> ENOENT & 1;
  if (s.ok()) CHECK(same(*out, TEXT, n), "ReadFileToString returns OK with %zu of %zu bytes", out->size(), n); CHECK(hit != s.ok(), hit ? "ReadFileToString returns OK although a system call failed" : "ReadFileToString fails although no system call did"); CHECK(ne || !s.IsNotFound(), "not found is reported although nothing was missing");
  CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); delete out; lmc_outcome(s.ok());
}
static void read_errnos() { vfs_wide_errnos(1); read_faults(); }
// ---- an environment whose every step may fail ---------------------------------------
static Status bad(int k, const char* m) { switch (k) { case 0: return Status::IOError(m); case 1: return Status::NotFound(m); case 2: return Status::Corruption(m, "deep"); case 3: return Status::NotSupported(m); default: return Status::InvalidArgument(m); } }
struct Fake : Env {
  std::map<std::string, std::string> files; std::vector<std::string> failed; int open_files = 0, steps = 0; bool removefail = false, late = false;
  int mode = 0, lim = 0; bool own = false; std::string data; bool remove_ok = true;
  bool fail(Status* s, const char* what) { if (!lmc_choose(2, what)) { *s = Status::OK(); return false; } NOTE("%s fails", what); *s = bad(lmc_choose(mode == 2 ? 5 : 1, "how"), what); failed.push_back(s->ToString()); return true; }
  struct W : WritableFile {
    Fake* e; std::string name, data; bool closed = false, synced = true; int appends = 0;
    void show() { if (!e->late) e->files[name] = data; }
    W(Fake* f, const std::string& n) : e(f), name(n) { e->open_files++; show(); }
    ~W() { Status s; if (!closed) e->fail(&s, "closing"); e->open_files--; e->files[name] = data; CHECK(synced || !e->failed.empty() || !e->want_sync, "the helper returned without a sync after the data"); }
    Status Append(const Slice& d) override { CHECK(!closed, "append after close"); Status s; CHECK(++appends < 100000, "no end of appends"); if (e->fail(&s, "Append")) { data.append(d.data(), d.size() / 2); } else data.append(d.data(), d.size()); synced = false; show(); return s; }
    Status Close() override { Status s; closed = true; e->fail(&s, "Close"); e->files[name] = data; return s; }
    Status Flush() override { CHECK(!closed, "flush after close"); Status s; e->fail(&s, "Flush"); show(); return s; }
    Status Sync() override { CHECK(!closed, "sync after close"); Status s; if (!e->fail(&s, "Sync")) synced = true; e->files[name] = data; return s; }
  };
  bool want_sync = false;
  struct R : SequentialFile {
    Fake* e; size_t pos = 0; char* own = nullptr; int shorts = 0; R(Fake* f) : e(f) { e->open_files++; } ~R() { e->open_files--; delete[] own; }
    Status Read(size_t n, Slice* r, char* scratch) override {
      CHECK(e->failed.empty(), "a read after a failed one"); Status s; CHECK(++e->steps < 1000, "no end of reads"); size_t left = e->data.size() - pos, k; bool f = e->fail(&s, "Read");
      switch (left > 1 && n > 1 && shorts < e->lim ? lmc_choose(4, "how much") : 0) { case 0: k = std::min(n, left); break; case 1: k = 1; shorts++; break; case 2: k = std::min(n, left) - 1; shorts++; break; default: k = std::min(n, left) / 2; shorts++; }
      delete[] own; own = nullptr; if (e->own) { own = new char[k ? k : 1]; memcpy(own, e->data.data() + pos, k); *r = Slice(own, k); } else { memcpy(scratch, e->data.data() + pos, k); *r = Slice(scratch, k); } pos += k; return s;
    }
    Status Skip(uint64_t) override { lmc_fail("the helper skips"); }
  };
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override { CHECK(f == "/x/f", "reads %s", f.c_str()); *r = nullptr; Status s; if (!fail(&s, "NewSequentialFile")) *r = new R(this); return s; }
  Status NewRandomAccessFile(const std::string&, RandomAccessFile** r) override { *r = nullptr; return Status::NotSupported("random"); }
  Status NewWritableFile(const std::string& f, WritableFile** r) override { CHECK(f == "/x/f", "writes %s", f.c_str()); *r = nullptr; Status s; if (!fail(&s, "NewWritableFile")) *r = new W(this, f); return s; }
  bool FileExists(const std::string& f) override { return files.count(f); }
  Status GetChildren(const std::string&, std::vector<std::string>*) override { return Status::NotSupported("x"); }
  Status RemoveFile(const std::string& f) override { CHECK(f == "/x/f", "removes %s", f.c_str()); CHECK(!open_files, "removes the file while it is open"); if (lmc_choose(2, "RemoveFile")) { remove_ok = false; return Status::IOError("RemoveFile"); } if (!files.erase(f)) return Status::NotFound(f); return Status::OK(); }
  Status CreateDir(const std::string&) override { return Status::NotSupported("x"); }
  Status RemoveDir(const std::string&) override { return Status::NotSupported("x"); }
  Status GetFileSize(const std::string& f, uint64_t* s) override { *s = 0; if (!files.count(f)) return Status::NotFound(f); *s = files[f].size(); return Status::OK(); }
  Status RenameFile(const std::string&, const std::string&) override { return Status::NotSupported("x"); }
  Status LockFile(const std::string&, FileLock** l) override { *l = nullptr; return Status::NotSupported("x"); }
  Status UnlockFile(FileLock*) override { return Status::NotSupported("x"); }
  void Schedule(std::function<void(void*)>, void*) override {}
  void StartThread(std::function<void(void*)>, void*) override {}
  Status GetTestDirectory(std::string*) override { return Status::NotSupported("x"); }
  Status NewLogger(const std::string&, Logger** l) override { *l = nullptr; return Status::NotSupported("x"); }
  uint64_t NowMicros() override { return 0; }
  void SleepForMicroseconds(int) override {}
};
static bool reported(Fake* e, const Status& s) { for (auto& f : e->failed) if (f == s.ToString()) return true; return false; }
static void fake_write() {
  Fake* e = new Fake; static const size_t L[] = {0, 1, 10000}; size_t n = L[lmc_choose(3, "length")]; bool sync = e->want_sync = lmc_choose(2, "sync"); bool old = lmc_choose(2, "what was there"); e->late = lmc_choose(2, "appears when closed"); e->mode = 2; if (old) e->files["/x/f"] = "old content";
  Status s = write(e, TEXT, n, "/x/f", sync); NOTE("-> %s", s.ToString().c_str()); CHECK(!e->open_files, "the file is still open");
  if (s.ok()) { CHECK(e->failed.empty(), "the helper returns OK although %s", e->failed[0].c_str()); CHECK(e->files.count("/x/f") && same(e->files["/x/f"], TEXT, n), "the helper returns OK but the file holds something else"); }
  else { CHECK(!e->failed.empty(), "the helper fails although nothing did: %s", s.ToString().c_str()); CHECK(reported(e, s), "the helper reports \"%s\", what failed is \"%s\"", s.ToString().c_str(), e->failed[0].c_str());
    if (e->remove_ok && e->files.count("/x/f")) CHECK(old && e->files["/x/f"] == "old content", "a failed write leaves a file behind"); }
  lmc_outcome(mixs(s.ok(), s.ToString())); delete e;
}
static void fake_read() {
  Fake* e = new Fake; e->mode = 2; static const size_t L[] = {0, 1, 2, 8191, 8192, 8193, 17000}; size_t n = L[lmc_choose(7, "length")]; { Quiet q; e->data.assign(TEXT, n); } std::string* out = new std::string("before"); e->lim = deep(5, 7); e->own = lmc_choose(2, "where");
  Status s = lsmdb::ReadFileToString(e, "/x/f", out); CHECK(!e->open_files, "the file is still open");
  if (s.ok()) { CHECK(e->failed.empty(), "the helper returns OK although %s", e->failed[0].c_str()); CHECK(same(*out, TEXT, n), "the helper returns OK with %zu of %zu bytes", out->size(), n); }
  else CHECK(reported(e, s), "the helper reports \"%s\", what failed is \"%s\"", s.ToString().c_str(), e->failed.empty() ? "nothing" : e->failed[0].c_str());
  lmc_outcome(mixs(out->size(), s.ToString())); delete out; delete e;
}
static Env* g_both;
static std::string one(int v) { std::string f = v == 1 ? "/tmp/one" : "/tmp/two", d(v * 40, 'a' + v), r, s; for (int sync = 0; sync < 2; sync++) { Status a = sync ? lsmdb::WriteStringToFileSync(g_both, d, f) : lsmdb::WriteStringToFile(g_both, d, f), b = lsmdb::ReadFileToString(g_both, f, &r); CHECK(a.ok() && b.ok() && r == d, "a file written and read beside another is wrong"); s += r; d += "+"; } Status m = lsmdb::ReadFileToString(g_both, f + "x", &r); return s + m.ToString() + r; }
static void beside_all() { int mem = lmc_choose(2, "in memory"); Env* e = posix_env(); g_both = mem ? lsmdb::NewMemEnv(e) : e; beside(one); if (mem) delete g_both; CHECK(vfs_open_fds(0) == 0, "descriptors are left"); }
// as if the standard descriptors were closed: 0, 1 and 2 are files like others
static void low_fds() { vfs_first_fd(0, lmc_choose(2, "after")); switch (lmc_choose(3, "which")) { case 0: write_faults(); break; case 1: read_faults(); break; default: absent(); }; }
LMC_SCENARIOS(
  {"low_fds", low_fds, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"beside", beside_all, {2, -1}, {0, 0}, {0, 0}, {30, 60}, 0},
  {"posix_lengths", posix_lengths, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"mem_lengths", mem_lengths, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"contents", contents, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"absent", absent, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"write_faults", write_faults, {0, 0}, {3, 4}, {0, 0}, {60, 900}, 0},
  {"read_faults", read_faults, {0, 0}, {3, 4}, {0, 0}, {60, 900}, 0},
  {"write_errnos", write_errnos, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"read_errnos", read_errnos, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"fake_write", fake_write, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"fake_read", fake_read, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"kernel", kernel, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0})
