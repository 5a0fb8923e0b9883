// Reference model and helpers for the in-memory environment.
#pragma once
#include <algorithm>
#include "h.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
using lsmdb::Env; using lsmdb::RandomAccessFile; using lsmdb::SequentialFile; using lsmdb::Slice; using lsmdb::Status; using lsmdb::WritableFile;

static int deep(int q, int t) { return lmc_tier() ? t : q; }
struct MFile { std::string data; };
typedef std::shared_ptr<MFile> MF;
typedef std::map<std::string, MF> MFs;

// A base environment that must never be asked for files.
struct NoEnv : Env {
  Status no(const char* w) { lmc_fail("the in-memory environment passed %s on to its base", w); }
  Status NewSequentialFile(const std::string&, SequentialFile**) override { return no("NewSequentialFile"); }
  Status NewRandomAccessFile(const std::string&, RandomAccessFile**) override { return no("NewRandomAccessFile"); }
  Status NewWritableFile(const std::string&, WritableFile**) override { return no("NewWritableFile"); }
  Status NewAppendableFile(const std::string&, WritableFile**) override { return no("NewAppendableFile"); }
  bool FileExists(const std::string&) override { no("FileExists"); return false; }
  Status GetChildren(const std::string&, std::vector<std::string>*) override { return no("GetChildren"); }
  Status RemoveFile(const std::string&) override { return no("RemoveFile"); }
  Status CreateDir(const std::string&) override { return no("CreateDir"); }
  Status RemoveDir(const std::string&) override { return no("RemoveDir"); }
  Status GetFileSize(const std::string&, uint64_t*) override { return no("GetFileSize"); }
  Status RenameFile(const std::string&, const std::string&) override { return no("RenameFile"); }
  Status LockFile(const std::string&, lsmdb::FileLock**) override { return no("LockFile"); }
  Status UnlockFile(lsmdb::FileLock*) override { return no("UnlockFile"); }
  void Schedule(std::function<void(void*)>, void*) override { no("Schedule"); }
  void StartThread(std::function<void(void*)>, void*) override { no("StartThread"); }
  Status GetTestDirectory(std::string*) override { return no("GetTestDirectory"); }
  Status NewLogger(const std::string&, lsmdb::Logger**) override { return no("NewLogger"); }
  uint64_t NowMicros() override { return 77; }
  void SleepForMicroseconds(int) override {}
};
static NoEnv* base_env() { static NoEnv e; return &e; }

static std::string pattern(int tag, size_t n) {
  std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)('A' + tag * 5 + i % 23 + i / 1000 % 7); return s;
}
static void missing(const Status& s, const char* what, const std::string& f) {
  CHECK(!s.ok(), "%s(%s) succeeds on a name that does not exist", what, f.c_str());
  CHECK(s.IsNotFound(), "%s(%s) of a name that does not exist is reported as \"%s\", not as not found", what, f.c_str(), s.ToString().c_str());
}
static void fine(const Status& s, const char* what, const std::string& f) { CHECK(s.ok(), "%s(%s) fails: %s", what, f.c_str(), s.ToString().c_str()); }

// read n bytes at off into an exact buffer, compare with the model
static void check_random(RandomAccessFile* r, const std::string& d, uint64_t off, size_t n, const char* f) {
  size_t cap = off >= d.size() ? 0 : std::min<uint64_t>(n, d.size() - off);
  size_t room = n < 65536 * 4 ? n : cap;
  char* b = new char[room ? room : 1]; Slice s("?");
  Status st = r->Read(off, n, &s, b);
  if (off > d.size() && !st.ok()) { delete[] b; return; }
  CHECK(st.ok(), "%s: random read of %zu at %llu of %zu fails: %s", f, n, (unsigned long long)off, d.size(), st.ToString().c_str());
  CHECK(s.size() == cap, "%s: random read of %zu at %llu of %zu gives %zu bytes", f, n, (unsigned long long)off, d.size(), s.size());
  CHECK(!cap || !memcmp(s.data(), d.data() + off, cap), "%s: random read of %zu at %llu of %zu gives other bytes", f, n, (unsigned long long)off, d.size());
  delete[] b;
}
// sequential read; pos is updated
static void check_seq(SequentialFile* r, const std::string& d, uint64_t& pos, size_t n, const char* f) {
  size_t cap = pos >= d.size() ? 0 : std::min<uint64_t>(n, d.size() - pos);
  size_t room = n < 65536 * 4 ? n : cap;
  char* b = new char[room ? room : 1]; Slice s("?");
  Status st = r->Read(n, &s, b);
  if (pos > d.size() && !st.ok()) { delete[] b; return; }
  CHECK(st.ok(), "%s: sequential read of %zu at %llu of %zu fails: %s", f, n, (unsigned long long)pos, d.size(), st.ToString().c_str());
  CHECK(s.size() == cap, "%s: sequential read of %zu at %llu of %zu gives %zu bytes", f, n, (unsigned long long)pos, d.size(), s.size());
  CHECK(!cap || !memcmp(s.data(), d.data() + pos, cap), "%s: sequential read of %zu at %llu of %zu gives other bytes", f, n, (unsigned long long)pos, d.size());
  pos += cap; delete[] b;
}
static void check_skip(SequentialFile* r, const std::string& d, uint64_t& pos, uint64_t n, const char* f) {
  Status st = r->Skip(n);
  if (pos > d.size()) return;      // the file was emptied behind the reader
  CHECK(st.ok(), "%s: skip of %llu at %llu of %zu fails: %s", f, (unsigned long long)n, (unsigned long long)pos, d.size(), st.ToString().c_str());
  pos += std::min<uint64_t>(n, d.size() - pos);
}
// everything observable about one name
static void observe(Env* e, const MFs& m, const std::string& f, bool contents) {
  auto it = m.find(f); bool there = it != m.end();
  CHECK(e->FileExists(f) == there, "FileExists(%s) is %d, expected %d", f.c_str(), !there, there);
  uint64_t sz = 123; Status s = e->GetFileSize(f, &sz);
  if (!there) {
    missing(s, "GetFileSize", f);
    SequentialFile* q = (SequentialFile*)&sz; missing(e->NewSequentialFile(f, &q), "NewSequentialFile", f); CHECK(!q, "a failed NewSequentialFile leaves a pointer");
    RandomAccessFile* r = (RandomAccessFile*)&sz; missing(e->NewRandomAccessFile(f, &r), "NewRandomAccessFile", f); CHECK(!r, "a failed NewRandomAccessFile leaves a pointer");
    return;
  }
  fine(s, "GetFileSize", f); const std::string& d = it->second->data;
  CHECK(sz == d.size(), "GetFileSize(%s) is %llu, expected %zu", f.c_str(), (unsigned long long)sz, d.size());
  if (!contents) return;
  SequentialFile* q = nullptr; fine(e->NewSequentialFile(f, &q), "NewSequentialFile", f); uint64_t pos = 0;
  check_seq(q, d, pos, d.size() / 2 + 1, f.c_str()); check_seq(q, d, pos, d.size() + 5, f.c_str()); check_seq(q, d, pos, 3, f.c_str()); delete q;
  RandomAccessFile* r = nullptr; fine(e->NewRandomAccessFile(f, &r), "NewRandomAccessFile", f);
  check_random(r, d, 0, d.size(), f.c_str()); if (d.size()) check_random(r, d, d.size() - 1, 9, f.c_str()); delete r;
}
static void observe_dir(Env* e, const MFs& m, const std::string& dir) {
  std::vector<std::string> got = {"stale"}, want; fine(e->GetChildren(dir, &got), "GetChildren", dir);
  for (auto& kv : m) if (kv.first.compare(0, dir.size() + 1, dir + "/") == 0) want.push_back(kv.first.substr(dir.size() + 1));
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  if (got != want) { std::string a; for (auto& g : got) a += " " + g; lmc_fail("GetChildren(%s) gives {%s }, expected %zu names", dir.c_str(), a.c_str(), want.size()); }
}
