// Helpers for the POSIX environment on the model system.
#pragma once
#include <algorithm>
#include <cerrno>
#include "h.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
#include "util/env_posix_test_helper.h"
using lsmdb::Env; using lsmdb::RandomAccessFile; using lsmdb::SequentialFile; using lsmdb::Slice; using lsmdb::Status; using lsmdb::WritableFile;
static int deep(int q, int t) { return lmc_tier() ? t : q; }
namespace lsmdb {
class EnvPosixTest {
 public:
  static void limits(int fds, int maps) { if (fds >= 0) EnvPosixTestHelper::SetReadOnlyFDLimit(fds); if (maps >= 0) EnvPosixTestHelper::SetReadOnlyMMapLimit(maps); }
};
}  // namespace lsmdb
static Env* posix_env(int fds = -1, int maps = -1) { lsmdb::EnvPosixTest::limits(fds, maps); return Env::Default(); }

// A long text in which no stretch repeats early.
static const size_t TEXTLEN = 1 << 20;
static const char* make_text() { lmc_host(1); char* t = new char[TEXTLEN]; uint32_t x = 1; for (size_t i = 0; i < TEXTLEN; i++) { x = x * 1664525 + 1013904223; t[i] = (char)(x >> 24); } lmc_host(0); return t; }
static const char* const TEXT = make_text();
static std::string content(const char* path) { size_t n; const char* p = vfs_data(path, &n); return p ? std::string(p, n) : std::string(); }
static void fine(const Status& s, const char* what) { CHECK(s.ok(), "%s fails: %s", what, s.ToString().c_str()); }
