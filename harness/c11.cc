// C11: POSIX reads give exactly the file's bytes.
#include <sys/mman.h>
#include "posix_common.h"

// Which mechanism serves a file opened for random access.
static Env* env_for(int mech) { return mech == 0 ? posix_env(5, 5) : mech == 1 ? posix_env(5, 0) : posix_env(0, 0); }
static const char* const MECH[] = {"mapping", "descriptor", "reopening"};
static std::string str(const Slice& s) { return std::string(s.data(), s.size()); }

struct Judge {   // what was injected during one call
  uint64_t h = vfs_faults_hit(), s = vfs_soft_faults(), t = vfs_short_faults();
  bool hard() { return vfs_faults_hit() != h; }
  bool cut() { return vfs_short_faults() != t; }
  bool soft() { return vfs_soft_faults() != s; }
};
// room for a read of any of these sizes; only what is read is ever touched
static const uint64_t ROOM = (1ull << 33) + 4096; static const uint64_t WIDE[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, (1ull << 33) + 1};
static char* make_room() { lmc_host(1); char* p = (char*)mmap(nullptr, ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); lmc_host(0); return p; }
static char* const WIDEROOM = make_room();
// One random read, compared with the file's bytes.
static void check_read(const RandomAccessFile* f, const char* data, size_t size, uint64_t off, size_t n, const char* mech) {
  bool wide = n > (64u << 20); struct Scratch { char* p; ~Scratch() { free(p); } } sc{(char*)malloc(wide || !n ? 1 : n)};     // exactly n bytes: a write past them is caught
  char* scratch = wide ? WIDEROOM : sc.p; Slice r("junk", 4); Judge j; Status s = f->Read(off, n, &r, n ? scratch : scratch + 1);
  if (off >= 1ull << 63 || n > (1ull << 63) - 1 - off) { if (s.ok()) CHECK(r.size() == 0, "%s: a read at offset %llu of a %zu-byte file returns %zu bytes", mech, (unsigned long long)off, size, r.size()); return; }
  if (j.hard()) CHECK(!s.ok(), "%s: a read returns OK although a system call failed", mech);
  if (!s.ok()) CHECK(r.size() <= n || r.size() == 4, "%s: a failed read of %zu bytes gives a result of %zu", mech, n, r.size());
  if (!s.ok()) { CHECK(j.hard() || j.soft(), "%s: a read of %zu at %llu of a %zu-byte file fails: %s", mech, n, (unsigned long long)off, size, s.ToString().c_str()); return; }
  size_t want = off >= size ? 0 : std::min<uint64_t>(n, size - off);
  if (j.cut()) CHECK(r.size() <= want, "%s: a read returns too much", mech);
  else CHECK(r.size() == want, "%s: a read of %zu at %llu of a %zu-byte file returns %zu bytes", mech, n, (unsigned long long)off, size, r.size());
  CHECK(r.size() == 0 || !memcmp(r.data(), data + off, r.size()), "%s: a read of %zu at %llu of a %zu-byte file returns other bytes", mech, n, (unsigned long long)off, size);
}
static void edges() {
  static const size_t SZ[] = {0, 1, 2, 5, 4095, 4096, 4097, 8192, 70000, 1000000};
  int mech = lmc_choose(3, "mechanism"); size_t size = SZ[lmc_choose(deep(9, 10), "size")];
  vfs_put("/tmp/f", TEXT, size); Env* e = env_for(mech); RandomAccessFile* f = nullptr; fine(e->NewRandomAccessFile("/tmp/f", &f), "opening a file for random access"); CHECK(f, "no file object");
  std::vector<uint64_t> offs, lens; auto near = [&](std::vector<uint64_t>& v, uint64_t x, int d) { for (int i = -d; i <= d; i++) if (x + i < x || i <= 0) if (!(i < 0 && x < (uint64_t)-i)) v.push_back(x + i); if (d) for (int i = 1; i <= d; i++) v.push_back(x + i); };
  int d = deep(2, 4); near(offs, 0, d); near(offs, size / 2, d); near(offs, size, d); near(offs, 4096, d); near(offs, 8192, d);
  for (uint64_t x : {1ull << 31, 1ull << 32, 1ull << 62}) near(offs, x, 1);
  for (int i = 0; i < 6; i++) { offs.push_back((1ull << 63) - 1 - i); offs.push_back((1ull << 63) + i); offs.push_back(~0ull - i); offs.push_back(-(uint64_t)size - 3 + i); }
  near(lens, 0, d); near(lens, size, d); near(lens, size / 2, d); near(lens, 4096, d); lens.push_back(100000); for (uint64_t x : WIDE) lens.push_back(x);
  std::sort(offs.begin(), offs.end()); offs.erase(std::unique(offs.begin(), offs.end()), offs.end()); std::sort(lens.begin(), lens.end()); lens.erase(std::unique(lens.begin(), lens.end()), lens.end());
  uint64_t n = 0; for (uint64_t o : offs) for (uint64_t l : lens) { if ((int64_t)l < 0) continue; check_read(f, TEXT, size, o, l, MECH[mech]); n++; }
  lmc_count(n); delete f; CHECK(vfs_open_fds(0) == 0 && vfs_live_maps(0) == 0, "a reader leaves a descriptor or mapping"); lmc_outcome(mech * 100 + size);
}
// every size, offset and length below a bound
static void all_small() {
  int mech = lmc_choose(3, "mechanism"); int N = deep(12, 24); size_t size = lmc_choose(N, "size");
  vfs_put("/tmp/f", TEXT, size); Env* e = env_for(mech); RandomAccessFile* f = nullptr; fine(e->NewRandomAccessFile("/tmp/f", &f), "opening a file for random access");
  uint64_t k = 0; for (int o = 0; o < N + 2; o++) for (int l = 0; l < N + 2; l++) { check_read(f, TEXT, size, o, l, MECH[mech]); k++; }
  lmc_count(k); delete f; lmc_outcome(mech * 100 + size);
}
// results stay valid while later reads go on (as long as their scratch lives)
static void held() {
  int mech = lmc_choose(3, "mechanism"); vfs_put("/tmp/f", TEXT, 9000); Env* e = env_for(mech); RandomAccessFile* f = nullptr; fine(e->NewRandomAccessFile("/tmp/f", &f), "open");
  static const struct { uint64_t o; size_t n; } R[] = {{0, 5}, {4094, 6}, {8998, 7}, {3, 0}, {9000, 3}, {4090, 4000}};
  Slice r[4]; char* sc[4]; int at[4]; int n = deep(3, 4);
  for (int i = 0; i < n; i++) { at[i] = lmc_choose(6, "range"); auto& x = R[at[i]]; sc[i] = (char*)malloc(x.n + 1); fine(f->Read(x.o, x.n, &r[i], sc[i]), "Read");
    for (int j = 0; j <= i; j++) { auto& y = R[at[j]]; size_t w = y.o >= 9000 ? 0 : std::min<size_t>(y.n, 9000 - y.o); CHECK(r[j].size() == w && (w == 0 || !memcmp(r[j].data(), TEXT + y.o, w)), "the result of an earlier read changed"); } }
  for (int i = 0; i < n; i++) free(sc[i]); delete f;
}
// random reads with failing calls
static void faults() {
  int mech = lmc_choose(3, "mechanism"); size_t size = lmc_choose(2, "size") ? 5000 : 0; vfs_put("/tmp/f", TEXT, size); Env* e = env_for(mech); vfs_faults(1);
  RandomAccessFile* f = (RandomAccessFile*)&size; Judge j; Status s = e->NewRandomAccessFile("/tmp/f", &f); uint64_t oh = s.ok();
  if (!s.ok()) { CHECK(j.hard() || j.soft(), "opening for random access fails: %s", s.ToString().c_str()); CHECK(!f, "a failed open leaves a pointer"); CHECK(vfs_open_fds(0) == 0 && vfs_live_maps(0) == 0, "a failed open leaks"); }
  else {
    static const struct { uint64_t o; size_t n; } R[] = {{0, 10}, {4990, 20}, {5000, 1}, {1, 5000}};
    for (int i = 0; i < deep(2, 3); i++) { auto& x = R[lmc_choose(4, "range")]; check_read(f, TEXT, size, x.o, x.n, MECH[mech]); oh = mix(oh, vfs_faults_hit()); }
    delete f;
  }
  CHECK(vfs_live_maps(0) == 0 && vfs_open_fds(0) == 0, "a reader leaves a descriptor or mapping"); lmc_outcome(oh);
}
// ---- sequential reading ---------------------------------------------------------
static void seq_history(const std::vector<size_t>& sizes, const std::vector<size_t>& reads, const std::vector<uint64_t>& skips, int depth, bool grow, bool fl) {
  size_t size = sizes[lmc_choose(sizes.size(), "size")]; vfs_put("/tmp/f", TEXT, size); Env* e = posix_env(); if (fl) vfs_faults(1);
  SequentialFile* f = (SequentialFile*)&size; Judge j0; Status s = e->NewSequentialFile("/tmp/f", &f);
  if (!s.ok()) { CHECK(j0.hard(), "opening for sequential reading fails: %s", s.ToString().c_str()); CHECK(!f, "a failed open leaves a pointer"); CHECK(vfs_open_fds(0) == 0, "a failed open leaks"); return; }
  size_t pos = 0; uint64_t oh = 1; int nr = reads.size(), ns = skips.size();
  for (int i = 0; i < depth; i++) {
    int c = lmc_choose(nr + ns + (grow ? 2 : 0), "operation"); Judge j;
    if (c < nr) {
      size_t n = reads[c]; bool wide = n > (64u << 20); char* mem = (char*)malloc(wide || !n ? 1 : n); char* scratch = wide ? WIDEROOM : mem; Slice r("junk", 4); Status s = f->Read(n, &r, n ? scratch : scratch + 1); NOTE("Read(%zu) -> %s, %zu", n, s.ToString().c_str(), r.size());
      if (j.hard()) CHECK(!s.ok(), "a sequential read returns OK although a system call failed");
      if (!s.ok()) CHECK(r.size() <= n || r.size() == 4, "a failed sequential read of %zu bytes gives a result of %zu", n, r.size());
      if (s.ok()) {
        size_t want = std::min(n, size - pos);
        if (j.cut()) CHECK(r.size() <= want, "a sequential read returns too much"); else CHECK(r.size() == want, "a sequential read of %zu at %zu of a %zu-byte file returns %zu bytes", n, pos, size, r.size());
        CHECK(r.size() == 0 || !memcmp(r.data(), TEXT + pos, r.size()), "a sequential read of %zu at %zu of a %zu-byte file returns other bytes", n, pos, size);
        pos += r.size();
      } else CHECK(j.hard(), "a sequential read fails: %s", s.ToString().c_str());
      oh = mix(oh, pos); free(mem);
    } else if (c < nr + ns) {
      uint64_t n = skips[c - nr]; Status s = f->Skip(n); NOTE("Skip(%llu) -> %s", (unsigned long long)n, s.ToString().c_str());
      if (j.hard()) CHECK(!s.ok(), "Skip returns OK although a system call failed");
      if (s.ok()) pos = std::min<uint64_t>(size - pos, n) + pos; else CHECK(j.hard(), "Skip(%llu) at %zu of a %zu-byte file fails: %s", (unsigned long long)n, pos, size, s.ToString().c_str());
      if (!s.ok() && fl) { oh = mix(oh, 7); }
    } else {     // somebody appends
      size_t k = c - nr - ns ? 6 : 1; vfs_faults(0); WritableFile* w; fine(e->NewAppendableFile("/tmp/f", &w), "append"); fine(w->Append(Slice(TEXT + size, k)), "append"); fine(w->Close(), "close"); delete w; size += k; if (fl) vfs_faults(1);
      NOTE("the file grows to %zu", size);
    }
  }
  delete f; CHECK(vfs_open_fds(0) == 0, "a reader leaves a descriptor"); lmc_outcome(mix(oh, pos));
}
static const uint64_t T63 = 1ull << 63;
static void seq() { seq_history({0, 5, 6000}, {0, 1, 4, 5000}, {0, 1, 4, 5500, T63 - 1, T63, ~0ull, ~0ull - 3}, deep(5, 6), false, false); }
static void seq_wide() { seq_history({5, 6000}, {4, WIDE[0], WIDE[1], WIDE[2], WIDE[3], WIDE[4], WIDE[5]}, {1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1}, deep(3, 4), false, false); }
static void seq_grow() { seq_history({0, 5}, {1, 4}, {1, 3, 10, T63 - 1, ~0ull}, deep(6, 7), true, false); }
static void seq_faults() { seq_history({5, 6000}, {1, 4, 5000}, {1, 4, 5500}, deep(5, 5), true, true); }
static void errnos() { vfs_wide_errnos(1); faults(); }
static void seq_errnos() { vfs_wide_errnos(1); seq_history({6000}, {4, 5000}, {4, 5500}, deep(3, 4), false, true); }
// names that cannot be opened
static void natural() {
  vfs_mkdir("/tmp/dir"); vfs_put("/tmp/file", "x", 1); int mech = lmc_choose(3, "mechanism"); Env* e = env_for(mech);
  struct { std::string p; int nf; } C[] = {{"/tmp/none", 1}, {"/none/f", 1}, {"", 1}, {"/tmp/file/f", 0}, {"/tmp/" + std::string(300, 'n'), 0}};
  auto& c = C[lmc_choose(5, "name")]; SequentialFile* q = (SequentialFile*)&c; RandomAccessFile* r = (RandomAccessFile*)&c; bool sq = lmc_choose(2, "sequential");
  Status s = sq ? e->NewSequentialFile(c.p, &q) : e->NewRandomAccessFile(c.p, &r);
  CHECK(!s.ok() && (sq ? !q : !r), "opening \"%s\" for reading succeeds or leaves a pointer", c.p.substr(0, 20).c_str()); CHECK(c.nf ? s.IsNotFound() : s.IsIOError(), "opening \"%s\" for reading is reported as %s", c.p.substr(0, 20).c_str(), s.ToString().c_str()); CHECK(vfs_open_fds(0) == 0, "a failed open leaks");
}
// a reader serves the file it was opened on or, when it reopens, the file then under the name
static void vanished() {
  int mech = lmc_choose(3, "mechanism"); Env* e = env_for(mech); vfs_put("/tmp/f", TEXT, 30); RandomAccessFile* f; fine(e->NewRandomAccessFile("/tmp/f", &f), "open");
  fine(e->RemoveFile("/tmp/f"), "remove"); char b[10]; Slice r; Status s = f->Read(3, 10, &r, b);
  if (s.ok()) CHECK(str(r) == std::string(TEXT + 3, 10), "a read after the removal returns other bytes"); else { CHECK(mech == 2, "an open file is lost with its name"); CHECK(s.IsNotFound(), "a missing file is reported as %s", s.ToString().c_str()); }
  delete f;
}
// files of gigabytes, zero but for islands of text, on the model and on the kernel
static const struct { uint64_t o; size_t n; } ISLE[] = {{0, 40}, {(1ull << 31) - 20, 40}, {(1ull << 32) - 20, 40}, {(5ull << 30) - 20, 20}, {4ull << 20, 3 << 20}};
static const uint64_t GIGS = 5ull << 30;
__attribute__((disable_sanitizer_instrumentation, noinline)) static void huge_expect(uint64_t off, char* to, size_t n) {
  memset(to, 0, n); for (auto& i : ISLE) { uint64_t a = std::max(off, i.o), b = std::min<uint64_t>(off + n, i.o + i.n); for (uint64_t x = a; x < b;) { size_t k = std::min<uint64_t>(b - x, 1000000 - (x - i.o) % 1000000); memcpy(to + (x - off), TEXT + (x - i.o) % 1000000, k); x += k; } }
}
static void huge_make(bool real) { if (real) vfs_real(1); vfs_put_huge("/tmp/f", GIGS); for (auto& i : ISLE) for (size_t k = 0; k < i.n; k += 1000000) vfs_poke("/tmp/f", i.o + k, TEXT, std::min<size_t>(1000000, i.n - k)); }
static void huge_compare(const Slice& r, uint64_t off, size_t n, const char* who) {
  size_t want = off >= GIGS ? 0 : std::min<uint64_t>(n, GIGS - off); CHECK(r.size() == want, "%s: a read of %zu at %llu of a file of 5 GB returns %zu bytes", who, n, (unsigned long long)off, r.size());
  if (!want) return; char* x = (char*)malloc(want); huge_expect(off, x, want); CHECK(!memcmp(x, r.data(), want), "%s: a read of %zu at %llu of a file of 5 GB returns other bytes", who, n, (unsigned long long)off); free(x);
}
static const uint64_t HO[] = {0, (1ull << 31) - 30, 1ull << 31, (1ull << 32) - 30, 1ull << 32, GIGS - 25, GIGS, GIGS + 4096, 4ull << 20}; static const size_t HN[] = {60, 5 << 20};
static void huge_random() {
  bool real = lmc_choose(2, "kernel"); int mech = lmc_choose(3, "mechanism"); huge_make(real); Env* e = env_for(mech); RandomAccessFile* f; fine(e->NewRandomAccessFile("/tmp/f", &f), "opening a file of 5 GB for random access");
  for (uint64_t o : HO) for (size_t n : HN) { char* sc = (char*)malloc(n); Slice r; fine(f->Read(o, n, &r, sc), "Read"); huge_compare(r, o, n, MECH[mech]); free(sc); lmc_count(1); }
  delete f; lmc_outcome(mech);
}
// gigabytes in one read, where they need not be copied
static void huge_read() {
  bool real = lmc_choose(2, "kernel"); huge_make(real); Env* e = env_for(0); RandomAccessFile* f; fine(e->NewRandomAccessFile("/tmp/f", &f), "opening a file of 5 GB for random access"); char* x = (char*)malloc(4096);
  for (uint64_t o : HO) for (uint64_t n : WIDE) { Slice r; fine(f->Read(o, n, &r, WIDEROOM), "Read"); uint64_t want = o >= GIGS ? 0 : std::min<uint64_t>(n, GIGS - o); CHECK(r.size() == want, "a read of %llu at %llu of a file of 5 GB returns %zu bytes", (unsigned long long)n, (unsigned long long)o, r.size());
    for (auto& i : ISLE) for (uint64_t at : {i.o, i.o + i.n / 2, i.o + i.n - 40}) if (at >= o && at + 100 < o + want) { huge_expect(at, x, 100); CHECK(!memcmp(x, r.data() + (at - o), 100), "a read of %llu at %llu of a file of 5 GB returns other bytes", (unsigned long long)n, (unsigned long long)o); } lmc_count(1); }
  free(x); delete f;
}
static void huge_seq() {
  bool real = lmc_choose(2, "kernel"); huge_make(real); Env* e = posix_env(); SequentialFile* f; fine(e->NewSequentialFile("/tmp/f", &f), "opening a file of 5 GB for reading"); uint64_t pos = 0;
  static const uint64_t SK[] = {1, (1ull << 31) - 30, 1ull << 31, (1ull << 32) - 30, (1ull << 32) + 5, GIGS - 10, GIGS, ~0ull};
  for (int i = 0; i < deep(3, 4); i++) {
    int c = lmc_choose(10, "operation");
    if (c < 8) { fine(f->Skip(SK[c]), "Skip"); pos = SK[c] > GIGS - pos ? GIGS : pos + SK[c]; }
    else { size_t n = HN[c - 8]; char* sc = (char*)malloc(n); Slice r; fine(f->Read(n, &r, sc), "Read"); huge_compare(r, pos, n, "sequentially"); pos += r.size(); free(sc); }
  }
  char sc[60]; Slice r; fine(f->Read(60, &r, sc), "Read"); huge_compare(r, pos, 60, "sequentially"); delete f; lmc_outcome(pos);
}
// ---- the same calls on the kernel --------------------------------------------------
static void kernel() { vfs_real(1); if (lmc_choose(2, "way")) edges(); else all_small(); }
static void kernel_seq() { vfs_real(1); seq_history({0, 5, 6000}, {0, 1, 4, 5000}, {0, 1, 4, 5500, T63 - 1, T63, ~0ull, ~0ull - 3}, deep(3, 4), true, false); }
static void kernel_names() { vfs_real(1); if (lmc_choose(2, "way")) natural(); else vanished(); }
// ---- threads ----------------------------------------------------------------------
static void shared() {
  int mech = lmc_choose(3, "mechanism"); Env* e = env_for(mech); vfs_put("/tmp/f", TEXT, 9000); RandomAccessFile* f; fine(e->NewRandomAccessFile("/tmp/f", &f), "open");
  auto rd = [=](uint64_t o, size_t n) { return [=] { for (int i = 0; i < 2; i++) check_read(f, TEXT, 9000, o + i * 4000, n, MECH[mech]); }; };
  std::vector<std::function<void()>> t = {rd(0, 10), rd(4995, 20)}; if (lmc_tier()) t.push_back(rd(1000, 3));
  run_threads(t); delete f; CHECK(vfs_open_fds(0) == 0 && vfs_live_maps(0) == 0, "a reader leaves a descriptor or mapping");
}
static void separate() {   // two readers of one name in two threads, of either kind
  int mech = lmc_choose(3, "mechanism"); Env* e = env_for(mech); vfs_put("/tmp/f", TEXT, 9000); int k = lmc_choose(2, "kind");
  run_threads({[=] { SequentialFile* f; fine(e->NewSequentialFile("/tmp/f", &f), "open"); char b[20]; Slice r; fine(f->Read(7, &r, b), "Read"); CHECK(str(r) == std::string(TEXT, 7), "a sequential read is disturbed"); fine(f->Skip(5), "Skip"); fine(f->Read(9, &r, b), "Read"); CHECK(str(r) == std::string(TEXT + 12, 9), "a sequential read is disturbed"); delete f; },
    [=] { if (k) { RandomAccessFile* f; fine(e->NewRandomAccessFile("/tmp/f", &f), "open"); check_read(f, TEXT, 9000, 8000, 7, MECH[mech]); delete f; } else { SequentialFile* f; fine(e->NewSequentialFile("/tmp/f", &f), "open"); char b[20]; Slice r; fine(f->Skip(100), "Skip"); fine(f->Read(9, &r, b), "Read"); CHECK(str(r) == std::string(TEXT + 100, 9), "a sequential read is disturbed"); delete f; } }});
  CHECK(vfs_open_fds(0) == 0 && vfs_live_maps(0) == 0, "a reader leaves a descriptor or mapping");
}
static void replaced() {   // the name is given to another file meanwhile: each read is of one or the other
  int mech = lmc_choose(3, "mechanism"); Env* e = env_for(mech); int sh = lmc_choose(2, "sizes"); size_t a = sh ? 30 : 20000, b = sh ? 20000 : 30; vfs_put("/tmp/f", TEXT, a); vfs_put("/tmp/g", TEXT + 40000, b);
  run_threads({[=] { RandomAccessFile* f; fine(e->NewRandomAccessFile("/tmp/f", &f), "open"); char sc[64]; Slice r; int first = -1;
      for (uint64_t o : {(uint64_t)0, (uint64_t)20, (uint64_t)9000}) { fine(f->Read(o, 64, &r, sc), "Read"); auto want = [&](const char* t, size_t n) { return std::string(o < n ? t + o : t, o < n ? std::min<size_t>(64, n - o) : 0); }; std::string x = str(r);
        int who = x == want(TEXT, a) ? 0 : x == want(TEXT + 40000, b) ? 1 : -1; CHECK(who >= 0, "a read at %llu returns the bytes of neither file", (unsigned long long)o); if (mech < 2 && first >= 0) CHECK(who == first, "one open file gives the bytes of two"); first = who; }
      delete f; },
    [=] { fine(e->RenameFile("/tmp/g", "/tmp/f"), "rename"); }});
}
// as if the standard descriptors were closed: 0, 1 and 2 are files like others
static void low_fds() { vfs_first_fd(0, lmc_choose(2, "after")); switch (lmc_choose(4, "which")) { case 0: held(); break; case 1: natural(); break; case 2: faults(); break; default: seq_history({0, 5, 6000}, {1, 4, 5000}, {1, 4}, 4, false, true); }; }
LMC_SCENARIOS(
  {"low_fds", low_fds, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"natural", natural, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"edges", edges, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"all_small", all_small, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"held", held, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"faults", faults, {0, 0}, {3, 3}, {0, 0}, {60, 900}, 0},
  {"errnos", errnos, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"seq_errnos", seq_errnos, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"seq", seq, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"seq_grow", seq_grow, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"seq_faults", seq_faults, {0, 0}, {2, 3}, {0, 0}, {60, 900}, 0},
  {"vanished", vanished, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"huge_random", huge_random, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"huge_read", huge_read, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"seq_wide", seq_wide, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"huge_seq", huge_seq, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"kernel", kernel, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"kernel_seq", kernel_seq, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"kernel_names", kernel_names, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"shared", shared, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"separate", separate, {2, 4}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"replaced", replaced, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, 0})
