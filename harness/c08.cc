// C08: a written file holds exactly the appended bytes, in order.
#include <sys/mman.h>
#include "posix_common.h"

static const char* F = "/tmp/f";
struct Writer {
  WritableFile* w = nullptr; const char* path; std::string old; size_t base; size_t done = 0;     // text [base, base+done) appended
  void expect(const char* when, bool all) {
    Quiet q; size_t n; const char* p = vfs_data(path, &n); CHECK(p, "%s: the file is gone", when);
    size_t want = old.size() + done;
    CHECK(n <= want, "%s: the file has %zu bytes, only %zu were appended", when, n, want);
    if (all) CHECK(n == want, "%s: the file has %zu bytes of %zu", when, n, want);
    size_t o = std::min(n, old.size()); CHECK(n >= old.size() && !memcmp(p, old.data(), o), "%s: the previous contents changed", when);
    for (size_t i = o; i < n; i += 4096) { size_t k = std::min<size_t>(4096, n - i); if (memcmp(p + i, TEXT + base + i - o, k)) { size_t j = i; while (p[j] == TEXT[base + j - o]) j++; lmc_fail("%s: byte %zu of the appended data is wrong in the file", when, j - o); } }
  }
  void append(size_t n) {
    NOTE("append %zu", n);
    char* b; { Quiet q; b = new char[n ? n : 1]; memcpy(b, TEXT + base + done, n); }
    Status s = w->Append(Slice(b, n)); { Quiet q; if (n < 64) memset(b, '#', n); delete[] b; }
    done += n; fine(s, "Append"); expect("after append", false);
  }
  void flush() { NOTE("flush"); fine(w->Flush(), "Flush"); expect("after flush", true); }
  void sync() { NOTE("sync"); fine(w->Sync(), "Sync"); expect("after sync", true); }
  void end(bool close) {
    if (close) { NOTE("close"); fine(w->Close(), "Close"); expect("after close", true); CHECK(vfs_open_fds(0) == 0 || path != F, "a descriptor stays open after close"); }
    NOTE("delete"); delete w; w = nullptr; expect("after destruction", true);
  }
};
// mode 0 writable new, 1 writable over old contents, 2 appendable new, 3 appendable after old contents
static void start(Writer& w, Env* e, const char* path, int mode, size_t base) {
  w.path = path; w.base = base; w.old.clear();
  if (mode & 1) { std::string o = mode == 3 ? std::string("previous contents") : std::string(70001, 'o'); vfs_put(path, o.data(), o.size()); if (mode == 3) w.old = o; }
  if (mode < 2) fine(e->NewWritableFile(path, &w.w), "NewWritableFile"); else fine(e->NewAppendableFile(path, &w.w), "NewAppendableFile");
  w.expect("after opening", true);
}
static void history(const std::vector<size_t>& sizes, int depth, int modes, const char* path = F) {
  Env* e = posix_env(); Writer w; int mode = lmc_choose(modes, "mode"); start(w, e, path, mode, 0);
  uint64_t oh = mode; vfs_faults(1); vfs_short_only(1);
  for (int i = 0; i < depth; i++) {
    int c = lmc_choose(sizes.size() + 2, "operation");
    if (c < (int)sizes.size()) w.append(sizes[c]); else if (c == (int)sizes.size()) w.flush(); else w.sync();
  }
  w.end(lmc_choose(2, "close") == 1); CHECK(vfs_open_fds(0) == 0, "a descriptor stays open");
  lmc_outcome(mix(oh, w.done));
}
static void big_sizes() { history({0, 1, 65535, 65536, 65537, 131072, 200000, 40000}, deep(3, 4), 4); }
static void small_sizes() { history({0, 1, 5, 300}, deep(5, 6), 4); }
static void splits() { history({3, 65534, 65536, 140000}, deep(3, 4), 2); }
static void manifest() { history({3, 65536, 70000}, deep(3, 4), 4, "/tmp/MANIFEST-000001"); }
// every size around the multiples of the buffer, after every fill of it
static void fills() {
  static const size_t FILL[] = {0, 1, 2, 4095, 4096, 32767, 32768, 65533, 65534, 65535, 65536, 65537}; static const int D[] = {-2, -1, 0, 1, 2};
  Env* e = posix_env(); Writer w; start(w, e, F, 3, 0); w.append(FILL[lmc_choose(12, "fill")]);
  int m = lmc_choose(4, "multiple"), d = D[lmc_choose(5, "difference")]; long n = m * 65536l + d - (lmc_choose(2, "less the fill") ? (long)w.done : 0); if (n < 0) lmc_prune();
  w.append(n); w.append(3); if (lmc_choose(2, "flush")) w.flush(); w.append(70000); w.end(lmc_choose(2, "close") == 1);
  lmc_outcome(w.done);
}
// all sizes
static void every_size() {
  Env* e = posix_env(); int k = lmc_choose(deep(700, 2200), "size / 61"); 
  Writer w; start(w, e, F, 0, 7); w.append(k * 61); w.append(61); w.flush(); w.append(k); w.end(true); lmc_count(1);
}
// two files written at the same time by two threads
static void two_files() {
  Env* e = posix_env(); Writer* a = new Writer; Writer* b = new Writer; start(*a, e, "/tmp/a", 0, 0); start(*b, e, "/tmp/b", 3, 500000);
  static const size_t S[] = {5, 65536, 70000}; int p[4]; for (int& x : p) x = lmc_choose(5, "operation");
  auto op = [](Writer* w, int c) { if (c < 3) w->append(S[c]); else if (c == 3) w->flush(); else w->sync(); };
  run_threads({[&] { op(a, p[0]); op(a, p[1]); a->end(false); }, [&] { op(b, p[2]); op(b, p[3]); b->end(true); }});
  { Quiet q; Writer x; for (Writer* w : {a, b}) { w->expect("at the end", true); } }
  CHECK(vfs_open_fds(0) == 0, "a descriptor stays open"); delete a; delete b;
}
// several files open at the same time in one thread, calls in any order
static void interleaved() {
  Env* e = posix_env(); static const char* N[] = {"/tmp/a", "/tmp/b", "/tmp/c"}; static const size_t S[] = {5, 65530, 65536}; int k = deep(2, 3);
  Writer w[3]; for (int i = 0; i < k; i++) start(w[i], e, N[i], i == 1 ? 3 : 0, 200000 * i);
  for (int i = 0; i < deep(5, 5); i++) {
    int c = lmc_choose(k * 5, "operation"); Writer& x = w[c % k]; c /= k; if (!x.w) lmc_prune();
    if (c < 3) x.append(S[c]); else if (c == 3) x.flush(); else x.end(true);
    for (int j = 0; j < k; j++) w[j].expect("after a call on another file", !w[j].w);
  }
  for (int i = k; i-- > 0;) if (w[i].w) w[i].end(i == 0);
  for (int j = 0; j < k; j++) w[j].expect("at the end", true);
  CHECK(vfs_open_fds(0) == 0, "a descriptor stays open");
}
// two objects appending to one file: nothing of either is lost
static const char* half_text(int hi) { lmc_host(1); char* t = new char[TEXTLEN]; for (size_t i = 0; i < TEXTLEN; i++) t[i] = (char)((TEXT[i] & 0x7f) | hi); lmc_host(0); return t; }
static const char* const HALF[] = {half_text(0), half_text(0x80)};
// the number of bytes with the given top bit, or the place of the first wrong one
__attribute__((disable_sanitizer_instrumentation, noinline)) static size_t sift(const char* p, size_t n, int hi, const char* t, bool* bad) { size_t k = 0; *bad = false; for (size_t i = 0; i < n; i++) if ((p[i] & 0x80) == hi) { if (p[i] != t[k]) { *bad = true; return k; } k++; } return k; }
struct Half { WritableFile* w; size_t n = 0; bool b; };
static void half(Half& h, int c) {
  static const size_t S[] = {3, 65536, 70000};
  if (c < 3) { char* d; { Quiet q; d = new char[S[c]]; memcpy(d, HALF[h.b] + h.n, S[c]); h.n += S[c]; } fine(h.w->Append(Slice(d, S[c])), "Append"); Quiet q; delete[] d; }
  else if (c == 3) fine(h.w->Flush(), "Flush"); else fine(h.w->Sync(), "Sync");
}
static void one_file(bool threads) {
  Env* e = posix_env(); Half* a = new Half; Half* b = new Half; b->b = true; a->b = false; std::string old; { Quiet q; if (lmc_choose(2, "old contents")) old = std::string(1000, 'o'); } if (!old.empty()) vfs_put(F, old.data(), old.size());
  fine(e->NewAppendableFile(F, &a->w), "NewAppendableFile"); fine(e->NewAppendableFile(F, &b->w), "NewAppendableFile");
  if (threads) { int p[4]; for (int& x : p) x = lmc_choose(4, "operation"); run_threads({[&] { half(*a, p[0]); half(*a, p[1]); fine(a->w->Close(), "Close"); }, [&] { half(*b, p[2]); half(*b, p[3]); fine(b->w->Close(), "Close"); }}); }
  else { int depth = vfs_is_real() ? deep(3, 4) : deep(5, 6); for (int i = 0; i < depth; i++) { int c = lmc_choose(8, "operation"); half(c & 1 ? *b : *a, c / 2); } bool o = lmc_choose(2, "closing order"); Half* f = o ? a : b; Half* l = o ? b : a; fine(f->w->Close(), "Close"); fine(l->w->Close(), "Close"); }
  delete a->w; delete b->w;
  { Quiet q; size_t n; const char* p = vfs_data(F, &n); CHECK(p && n >= old.size() && !memcmp(p, old.data(), old.size()), "the previous contents changed");
    for (Half* h : {a, b}) { bool bad; size_t k = sift(p + old.size(), n - old.size(), h->b ? 0x80 : 0, HALF[h->b], &bad); CHECK(!bad, "byte %zu appended through one object is not where it belongs", k); CHECK(k == h->n, "of %zu bytes appended through one object %zu are in the file", h->n, k); } }
  delete a; delete b; CHECK(vfs_open_fds(0) == 0, "a descriptor stays open");
}
// one writer after another on one name; the second appends after the first
static void reopened() {
  Env* e = posix_env(); std::string all; static const size_t S[] = {0, 1, 65536, 70001};
  int n = vfs_is_real() ? deep(2, 3) : deep(3, 4); size_t base = 0; std::string old; Writer w;
  for (int i = 0; i < n; i++) {
    bool app = lmc_choose(2, "append"); size_t k = S[lmc_choose(4, "size")], k2 = S[lmc_choose(2, "size 2")];
    w.path = F; w.base = base; w.done = 0; w.old = app ? old : "";
    fine(app ? e->NewAppendableFile(F, &w.w) : e->NewWritableFile(F, &w.w), "open"); w.append(k); w.append(k2); w.end(lmc_choose(2, "close") == 1);
    { Quiet q; old = content(F); } base += w.done;
  }
  lmc_outcome(mixs(1, old));
}
// appends of gigabytes: zeros with marks, before and after small ones
static const uint64_t GIANT = (1ull << 33) + (1 << 20);
static char* giant_source() {
  lmc_host(1); char* p = (char*)mmap(nullptr, GIANT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort();
  for (uint64_t o = 0; o + 64 < GIANT; o += 32 << 20) memcpy(p + o, TEXT + o / (32 << 20) * 64, 64); lmc_host(0); return p;
}
static const char* const SRC = giant_source();
static void giant() {
  static const uint64_t N[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 65537, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, (1ull << 32) + 65536 + 7, (1ull << 33) + 100};
  Env* e = posix_env(); uint64_t n = N[lmc_choose(8, "size")]; size_t before = lmc_choose(2, "before") ? 65530 : 0, from = lmc_choose(2, "from") ? 17 : 0; int app = lmc_choose(2, "append");
  vfs_share(SRC, GIANT); if (app) vfs_put(F, TEXT, 1000);
  WritableFile* w; fine(app ? e->NewAppendableFile(F, &w) : e->NewWritableFile(F, &w), "open"); if (before) fine(w->Append(Slice(TEXT, before)), "Append"); fine(w->Append(Slice(SRC + from, n)), "appending gigabytes"); fine(w->Append(Slice(TEXT + 7, 100)), "Append"); if (lmc_choose(2, "flush")) fine(w->Flush(), "Flush"); else fine(w->Close(), "Close");
  { Quiet q; uint64_t old = app ? 1000 : 0, at = old + before, size = at + n + 100; CHECK((uint64_t)vfs_size(F) == size, "the file has %llu bytes of %llu", (unsigned long long)vfs_size(F), (unsigned long long)size);
    char* b = new char[65536]; auto cmp = [&](uint64_t o, const char* t, size_t k) { vfs_peek(F, o, b, k); return !memcmp(b, t, k); };
    CHECK(cmp(0, TEXT, old) && cmp(old, TEXT, before) && cmp(at + n, TEXT + 7, 100), "what was appended before or after gigabytes is wrong in the file");
    for (uint64_t o = 0; o < n; o += 16 << 20) for (uint64_t x : {o, o + 65530, o + (8 << 20)}) if (x < n) CHECK(cmp(at + x, SRC + from + x, std::min<uint64_t>(4096, n - x)), "of an append of %llu bytes, byte %llu or one soon after is wrong in the file", (unsigned long long)n, (unsigned long long)x);
    CHECK(cmp(at + n - 65536, SRC + from + n - 65536, 65536), "the end of an append of %llu bytes is wrong in the file", (unsigned long long)n); delete[] b; }
  delete w; vfs_share(nullptr, 0); lmc_outcome(n);
}
// the same on the kernel itself
static void kernel() { vfs_real(1); switch (lmc_choose(3, "which")) { case 0: history({0, 5, 65536, 70000}, deep(3, 4), 4); break; case 1: fills(); break; default: reopened(); } }
static void kernel_one_file() { vfs_real(1); one_file(false); }
// as if the standard descriptors were closed: 0, 1 and 2 are files like others
static void low_fds() { vfs_first_fd(0, lmc_choose(2, "after")); history({5, 70000}, 3, 4); }
LMC_SCENARIOS(
  {"low_fds", low_fds, {0, 0}, {2, 2}, {0, 0}, {60, 900}, 0},
  {"kernel", kernel, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"kernel_one_file", kernel_one_file, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"small_sizes", small_sizes, {0, 0}, {2, 3}, {0, 0}, {60, 900}, 0},
  {"big_sizes", big_sizes, {0, 0}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"splits", splits, {0, 0}, {3, 3}, {0, 0}, {60, 900}, 0},
  {"manifest", manifest, {0, 0}, {2, 3}, {0, 0}, {60, 900}, 0},
  {"fills", fills, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"every_size", every_size, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"two_files", two_files, {2, 4}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"interleaved", interleaved, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"one_file", [] { one_file(false); }, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"one_file_threads", [] { one_file(true); }, {2, 4}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"giant", giant, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"reopened", reopened, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0})
