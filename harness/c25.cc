// C25: statuses.
#include <sys/mman.h>
#include "h.h"
#include "lsmdb/status.h"
using lsmdb::Slice; using lsmdb::Status;
static int deep(int q, int t) { return lmc_tier() ? t : q; }
static const char* TXT[] = {"OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "};
struct M { int kind = 0; std::string msg; bool operator==(const M& o) const { return kind == o.kind && msg == o.msg; } };
static std::string text(const M& m) { return m.kind ? TXT[m.kind] + m.msg : "OK"; }
static Status make(int kind, const Slice& a, const Slice& b, bool two) {
  switch (kind) {
    case 1: return two ? Status::NotFound(a, b) : Status::NotFound(a);
    case 2: return two ? Status::Corruption(a, b) : Status::Corruption(a);
    case 3: return two ? Status::NotSupported(a, b) : Status::NotSupported(a);
    case 4: return two ? Status::InvalidArgument(a, b) : Status::InvalidArgument(a);
    case 5: return two ? Status::IOError(a, b) : Status::IOError(a);
  }
  return Status::OK();
}
static int kind_of(const Status& s) {
  bool f[6] = {s.ok(), s.IsNotFound(), s.IsCorruption(), s.IsNotSupportedError(), s.IsInvalidArgument(), s.IsIOError()};
  int n = 0, k = -1; for (int i = 0; i < 6; i++) if (f[i]) { n++; k = i; }
  CHECK(n == 1, "a status has %d kinds", n); return k;
}
static bool same(const Status& s, const M& m) { int k = kind_of(s); std::string t = s.ToString(); return k == m.kind && t == text(m); }
static void is(const Status& s, const M& m, const char* what) {
  int k = kind_of(s); CHECK(k == m.kind, "%s: kind is %d, expected %d", what, k, m.kind);
  std::string t = s.ToString(), e = text(m); CHECK(t == e, "%s: text is \"%s\" (%zu bytes), expected \"%s\" (%zu bytes)", what, t.substr(0, 60).c_str(), t.size(), e.substr(0, 60).c_str(), e.size());
}
static void one(int kind, const std::string& a, const std::string& b, bool two) {
  char* pa = new char[a.size()]; memcpy(pa, a.data(), a.size()); char* pb = new char[b.size()]; memcpy(pb, b.data(), b.size());
  M m; m.kind = kind; m.msg = a; if (two && b.size()) m.msg += ": " + b; if (!kind) m.msg = "";
  {
    Status s = make(kind, Slice(pa, a.size()), Slice(pb, b.size()), two);
    memset(pa, 'X', a.size()); memset(pb, 'X', b.size());     // the status owns its message
    is(s, m, "new");
    Status c(s); is(c, m, "copy"); is(s, m, "original after copy");
    Status d; d = s; is(d, m, "assigned"); Status e = Status::Corruption("old"); e = c; is(e, m, "assigned over an error"); e = Status::OK(); is(e, M(), "assigned OK"); is(c, m, "source");
    Status f(std::move(c)); is(f, m, "moved"); kind_of(c); c = Status::IOError("again"); is(c, M{5, "again"}, "reused after move"); is(f, m, "moved, source reused");
    Status g = Status::NotFound("x"); g = std::move(f); is(g, m, "move-assigned");
    is(s, m, "first, at the end");
  }
  delete[] pa; delete[] pb;
}
static const std::string A[] = {"", "a", std::string("\0", 1), std::string("a\0b\xff\n", 5), ": ", "file name: x", "0123456789abcde", "0123456789abcdef", std::string(40, 'q')};
static size_t base;
static void begin() { one(2, "warm", "up", true); one(0, "", "", false); base = lmc_heap_live(); }
static void end() { CHECK(lmc_heap_live() == base, "%zu bytes leaked", lmc_heap_live() - base); }
static void messages() {
  begin(); int kind = lmc_choose(6, "kind");
  const std::string &a = A[lmc_choose(9, "message")]; int t = lmc_choose(10, "second"); if (t == 0) one(kind, a, "", false); else one(kind, a, A[t - 1], true);
  end();
}
static void lengths() {
  begin(); int n = lmc_choose(deep(600, 3000), "length"); { std::string s(n, 0); for (int i = 0; i < n; i++) s[i] = (char)(i * 7 + n);
  one(5, s, "", false); one(1, s, "tail", true); one(2, "head", s, true); one(3, s, s, true); } end();
}
static void long_ones() {
  begin(); static const int L[] = {4096, 32767, 32768, 65530, 65531, 65535, 65536, 65537, 1000000, 16777216, 16777217}; int n = L[lmc_choose(11, "length")]; int w = lmc_choose(3, "which");
  { std::string s(n, 'm'); s[n / 2] = '\0'; s[n - 1] = '!'; if (w == 0) one(5, s, "", false); else if (w == 1) one(4, s, "z", true); else one(1, "z", s, true); } end();
}
// messages longer than 31 bits count (the bytes are zero pages that are never touched)
static void giant() {
  lmc_host(1); size_t big = lmc_tier() ? (lmc_choose(2, "length") ? ((size_t)1 << 32) - 20 : ((size_t)1 << 31) + 2) : ((size_t)1 << 31) + 2; char* z = (char*)mmap(nullptr, big, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CHECK(z != (char*)MAP_FAILED, "no address space"); z[0] = 'a'; z[big / 2] = 'm'; z[big - 1] = 'z'; int way = lmc_choose(3, "way");
  {
    Status s = way == 2 ? Status::IOError("head", Slice(z, big)) : Status::NotFound(Slice(z, big)); z[big - 1] = '?'; size_t pre = way == 2 ? 10 + 6 : 10; 
    auto good = [&](const Status& x, const char* what) { std::string t = x.ToString(); CHECK(t.size() == pre + big, "%s: the text has %zu bytes, expected %zu", what, t.size(), pre + big); CHECK(!t.compare(0, pre, way == 2 ? "IO error: head: " : "NotFound: ") && t[pre] == 'a' && t[pre + big / 2] == 'm' && t[pre + big - 1] == 'z' && t[pre + 1] == 0 && t[pre + big - 2] == 0, "%s: the text has other bytes", what); CHECK(way == 2 ? x.IsIOError() : x.IsNotFound(), "%s: another kind", what); };
    if (way == 0) good(s, "new"); if (way == 1) { Status c(s); s = Status::OK(); good(c, "copy"); Status m(std::move(c)); s = std::move(m); } good(s, "a status");
  }
  munmap(z, big); lmc_host(0);
}
// one status over another, of every pair of lengths and kinds, by copy and by move
static void over() {
  begin(); static const int L[] = {0, 1, 2, 3, 15, 16, 250, 251, 255, 256, 257, 300, 511, 512, 65535, 65536, 65792, 131072}; int a = L[lmc_choose(18, "length")], b = L[lmc_choose(18, "other length")], ka = lmc_choose(6, "kind"), kb = lmc_choose(6, "other kind");
  { std::string x(a, 'x'), y(b, 'y'); if (a) x[a - 1] = '!'; if (b) y[b - 1] = '?'; M mx{ka, ka ? x : ""}, my{kb, kb ? y : ""}; Status s = make(ka, x, "", false), t = make(kb, y, "", false), u = make(ka, x, "", false);
    s = t; is(s, my, "assigned over"); is(t, my, "source"); u = std::move(s); is(u, my, "moved over"); s = make(ka, x, "", false); is(s, mx, "reused"); is(t, my, "source"); t = s; is(t, mx, "assigned back"); is(u, my, "the other"); s = u; s = t; is(s, mx, "assigned twice"); s = s; is(s, mx, "assigned to itself"); { Status& r = s; s = std::move(r); } if (s.ok() == !ka) is(s, mx, "moved to itself"); }
  end();
}
// every history over three statuses
static void history() {
  begin();
  {
    Quiet* q = nullptr; (void)q;
    Status* s[3]; M m[3]; bool unk[3] = {0}; for (auto& p : s) p = new Status;
    static const int K[] = {1, 5}; int depth = deep(4, 5); uint64_t oh = 1;
    for (int d = 0; d < depth; d++) {
      int c = lmc_choose(6 + 9 + 9 + 6 + 3, "operation");
      if (c < 6) { int i = c / 2; int k = K[c % 2]; std::string a = c % 2 ? "msg one" : ""; NOTE("s%d = %s", i, TXT[k]); *s[i] = make(k, a, "two", c % 2); m[i] = M{k, a + (c % 2 ? ": two" : "")}; unk[i] = false; }
      else if (c < 15) { int i = (c - 6) / 3, j = (c - 6) % 3; if (unk[j]) lmc_prune(); NOTE("s%d = s%d", i, j); *s[i] = *s[j]; m[i] = m[j]; unk[i] = false; }
      else if (c < 24) {
        int i = (c - 15) / 3, j = (c - 15) % 3; if (unk[j]) lmc_prune(); NOTE("s%d = move(s%d)", i, j); M old = m[i];
        Status& src = *s[j]; *s[i] = std::move(src);
        if (i != j) { m[i] = m[j]; unk[i] = false; CHECK(same(*s[j], M()) || same(*s[j], old) || kind_of(*s[j]) >= 0, "moved-from status is not usable"); unk[j] = true; if (same(*s[j], M())) { unk[j] = false; m[j] = M(); } else if (same(*s[j], old)) { unk[j] = false; m[j] = old; } }
      } else if (c < 30) { int i = (c - 24) / 2, mv = (c - 24) % 2, j = (i + 1) % 3; if (unk[j]) lmc_prune(); NOTE("s%d rebuilt from s%d %s", i, j, mv ? "moved" : "copied"); delete s[i]; s[i] = mv ? new Status(std::move(*s[j])) : new Status(*s[j]); m[i] = m[j]; unk[i] = false; if (mv) { unk[j] = true; if (same(*s[j], M())) { m[j] = M(); unk[j] = false; } } }
      else { int i = c - 30; NOTE("s%d rebuilt", i); delete s[i]; s[i] = new Status(Status::OK()); m[i] = M(); unk[i] = false; }
      for (int i = 0; i < 3; i++) if (!unk[i]) { is(*s[i], m[i], "a status"); oh = mix(oh, m[i].kind + 10 * m[i].msg.size()); } else kind_of(*s[i]);
    }
    for (auto& p : s) delete p;
    lmc_outcome(oh);
  }
  end();
}
static void shared_reads() {      // const use from two threads
  begin(); Status* s = new Status(Status::IOError("shared", "status"));
  run_threads({[&] { Status c(*s); is(c, M{5, "shared: status"}, "copy in t1"); }, [&] { Status c; c = *s; is(c, M{5, "shared: status"}, "copy in t2"); is(*s, M{5, "shared: status"}, "shared"); }});
  delete s; end();
}
LMC_SCENARIOS(
  {"messages", messages, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"lengths", lengths, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"long", long_ones, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"giant", giant, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"over", over, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"history", history, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"shared_reads", shared_reads, {-1, -1}, {0, 0}, {-1, -1}, {0, 0}, 0})
