// C07: the arena.
#include <algorithm>
#include "beside.h"
#include "util/arena.h"
using lsmdb::Arena;
static int deep(int q, int t) { return lmc_tier() ? t : q; }

struct Blk { unsigned char* p; size_t n; unsigned char tag; };
struct T {
  Arena* a; size_t base_live; std::vector<Blk> b; size_t sum = 0, obtained = 0; std::vector<std::pair<char*, size_t>> got; uint64_t oh = 3;
  T() { base_live = lmc_heap_live(); a = new Arena; CHECK(a->MemoryUsage() == 0, "an empty arena reports %zu bytes", a->MemoryUsage()); }
  static void fill(const Blk& k) { size_t n = k.n; if (n <= 8192) { for (size_t i = 0; i < n; i++) k.p[i] = (unsigned char)(k.tag + i); } else { for (size_t i = 0; i < 64; i++) { k.p[i] = k.tag + i; k.p[n - 64 + i] = k.tag + i; } } }
  static bool good(const Blk& k) {
    size_t n = k.n;
    if (n <= 8192) { for (size_t i = 0; i < n; i++) if (k.p[i] != (unsigned char)(k.tag + i)) return false; }
    else for (size_t i = 0; i < 64; i++) if (k.p[i] != (unsigned char)(k.tag + i) || k.p[n - 64 + i] != (unsigned char)(k.tag + i)) return false;
    return true;
  }
  void alloc(bool aligned, size_t n, bool heavy = true) {
    NOTE("%s(%zu)", aligned ? "AllocateAligned" : "Allocate", n);
    unsigned char* p = (unsigned char*)(aligned ? a->AllocateAligned(n) : a->Allocate(n));
    CHECK(p, "no memory for %zu bytes", n);
    if (aligned) CHECK((uintptr_t)p % 8 == 0, "aligned block at %p", p);
    size_t v = lmc_heap_valid(p);
    CHECK(v >= n, "block of %zu bytes lies outside the memory obtained (%zu valid)", n, v);
    for (auto& k : b) CHECK(p + n <= k.p || k.p + k.n <= p, "two blocks overlap (%zu and %zu bytes)", n, k.n);
    Blk k{p, n, (unsigned char)(b.size() * 37 + 11)};
    if (heavy) fill(k);
    { Quiet q; b.push_back(k); }
    sum += n;
    { Quiet q; bool have = false; for (auto& x : got) have |= (char*)p >= x.first && (char*)p < x.first + x.second;
      if (!have) { size_t sz; char* h = (char*)lmc_heap_block(p, &sz); CHECK(h, "a block lies outside the heap"); got.push_back({h, sz}); obtained += sz; } }
    usage();
  }
  void usage() {
    size_t u = a->MemoryUsage();
    CHECK(u >= sum, "usage %zu is below the %zu bytes handed out", u, sum);
    CHECK(u <= obtained + sizeof(char*) * got.size(), "usage %zu exceeds the %zu bytes obtained in %zu blocks", u, obtained, got.size());
    oh = mix(oh, u);
  }
  void contents() { for (auto& k : b) CHECK(good(k), "a block of %zu bytes lost its contents", k.n); }
  void end(bool heavy = true) {
    if (heavy) contents();
    delete a; a = nullptr;
    CHECK(lmc_heap_live() == base_live, "%zu bytes not freed with the arena", lmc_heap_live() - base_live);
    lmc_outcome(oh);
  }
};
// every history of a few requests
static const size_t SZ[] = {1, 2, 7, 8, 9, 16, 100, 1000, 1023, 1024, 1025, 2048, 3000, 4095, 4096, 4097, 10000};
static const int NSZ = sizeof SZ / sizeof *SZ;
static void histories() {
  T t; int n = deep(3, 4);
  for (int i = 0; i < n; i++) { int c = lmc_choose(2 * NSZ, "request"); t.alloc(c & 1, SZ[c / 2]); }
  t.alloc(false, 1); t.alloc(true, 8);
  t.end();
}
// every fill level of a block x request sizes around every boundary x both forms, then two more
static void fill_levels() {
  int used = lmc_choose(4097, "bytes used in the block");
  std::vector<size_t> sz; { Quiet q; int lim = deep(24, 1100);
    for (int i = 1; i <= lim; i++) sz.push_back(i);
    int rem = 4096 - used;
    for (int d = -9; d <= 9; d++) { if (rem + d > 0) sz.push_back(rem + d); sz.push_back(1024 + d); sz.push_back(4096 + d); } 
    std::sort(sz.begin(), sz.end()); sz.erase(std::unique(sz.begin(), sz.end()), sz.end()); }
  for (size_t s : sz) for (int al = 0; al < 2; al++) {
    T t;
    int u = used; while (u > 0) { int k = u > 1000 ? 1000 : u; t.alloc(false, k, false); u -= k; }
    t.alloc(al, s); t.alloc(!al, 5); t.alloc(true, 16); t.alloc(al, 1000, false);
    { Quiet q; std::vector<Blk> keep; for (auto& k : t.b) if (k.n == s || k.n == 5 || k.n == 16) keep.push_back(k); }
    for (size_t i = t.b.size() - 4; i + 1 < t.b.size(); i++) CHECK(T::good(t.b[i]), "contents lost");
    t.end(false); lmc_count(1);
  }
}
// a request above a quarter block leaves the current block in use
static void no_waste() {
  int used = lmc_choose(64, "used/64") * 64 + 1; size_t rem = 4096 - used;
  static const size_t big[] = {1025, 1026, 1100, 2000, 3000, 4000, 4095, 4096, 4097, 8192, 100000};
  size_t s = big[lmc_choose(11, "big request")]; bool al = lmc_choose(2, "aligned"), al2 = lmc_choose(2, "next aligned");
  T t; int u = used; while (u > 0) { int k = u > 1000 ? 1000 : u; t.alloc(false, k); u -= k; }
  if (s + 8 <= rem) lmc_prune();
  if (s <= rem) lmc_prune();
  t.alloc(al, s);
  size_t blocks = lmc_heap_blocks(), live = lmc_heap_live();
  // the rest of the block is still handed out
  size_t left = rem;
  if (al2) { size_t pad = (8 - used % 8) % 8; left = left > pad ? left - pad : 0; }
  int guard = 0;
  while (left >= 8 && guard++ < 1000) {
    size_t k = left >= 512 ? 256 : 8; t.alloc(al2, k); left -= k;
    CHECK(lmc_heap_blocks() == blocks && lmc_heap_live() == live, "a request of %zu bytes wasted what was left of the block (%zu bytes)", s, rem);
  }
  t.end();
}
// a request of up to a quarter block that does not fit starts a new block, which is then used
static void quarter() {
  int u = 3080 + lmc_choose(64, "used") * 16; size_t s = 1 + (lmc_choose(64, "size") * 16 + 15);
  T t; while (u > 0) { int k = u > 1000 ? 1000 : u; t.alloc(false, k); u -= k; }
  for (int i = 0; i < 9; i++) t.alloc(i & 1, s);
  t.end();
}
static void many_blocks() {
  int pat = lmc_choose(4, "pattern"); T t; int n = deep(400, 1500);
  for (int i = 0; i < n; i++) { size_t s = pat == 0 ? 4096 : pat == 1 ? (i % 5 ? 700 : 1500) : pat == 2 ? 1 + (i * 37) % 1024 : 2000; t.alloc(i % 3 == 1, s); if (i % 50 == 49) t.contents(); lmc_count(1); }
  t.end();
}
// tens of thousands of blocks: the same holds as for the first
static void very_many() {
  int n = deep(20000, 200000), pat = lmc_choose(3, "pattern"); size_t live = lmc_heap_live(), sum = 0; Arena* a = new Arena; auto& p = *new std::vector<unsigned char*>; { Quiet q; p.reserve(2 * n); }
  for (int i = 0; i < n; i++) {
    size_t s = pat == 0 ? 4096 : pat == 1 ? 1025 + i % 7 : 1000; unsigned char* x = (unsigned char*)(i % 3 == 1 ? a->AllocateAligned(s) : a->Allocate(s)); memset(x, 0, 4); memcpy(x, &i, 4); x[s - 1] = (unsigned char)(i * 7); p.push_back(x); sum += s;
    if (pat == 2) continue;
    if (i % 1000 == 999) { lmc_count(1); size_t grown = ~(size_t)0; for (int r = 0; r < 3; r++) { size_t l = lmc_heap_live(); for (int k = 0; k < 10; k++) { a->Allocate(8); a->Allocate(2100); } sum += 21080; grown = std::min(grown, lmc_heap_live() - l); }   // the arena's own list may grow in one of them
      CHECK(grown <= 21080 + 2 * 4096 + 30 * 16, "after %d blocks, ten requests of 2100 bytes and ten small ones take %zu bytes: they waste the current block", i, grown); }
    size_t u = a->MemoryUsage(); CHECK(u >= sum, "usage %zu is below the %zu bytes handed out", u, sum);
  }
  size_t u = a->MemoryUsage(); CHECK(u >= sum && u <= lmc_heap_live() - live + 8 * (size_t)n, "usage %zu, %zu bytes handed out, %zu obtained", u, sum, lmc_heap_live() - live);
  for (int i = 0; i < n; i++) { size_t s = pat == 0 ? 4096 : pat == 1 ? 1025 + i % 7 : 1000; int v; memcpy(&v, p[i], 4); CHECK(v == i && p[i][s - 1] == (unsigned char)(i * 7), "a block of %zu bytes lost its contents", s); }
  delete a; delete &p; CHECK(lmc_heap_live() <= live, "%zu bytes are not freed with the arena", lmc_heap_live() - live);
}
static void huge() {
  static const size_t h[] = {1 << 20, (size_t)1 << 28, (size_t)1 << 29, ((size_t)1 << 29) + 1, ((size_t)1 << 31) - 1, (size_t)1 << 31, ((size_t)1 << 31) + 5, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 1000, (size_t)3 << 32};
  int i = lmc_choose(11, "size"); bool al = lmc_choose(2, "aligned"); int pre = lmc_choose(3, "before");
  T t; if (pre) t.alloc(false, pre * 500);
  t.alloc(al, h[i]); t.alloc(false, 10); t.alloc(al, h[i] == 1 << 20 ? 20 : 3); t.end();
}
// the usage may be read by other threads
static void concurrent_usage() {
  T* tp = new T; T& t = *tp; size_t last = 0; int n = lmc_choose(3, "first") ;
  size_t s1[] = {10, 2000, 4096};
  run_threads({[&] { t.alloc(false, s1[n]); t.alloc(true, 3000); t.alloc(false, 1000); },
               [&] { for (int i = 0; i < 3; i++) { size_t u = t.a->MemoryUsage(); CHECK(u >= last, "usage went down from %zu to %zu", last, u); last = u; } }});
  CHECK(t.a->MemoryUsage() >= last, "usage went down");
  t.end(); delete tp;
}
static std::string one(int v) { Arena a; std::string s; char* p[5]; for (int i = 0; i < 5; i++) { size_t n = v * 700 + i * 300; p[i] = i & 1 ? a.AllocateAligned(n) : a.Allocate(n); memset(p[i], 'a' + i + v, n); } for (int i = 0; i < 5; i++) s += p[i][i]; return s + std::to_string(a.MemoryUsage()); }
static void beside_all() { beside(one); }
LMC_SCENARIOS(
  {"beside", beside_all, {2, -1}, {0, 0}, {0, 0}, {30, 60}, 0},
  {"histories", histories, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"fill_levels", fill_levels, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"no_waste", no_waste, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"quarter", quarter, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"many_blocks", many_blocks, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"very_many", very_many, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"huge", huge, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"concurrent_usage", concurrent_usage, {-1, -1}, {0, 0}, {-1, -1}, {0, 0}, 0})
