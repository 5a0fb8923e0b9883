// C23: the hash against the published reference.
#include <sys/mman.h>
#include "beside.h"
#include "util/hash.h"
static const uint32_t SEEDS[] = {0, 1, 0xbc9f1d34, 0x80000000, 0xffffffff, 0x5bd1e995};
static int deep(int q, int t) { return lmc_tier() ? t : q; }
#ifndef LMC_PLAIN
// in a block of the exact length: reading outside it is an invalid access
static void one(const std::string& s, size_t shift, uint32_t seed) {
  char* base = new char[s.size() + shift]; memcpy(base + shift, s.data(), s.size());
  uint32_t h = lsmdb::Hash(base + shift, s.size(), seed), r = ref_hash(s.data(), s.size(), seed);
  CHECK(h == r, "hash of %zu bytes (offset %zu, seed %#x) is %#x, reference %#x", s.size(), shift, seed, h, r);
  CHECK(!memcmp(base + shift, s.data(), s.size()), "input changed");
  CHECK(h == lsmdb::Hash(base + shift, s.size(), seed), "two calls differ");
  delete[] base;
  char* mid = new char[s.size() + shift + 9]; memset(mid, 0xA5, s.size() + shift + 9); memcpy(mid + shift, s.data(), s.size());
  CHECK(lsmdb::Hash(mid + shift, s.size(), seed) == r, "the hash depends on what surrounds the bytes");
  delete[] mid;
}
static void lengths() {
  int n = lmc_choose(deep(70, 300), "length"), sh = lmc_choose(8, "offset"), sd = lmc_choose(6, "seed");
  for (int pat = 0; pat < 6; pat++) { std::string s(n, 0); for (int i = 0; i < n; i++) s[i] = pat == 0 ? 0 : pat == 1 ? (char)0xff : pat == 2 ? (char)0x80 : pat == 3 ? (char)0x7f : pat == 4 ? (char)(i * 37 + 200) : (char)(i & 1 ? 0x80 : 0x01); one(s, sh, SEEDS[sd]); lmc_count(1); }
}
// each position takes each of the 256 values
static void positions() {
  int n = 1 + lmc_choose(deep(24, 64), "length"), pos = lmc_choose(n, "position");
  for (int v = 0; v < 256; v++) for (int base = 0; base < 2; base++) { std::string s(n, base ? (char)0xfe : 'a'); s[pos] = (char)v; one(s, v & 3, SEEDS[v % 6]); lmc_count(1); }
}
static void seeds() { int b = lmc_choose(32, "seed bit"); for (int n = 0; n < 14; n++) for (int d = -1; d <= 1; d++) { std::string s; for (int i = 0; i < n; i++) s += (char)(0x90 + i * 23); one(s, 0, (1u << b) + d); lmc_count(1); } }
static void longer() { static const int ln[] = {255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 200001}; int n = ln[lmc_choose(11, "length")]; std::string s(n, 0); for (int i = 0; i < n; i++) s[i] = (char)(i * 131 >> 3); one(s, lmc_choose(4, "offset"), SEEDS[lmc_choose(6, "seed")]); }
static std::string one(int v) { std::string k(v * 7 + 2, 'a' + v); uint32_t h = lsmdb::Hash(k.data(), k.size(), v); CHECK(h == ref_hash(k.data(), k.size(), v), "hashing beside another thread"); return std::to_string(h); }
static void beside_all() { beside(one); }
LMC_SCENARIOS(
  {"beside", beside_all, {2, -1}, {0, 0}, {0, 0}, {30, 60}, 0},
  {"lengths", lengths, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"positions", positions, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"seeds", seeds, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"longer", longer, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
#else
static void all3() {
  int b0 = lmc_choose(256, "first byte"); unsigned char s[3] = {(unsigned char)b0, 0, 0};
  for (int n = 1; n <= 3; n++) for (int x = 0; x < (n == 1 ? 1 : n == 2 ? 256 : 65536); x++) { s[1] = x & 255; s[2] = x >> 8; for (uint32_t sd : SEEDS) if (lsmdb::Hash((char*)s, n, sd) != ref_hash((char*)s, n, sd)) lmc_fail("hash of %02x%02x%02x/%d differs", s[0], s[1], s[2], n); }
  lmc_count(6 * 65793);
}
static void all4() {
  uint32_t hi = (uint32_t)lmc_choose(256, "first byte");
  for (uint32_t l = 0; l < 1u << 24; l++) { uint32_t w = hi | l << 8; uint32_t sd = 0xbc9f1d34; if (lsmdb::Hash((char*)&w, 4, sd) != ref_hash((char*)&w, 4, sd)) lmc_fail("hash of the bytes of %08x differs", w); }
  lmc_count(1 << 24);
}
static void all_seeds() {
  uint32_t hi = (uint32_t)lmc_choose(256, "top byte") << 24; static const char k[] = "\x80 key";
  for (uint32_t l = 0; l < 1u << 24; l += lmc_tier() ? 1 : 16) if (lsmdb::Hash(k, 5, hi | l) != ref_hash(k, 5, hi | l)) lmc_fail("seed %08x", hi | l);
  lmc_count(1 << 20);
}
static void giant() {      // lengths beyond 2^31 and 2^32 (zero pages)
  static const size_t ln[] = {((size_t)1 << 31) + 5, ((size_t)1 << 32) + 7, (size_t)1 << 32};
  size_t n = ln[lmc_choose(lmc_tier() ? 3 : 2, "length")];
  char* p = (char*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) lmc_prune();
  uint32_t h = lsmdb::Hash(p, n, 9), r = ref_hash(p, n, 9);
  munmap(p, n);
  CHECK(h == r, "hash of %zu zero bytes is %#x, reference %#x", n, h, r);
}
LMC_SCENARIOS(
  {"giant", giant, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"all_3byte", all3, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"all_4byte", all4, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"all_seeds", all_seeds, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
#endif
