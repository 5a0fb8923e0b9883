// C27: the random generator, over its whole state space.
#include "h.h"
#include "util/random.h"
using lsmdb::Random;
static const uint32_t M = 2147483647u;
static uint32_t step(uint32_t s) { return (uint32_t)((uint64_t)s * 16807 % M); }
static void transition() {      // every seed in [1, 2^31-2]
  uint32_t lo = (uint32_t)lmc_choose(1024, "part") << 21;
  for (uint32_t s = lo; s < lo + (1u << 21); s++) {
    if (s == 0 || s >= M) continue;
    Random r(s); uint32_t v = r.Next(); if (v != step(s)) lmc_fail("from seed %u the first value is %u, expected %u", s, v, step(s));
  }
  lmc_count(1 << 21);
}
static void high_seeds() {      // the other half, and the special seeds
  uint32_t lo = 0x80000000u + ((uint32_t)lmc_choose(1024, "part") << 21);
  for (uint32_t s = lo; s - lo < 1u << 21; s++) { Random r(s); uint32_t a = r.Next(), b = r.Next(); if (a < 1 || a >= M || b != step(a)) lmc_fail("seed %u gives %u, %u", s, a, b); }
  if (lo == 0x80000000u) for (uint32_t s : {0u, M, 0x80000000u, 0xffffffffu, M - 1, 1u}) { Random r(s), q(s); uint32_t first = 0; for (int i = 0; i < 1000; i++) { uint32_t a = r.Next(); if (a < 1 || a >= M || a != q.Next() || (i && a != step(first))) lmc_fail("seed %u sticks or leaves the sequence at draw %d (%u)", s, i, a); first = a; } }
  lmc_count(1 << 21);
}
static void cycle() {      // one whole period, on one object
  Random r(1); uint32_t v; uint64_t n = 0;
  do { v = r.Next(); n++; if (v < 1 || v >= M) lmc_fail("value %u after %llu draws", v, (unsigned long long)n); if (!(n & 0xffffff)) lmc_count(1 << 24); } while (v != 1 && n <= M);
  CHECK(n == M - 1, "the period is %llu", (unsigned long long)n);
}
static void bounded() {
  int k = lmc_choose(64, "bound"); int n = k < 31 ? (1 << k) : k < 40 ? k - 25 : k < 62 ? (1 << (k - 32)) + (k & 1 ? 1 : -1) : k == 62 ? 0x7fffffff : 1000000007; if (n <= 0) n = 3;
  for (uint32_t i = 0; i < 200000; i++) {
    uint32_t s = i < 1000 ? i + 1 : i < 2000 ? M - 1 - (i - 1000) : (uint32_t)(i * 2654435761u) & 0x7fffffff;
    Random a(s), b(s), c(s); uint32_t u = a.Uniform(n); if (u >= (uint32_t)n) lmc_fail("Uniform(%d) gave %u from seed %u", n, u, s);
    bool o = b.OneIn(n); uint32_t d = c.Next(); if (o != (d % n == 0)) lmc_fail("OneIn(%d) is %d on a draw of %u", n, o, d);
    uint32_t w = a.Next(); if (w < 1 || w >= M) lmc_fail("value %u", w);
  }
  lmc_count(200000);
}
static void skewed() {
  int k = lmc_choose(31, "max_log");
  for (uint32_t i = 0; i < 300000; i++) { uint32_t s = i < 1000 ? i + 1 : i < 2000 ? M - 1 - (i - 1000) : (uint32_t)(i * 2654435761u) & 0x7fffffff; Random a(s); uint32_t v = a.Skewed(k); if (v >= 1u << k) lmc_fail("Skewed(%d) gave %u from seed %u", k, v, s); }
  lmc_count(300000);
}
static void mixed() {      // no kind of draw disturbs the sequence of states
  int seq[5]; for (int& x : seq) x = lmc_choose(4, "draw"); Random a(301), b(301);
  for (int rep = 0; rep < 200; rep++) for (int x : seq) {
    uint32_t p = x == 0 ? a.Next() : x == 1 ? a.Uniform(10) : x == 2 ? a.OneIn(3) : a.Skewed(10), q = x == 0 ? b.Next() : x == 1 ? b.Uniform(10) : x == 2 ? b.OneIn(3) : b.Skewed(10);
    CHECK(p == q, "equal seeds gave different sequences"); if (x == 0) CHECK(p >= 1 && p < M, "range"); if (x == 1) CHECK(p < 10, "range"); if (x == 3) CHECK(p < 1024, "range");
  }
}
LMC_SCENARIOS(
  {"cycle", cycle, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"transition", transition, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"high_seeds", high_seeds, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"bounded", bounded, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"skewed", skewed, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"mixed", mixed, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
