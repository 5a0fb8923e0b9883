// Helpers shared by the harnesses.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "lmc.h"

struct Quiet {   // harness bookkeeping: not part of the program under test
  Quiet() { lmc_atomic_begin(); }
  ~Quiet() { lmc_atomic_end(); }
};
struct Heap {    // what is allocated here is released by the end
  size_t base = lmc_heap_live(), blocks = lmc_heap_blocks();
  void same(const char* what) const { CHECK(lmc_heap_live() == base && lmc_heap_blocks() == blocks, "%lld bytes in %lld blocks leaked %s", (long long)(lmc_heap_live() - base), (long long)(lmc_heap_blocks() - blocks), what); }
  // what several threads do at a time may make a table or a list that lives on grow
  void near(const char* what) const { CHECK(lmc_heap_live() <= base + 1024 && lmc_heap_blocks() <= blocks + 6, "%lld bytes in %lld blocks leaked %s", (long long)(lmc_heap_live() - base), (long long)(lmc_heap_blocks() - blocks), what); }
};
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
inline uint64_t mixs(uint64_t h, const std::string& s) { for (unsigned char c : s) h = mix(h, c); return mix(h, s.size() + 1000); }

// Reference hash (the function published with the library), unsigned bytes.
inline uint32_t ref_hash(const char* data, size_t n, uint32_t seed) {
  const uint32_t m = 0xc6a4a793; const uint8_t* p = (const uint8_t*)data;
  uint32_t h = seed ^ (uint32_t)(n * m);
  size_t i = 0;
  for (; i + 4 <= n; i += 4) { uint32_t w = p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (uint32_t)p[i + 3] << 24; h += w; h *= m; h ^= h >> 16; }
  switch (n - i) { case 3: h += (uint32_t)p[i + 2] << 16;  // fall through
    case 2: h += (uint32_t)p[i + 1] << 8;  // fall through
    case 1: h += p[i]; h *= m; h ^= h >> 24; }
  return h;
}

// Run the given thread bodies to completion.
inline void run_threads(std::vector<std::function<void()>> fs) {
  static const char* names[] = {"t1", "t2", "t3", "t4", "t5", "t6"};
  void (*fn[6])(void*); void* ar[6];
  for (size_t i = 0; i < fs.size(); i++) { fn[i] = [](void* p) { (*(std::function<void()>*)p)(); }; ar[i] = &fs[i]; }
  lmc_run(fs.size(), fn, ar, names);
}

// ---- linearizability by exhaustive search -------------------------------------
// Op must have: uint64_t inv, res; Model must have: bool apply(const Op&) checking
// that the recorded result is possible, and be copyable.
template <class Model, class Op>
bool linearizable(const Model& m, const std::vector<Op>& ops, uint64_t done, Model* final_state, std::function<bool(const Model&)> accept) {
  if (done == (1ull << ops.size()) - 1) { if (accept && !accept(m)) return false; if (final_state) *final_state = m; return true; }
  uint64_t minres = ~0ull;
  for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && ops[i].res < minres) minres = ops[i].res;
  for (size_t i = 0; i < ops.size(); i++) {
    if (done >> i & 1) continue;
    if (ops[i].inv > minres) continue;    // some pending op finished before this began
    Model c = m;
    if (!c.apply(ops[i])) continue;
    if (linearizable(c, ops, done | 1ull << i, final_state, accept)) return true;
  }
  return false;
}
