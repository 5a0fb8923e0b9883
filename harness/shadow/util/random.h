// Stands in for util/random.h while db/skiplist.h is compiled for C05/C06: the
// same class, except that the draws come from the explorer.
#pragma once
#include <cstdint>
#define Random RealRandom
#include_next "util/random.h"
#undef Random
extern uint32_t lmc_draw(uint32_t real);
namespace lsmdb {
class ChosenRandom : public RealRandom {
 public:
  explicit ChosenRandom(uint32_t s) : RealRandom(s) {}
  uint32_t Next() { return lmc_draw(RealRandom::Next()); }
  uint32_t Uniform(int n) { return Next() % n; }
  bool OneIn(int n) { return Next() % n == 0; }
  uint32_t Skewed(int max_log) { return Uniform(1 << Uniform(max_log + 1)); }
};
}
#define Random ChosenRandom
