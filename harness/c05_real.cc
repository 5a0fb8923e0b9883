// The list with its own random heights: long runs.
#include <algorithm>
#include "skip_common.h"
#include "beside.h"
using lsmdb::Arena; using lsmdb::SkipList;
struct RCmp { int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -1 : a > b; } };
void real_heights() {
  int pat = lmc_choose(4, "order"), n = lmc_tier() ? 30000 : 6000;
  Arena arena; SkipList<uint64_t, RCmp> list(RCmp(), &arena);
  std::vector<uint64_t> ks;
  for (int i = 0; i < n; i++) { uint64_t k = pat == 0 ? i + 1 : pat == 1 ? n - i : pat == 2 ? (i * 40503ull) % 65537 + 1 : (i & 1 ? 100000 - i : i + 1); k *= 2; ks.push_back(k); list.Insert(k); }
  std::sort(ks.begin(), ks.end());
  SkipList<uint64_t, RCmp>::Iterator it(&list);
  it.SeekToFirst(); for (uint64_t k : ks) { CHECK(it.Valid() && it.key() == k, "forward iteration"); it.Next(); } CHECK(!it.Valid(), "past the end");
  it.SeekToLast(); for (size_t i = ks.size(); i-- > 0;) { CHECK(it.Valid() && it.key() == ks[i], "backward iteration"); it.Prev(); } CHECK(!it.Valid(), "before the start");
  for (size_t i = 0; i < ks.size(); i++) {
    CHECK(list.Contains(ks[i]) && !list.Contains(ks[i] + 1), "membership of %llu", (unsigned long long)ks[i]);
    it.Seek(ks[i] - 1); CHECK(it.Valid() && it.key() == ks[i], "seek");
  }
  it.Seek(ks.back() + 1); CHECK(!it.Valid(), "seek past the end");
  lmc_count(3 * n);
}
static std::string one(int v) { Arena a; SkipList<uint64_t, RCmp> l(RCmp(), &a); for (int i = 0; i < 6; i++) l.Insert((v * 31 + i * 17) % 97 + 1); std::string s; SkipList<uint64_t, RCmp>::Iterator it(&l); for (it.SeekToFirst(); it.Valid(); it.Next()) s += std::to_string(it.key()) + ","; it.Seek(40); if (it.Valid()) { s += std::to_string(it.key()); it.Prev(); } return s + std::to_string(l.Contains(v * 31 + 1)); }
void beside_all() { beside(one); }
