// C05: the ordered list against std::set, for every insertion order and height.
#include <algorithm>
#include "skip_draw.h"
using lsmdb::Arena; using lsmdb::SkipList;

struct K {          // ordered by the comparator only: its own operators say otherwise
  uint32_t v, w; K() {} K(int x) : v(x), w(~x) {}
  bool operator==(const K& o) const { return this == &o; }
  bool operator!=(const K& o) const { return this != &o; }
  bool operator<(const K& o) const { return v * 7919u % 65537u > o.v * 7919u % 65537u; }
  bool operator>(const K& o) const { return o < *this; }
  bool operator<=(const K& o) const { return !(o < *this); }
  bool operator>=(const K& o) const { return !(*this < o); }
};
static int g_ncmp;
template <int S> struct Cmp {      // 0 ascending, 1 descending, 2 extreme results, 3 by bit-reversed value
  static uint32_t rev(uint32_t x) { uint32_t r = 0; for (int i = 0; i < 8; i++) r |= (x >> i & 1) << (7 - i); return r; }
  int operator()(const K& a, const K& b) const {
    CHECK(a.w == ~a.v && b.w == ~b.v, "comparator given a key that was never inserted (%x,%x / %x,%x)", a.v, a.w, b.v, b.w);
    uint32_t x = a.v, y = b.v;
    if (S == 3) { x = rev(x); y = rev(y); }
    if (S == 1) std::swap(x, y);
    int lo = S == 2 ? INT32_MIN : -1, hi = S == 2 ? INT32_MAX : 1;
    return x < y ? lo : x > y ? hi : 0;
  }
};
template <int S> struct T {
  typedef SkipList<K, Cmp<S>> List; typedef typename List::Iterator It;
  Arena arena; Cmp<S> cmp;
  static Arena* use(Arena* a, int pre, char** got) { for (int i = 0; pre; i++) { int n = std::min(pre, 512); got[i] = a->Allocate(n); memset(got[i], 0x5a, n); pre -= n; } return a; }
  char* before[9] = {}; List list; std::vector<uint32_t> m;    // in comparator order
  int pre;
  explicit T(int before_bytes = 0) : list(cmp, use(&arena, before_bytes, before)), pre(before_bytes) {}
  bool less(uint32_t a, uint32_t b) { return cmp(K(a), K(b)) < 0; }
  void insert(uint32_t k) {
    list.Insert(K(k));
    Quiet q; auto it = m.begin(); while (it != m.end() && less(*it, k)) ++it; m.insert(it, k);
  }
  void at(const It& it, size_t i, const char* what) {
    if (i >= m.size()) { CHECK(!it.Valid(), "%s: iterator valid past the end, at %u", what, it.key().v); return; }
    CHECK(it.Valid(), "%s: iterator invalid, expected %u", what, m[i]);
    CHECK(it.key().v == m[i], "%s: at %u, expected %u", what, it.key().v, m[i]);
    CHECK(it.key().w == ~it.key().v, "%s: key damaged", what);
  }
  // every observation, for probes 0..maxk
  void full(uint32_t maxk, bool deep) {
    It it(&list);
    CHECK(!it.Valid(), "a new iterator is valid");
    it.SeekToFirst(); for (size_t i = 0; i <= m.size(); i++) { at(it, i, "forward"); if (i < m.size()) it.Next(); }
    it.SeekToLast();
    for (size_t i = m.size(); i-- > 0;) { at(it, i, "backward"); it.Prev(); }
    CHECK(!it.Valid(), "iterator valid before the first key");
    for (uint32_t k = 0; k <= maxk; k++) {
      bool in = std::find(m.begin(), m.end(), k) != m.end();
      CHECK(list.Contains(K(k)) == in, "Contains(%u) is %d", k, !in);
      size_t p = 0; while (p < m.size() && less(m[p], k)) p++;
      it.Seek(K(k)); at(it, p, "seek");
      if (!deep) continue;
      It j = it;
      if (p < m.size()) {
        j.Next(); at(j, p + 1, "seek, next");
        if (j.Valid()) { j.Prev(); at(j, p, "seek, next, prev"); }
        j = it; j.Prev();
        if (p == 0) CHECK(!j.Valid(), "prev of the first key is valid"); else { at(j, p - 1, "seek, prev"); j.Next(); at(j, p, "seek, prev, next"); }
        at(it, p, "copied iterator");
      }
      j.SeekToFirst(); at(j, 0, "reused: first"); j.Seek(K(k)); at(j, p, "reused: seek");
      j.SeekToLast(); at(j, m.empty() ? 0 : m.size() - 1, "reused: last");
    }
  }
};
extern void real_heights();
static int deep(int q, int t) { return lmc_tier() ? t : q; }
template <int S> static void orders(int n, int maxh) {
  T<S> t; t.full(2 * n, true);
  bool used[12] = {0}; 
  for (int i = 0; i < n; i++) {
    int c = lmc_choose(n - i, "next key"), k = 0;
    for (;; k++) if (!used[k] && c-- == 0) break;
    used[k] = true;
    free_height(maxh); t.insert(2 * k + 1);
    t.full(2 * n, true);
  }
  uint64_t h = 0; for (uint32_t k : t.m) h = mix(h, k); lmc_outcome(h);
}
static void orders_all() { orders<0>(deep(6, 7), 3); }
static void orders_tall() { orders<0>(3, deep(8, 12)); }
// every key drawing from the lowest and the highest levels, and luck without end
template <int S> static void tops(int n) {
  static const int H[] = {1, 2, 11, 12, 13, 14, 40};
  T<S> t; t.full(2 * n, true); bool used[12] = {0};
  for (int i = 0; i < n; i++) {
    int c = lmc_choose(n - i, "next key"), k = 0;
    for (;; k++) if (!used[k] && c-- == 0) break;
    used[k] = true; set_height(H[lmc_choose(7, "height")]); t.insert(2 * k + 1); t.full(2 * n, true);
  }
  uint64_t h = 0; for (uint32_t k : t.m) h = mix(h, k); lmc_outcome(h);
}
static void tops_asc() { tops<0>(deep(3, 4)); }
static void orders_desc() { orders<1>(deep(5, 6), 3); }
static void orders_extreme() { orders<2>(deep(4, 6), 3); }
static void orders_rev() { orders<3>(deep(5, 6), 3); }
static void heights2() { orders<0>(deep(7, 8), 2); }
// an iterator that stays while the list grows
static void standing() {
  int n = deep(5, 6); T<0> t;
  set_height(1 + lmc_choose(3, "height")); t.insert(2 * lmc_choose(n, "first") + 1);
  typename T<0>::It it(&t.list); it.SeekToFirst(); uint32_t at = it.key().v;
  for (int i = 0; i < deep(3, 4); i++) {
    int k = lmc_choose(n, "key"); if (std::find(t.m.begin(), t.m.end(), 2 * k + 1) != t.m.end()) lmc_prune();
    free_height(3); t.insert(2 * k + 1);
    size_t p = std::find(t.m.begin(), t.m.end(), at) - t.m.begin();
    t.at(it, p, "standing iterator");
    auto j = it; j.Next(); t.at(j, p + 1, "standing, next");
    j = it; j.Prev(); if (p) t.at(j, p - 1, "standing, prev"); else CHECK(!j.Valid(), "standing, prev of first is valid");
  }
}
// long runs with scripted heights: every height 1..12 in a row, several patterns
static void runs() {
  int pat = lmc_choose(6, "order"), hp = lmc_choose(7, "heights"), n = deep(400, 2000);
  T<0> t;
  for (int i = 0; i < n; i++) {
    uint32_t k = pat == 0 ? i : pat == 1 ? n - 1 - i : pat == 2 ? (i * 7919u) % 65537u : pat == 3 ? (i % 2 ? i : 2 * n - i) : pat == 4 ? (i % 10) * 1000 + i / 10 : (i < n / 2 ? 2 * i : 2 * (i - n / 2) + 1);
    set_height(hp == 0 ? 1 : hp == 1 ? 1 + i % 12 : hp == 2 ? 12 : hp == 3 ? 12 - i % 12 : hp == 4 ? 64 : hp == 5 ? (i % 3 ? 1 : 64) : (__builtin_ctz(i + 1) / 2 + 1));
    t.insert(2 * k + 1);
    if ((i & (i + 1)) == 0 || i == n - 1) {
      t.full(40, false);
      typename T<0>::It it(&t.list);
      for (size_t p = 0; p < t.m.size(); p++) { it.Seek(K(t.m[p] - 1)); t.at(it, p, "seek below"); it.Seek(K(t.m[p])); t.at(it, p, "seek"); it.Seek(K(t.m[p] + 1)); t.at(it, p + 1, "seek above"); CHECK(t.list.Contains(K(t.m[p])) && !t.list.Contains(K(t.m[p] + 1)), "membership"); }
      lmc_count(t.m.size());
    }
  }
}
// the arena's block ending anywhere, and memory of somebody else's around the nodes
static void placed() {
  static const int H[] = {1, 2, 12}; int pre = 8 * (1 + lmc_choose(511, "bytes used before")), mine = lmc_choose(2, "bytes of others"); T<0> t(pre); char* other[4] = {}; static const int O[4] = {1, 8, 24, 17};
  auto fine = [&](const char* p, int n) { for (int i = 0; p && i < n; i++) CHECK(p[i] == 0x5a, "the list wrote into memory the arena gave to somebody else"); };
  for (int i = 0; i < 4; i++) {
    if (mine) { other[i] = t.arena.Allocate(O[i]); memset(other[i], 0x5a, O[i]); }
    if (i < 3) { set_height(H[lmc_choose(3, "height")]); t.insert((i * 5 % 7) * 2 + 1); }
    Quiet q; for (int j = 0; j * 512 < pre; j++) fine(t.before[j], std::min(512, pre - j * 512)); for (int j = 0; j <= i; j++) fine(other[j], O[j]);
  }
  t.full(8, false);
}
void beside_all();
LMC_SCENARIOS(
  {"beside", beside_all, {2, -1}, {0, 0}, {0, 0}, {30, 60}, 0},
  {"orders_all", orders_all, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"orders_tall", orders_tall, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"tops", tops_asc, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"orders_desc", orders_desc, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"orders_extreme", orders_extreme, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"orders_rev", orders_rev, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"two_levels", heights2, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"placed", placed, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"standing", standing, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"runs", runs, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"real_heights", real_heights, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
