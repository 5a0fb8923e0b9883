// C06: lock-free readers of the ordered list during inserts, under every
// schedule and every outcome of the C++11 memory model (release/acquire views).
#include <atomic>
#include "skip_draw.h"
using lsmdb::Arena; using lsmdb::SkipList;
struct K { uint32_t v, w; K() {} K(int x) : v(x), w(~x) {} };
struct Cmp { int operator()(const K& a, const K& b) const { CHECK(a.w == ~a.v && b.w == ~b.v, "comparator given a key that is not (fully) there"); return a.v < b.v ? -1 : a.v > b.v; } };
typedef SkipList<K, Cmp> List;
struct World {
  Arena arena; List list; std::atomic<int> done; int n; uint32_t key[8]; int h[8]; bool started[8];
  World() : list(Cmp(), &arena), done(0) {}
};
static World* W;
static void writer() {
  for (int i = 0; i < W->n; i++) {
    set_height(W->h[i]);
    { Quiet q; W->started[i] = true; }
    W->list.Insert(K(W->key[i]));
    W->done.store(i + 1, std::memory_order_release);
  }
}
enum { CONTAINS, FORWARD, BACKWARD, SEEK, MIXED, NOPS };
struct Seen { std::set<uint32_t> s; };
static void must(const std::set<uint32_t>& got, int d, const Seen& old, uint32_t lo, const char* what) {
  for (int i = 0; i < d; i++) if (W->key[i] >= lo) CHECK(got.count(W->key[i]), "%s: key %u, inserted before the read began, was not seen", what, W->key[i]);
  for (uint32_t k : old.s) if (k >= lo) CHECK(got.count(k), "%s: key %u disappeared", what, k);
}
static void real(uint32_t k, const char* what) { for (int i = 0; i < W->n; i++) if (W->key[i] == k) { CHECK(W->started[i], "%s: key %u seen before its insert began", what, k); return; } lmc_fail("%s: key %u was never inserted", what, k); }
static uint64_t read_op(int op, int arg, Seen& seen) {
  int d = W->done.load(std::memory_order_acquire);
  uint64_t oh = mix(op, d); std::set<uint32_t> got;
  if (op == CONTAINS) {
    uint32_t k = W->key[arg]; bool c = W->list.Contains(K(k));
    Quiet q; oh = mix(oh, c + 1);
    if (c) { real(k, "contains"); seen.s.insert(k); }
    else { for (int i = 0; i < d; i++) CHECK(W->key[i] != k, "contains(%u) is false although its insert had finished", k); CHECK(!seen.s.count(k), "key %u disappeared", k); }
    CHECK(d || true, " ");
    return oh;
  }
  List::Iterator it(&W->list);
  uint32_t lo = 0;
  if (op == BACKWARD) it.SeekToLast(); else if (op == SEEK || op == MIXED) { lo = W->key[arg]; it.Seek(K(lo)); } else it.SeekToFirst();
  bool have = false; uint32_t last = 0; int steps = 0;
  while (it.Valid()) {
    K k = it.key();
    { Quiet q;
      CHECK(k.w == ~k.v, "a key that is not fully there was seen");
      real(k.v, "iteration"); CHECK(k.v >= lo, "seek went to a smaller key");
      if (have) CHECK(op == BACKWARD ? k.v < last : k.v > last, "keys not in order: %u after %u", k.v, last);
      have = true; last = k.v; got.insert(k.v); oh = mix(oh, k.v + 3);
      CHECK(++steps <= W->n, "iteration does not end"); }
    if (op == BACKWARD) it.Prev();
    else if (op == MIXED && steps == 1) {      // back and forth
      it.Prev();
      if (it.Valid()) { K p = it.key(); Quiet q; CHECK(p.v < lo || p.v < last, "prev is not smaller"); real(p.v, "prev");
        for (int i = 0; i < d; i++) CHECK(!(W->key[i] > p.v && W->key[i] < last), "prev skipped key %u", W->key[i]); }
      else { Quiet q; for (int i = 0; i < d; i++) CHECK(W->key[i] >= last, "prev skipped key %u", W->key[i]); }
      it.Seek(K(last)); CHECK(it.Valid() && it.key().v == last, "a key seen before is not found again"); it.Next();
    } else it.Next();
  }
  Quiet q;
  must(got, d, seen, lo, op == BACKWARD ? "backward" : op == SEEK ? "seek" : op == MIXED ? "back and forth" : "forward");
  for (uint32_t k : got) seen.s.insert(k);
  return oh;
}
struct RProg { int nops; int op[3], arg[3]; uint64_t oh; };
static void reader(RProg* p) { Seen s; p->oh = 0; for (int i = 0; i < p->nops; i++) { uint64_t x = read_op(p->op[i], p->arg[i], s); Quiet q; p->oh = mix(p->oh, x); } }
// orders of n keys
static void setup(World& w, int n, int maxh) {
  Quiet q; W = &w; w.n = n; bool used[8] = {0};
  for (int i = 0; i < n; i++) {
    int c = lmc_choose(n - i, "next key"), k = 0;
    for (;; k++) if (!used[k] && c-- == 0) break;
    used[k] = true; w.key[i] = 10 * (k + 1); w.h[i] = 1 + lmc_choose(maxh, "height"); w.started[i] = false;
  }
}
static void pick(RProg& p, int n, int nops) { p.nops = nops; for (int i = 0; i < nops; i++) { p.op[i] = lmc_choose(NOPS, "read"); p.arg[i] = p.op[i] == FORWARD || p.op[i] == BACKWARD ? 0 : lmc_choose(n, "key"); } }
static void go(int n, int maxh, int nops, int readers) {
  std::unique_ptr<World> wp(new World); World& w = *wp; setup(w, n, maxh); RProg p[2];
  for (int i = 0; i < readers; i++) pick(p[i], n, nops);
  if (readers == 1) run_threads({writer, [&] { reader(&p[0]); }}); else run_threads({writer, [&] { reader(&p[0]); }, [&] { reader(&p[1]); }});
  uint64_t h = 0; for (int i = 0; i < readers; i++) h = mix(h, p[i].oh); lmc_outcome(h);
}
// Complete for one reader: it writes nothing, so every execution looks to it like
// one in which the writer ran first and its loads returned older stores.
static void stale_2x1() { go(2, 2, 1, 1); }
static void stale_2x2() { go(2, 2, 2, 1); }
static void stale_3() { go(3, lmc_tier() ? 3 : 2, 1, 1); }
static void stale_tall() { go(2, 4, 1, 1); }
static void stale_4() { go(4, 2, 1, 1); }
// the lowest and the highest levels, and luck without end
static void tops() {
  static const int H[] = {1, 2, 11, 12, 13, 40};
  std::unique_ptr<World> wp(new World); World& w = *wp; setup(w, lmc_tier() ? 3 : 2, 6); { Quiet q; for (int i = 0; i < w.n; i++) w.h[i] = H[w.h[i] - 1]; }
  RProg p; pick(p, w.n, 1); run_threads({writer, [&] { reader(&p); }}); lmc_outcome(p.oh);
}
// true interleavings
static void inter_1() { go(2, 2, 1, 1); }
static void inter_2r() { go(2, 2, 1, 2); }
static void inter_3() { go(3, 2, 1, 1); }
// the list already has keys; one more is inserted
static void preload() {
  std::unique_ptr<World> wp(new World); World& w = *wp; setup(w, 4, 2); RProg p; pick(p, 4, 1);
  run_threads({[] { int n = W->n; W->n = 3; writer(); W->n = n; }});
  run_threads({[] { set_height(W->h[3]); { Quiet q; W->started[3] = true; } W->list.Insert(K(W->key[3])); W->done.store(4, std::memory_order_release); }, [&] { reader(&p); }});
  lmc_outcome(p.oh);
}
LMC_SCENARIOS(
  {"older_stores_2keys", stale_2x1, {0, 0}, {0, 0}, {-1, -1}, {60, 900}, 0},
  {"older_stores_2keys_2reads", stale_2x2, {0, 0}, {0, 0}, {-1, -1}, {60, 900}, 0},
  {"older_stores_tall", stale_tall, {0, 0}, {0, 0}, {-1, -1}, {60, 900}, 0},
  {"older_stores_tops", tops, {0, 0}, {0, 0}, {2, 3}, {60, 900}, 0},
  {"older_stores_3keys", stale_3, {0, 0}, {0, 0}, {-1, -1}, {60, 900}, 0},
  {"older_stores_4keys", stale_4, {0, 0}, {0, 0}, {4, 8}, {60, 900}, 0},
  {"preloaded", preload, {0, 1}, {0, 0}, {-1, -1}, {60, 900}, 0},
  {"interleaved", inter_1, {3, 5}, {0, 0}, {1, 2}, {60, 900}, 0},
  {"interleaved_3keys", inter_3, {2, 3}, {0, 0}, {1, 2}, {60, 900}, 0},
  {"interleaved_2readers", inter_2r, {1, 3}, {0, 0}, {1, 1}, {60, 900}, 0})
