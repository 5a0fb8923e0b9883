// C01, C02, C03: every bounded history of cache operations against a reference.
#include <algorithm>
#include "cache_common.h"

enum Mode { LOOKUP = 1, LIFE = 2, CAP = 4 };
static bool force_init = (keys(), true);

static std::vector<int>* g_del;           // entry ids whose deleter ran
struct Run;
static Run* g_run;

struct Run {
  int mode; std::shared_ptr<Cache> own; Cache* cache; Model m; std::vector<int> del; std::vector<std::pair<Cache::Handle*, int>> held; std::vector<int> destroyed;
  std::vector<bool> dead;
  uint64_t oh = 1;
  bool want_found_exact;
  Run(int md, size_t cap) : mode(md), m(cap) { g_run = this; own = lsmdb::NewLRUCache(cap); cache = own.get(); }

  void on_delete(const Slice& k, void* v, uintptr_t expect_val) {
    Quiet q;
    uintptr_t val = (uintptr_t)v; int id = (int)(val >> 4) - 1;
    CHECK(val == expect_val, "deleter called with the value of another entry");
    CHECK(id >= 0 && id < (int)m.ents.size() + 1, "deleter called with a value never inserted");
    if (id < (int)dead.size() && dead[id]) lmc_fail("entry %d destroyed twice", id);
    if (id >= (int)dead.size()) dead.resize(id + 1);
    dead[id] = true;
    if (id < (int)m.ents.size()) CHECK(k.size() == m.ents[id].key.size() && !memcmp(k.data(), m.ents[id].key.data(), k.size()), "deleter called with a key that is not its entry's");
    for (auto& h : held) CHECK(h.second != id, "entry %d destroyed while a handle to it is held", id);
    del.push_back(id);
  }
  static uintptr_t value_of(int id) { return ((uintptr_t)(id + 1) << 4) | 5; }

  // compare one step
  void after(const char* what) {
    std::vector<int> d = del, e = m.deleted; del.clear(); m.deleted.clear();
    std::sort(d.begin(), d.end()); std::sort(e.begin(), e.end());
    for (int x : d) oh = mix(oh, x + 7);
    if (mode & CAP) {
      if (d != e) {
        std::string s, t; for (int x : d) s += " " + std::to_string(x); for (int x : e) t += " " + std::to_string(x);
        lmc_fail("%s: entries leaving the cache:%s, expected:%s", what, s.c_str(), t.c_str());
      }
      size_t t = cache->TotalCharge();
      CHECK(t == m.total(), "%s: total charge is %zu, expected %zu", what, t, m.total());
    }
    for (auto& h : held) {
      void* v = cache->Value(h.first);
      CHECK(v == (void*)value_of(h.second), "%s: a held handle no longer gives its value", what);
    }
  }
  void insert(const std::string& k, size_t charge, bool keep) {
    int id = m.ents.size();
    std::vector<char> buf(k.begin(), k.end());
    char dummy = 0;
    uintptr_t val = value_of(id);
    Run* self = this;
    NOTE("insert(%s, entry %d, charge %zu)%s", show(k).c_str(), id, charge, keep ? " keep handle" : "");
    m.insert(k, val, charge);
    Cache::Handle* h = cache->Insert(Slice(buf.empty() ? &dummy : buf.data(), k.size()), (void*)val, charge, [self, val](const Slice& kk, void* v) { self->on_delete(kk, v, val); });
    if (!buf.empty()) memset(buf.data(), 'X', buf.size());         // the caller's bytes are its own again
    CHECK(h != nullptr, "insert returned no handle");
    held.push_back({h, id});
    CHECK(cache->Value(h) == (void*)val, "the handle returned by insert gives another value");
    after("insert");
    if (!keep) release(held.size() - 1);
  }
  int lookup(const std::string& k, bool keep) {
    Cache::Handle* h = cache->Lookup(Slice(k.data(), k.size()));
    int found = -1;
    if (h) { uintptr_t v = (uintptr_t)cache->Value(h); found = (int)(v >> 4) - 1; CHECK(found >= 0 && found < (int)m.ents.size() && v == value_of(found), "lookup returned a value never inserted"); }
    NOTE("lookup(%s) = %d%s", show(k).c_str(), found, keep && h ? " keep handle" : "");
    if (h) {
      CHECK(m.ents[found].key == k, "lookup of %s returned the entry of %s", show(k).c_str(), show(m.ents[found].key).c_str());
      CHECK(!(found < (int)dead.size() && dead[found]), "lookup returned destroyed entry %d", found);
    }
    int exp = m.lookup(k);
    if (mode & (LOOKUP | CAP)) {
      CHECK(found == exp, "lookup(%s) gave %d, expected %d (-1: none)", show(k).c_str(), found, exp);
    } else if (found != exp) lmc_prune();      // another property's business
    oh = mix(oh, found + 3);
    if (h) {
      held.push_back({h, found}); after("lookup");
      if (!keep) release(held.size() - 1);
    } else after("lookup");
    return found;
  }
  void release(size_t i) {
    Cache::Handle* h = held[i].first; int id = held[i].second;
    held.erase(held.begin() + i);
    m.release(id);
    NOTE("release(entry %d)", id);
    cache->Release(h);
    after("release");
  }
  void erase(const std::string& k) { NOTE("erase(%s)", show(k).c_str()); m.erase(k); cache->Erase(Slice(k.data(), k.size())); after("erase"); }
  void prune() { NOTE("prune()"); m.prune(); cache->Prune(); after("prune"); }
  void check_life() {
    if (!(mode & LIFE)) return;
    // destroyed exactly when neither findable nor held
    for (size_t i = 0; i < m.ents.size(); i++) {
      bool d = i < dead.size() && dead[i];
      bool h = false; for (auto& x : held) h |= x.second == (int)i;
      Cache::Handle* l = cache->Lookup(Slice(m.ents[i].key));
      bool f = false;
      if (l) { f = cache->Value(l) == (void*)value_of(i); held.push_back({l, (int)((uintptr_t)cache->Value(l) >> 4) - 1}); Cache::Handle* x = l; held.pop_back(); cache->Release(x); }
      CHECK(!(d && f), "entry %zu was destroyed but can still be found", i);
      CHECK(d || f || h, "entry %zu can neither be found nor is it held, but was not destroyed", i);
    }
    del.clear(); m.deleted.clear();
  }
  void finish(const std::vector<std::string>& ks) {
    if (mode & LIFE) check_life();
    else for (auto& k : ks) lookup(k, false);
    while (!held.empty()) { Cache::Handle* h = held.back().first; int id = held.back().second; held.pop_back(); m.release(id); cache->Release(h); }
    cache = nullptr; own.reset();
    if (mode & LIFE) for (size_t i = 0; i < m.ents.size(); i++) CHECK(i < dead.size() && dead[i], "entry %zu was never destroyed, not even with the cache", i);
    lmc_outcome(oh);
  }
};

struct Alpha {
  std::vector<std::string> ks; std::vector<size_t> charges; bool keep; bool prune; int maxheld;
};
static void step(Run& r, const Alpha& a) {
  int nk = a.ks.size(), nc = a.charges.size(), hv = a.keep ? 2 : 1;
  if ((int)r.held.size() >= a.maxheld) hv = 1;
  int ni = nk * nc * hv, nl = nk * hv, ne = nk, nr = a.keep ? r.held.size() : 0, np = a.prune;
  int c = lmc_choose(ni + nl + ne + nr + np, "operation");
  if (c < ni) { int k = c % nk; c /= nk; int ch = c % nc; c /= nc; r.insert(a.ks[k], a.charges[ch], c == 1); return; }
  c -= ni;
  if (c < nl) { r.lookup(a.ks[c % nk], c / nk == 1); return; }
  c -= nl;
  if (c < ne) { r.erase(a.ks[c]); return; }
  c -= ne;
  if (c < nr) { r.release(c); return; }
  r.prune();
}
static void history(int mode, size_t cap, const Alpha& a, int depth) {
  Run r(mode, cap);
  for (int i = 0; i < depth; i++) step(r, a);
  r.finish(a.ks);
}
static int deep(int q, int t) { return lmc_tier() ? t : q; }
// tens of thousands of entries in one partition: the table grows past every small size
static bool force_crowd = (crowd(lmc_tier() ? 280000 : 70000), true);
static void crowded(int mode) {
  size_t n = deep(70000, 280000); auto& ks = crowd(n);
  size_t room = lmc_choose(2, "bounded") ? n - 3000 : (size_t)1 << 36; int keep = lmc_choose(2, "keep") ? 4999 : 0, stride = 2 + lmc_choose(2, "stride");
  std::shared_ptr<Cache> own = lsmdb::NewLRUCache(room * 16); Cache* c = own.get();
  char* dead = new char[n]; memset(dead, 0, n); size_t ndead = 0; size_t* nd = &ndead; std::vector<Cache::Handle*> hs;
  std::vector<char> in(n, 1); size_t held = 0;
  for (size_t i = 0; i < n; i++) {
    Cache::Handle* h = c->Insert(ks[i], (void*)(i + 1), 1, [dead, nd](const Slice& k, void* v) { size_t j = (size_t)v - 1; CHECK(k == Slice(crowd(0)[j]), "deleter of entry %zu got another key", j); CHECK(!dead[j], "entry %zu destroyed twice", j); dead[j] = 1; ++*nd; });
    CHECK(h && c->Value(h) == (void*)(i + 1), "insert of entry %zu gave a wrong handle", i);
    if (keep && i % keep == 0) { hs.push_back(h); held++; } else c->Release(h);
    if (i % 4096 == 0) lmc_count(1);
  }
  if (mode & CAP) {      // least recently released entries left first
    size_t out = n > room ? n - room : 0; CHECK(ndead == out, "%zu entries left a cache for %zu, %zu inserted", ndead, room, n);
    for (size_t i = 0, o = 0; o < out; i++) { if (keep && i % keep == 0) continue; CHECK(dead[i], "entry %zu is still there, a newer one is not", i); o++; }
    CHECK(c->TotalCharge() == n - out, "the total charge is %zu, not %zu", c->TotalCharge(), n - out);
  } else if (room > n) CHECK(ndead == 0, "%zu entries left a cache that has room", ndead);
  for (size_t i = 0; i < n; i++) in[i] = !dead[i];
  for (size_t i = 0; i < n; i += stride) { c->Erase(ks[i]); if (in[i]) { in[i] = 0; if (!(keep && i % keep == 0)) CHECK(dead[i], "entry %zu erased but not destroyed", i); } }
  for (size_t i = 0; i < n; i++) {
    Cache::Handle* h = c->Lookup(ks[i]); CHECK((h != nullptr) == (bool)in[i], "entry %zu is %s", i, h ? "found although it left" : "not found");
    if (h) { CHECK(c->Value(h) == (void*)(i + 1), "entry %zu has another value", i); c->Release(h); }
  }
  for (size_t j = 0; j < hs.size(); j++) { CHECK(c->Value(hs[j]) == (void*)(j * keep + 1), "a held handle gives another value"); CHECK(!dead[j * keep], "a held entry was destroyed"); c->Release(hs[j]); }
  own.reset(); CHECK(ndead == n, "%zu of %zu entries destroyed", ndead, n); delete[] dead; lmc_outcome(stride);
}
// long keys that agree in all but one byte or in a prefix
static void long_keys(int mode) {
  static const size_t L[] = {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131075, 1 << 20, (1 << 24) + 1};
  size_t n = L[lmc_choose(deep(12, 13), "length")]; int pos = lmc_choose(4, "position");
  std::string k(n, 'q'), k2 = k, k3 = k + "q", k4 = k.substr(0, n & 0xff), k5 = k.substr(0, n & 0xffff);
  k2[pos == 0 ? 0 : pos == 1 ? n / 2 : pos == 2 ? n - 1 : n - 5] = 'r';
  std::vector<std::string> ks{k, k2, k3}; if (k4 != k) ks.push_back(k4); if (k5 != k && k5 != k4) ks.push_back(k5);
  Run r(mode, 1 << 20);
  for (auto& x : ks) r.insert(x, 1, &x == &ks[1]);
  for (auto& x : ks) r.lookup(x, false);
  r.erase(k); for (auto& x : ks) r.lookup(x, false);
  r.insert(k, 1, false); r.insert(k2, 1, false); r.erase(k3);
  r.finish(ks); lmc_count(1);
}

#if defined(CHECK_C01)
// full hash collisions and a chain neighbour, handles dropped at once
static void collide() { history(LOOKUP, 1 << 20, {{keys().a, keys().b, keys().c}, {1}, false, true, 0}, deep(6, 7)); }
static void collide_held() { history(LOOKUP, 1 << 20, {{keys().a, keys().b}, {1}, true, true, 3}, deep(6, 7)); }
// keys that are prefixes of each other, the empty key, embedded zeros
static void prefixes() {
  std::string z1("\0", 1), z2("\0\0", 2);
  history(LOOKUP, 1 << 20, {{"", z1, z2, "a"}, {1}, false, false, 0}, deep(5, 6));
}
static void partitions() { history(LOOKUP, 1 << 20, {{keys().a, keys().b, keys().e, keys().d}, {1}, false, true, 0}, deep(5, 6)); }
// charges, zero included, count nothing in whether a key is found, whatever the key
static void charges_any() { std::string z1("\0", 1); history(LOOKUP, 1 << 20, {{"", z1, keys().a}, {0, 1, 5}, false, true, 0}, deep(4, 5)); }
// one bucket chain: every subset/order of erasures and replacements, then all lookups
static void chain() {
  Run r(LOOKUP, 1 << 20);
  auto ks = std::vector<std::string>(keys().chain.begin(), keys().chain.begin() + deep(5, 6));
  ks.push_back(keys().a); ks.push_back(keys().b);
  for (auto& k : ks) r.insert(k, 1, false);
  int n = deep(5, 6);
  for (int i = 0; i < n; i++) {
    int c = lmc_choose(2 * ks.size(), "erase or replace");
    if (c % 2) r.insert(ks[c / 2], 1, false); else r.erase(ks[c / 2]);
  }
  r.finish(ks);
}
// growth: n entries in one partition; everything stays findable at every size
static void growth() {
  Run r(LOOKUP, 1 << 30);
  int pat = lmc_choose(4, "pattern");
  int n = deep(300, 1200);
  auto& mk = keys().many;
  for (int i = 0; i < n; i++) {
    r.insert(mk[i], 1, false);
    if (pat == 1 && i % 3 == 2) r.erase(mk[i - 1]);
    if (pat == 2 && i % 4 == 3) { r.insert(mk[i - 2], 1, false); r.erase(mk[i / 2]); }
    if (pat == 3 && i % 64 == 63) r.prune();
    if ((i & (i + 1)) == 0 || i % 61 == 0 || i < 40)
      for (int j = 0; j <= i; j++) r.lookup(mk[j], false);
    lmc_count(1);
  }
  r.finish(std::vector<std::string>(mk.begin(), mk.begin() + n));
}
static void growth_held() {      // handles held across resizes
  Run r(LOOKUP, 1 << 30);
  int pat = lmc_choose(3, "pattern"), n = deep(150, 600);
  auto& mk = keys().many;
  for (int i = 0; i < n; i++) {
    r.insert(mk[i], 1, i % 3 == 0);
    if (pat == 1 && i % 5 == 4) r.erase(mk[i - 4]);
    if (pat == 2 && i % 7 == 6) r.release(r.held.size() / 2);
  }
  for (int j = 0; j < n; j++) r.lookup(mk[j], false);
  r.finish({});
}
// all partitions, tens of thousands of entries
static void large() {
  Run r(LOOKUP, (size_t)1 << 40);
  Cache* c = r.cache; int n = deep(20000, 100000);
  auto key = [](int i) { std::string s; for (int b = 0; b < 4; b++) s += (char)(i * 2654435761u >> (8 * b)); s += (char)(i & 3); return s; };
  int step = lmc_choose(3, "erase stride") + 2;
  for (int i = 0; i < n; i++) { std::string k = key(i); c->Release(c->Insert(k, (void*)(uintptr_t)(i + 1), 1, [](const Slice&, void*) {})); }
  for (int i = 0; i < n; i += step) c->Erase(key(i));
  for (int i = 0; i < n; i++) {
    Cache::Handle* h = c->Lookup(key(i));
    bool gone = i % step == 0;
    CHECK((h == nullptr) == gone, "after %d inserts, key %d is %s", n, i, h ? "still found although erased" : "not found although never erased");
    if (h) { CHECK(c->Value(h) == (void*)(uintptr_t)(i + 1), "key %d gives the value of another key", i); c->Release(h); }
  }
  lmc_count(n);
  r.own.reset();
}
// key lengths: every length to 40 and every byte position matters
static void lengths() {
  Run r(LOOKUP, 1 << 20);
  int len = lmc_choose(41, "length"), pos = len ? lmc_choose(len, "position") : 0;
  std::string k(len, 'q'), k2 = k + "q", k3 = k; if (len) k3[pos] ^= (char)0x80;
  r.insert(k, 1, false); r.insert(k2, 1, false); if (len) r.insert(k3, 1, false);
  r.erase(k2); r.lookup(k, false); r.lookup(k2, false); if (len) r.lookup(k3, false);
  r.insert(k2, 1, false); r.erase(k);
  r.finish({k, k2, k3});
}
// with eviction: found exactly when not evicted, as the deleters tell
static void evict(size_t cap, const Alpha& a, int depth) {
  Run r(0, cap);
  for (int i = 0; i < depth; i++) step(r, a);
  for (auto& k : a.ks) {
    int last = -1; for (size_t i = 0; i < r.m.ents.size(); i++) if (r.m.ents[i].key == k) last = i;
    if (last < 0) continue;
    Cache::Handle* h = r.cache->Lookup(k);
    bool dead = last < (int)r.dead.size() && r.dead[last];
    if (h) { CHECK(r.cache->Value(h) == (void*)Run::value_of(last), "lookup gave an older entry"); CHECK(!dead, "found a destroyed entry"); r.cache->Release(h); }
  }
  while (!r.held.empty()) r.release(r.held.size() - 1);
  r.own.reset();
}
static void evicting() { evict(32, {{keys().a, keys().b, keys().c}, {1}, true, false, 2}, deep(5, 6)); }
// charges beyond what a partition has room for: such an entry is found for as long as it is there
static void oversize() { history(LOOKUP, 32, {{keys().a, keys().b}, {0, 3, 1000}, true, true, 2}, deep(4, 5)); }
static void oversize_released() { evict(32, {{keys().a, keys().b, keys().e}, {1, 3, (size_t)1 << 40}, true, true, 2}, deep(4, 4)); }
LMC_SCENARIOS(
  {"collide", collide, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"collide_held", collide_held, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"prefixes", prefixes, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"partitions", partitions, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"charges", charges_any, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"chain", chain, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"growth", growth, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"growth_held", growth_held, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"large", large, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"lengths", lengths, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"long_keys", [] { long_keys(LOOKUP); }, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"crowded", [] { crowded(LOOKUP); }, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"oversize", oversize, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"oversize_released", oversize_released, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"evicting", evicting, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})

#elif defined(CHECK_C02)
static void life() { history(LIFE, 1 << 20, {{keys().a, keys().b}, {1}, true, true, 3}, deep(6, 7)); }
static void life_small() { history(LIFE, 16, {{keys().a, keys().b, keys().c}, {1}, true, true, 3}, deep(5, 6)); }
static void life_zero() { history(LIFE, 0, {{keys().a, keys().b}, {0, 1}, true, true, 4}, deep(5, 6)); }
static void life_over() { history(LIFE, 32, {{keys().a, keys().d}, {0, 1, 3}, true, true, 3}, deep(5, 6)); }
static void life_parts() { history(LIFE, 16, {{keys().a, keys().e, keys().shardkeys[0], keys().shardkeys[15]}, {1}, true, true, 2}, deep(4, 5)); }
// very many handles on one entry
static void many_handles() {
  static const int ns[] = {255, 256, 257, 65535, 65536, 65537, 140000};
  int n = ns[lmc_choose(7, "handles")]; int how = lmc_choose(3, "how it leaves the cache");
  std::shared_ptr<Cache> own = lsmdb::NewLRUCache(1 << 20); Cache* c = own.get();
  int* dead = new int(0);
  std::vector<Cache::Handle*> hs;
  hs.push_back(c->Insert("key", (void*)7, 1, [dead](const Slice& k, void* v) { CHECK(v == (void*)7 && k == Slice("key"), "deleter arguments"); ++*dead; }));
  for (int i = 1; i < n; i++) { Cache::Handle* h = c->Lookup("key"); CHECK(h, "lookup failed with %d handles", i); hs.push_back(h); if (i % 5000 == 0) lmc_count(1); }
  if (how == 1) c->Erase("key");
  if (how == 2) c->Release(c->Insert("key", (void*)9, 1, [](const Slice&, void*) {}));
  for (int i = 0; i < n; i++) {
    CHECK(*dead == 0, "destroyed with %d of %d handles outstanding", n - i, n);
    CHECK(c->Value(hs[i]) == (void*)7, "handle gives another value");
    c->Release(hs[i]);
  }
  if (how == 0) { CHECK(*dead == 0, "destroyed while cached"); c->Erase("key"); }
  CHECK(*dead == 1, "not destroyed after the last release");
  own.reset();
  CHECK(*dead == 1, "destroyed twice");
}
// all memory of entries is returned with the cache
static void memory() {
  size_t live0 = lmc_heap_live();
  std::shared_ptr<Cache> own = lsmdb::NewLRUCache(lmc_choose(2, "small") ? 64 : 1 << 20); Cache* c = own.get();
  int n = lmc_choose(40, "entries"); int dead = 0; int* dp = &dead;
  for (int i = 0; i < n; i++) {
    char k[20]; snprintf(k, sizeof k, "key%d", i % 30);
    c->Release(c->Insert(k, nullptr, 1, [dp](const Slice&, void*) { ++*dp; }));
    if (i % 7 == 3) c->Erase(k);
  }
  own.reset();
  CHECK(dead == n, "%d of %d entries destroyed", dead, n);
  CHECK(lmc_heap_live() == live0, "%zu bytes not returned", lmc_heap_live() - live0);
}
LMC_SCENARIOS(
  {"life", life, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"life_small", life_small, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"life_zero", life_zero, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"life_over", life_over, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"life_partitions", life_parts, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"many_handles", many_handles, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"long_keys", [] { long_keys(LIFE); }, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"crowded", [] { crowded(LIFE); }, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"memory", memory, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})

#elif defined(CHECK_C03)
static void lru1() { history(CAP, 16, {{keys().a, keys().b, keys().c}, {1}, true, true, 2}, deep(5, 6)); }
static void lru2() { history(CAP, 32, {{keys().a, keys().b, keys().c}, {1}, true, true, 2}, deep(5, 6)); }
static void lru2_nohold() { history(CAP, 32, {{keys().a, keys().b, keys().c, keys().d}, {1}, false, true, 0}, deep(5, 7)); }
static void charges() { history(CAP, 48, {{keys().a, keys().b, keys().d}, {0, 1, 2, 4}, false, false, 0}, deep(5, 5)); }
static void charges_held() { history(CAP, 48, {{keys().a, keys().b}, {1, 2, 4}, true, true, 3}, deep(4, 5)); }
static void zero() { history(CAP, 0, {{keys().a, keys().b, keys().e}, {0, 1}, true, true, 2}, deep(4, 5)); }
static void parts() { history(CAP, 17, {{keys().a, keys().b, keys().e, keys().shardkeys[0], keys().shardkeys[15]}, {1, 2}, false, true, 0}, deep(4, 5)); }
// capacity rounding and extreme capacities / charges
static void capacities() {
  static const size_t caps[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 1000, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 36, ((size_t)1 << 36) + 16, (size_t)1 << 40, SIZE_MAX / 2, SIZE_MAX - 16, SIZE_MAX - 15, SIZE_MAX - 14, SIZE_MAX - 1, SIZE_MAX};
  size_t cap = caps[lmc_choose(sizeof caps / sizeof *caps, "capacity")];
  Run r(CAP, cap);
  size_t per = r.m.cap;
  size_t chs[] = {1, 0, per, per > 1 ? per - 1 : 1, per / 2, per + 1 ? per + 1 : per, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1};
  const KeySet& K = keys();
  std::vector<std::string> ks{K.a, K.b, K.d, K.many[0], K.many[1]};
  for (int i = 0; i < 4; i++) {
    size_t ch = chs[lmc_choose(9, "charge")];
    if (r.m.total() + ch < ch) lmc_prune();           // the sum itself would overflow
    bool ovf = false; for (int s = 0; s < 16; s++) ovf |= r.m.usage[s] + ch < ch;
    if (ovf) lmc_prune();
    r.insert(ks[i], ch, false);
  }
  r.finish(ks);
}
// exact fit at every small capacity: n entries of charge 1, in one partition, one touched
static void fit() {
  int per = 1 + lmc_choose(deep(12, 40), "share"); int off = lmc_choose(2, "rounding");
  Run r(CAP, off ? (size_t)16 * per : (size_t)16 * (per - 1) + 1);
  auto& mk = keys().many;
  int touch = lmc_choose(per, "touched entry");
  int hold = lmc_choose(per + 1, "held entry");
  for (int i = 0; i < per; i++) r.insert(mk[i], 1, i == hold);
  r.lookup(mk[touch], false);
  for (int i = 0; i < 3; i++) r.insert(mk[per + i], 1, false);
  r.finish(std::vector<std::string>(mk.begin(), mk.begin() + per + 3));
}
// one insert that must push out many others, some of them held
static void mass() {
  static const int N[] = {15, 16, 17, 31, 33, 63, 65, 100, 129, 257, 300}; int n = N[lmc_choose(11, "entries")];
  static const int H[] = {0, 2, 3, 10, 1000}; int hold = H[lmc_choose(5, "held: every")]; size_t ch = lmc_choose(2, "charge") + 1;
  size_t big = (size_t)n * ch; int b = lmc_choose(5, "big charge"); big = b == 0 ? big : b == 1 ? big / 2 : b == 2 ? big - 1 : b == 3 ? big + 1 : 3;
  Run r(CAP, (size_t)16 * n * ch); auto& mk = keys().many;
  for (int i = 0; i < n; i++) r.insert(mk[i], ch, hold && i % hold == hold - 1);
  if (lmc_choose(2, "touch")) for (int i = 0; i < n; i += 5) r.lookup(mk[i], false);
  r.insert(mk[n], big, false);
  while (!r.held.empty()) r.release(0);
  r.insert(mk[n + 1], big, false); r.insert(mk[n + 2], 1, false);
  r.finish(std::vector<std::string>(mk.begin(), mk.begin() + n + 3));
}
// thousands of entries that must all go at once, by a prune or for one large entry; entries in use stay
static void emptied() {
  static const size_t N[] = {999, 1000, 1001, 1025, 4097, 10001, 65537, 70000}; size_t n = N[lmc_choose(8, "entries")]; auto& ks = crowd(n + 1); bool prune = lmc_choose(2, "prune"); size_t keep = lmc_choose(2, "keep") ? 7 : 0;
  std::shared_ptr<Cache> own = lsmdb::NewLRUCache(n * 16); Cache* c = own.get(); char* dead = new char[n + 1]; memset(dead, 0, n + 1); std::vector<Cache::Handle*> hs; size_t held = 0;
  for (size_t i = 0; i < n; i++) { Cache::Handle* h = c->Insert(ks[i], (void*)i, 1, [dead](const Slice&, void* v) { CHECK(!dead[(size_t)v], "entry %zu destroyed twice", (size_t)v); dead[(size_t)v] = 1; }); if (keep && i % keep == 0) { hs.push_back(h); held++; } else c->Release(h); }
  CHECK(c->TotalCharge() == n, "the total charge is %zu, not %zu", c->TotalCharge(), n);
  if (prune) c->Prune(); else { Cache::Handle* h = c->Insert(ks[n], (void*)n, n, [dead](const Slice&, void* v) { dead[(size_t)v] = 1; }); c->Release(h); }
  for (size_t i = 0; i < n; i++) { bool in = keep && i % keep == 0; CHECK(dead[i] == !in, "entry %zu of %zu is %s after %s", i, n, dead[i] ? "gone, although in use," : "still there", prune ? "a prune" : "inserting an entry as large as all others"); }
  size_t t = held + (prune ? 0 : n); CHECK(c->TotalCharge() == t, "the total charge is %zu, not %zu", c->TotalCharge(), t);
  for (auto h : hs) c->Release(h); own.reset(); for (size_t i = 0; i < n; i++) CHECK(dead[i], "entry %zu is never destroyed", i); delete[] dead; lmc_count(n);
}
// long deterministic runs over every partition against the model
static void longrun() {
  int s = lmc_choose(deep(24, 200), "run");
  static const size_t caps[] = {100, 333, 1600, 16, 4096};
  Run r(CAP, caps[s % 5]);
  uint32_t x = 12345 + 977 * s + (uint32_t)lmc_seed() * 7919;
  auto rnd = [&](uint32_t n) { x = x * 1664525u + 1013904223u; return (x >> 9) % n; };
  std::vector<std::string> ks;
  for (int i = 0; i < 60; i++) ks.push_back(i % 3 ? keys().many[i] : keys().shardkeys[i % 16]);
  for (int i = 0; i < deep(400, 1500); i++) {
    int op = rnd(20);
    if (op < 8) r.insert(ks[rnd(60)], rnd(4), rnd(6) == 0);
    else if (op < 14) r.lookup(ks[rnd(60)], rnd(6) == 0);
    else if (op < 16) r.erase(ks[rnd(60)]);
    else if (op < 19) { if (!r.held.empty()) r.release(rnd(r.held.size())); }
    else if (rnd(8) == 0) r.prune();
  }
  r.finish(ks);
}
LMC_SCENARIOS(
  {"lru1", lru1, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"lru2", lru2, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"lru2_nohold", lru2_nohold, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"charges", charges, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"charges_held", charges_held, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"zero", zero, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"partitions", parts, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"capacities", capacities, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"mass", mass, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"crowded", [] { crowded(CAP); }, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"emptied", emptied, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"fit", fit, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"longrun", longrun, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
#endif
