// C04: every interleaving of small concurrent programs on one cache.
#include <algorithm>
#include "cache_common.h"
static bool force_init = (keys(), true);

enum { INS, LOOK, REL, ERA, PRUNE, TOTAL, NEWID };
struct COp {
  int kind; std::string key; int id; size_t charge; size_t total; uint64_t inv, res; int shard;
};
// sequential model for the search: each op takes effect at one instant;
// PRUNE is split per partition by the caller
struct CModel {
  Model m;
  explicit CModel(size_t cap) : m(cap) { m.ents.reserve(16); }
  std::vector<int> idmap;             // global entry id -> model entry
  bool apply(const COp& o) {
    switch (o.kind) {
      case INS: { int e = m.insert(o.key, 0, o.charge); if ((int)idmap.size() <= o.id) idmap.resize(o.id + 1, -1); idmap[o.id] = e; return true; }
      case LOOK: { int e = m.lookup(o.key); if (o.id < 0) return e < 0; return o.id < (int)idmap.size() && idmap[o.id] == e && e >= 0; }
      case REL: { int e = o.id < (int)idmap.size() ? idmap[o.id] : -1; if (e < 0 || !m.ents[e].held) return false; m.release(e); return true; }
      case ERA: m.erase(o.key); return true;
      case PRUNE: { auto& l = m.lru[o.shard]; while (!l.empty()) m.out(l[0]); return true; }
      case TOTAL: return m.usage[o.shard] == o.total;
    }
    return true;
  }
};

struct World {
  std::shared_ptr<Cache> own; Cache* c; size_t cap;
  std::vector<COp> ops;
  int next = 0;
  int held[64]; int dead[64]; std::string key[64]; size_t charge[64];
  std::vector<uint64_t> ids;
  std::set<int> shards;
  uint64_t oh = 5;
  explicit World(size_t cp) : own(lsmdb::NewLRUCache(cp)), c(own.get()), cap(cp) { memset(held, 0, sizeof held); memset(dead, 0, sizeof dead); ops.reserve(32); }
  void on_delete(const Slice& k, void* v, int id) {
    Quiet q;
    CHECK((uintptr_t)v == (uintptr_t)(id + 1) * 16, "deleter called with another entry's value");
    CHECK(k == Slice(key[id]), "deleter called with another entry's key");
    CHECK(!held[id], "entry %d destroyed while a thread holds it", id);
    CHECK(!dead[id], "entry %d destroyed twice", id);
    dead[id] = 1;
  }
  Cache::Handle* insert(const std::string& k, size_t charge, int* pid) {
    int id; uint64_t t0;
    { Quiet q; id = next++; key[id] = k; this->charge[id] = charge; t0 = lmc_tick(); }
    World* w = this;
    Cache::Handle* h = c->Insert(Slice(k), (void*)((uintptr_t)(id + 1) * 16), charge, [w, id](const Slice& k, void* v) { w->on_delete(k, v, id); });
    { Quiet q; held[id]++; ops.push_back({INS, k, id, charge, 0, t0, lmc_tick(), 0}); NOTE("insert(%s) entry %d", show(k).c_str(), id);
      CHECK(!dead[id], "insert returned a handle to an entry already destroyed"); }
    check(h, id); *pid = id; return h;
  }
  Cache::Handle* lookup(const std::string& k, int* pid) {
    uint64_t t0; { Quiet q; t0 = lmc_tick(); }
    Cache::Handle* h = c->Lookup(Slice(k));
    int id = -1;
    if (h) { uintptr_t v = (uintptr_t)c->Value(h); Quiet q; id = (int)(v / 16) - 1; CHECK(v % 16 == 0 && id >= 0 && id < next, "lookup gave a value never inserted"); CHECK(key[id] == k, "lookup gave another key's entry"); CHECK(!dead[id], "lookup gave a destroyed entry"); held[id]++; }
    { Quiet q; ops.push_back({LOOK, k, id, 0, 0, t0, lmc_tick(), 0}); oh = mix(oh, id + 9); NOTE("lookup(%s) = %d", show(k).c_str(), id); }
    *pid = id; return h;
  }
  void check(Cache::Handle* h, int id) {
    void* v = c->Value(h);
    CHECK(v == (void*)((uintptr_t)(id + 1) * 16), "held handle to entry %d gives another value", id);
  }
  void release(Cache::Handle* h, int id) {
    check(h, id);
    uint64_t t0; { Quiet q; t0 = lmc_tick(); held[id]--; }
    c->Release(h);
    { Quiet q; ops.push_back({REL, "", id, 0, 0, t0, lmc_tick(), 0}); NOTE("released entry %d", id); }
  }
  void erase(const std::string& k) {
    uint64_t t0; { Quiet q; t0 = lmc_tick(); }
    c->Erase(Slice(k));
    { Quiet q; ops.push_back({ERA, k, -1, 0, 0, t0, lmc_tick(), 0}); NOTE("erased %s", show(k).c_str()); }
  }
  void prune() {
    uint64_t t0; { Quiet q; t0 = lmc_tick(); }
    c->Prune();
    { Quiet q; uint64_t t1 = lmc_tick(); for (int s : shards) ops.push_back({PRUNE, "", -1, 0, 0, t0, t1, s}); NOTE("pruned"); }
  }
  size_t total(bool record) {
    uint64_t t0; { Quiet q; t0 = lmc_tick(); }
    size_t t = c->TotalCharge();
    if (record) { Quiet q; uint64_t t1 = lmc_tick(); CHECK(shards.size() == 1, "harness: total needs one partition"); ops.push_back({TOTAL, "", -1, 0, t, t0, t1, *shards.begin()}); oh = mix(oh, t + 77); NOTE("total = %zu", t); }
    return t;
  }
  void newid() {
    uint64_t i = c->NewId();
    Quiet q; for (uint64_t x : ids) CHECK(x != i, "id %llu handed out twice", (unsigned long long)i); ids.push_back(i);
  }
  void finish(const std::vector<std::string>& ks) {
    // at rest: look at what is there
    for (auto& k : ks) { int id; Cache::Handle* h = lookup(k, &id); if (h) release(h, id); }
    size_t t = c->TotalCharge();
    {
      Quiet q;
      CModel m(cap);
      CModel fin(cap); std::string why;
      bool ok = linearizable<CModel, COp>(m, ops, 0, &fin, [&](const CModel& mm) { return mm.m.total() == t; });
      if (!ok) {
        std::string s;
        for (auto& o : ops) { char b[200]; static const char* nm[] = {"insert", "lookup", "release", "erase", "prune", "total", "newid"}; snprintf(b, sizeof b, " %s(%s)#%d[%llu-%llu]", nm[o.kind], show(o.key).c_str(), o.kind == TOTAL ? (int)o.total : o.id, (unsigned long long)o.inv, (unsigned long long)o.res); s += b; }
        lmc_fail("no sequential order explains the results; final total %zu;%s", t, s.c_str());
      }
    }
    c = nullptr; own.reset();
    Quiet q;
    for (int i = 0; i < next; i++) CHECK(dead[i], "entry %d never destroyed", i);
    lmc_outcome(oh);
  }
};
static World* W;

struct Prog { int op[3]; int n; const std::vector<std::string>* ks; };
// ops: 0..k-1 insert+release, k..2k-1 insert and hold to the end, lookup+release, lookup hold, erase, prune, total, newid
struct Menu { std::vector<std::pair<int, int>> items; };   // (kind, key)
enum { M_INS, M_INSH, M_LOOK, M_LOOKH, M_ERA, M_PRUNE, M_TOTAL, M_NEWID };
static const Menu* g_menu; static std::vector<std::string> g_ks;
static void run_prog(void* a) {
  Prog* p = (Prog*)a;
  Cache::Handle* hold[3]; int hid[3], nh = 0;
  for (int i = 0; i < p->n; i++) {
    auto it = g_menu->items[p->op[i]]; int id; Cache::Handle* h;
    const std::string& k = g_ks[it.second];
    switch (it.first) {
      case M_INS: h = W->insert(k, 1, &id); W->release(h, id); break;
      case M_INSH: h = W->insert(k, 1, &id); hold[nh] = h; hid[nh++] = id; break;
      case M_LOOK: if ((h = W->lookup(k, &id))) W->release(h, id); break;
      case M_LOOKH: if ((h = W->lookup(k, &id))) { hold[nh] = h; hid[nh++] = id; } break;
      case M_ERA: W->erase(k); break;
      case M_PRUNE: W->prune(); break;
      case M_TOTAL: W->total(true); break;
      case M_NEWID: W->newid(); break;
    }
    for (int j = 0; j < nh; j++) W->check(hold[j], hid[j]);
  }
  for (int j = 0; j < nh; j++) W->release(hold[j], hid[j]);
}
static void go(size_t cap, const std::vector<std::string>& ks, const Menu& menu, int nthr, const int* len, int inits) {
  g_ks = ks; g_menu = &menu;
  int init = inits > 1 ? lmc_choose(inits, "initial contents") : 0;
  Prog pr[3]; int nm = menu.items.size();
  bool sym = true; for (int t = 1; t < nthr; t++) sym &= len[t] == len[0];
  long prev = -1;
  for (int t = 0; t < nthr; t++) {
    pr[t].n = len[t]; long code = 0;
    for (int i = 0; i < len[t]; i++) { pr[t].op[i] = lmc_choose(nm, "op"); code = code * nm + pr[t].op[i]; }
    if (sym && code < prev) lmc_prune();           // threads are interchangeable
    prev = code;
  }
  World w(cap); W = &w;
  for (auto& k : ks) w.shards.insert(shard_of(k));
  Cache::Handle* h0 = nullptr; int id0 = -1;
  if (init >= 1) { h0 = w.insert(ks[0], 1, &id0); if (init == 1) { w.release(h0, id0); h0 = nullptr; } }
  if (init == 3) { int id1; Cache::Handle* h1 = w.insert(ks.back(), 1, &id1); w.release(h1, id1); }
  static const char* nm3[] = {"t1", "t2", "t3"};
  void (*fn[3])(void*) = {run_prog, run_prog, run_prog}; void* ar[3] = {&pr[0], &pr[1], &pr[2]};
  lmc_run(nthr, fn, ar, nm3);
  if (h0) w.release(h0, id0);
  w.finish(ks);
  W = nullptr;
}
static const Menu full{{{M_INS, 0}, {M_INSH, 0}, {M_LOOK, 0}, {M_LOOKH, 0}, {M_ERA, 0}, {M_INS, 1}, {M_LOOK, 1}, {M_ERA, 1}}};
static const Menu heavy{{{M_INS, 0}, {M_LOOKH, 0}, {M_ERA, 0}, {M_PRUNE, 0}, {M_TOTAL, 0}, {M_INS, 1}}};
static const Menu small{{{M_INS, 0}, {M_LOOKH, 0}, {M_ERA, 0}, {M_INS, 1}}};
static const Menu parts{{{M_INS, 0}, {M_INS, 1}, {M_LOOKH, 0}, {M_LOOKH, 1}, {M_ERA, 0}, {M_PRUNE, 0}}};
static const Menu ids{{{M_NEWID, 0}, {M_INS, 0}}};
static const Menu tiny{{{M_INS, 0}, {M_LOOKH, 0}, {M_ERA, 0}}};
static const int L22[] = {2, 2}, L21[] = {2, 1}, L111[] = {1, 1, 1}, L222[] = {2, 2, 2}, L33[] = {3, 3}, L211[] = {2, 1, 1}, L11[] = {1, 1};
static void two_tight() { go(16, {keys().a, keys().b}, full, 2, L22, 4); }        // one unit per partition
static void two_roomy() { go(1 << 20, {keys().a, keys().b}, full, 2, L22, 3); }
static void two_zero() { go(0, {keys().a, keys().b}, small, 2, L22, 1); }
static void two_long() { go(16, {keys().a, keys().b}, small, 2, L33, 3); }
static void three_short() { go(16, {keys().a, keys().b}, full, 3, L111, 4); }
static void three_deep() { go(16, {keys().a, keys().b}, tiny, 3, L222, 2); }
static void prune_total() { go(16, {keys().a, keys().b}, heavy, 2, L22, 3); }
static void prune3() { go(32, {keys().a, keys().b}, heavy, 3, L111, 3); }
static void partitions() { go(16, {keys().a, keys().e}, parts, 2, L22, 4); }
static void newids() { go(16, {keys().a}, ids, 3, lmc_tier() ? L222 : L211, 1); }
// very many ids, in several caches at a time
static void many_ids() {
  size_t n = lmc_tier() ? (1 << 25) : (1 << 21); std::shared_ptr<Cache> own = lsmdb::NewLRUCache(100), two = lsmdb::NewLRUCache(100); Cache* c = own.get();
  std::vector<uint64_t>* v; { Quiet q; v = new std::vector<uint64_t>; v->reserve(n); }
  for (size_t i = 0; i < n; i++) { uint64_t id = c->NewId(); if (i % 1000 == 0) { (void)two->NewId(); c->Release(c->Insert("k", nullptr, 1, [](const Slice&, void*) {})); } Quiet q; v->push_back(id); if (i % 100000 == 0) lmc_count(1); }
  Quiet q; bool up = true; for (size_t i = 1; i < n && up; i++) up = (*v)[i] > (*v)[i - 1]; if (!up) { std::sort(v->begin(), v->end()); for (size_t i = 1; i < n; i++) CHECK((*v)[i] != (*v)[i - 1], "of %zu ids of one cache two are %llu", n, (unsigned long long)(*v)[i]); } delete v;
}
// the table grows (4 -> 8 -> 16 buckets) while others look up
static void growing() {
  World w(1 << 20); W = &w;
  static std::vector<std::string>* ks; std::vector<std::string> v;
  { Quiet q; v.assign(keys().chain.begin(), keys().chain.begin() + 7); ks = &v; for (auto& k : v) w.shards.insert(shard_of(k)); }
  int pre = lmc_choose(2, "entries already there") * 2 + 2;
  for (int i = 0; i < pre; i++) { int id; auto h = w.insert(v[i], 1, &id); w.release(h, id); }
  struct A { int lo, hi, look; };
  A a1{pre, pre + 2, 0}, a2{pre + 2, pre + 3, lmc_choose(2, "looked up key")};
  auto fn = [](void* p) {
    A* a = (A*)p;
    for (int i = a->lo; i < a->hi; i++) { int id; auto h = W->insert((*ks)[i], 1, &id); W->release(h, id); }
    int id; auto h = W->lookup((*ks)[a->look], &id); CHECK(h, "an entry nobody removed was not found"); W->release(h, id);
  };
  run_threads({[&] { fn(&a1); }, [&] { fn(&a2); }});
  w.finish(v); W = nullptr;
}
LMC_SCENARIOS(
  {"two_tight", two_tight, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"two_roomy", two_roomy, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"two_zero", two_zero, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"three_short", three_short, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"prune_total", prune_total, {2, 3}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"prune3", prune3, {1, 3}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"partitions", partitions, {2, 3}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"newids", newids, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"many_ids", many_ids, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"growing", growing, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"two_long", two_long, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, LMC_THOROUGH_ONLY},
  {"three_deep", three_deep, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, LMC_THOROUGH_ONLY})
