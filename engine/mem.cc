// Memory of the code under test: heap with exact bounds, use-after-free and
// data-race detection, and a release/acquire weak-memory model for atomics.
// This file is the runtime behind clang's -fsanitize=thread instrumentation.
#include <errno.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <new>
#include "internal.h"

namespace lmc {

typedef uintptr_t uptr;
static char* const POOL = (char*)0x200000000000ull;
static const size_t POOLSZ = 1ull << 30;
static const size_t STATIC_SZ = 4 << 20;      // allocations made while loading
static size_t g_static_top = 64, g_top, g_maxtop;
static size_t g_live_bytes, g_live_blocks;
static uint64_t g_access;
static const uint64_t kAccessLimit = 600ull * 1000 * 1000;

struct Valid { uint32_t exec; uint8_t bytes, freed, wmask, pad; };   // per 8 bytes
static Valid* g_valid;
struct Slot { uint32_t clk; uint8_t tid, mask, atomic, used; };
struct Cell { uint32_t exec; uint32_t nr; Slot w; Slot r[6]; };
static Cell* g_cells;                         // pool
struct Module { char* lo; char* hi; Cell* cells; char* snap; };
static Module g_mod[16]; static int g_nmod;
static char* g_static_snap;
static size_t g_static_snap_n;

struct Hdr { uint64_t size; uint32_t magic; uint8_t kind, counted, live; uint8_t off; };
static const uint32_t MAGIC = 0x4c4d4321;

static void* reserve(void* at, size_t n) {
  void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED) { perror("mmap reserve"); exit(2); }
  return p;
}
void mem_init() {
  reserve(POOL, POOLSZ);
  g_valid = (Valid*)reserve(nullptr, POOLSZ / 8 * sizeof(Valid));
  g_cells = (Cell*)reserve(nullptr, POOLSZ / 8 * sizeof(Cell));
  madvise(g_cells, POOLSZ / 8 * sizeof(Cell), MADV_NOHUGEPAGE);
}
void mem_add_module(char* lo, char* hi) {
  Module& m = g_mod[g_nmod++];
  m.lo = lo; m.hi = hi;
  m.cells = (Cell*)reserve(nullptr, ((hi - lo) / 8 + 2) * sizeof(Cell));
  m.snap = nullptr;
}
void mem_snapshot() {
  for (int i = 0; i < g_nmod; i++) { Module& m = g_mod[i]; m.snap = (char*)malloc(m.hi - m.lo); memcpy(m.snap, m.lo, m.hi - m.lo); }
  g_static_snap_n = g_static_top;
  g_static_snap = (char*)malloc(g_static_snap_n); memcpy(g_static_snap, POOL, g_static_snap_n);
}
// ---- atomic locations ---------------------------------------------------------
struct Store { uint64_t val; Clock clk; uint8_t sc, init; };
struct Loc { std::vector<Store> h; uint32_t last_sc = 0; uint8_t size = 0; uptr addr = 0; };
static std::unordered_map<uptr, int> g_locid;
static std::vector<Loc> g_locs;
static Clock g_scfence;

struct Free { size_t off; };
static std::map<size_t, std::vector<void*>> g_freelist;

// blocks too big for the pool: bounds are guarded by page protection only
struct Huge { char* p; size_t n; int kind; };
static std::vector<Huge> g_huge;
static void* huge_alloc(size_t n, int kind) {
  Eng e;
  if (n > (1ull << 40)) return nullptr;
  size_t k = (n + 4095) & ~4095ul;
  char* m = (char*)mmap(nullptr, k + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return nullptr;
  mprotect(m + k, 4096, PROT_NONE);
  g_huge.push_back({m, n, kind}); g_live_bytes += n; g_live_blocks++;
  return m;
}
static bool huge_free(void* p, int kind) {
  Eng e;
  for (size_t i = 0; i < g_huge.size(); i++) if (g_huge[i].p == p) {
    if (kind >= 0 && g_huge[i].kind != kind) fail("block released with the wrong function");
    munmap(p, ((g_huge[i].n + 4095) & ~4095ul) + 4096); g_live_bytes -= g_huge[i].n; g_live_blocks--; g_huge.erase(g_huge.begin() + i); return true;
  }
  return false;
}
void mem_reset() {
  for (int i = 0; i < g_nmod; i++) { Module& m = g_mod[i]; memcpy(m.lo, m.snap, m.hi - m.lo); }
  memcpy(POOL, g_static_snap, g_static_snap_n);
  g_top = STATIC_SZ;
  while (!g_huge.empty()) huge_free(g_huge.back().p, -1);
  g_live_bytes = g_live_blocks = 0; g_access = 0;
  if (!g_locid.empty()) { g_locid.clear(); g_locs.clear(); }
  g_scfence.clear();
  if (!g_freelist.empty()) g_freelist.clear();
  // exec ids never wrap in practice
}
bool pool_owns(const void* p) { return (uptr)p - (uptr)POOL < POOLSZ; }

static inline void mark(char* p, size_t n, uint8_t freed, bool inited) {
  size_t g = (p - POOL) / 8, k = n / 8;
  Valid v; v.exec = g_exec_id; v.bytes = 8; v.freed = freed; v.wmask = inited ? 0xff : 0; v.pad = 0;
  for (size_t i = 0; i < k; i++) g_valid[g + i] = v;
  if (n & 7) { v.bytes = n & 7; g_valid[g + k] = v; }
}
// What a static keeps for good is no leak.
static inline bool counts() { return !g_quiet && !(g_cur >= 0 && g_fib[g_cur].statics); }
void* pool_alloc(size_t n, size_t align, int kind) {
  if (n > POOLSZ / 16) return huge_alloc(n, kind);
  if (align < 16) align = 16;
  if (g_loading || !g_exec) {
    size_t a = (g_static_top + 16 + align - 1) & ~(align - 1);
    if (a + n + 32 > STATIC_SZ) { fprintf(stderr, "static pool exhausted\n"); abort(); }
    g_static_top = a + ((n + 15) & ~15ul) + 16;
    Hdr* h = (Hdr*)(POOL + a - 16); h->size = n; h->magic = MAGIC; h->kind = kind; h->counted = 0; h->live = 1;
    uint32_t s = g_exec_id; g_exec_id = 0; mark(POOL + a, n, 0, true); g_exec_id = s;
    return POOL + a;
  }
  if (g_top > POOLSZ / 2) {              // long executions: recycle old blocks
    auto it = g_freelist.find(n);
    if (it != g_freelist.end() && !it->second.empty() && align <= 16) {
      char* p = (char*)it->second.back(); it->second.pop_back();
      Hdr* h = (Hdr*)(p - 16); h->kind = kind; h->live = 1; h->counted = counts();
      mark(p, n, 0, false); memset(p, 0xCD, n);
      if (h->counted) { g_live_bytes += n; g_live_blocks++; }
      return p;
    }
  }
  size_t a = (g_top + 32 + align - 1) & ~(align - 1);
  if (a + n + 64 > POOLSZ) fail("out of memory: %zu bytes requested, %zu in use", n, g_top);
  g_top = a + ((n + 15) & ~15ul);
  Hdr* h = (Hdr*)(POOL + a - 16); h->size = n; h->magic = MAGIC; h->kind = kind; h->live = 1; h->counted = counts();
  mark(POOL + a, n, 0, false);
  memset(POOL + a, 0xCD, n);
  if (h->counted) { g_live_bytes += n; g_live_blocks++; }
  return POOL + a;
}
static const char* kKind[] = {"malloc", "new", "new[]"};
static void race_access(uptr a, size_t n, bool w, bool atomic, void* pc);
size_t pool_size(const void* p) { return ((Hdr*)((char*)p - 16))->size; }
void pool_free(void* p, int kind) {
  Hdr* h = (Hdr*)((char*)p - 16);
  if (((uptr)p & 15) || h->magic != MAGIC) fail("free of a pointer that is not a block: %p%s", p, where(LMC_PC).c_str());
  if (!h->live) fail("double free of a %zu-byte block", (size_t)h->size);
  if (h->kind != kind) fail("block allocated with %s released with %s", kKind[h->kind], kKind[kind]);
  size_t n = h->size;
  if (g_exec && g_multi && !g_quiet && g_cur >= 0) race_access((uptr)p, n ? n : 1, true, false, LMC_PC);
  h->live = 0;
  if ((size_t)((char*)p - POOL) < STATIC_SZ) return;
  if (h->counted) { g_live_bytes -= n; g_live_blocks--; }
  mark((char*)p, n, 1, false);
  memset(p, 0xDD, n);
  if (g_top > POOLSZ / 4 && n) { Eng e; g_freelist[n].push_back(p); }
}

// ---- validity and races --------------------------------------------------------------
static void bad_access(uptr a, size_t n, bool w, void* pc) {
  size_t g = (a - (uptr)POOL) / 8;
  const char* why = "outside any heap block";
  if (g_valid[g].exec == g_exec_id && g_valid[g].freed) why = "to freed memory";
  else if (g_valid[g].exec == g_exec_id || (g && g_valid[g - 1].exec == g_exec_id) || (g > 1 && g_valid[g - 2].exec == g_exec_id)) why = "past the end of a heap block";
  else if (g_valid[g + 1].exec == g_exec_id || g_valid[g + 2].exec == g_exec_id) why = "before the start of a heap block";
  fail("invalid %zu-byte %s %s%s", n, w ? "write" : "read", why, where(pc).c_str());
}
static inline void check_valid(uptr a, size_t n, bool w, void* pc) {
  if (n == 0) return;
  uptr e = a + n;
  size_t g = (a - (uptr)POOL) / 8, ge = (e - 1 - (uptr)POOL) / 8;
  for (size_t i = g; i <= ge; i++) {
    Valid& v = g_valid[i];
    uptr base = (uptr)POOL + i * 8;
    if ((v.exec != g_exec_id && !(v.exec == 0 && v.bytes)) || v.freed || (e < base + 8 ? e - base : 8) > v.bytes) bad_access(a, n, w, pc);
    if (w) {
      unsigned lo = a > base ? a - base : 0, hi = e < base + 8 ? e - base : 8;
      v.wmask |= (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    }
  }
}
static inline bool written(uptr a, size_t n) {
  size_t g = (a - (uptr)POOL) / 8; unsigned lo = a & 7;
  uint8_t m = (uint8_t)(((1u << (lo + n)) - 1) & ~((1u << lo) - 1));
  return (g_valid[g].wmask & m) == m;
}
static Cell* cells_of(uptr a) {
  if (a - (uptr)POOL < POOLSZ) return g_cells + (a - (uptr)POOL) / 8;
  for (int i = 0; i < g_nmod; i++) if (a >= (uptr)g_mod[i].lo && a < (uptr)g_mod[i].hi) return g_mod[i].cells + (a - (uptr)g_mod[i].lo) / 8;
  return nullptr;
}
static void race(const Slot& s, bool sw, bool w, bool atomic, void* pc) {
  fail("data race: %s%s by %s is not ordered after a %s%s by %s%s", atomic ? "atomic " : "", w ? "write" : "read", cur().name,
       s.atomic ? "atomic " : "", sw ? "write" : "read", g_fib[s.tid].name, where(pc).c_str());
}
static void race_access(uptr a, size_t n, bool w, bool atomic, void* pc) {
  if (n == 0) return;
  Cell* c = cells_of(a);
  if (!c) return;
  uptr e = a + n, base = a & ~7ul;
  int me = g_cur; Fiber& f = g_fib[me];
  uint32_t my = f.cur.vc.c[me];
  for (; base < e; base += 8, c++) {
    unsigned lo = a > base ? a - base : 0, hi = e < base + 8 ? e - base : 8;
    uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    if (c->exec != g_exec_id) { c->exec = g_exec_id; c->nr = 0; c->w.used = 0; }
    if (c->w.used && (c->w.mask & m) && c->w.tid != me && c->w.clk > f.cur.vc.c[c->w.tid] && !(atomic && c->w.atomic)) race(c->w, true, w, atomic, pc);
    if (w) {
      unsigned k = 0;
      for (unsigned i = 0; i < c->nr; i++) {
        Slot& r = c->r[i];
        if ((r.mask & m) && r.tid != me && r.clk > f.cur.vc.c[r.tid] && !(atomic && r.atomic)) race(r, false, true, atomic, pc);
        if (r.mask & ~m) c->r[k++] = r;
      }
      c->nr = k;
      if (atomic && c->w.used && !c->w.atomic && false) {}
      c->w = Slot{my, (uint8_t)me, m, atomic, 1};
    } else {
      unsigned i = 0;
      for (; i < c->nr; i++) if (c->r[i].tid == me && c->r[i].atomic == atomic) break;
      if (i < c->nr) { if (c->r[i].clk == my) c->r[i].mask |= m; else { c->r[i].clk = my; c->r[i].mask = m; } }
      else {
        if (i == 6) { i = 0; for (unsigned j = 0; j < 6; j++) if (c->r[j].clk <= f.cur.vc.c[c->r[j].tid]) { i = j; break; } }
        else c->nr++;
        c->r[i] = Slot{my, (uint8_t)me, m, atomic, 1};
      }
    }
  }
}
static void drop_locs(uptr a, size_t n) {      // plain write over atomic locations
  if (g_locid.empty()) return;
  if (n > 64) {
    for (auto it = g_locid.begin(); it != g_locid.end();) if (it->first >= a && it->first < a + n) it = g_locid.erase(it); else ++it;
  } else for (uptr x = a; x < a + n; x++) { auto it = g_locid.find(x); if (it != g_locid.end()) g_locid.erase(it); }
}
static inline bool in_module(uptr a) {
  for (int i = 0; i < g_nmod; i++) if (a >= (uptr)g_mod[i].lo && a < (uptr)g_mod[i].hi) return true;
  return false;
}
static __attribute__((noinline)) void access_slow(uptr a, size_t n, bool w, void* pc) {
  if (a < 65536 && n) fail("null pointer dereference (address %#lx)%s", (long)a, where(pc).c_str());
  bool pool = a - (uptr)POOL < POOLSZ;
  if (!pool && vfs_region((void*)a)) {
    Eng e;
    if (w) fail("write to a read-only file mapping%s", where(pc).c_str());
    if (!vfs_mapped((void*)a, n)) fail("access to file memory that is not mapped (released mapping or beyond its end)%s", where(pc).c_str());
    return;
  }
  if (!g_multi || g_quiet) { if (w && !g_locid.empty() && (pool || in_module(a))) { Eng e; drop_locs(a, n); } return; }
  if (pool || in_module(a)) {
    Eng e;
    race_access(a, n, w, false, pc);
    if (w) drop_locs(a, n);
  }
}
static inline __attribute__((always_inline)) void access(void* p, size_t n, bool w, void* pc) {
  if (g_eng || !g_exec) return;
  if (++g_access > kAccessLimit) { fail("no progress after %llu memory accesses (endless loop)", (unsigned long long)g_access); }
  uptr a = (uptr)p;
  if (a - (uptr)POOL < POOLSZ) { check_valid(a, n, w, pc); if (!g_multi) { if (w && !g_locid.empty()) drop_locs(a, n); return; } }
  else { Fiber& f = g_fib[g_cur]; if (a - (uptr)f.stack < f.stack_size) return; }
  access_slow(a, n, w, pc);
}
void note_write(const void* p, size_t n, void* pc) { if (n && g_exec && g_cur >= 0) { bool o = g_eng; g_eng = false; access((void*)p, n, true, pc); g_eng = o; } }
void note_read(const void* p, size_t n, void* pc) { if (n && g_exec && g_cur >= 0) { bool o = g_eng; g_eng = false; access((void*)p, n, false, pc); g_eng = o; } }

// ---- clocks ---------------------------------------------------------------------------
void acquire_clock(const Clock& c) { cur().cur.join(c); }
void release_clock(Clock& c) { Fiber& f = cur(); c.join(f.cur); f.cur.vc.c[f.id]++; }
void clock_spawn(Fiber& parent, Fiber& child) {
  child.cur.join(parent.cur); child.cur.vc.c[child.id] = 1;
  parent.cur.vc.c[parent.id]++;
}

// ---- atomics ------------------------------------------------------------------------------
enum { MO_RLX, MO_CONSUME, MO_ACQ, MO_REL, MO_ACQREL, MO_SC };
static bool is_acq(int mo) { return mo == MO_ACQ || mo == MO_CONSUME || mo == MO_ACQREL || mo == MO_SC; }
static bool is_rel(int mo) { return mo == MO_REL || mo == MO_ACQREL || mo == MO_SC; }

static uint64_t rd(uptr a, int sz) {
  switch (sz) { case 1: return *(volatile uint8_t*)a; case 2: return *(volatile uint16_t*)a; case 4: return *(volatile uint32_t*)a; default: return *(volatile uint64_t*)a; }
}
static void wr(uptr a, int sz, uint64_t v) {
  switch (sz) { case 1: *(volatile uint8_t*)a = v; break; case 2: *(volatile uint16_t*)a = v; break; case 4: *(volatile uint32_t*)a = v; break; default: *(volatile uint64_t*)a = v; }
}
static int loc_of(uptr a, int sz) {
  auto it = g_locid.find(a);
  if (it != g_locid.end()) return it->second;
  int id = g_locs.size(); g_locs.emplace_back();
  Loc& l = g_locs.back(); l.size = sz; l.addr = a;
  Store s; s.val = rd(a, sz); s.sc = 0; s.init = 1;
  if (a - (uptr)POOL < POOLSZ) s.init = written(a, sz);
  l.h.push_back(s);
  g_locid[a] = id;
  return id;
}
static void at_check(uptr a, int sz, bool w, void* pc) {
  if (a < 65536) fail("null pointer dereference (atomic)%s", where(pc).c_str());
  if (a - (uptr)POOL < POOLSZ) {
    bool need = !w;
    if (need && !g_multi) { check_valid(a, sz, false, pc); if (!written(a, sz)) fail("atomic read of memory never written%s", where(pc).c_str()); }
    else check_valid(a, sz, false, pc);
  }
}
static bool tracked(uptr a) { return (a - (uptr)POOL < POOLSZ) || in_module(a); }
static bool simple(uptr a) { return !g_exec || g_eng || g_cur < 0 || g_quiet || !g_multi || !tracked(a); }

static void mark_written(uptr a, int sz) { if (a - (uptr)POOL < POOLSZ) check_valid(a, sz, true, nullptr); }

static uint64_t at_load(uptr a, int sz, int mo, void* pc) {
  if (g_exec && !g_eng) { at_check(a, sz, false, pc); ++g_access; }
  if (simple(a)) {
    if (g_exec && !g_eng && g_multi && tracked(a) && g_cur >= 0) { Eng e; auto it = g_locid.find(a); if (it != g_locid.end()) return g_locs[it->second].h.back().val; }
    return rd(a, sz);
  }
  Eng e;
  sched("atomic load");
  check_valid_pool:
  if (a - (uptr)POOL < POOLSZ) check_valid(a, sz, false, pc);
  race_access(a, sz, false, true, pc);
  int id = loc_of(a, sz);
  Loc& l = g_locs[id]; Fiber& f = cur();
  uint32_t lo = f.cur.view.get(id), hi = l.h.size() - 1;
  if (mo == MO_SC && l.last_sc > lo) lo = l.last_sc;
  uint32_t pickv = hi;
  if (lo < hi) pickv = hi - choice(hi - lo + 1, K_STALE, true, "stale load");
  Store& s = l.h[pickv];
  if (!s.init) fail("atomic read may see memory never written%s", where(pc).c_str());
  f.cur.view.set(id, pickv);
  if (is_acq(mo)) f.cur.join(s.clk); else f.acq.join(s.clk);
  return s.val;
  goto check_valid_pool;
}
static Clock msg_clock(Fiber& f, int id, uint32_t idx, int mo) {
  f.cur.view.set(id, idx);
  Clock c;
  if (is_rel(mo)) { c = f.cur; }
  else { c = f.rel; c.view.set(id, idx); }
  return c;
}
static void at_store(uptr a, int sz, uint64_t v, int mo, void* pc) {
  if (g_exec && !g_eng) { at_check(a, sz, true, pc); ++g_access; }
  if (simple(a)) {
    if (g_exec && !g_eng && tracked(a) && g_cur >= 0) { mark_written(a, sz); if (g_multi) { Eng e; auto it = g_locid.find(a); if (it != g_locid.end()) { Loc& l = g_locs[it->second]; Store s; s.val = v; s.sc = 0; s.init = 1; s.clk = cur().cur; l.h.push_back(s); cur().cur.view.set(it->second, l.h.size() - 1); } } }
    wr(a, sz, v); return;
  }
  Eng e;
  sched("atomic store");
  int id = loc_of(a, sz);
  mark_written(a, sz);
  race_access(a, sz, true, true, pc);
  Loc& l = g_locs[id]; Fiber& f = cur();
  Store s; s.val = v; s.sc = mo == MO_SC; s.init = 1;
  uint32_t idx = l.h.size();
  s.clk = msg_clock(f, id, idx, mo);
  l.h.push_back(s);
  if (mo == MO_SC) l.last_sc = idx;
  if (is_rel(mo)) f.cur.vc.c[f.id]++;
  wr(a, sz, v);
}
template <class F> static uint64_t at_rmw(uptr a, int sz, int mo, int fmo, void* pc, F fn) {   // fn(old,&neu) -> bool store
  if (g_exec && !g_eng) { at_check(a, sz, false, pc); ++g_access; }
  if (simple(a)) {
    uint64_t old = rd(a, sz), neu;
    if (fn(old, &neu)) at_store(a, sz, neu, MO_SC, pc);
    return old;
  }
  Eng e;
  sched("atomic rmw");
  if (a - (uptr)POOL < POOLSZ) check_valid(a, sz, false, pc);
  int id = loc_of(a, sz);
  Fiber& f = cur();
  uint64_t mask = sz == 8 ? ~0ull : (1ull << (sz * 8)) - 1;
  uint64_t old, neu = 0;
  { Store& last = g_locs[id].h.back(); old = last.val; if (!last.init) fail("atomic update of memory never written%s", where(pc).c_str()); }
  bool st = fn(old, &neu); neu &= mask;
  int m = st ? mo : fmo;
  race_access(a, sz, st, true, pc);
  Loc& l = g_locs[id];
  uint32_t idx = l.h.size() - 1;
  Clock prev = l.h[idx].clk;
  f.cur.view.set(id, idx);
  if (is_acq(m)) f.cur.join(prev); else f.acq.join(prev);
  if (st) {
    idx++;
    Store s; s.val = neu; s.sc = mo == MO_SC; s.init = 1;
    s.clk = msg_clock(f, id, idx, mo);
    s.clk.join(prev);                    // release sequence
    l.h.push_back(s);
    if (mo == MO_SC) l.last_sc = idx;
    if (is_rel(mo)) f.cur.vc.c[f.id]++;
    mark_written(a, sz);
    wr(a, sz, neu);
  }
  return old;
}
void guard_store(void* g, uint8_t v) {      // release store by __cxa_guard_release
  bool o = g_eng; g_eng = false;
  if (g_multi && !g_quiet && tracked((uptr)g)) {
    g_eng = true;
    int id = loc_of((uptr)g, 1);
    Loc& l = g_locs[id]; Fiber& f = cur();
    Store s; s.val = v; s.sc = 0; s.init = 1; uint32_t idx = l.h.size();
    s.clk = msg_clock(f, id, idx, MO_REL);
    l.h.push_back(s); f.cur.vc.c[f.id]++;
  }
  *(volatile uint8_t*)g = v;
  g_eng = o;
}
}  // namespace lmc
using namespace lmc;

// ---- the instrumentation interface -----------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, false, LMC_PC); } \
  void __tsan_write##N(void* p) { access(p, N, true, LMC_PC); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, LMC_PC); } \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, LMC_PC); } \
  void __tsan_read##N##_pc(void* p, void* pc) { access(p, N, false, pc); } \
  void __tsan_write##N##_pc(void* p, void* pc) { access(p, N, true, pc); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, LMC_PC); } \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, LMC_PC); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, LMC_PC); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, LMC_PC); } \
  void __tsan_read_write##N(void* p) { access(p, N, false, LMC_PC); access(p, N, true, LMC_PC); } \
  void __tsan_unaligned_read_write##N(void* p) { access(p, N, false, LMC_PC); access(p, N, true, LMC_PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, LMC_PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, LMC_PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, LMC_PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, LMC_PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (n) { access((void*)s, n, false, LMC_PC); access(d, n, true, LMC_PC); }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (n) { access((void*)s, n, false, LMC_PC); access(d, n, true, LMC_PC); }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) { if (n) access(d, n, true, LMC_PC); return memset(d, c, n); }

#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) { return (T)at_load((uptr)a, N / 8, mo, LMC_PC); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_store((uptr)a, N / 8, (uint64_t)v, mo, LMC_PC); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return (T)at_rmw((uptr)a, N / 8, mo, mo, LMC_PC, [&](uint64_t, uint64_t* n) { *n = v; return true; }); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { return (T)at_rmw((uptr)a, N / 8, mo, mo, LMC_PC, [&](uint64_t o, uint64_t* n) { *n = (T)((T)o + v); return true; }); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { return (T)at_rmw((uptr)a, N / 8, mo, mo, LMC_PC, [&](uint64_t o, uint64_t* n) { *n = (T)((T)o - v); return true; }); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return (T)at_rmw((uptr)a, N / 8, mo, mo, LMC_PC, [&](uint64_t o, uint64_t* n) { *n = (T)((T)o & v); return true; }); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return (T)at_rmw((uptr)a, N / 8, mo, mo, LMC_PC, [&](uint64_t o, uint64_t* n) { *n = (T)((T)o | v); return true; }); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return (T)at_rmw((uptr)a, N / 8, mo, mo, LMC_PC, [&](uint64_t o, uint64_t* n) { *n = (T)((T)o ^ v); return true; }); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return (T)at_rmw((uptr)a, N / 8, mo, mo, LMC_PC, [&](uint64_t o, uint64_t* n) { *n = (T)~((T)o & v); return true; }); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    T exp = *c; T old = (T)at_rmw((uptr)a, N / 8, mo, fmo, LMC_PC, [&](uint64_t o, uint64_t* n) { *n = v; return (T)o == exp; }); \
    if (old != exp) { *c = old; return 0; } return 1; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
    return (T)at_rmw((uptr)a, N / 8, mo, fmo, LMC_PC, [&](uint64_t o, uint64_t* n) { *n = v; return (T)o == c; }); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!g_exec || g_eng || g_cur < 0 || g_quiet) return;
  Eng e;
  sched("fence");
  Fiber& f = cur();
  if (is_acq(mo)) f.cur.join(f.acq);
  if (mo == MO_SC) { f.cur.join(g_scfence); g_scfence.join(f.cur); }
  if (is_rel(mo)) { f.rel = f.cur; f.cur.vc.c[f.id]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- libc memory functions called by the library ------------------------------------------------
#define NR(p, n) note_read(p, n, LMC_PC)
#define NW(p, n) note_write(p, n, LMC_PC)
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (!g_eng) { NR(a, n); NR(b, n); } return memcmp(a, b, n); }
int __wrap_bcmp(const void* a, const void* b, size_t n) { if (!g_eng) { NR(a, n); NR(b, n); } return memcmp(a, b, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (!g_eng) { NR(s, n); NW(d, n); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (!g_eng) { NR(s, n); NW(d, n); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (!g_eng) NW(d, n); return memset(d, c, n); }
void* __wrap_memchr(const void* p, int c, size_t n) {
  void* r = (void*)memchr(p, c, n); if (!g_eng) NR(p, r ? (char*)r - (char*)p + 1 : n); return r;
}
static size_t checked_len(const char* s, void* pc) {
  if (g_eng || !g_exec) return strlen(s);
  size_t k = 0;
  if (pool_owns(s) || vfs_region(s)) { for (;; k++) { note_read(s + k, 1, pc); if (!s[k]) break; } return k; }
  k = strlen(s); return k;
}
size_t __wrap_strlen(const char* s) { return checked_len(s, LMC_PC); }
int __wrap_strcmp(const char* a, const char* b) { checked_len(a, LMC_PC); checked_len(b, LMC_PC); return strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) {
  size_t k = 0;
  while (k < n) { if (!g_eng) { NR(a + k, 1); NR(b + k, 1); } if (a[k] != b[k] || !a[k]) break; k++; }
  return k == n ? 0 : (int)(unsigned char)a[k] - (int)(unsigned char)b[k];
}
int __wrap_vsnprintf(char* buf, size_t size, const char* fmt, va_list ap) {
  Eng e; va_list c; va_copy(c, ap); int need = vsnprintf(nullptr, 0, fmt, c); va_end(c);
  if (need >= 0 && size) { size_t w = (size_t)need + 1 < size ? (size_t)need + 1 : size; note_write(buf, w, LMC_PC); }
  return vsnprintf(buf, size, fmt, ap);
}
int __wrap_snprintf(char* buf, size_t size, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); int r = __wrap_vsnprintf(buf, size, fmt, ap); va_end(ap); return r;
}
int __wrap_vsprintf(char* buf, const char* fmt, va_list ap) { return __wrap_vsnprintf(buf, 1 << 20, fmt, ap); }
int __wrap_sprintf(char* buf, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = __wrap_vsnprintf(buf, 1 << 20, fmt, ap); va_end(ap); return r; }

// ---- heap ---------------------------------------------------------------------------------------
static int g_host;
void lmc_host(int on) { g_host += on ? 1 : -1; }
static bool pooled() { return g_host ? false : g_loading || (g_exec && g_cur >= 0 && !g_eng); }
void* __wrap_malloc(size_t n) { return pooled() ? pool_alloc(n, 16, 0) : malloc(n); }
void __wrap_free(void* p) { if (!p) return; if (pool_owns(p)) pool_free(p, 0); else if (g_huge.empty() || !huge_free(p, 0)) free(p); }
void* __wrap_calloc(size_t a, size_t b) {
  if (!pooled()) return calloc(a, b);
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
  void* p = pool_alloc(a * b, 16, 0); if (p) { memset(p, 0, a * b); note_write(p, a * b, LMC_PC); } return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!pool_owns(p)) return realloc(p, n);
  void* q = pool_alloc(n, 16, 0); size_t o = pool_size(p); memcpy(q, p, o < n ? o : n); note_write(q, o < n ? o : n, LMC_PC); pool_free(p, 0); return q;
}
void* __wrap_aligned_alloc(size_t al, size_t n) { return pooled() ? pool_alloc(n, al, 0) : aligned_alloc(al, n); }
int __wrap_posix_memalign(void** r, size_t al, size_t n) { *r = pooled() ? pool_alloc(n, al, 0) : aligned_alloc(al, n); return 0; }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n); memcpy(p, s, n); note_write(p, n, LMC_PC); return p; }

size_t lmc_heap_live() { return g_live_bytes; }
size_t lmc_heap_blocks() { return g_live_blocks; }
void* lmc_heap_block(const void* p, size_t* size) {
  for (auto& h : g_huge) if ((char*)p >= h.p && (char*)p < h.p + h.n) { *size = h.n; return h.p; }
  if (!pool_owns(p)) return nullptr;
  for (char* a = (char*)((uptr)p & ~15ul); a > POOL + STATIC_SZ; a -= 16) {
    Hdr* h = (Hdr*)(a - 16);
    if (h->magic == MAGIC && h->live && (char*)p < a + h->size) { *size = h->size; return a; }
  }
  return nullptr;
}
size_t lmc_heap_valid(const void* p) {
  uptr a = (uptr)p;
  for (auto& h : g_huge) if (a >= (uptr)h.p && a < (uptr)h.p + h.n) return (uptr)h.p + h.n - a;
  if (a - (uptr)POOL >= POOLSZ) return 0;
  size_t g = (a - (uptr)POOL) / 8, n = 0; unsigned off = a & 7;
  if (g_valid[g].exec != g_exec_id || g_valid[g].freed || off >= g_valid[g].bytes) return 0;
  n = g_valid[g].bytes - off;
  while (g_valid[g].bytes == 8 && g_valid[g + 1].exec == g_exec_id && !g_valid[g + 1].freed && g_valid[g + 1].bytes) { g++; n += g_valid[g].bytes; }
  return n;
}
}

static void* onew(size_t n, size_t al, int kind) {
  if (pooled()) { void* p = pool_alloc(n, al, kind); if (!p) throw std::bad_alloc(); return p; }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void odel(void* p, int kind) { if (!p) return; if (pool_owns(p)) { if (!g_exec && !g_loading) return; pool_free(p, kind); } else if (g_huge.empty() || !huge_free(p, kind)) free(p); }
void* operator new(size_t n) { return onew(n, 16, 1); }
void* operator new[](size_t n) { return onew(n, 16, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return onew(n, 16, 1); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return onew(n, 16, 2); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return onew(n, (size_t)a, 1); }
void* operator new[](size_t n, std::align_val_t a) { return onew(n, (size_t)a, 2); }
void operator delete(void* p) noexcept { odel(p, 1); }
void operator delete[](void* p) noexcept { odel(p, 2); }
void operator delete(void* p, size_t) noexcept { odel(p, 1); }
void operator delete[](void* p, size_t) noexcept { odel(p, 2); }
void operator delete(void* p, std::align_val_t) noexcept { odel(p, 1); }
void operator delete[](void* p, std::align_val_t) noexcept { odel(p, 2); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { odel(p, 1); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { odel(p, 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { odel(p, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { odel(p, 2); }
