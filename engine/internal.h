#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "lmc.h"

namespace lmc {

constexpr int MAXT = 12;    // fibers per execution
constexpr int MAXPROC = 2;

struct VC {
  uint32_t c[MAXT];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct View {               // per location: oldest store that may still be read
  std::vector<uint32_t> v;
  uint32_t get(int l) const { return l < (int)v.size() ? v[l] : 0; }
  void set(int l, uint32_t x) { if (l >= (int)v.size()) v.resize(l + 1, 0); if (v[l] < x) v[l] = x; }
  void join(const View& o) {
    if (o.v.size() > v.size()) v.resize(o.v.size(), 0);
    for (size_t i = 0; i < o.v.size(); i++) if (o.v[i] > v[i]) v[i] = o.v[i];
  }
  void clear() { v.clear(); }
};
struct Clock {            // what a release carries
  VC vc; View view;
  Clock() { vc.clear(); }
  void clear() { vc.clear(); view.clear(); }
  void join(const Clock& o) { vc.join(o.vc); view.join(o.view); }
};

enum Pend { P_RUN, P_YIELD, P_WAIT, P_JOIN, P_QUIESCE };

struct Fiber {
  int id = 0, proc = 0;
  bool finished = false, detached = false, joined = false, sut = false;
  void* sp = nullptr;
  char* stack = nullptr;
  size_t stack_size = 0;
  Pend pend = P_RUN;
  std::function<bool()> ready;   // for P_WAIT
  int join_tid = -1;
  const char* what = "";
  void (*fn)(void*) = nullptr;
  void* (*pfn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  int saved_errno = 0;
  int statics = 0;               // initialising so many function-local statics
  Clock cur;        // happens-before knowledge
  Clock acq;        // pending acquire (relaxed loads)
  Clock rel;        // release fence
  char name[32];
  std::vector<char> tls[MAXPROC];
};

extern Fiber g_fib[MAXT];
extern int g_nfib;
extern int g_cur;          // current fiber or -1 (engine)
extern bool g_eng;         // inside the engine: no instrumentation
extern bool g_exec;        // an execution is in progress
extern int g_quiet;        // harness recording section
extern bool g_multi;       // more than one fiber has existed in this execution
extern uint32_t g_exec_id;
extern bool g_trace_on;
extern int g_live;         // unfinished fibers
extern bool g_loading;     // library being loaded: static allocations
extern uint64_t g_steps;   // scheduling points of this execution

struct Eng {               // engine-entry guard
  bool old;
  Eng() : old(g_eng) { g_eng = true; }
  ~Eng() { g_eng = old; }
};
inline bool in_fiber() { return g_exec && g_cur >= 0 && !g_eng; }

// core
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
enum CPKind { K_SCHED, K_CHOOSE, K_DEV, K_STALE };
int choice(int n, CPKind kind, bool paid, const char* what);
void sched(const char* what, Pend pend = P_RUN);
void wait_until(std::function<bool()> ready, const char* what);
int create_fiber(void (*fn)(void*), void* arg, void* (*pfn)(void*), int proc, bool sut, const char* name);
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void failv(const char* fmt, va_list ap);
[[noreturn]] void finish_dead();             // current fiber was killed
void kill_fiber(int id);
inline Fiber& cur() { return g_fib[g_cur]; }
std::string where(void* pc);

// mem
void mem_init();
void mem_add_module(char* lo, char* hi);     // writable segment of the library
void mem_snapshot();
void mem_reset();                            // before every execution
void* pool_alloc(size_t n, size_t align, int kind);
bool pool_owns(const void* p);
void pool_free(void* p, int kind);
size_t pool_size(const void* p);
void note_write(const void* p, size_t n, void* pc);   // access made on the library's behalf
void note_read(const void* p, size_t n, void* pc);
void guard_store(void* g, uint8_t v);
void acquire_clock(const Clock& c);
void release_clock(Clock& c);                // c = join(c, current), then tick
void clock_spawn(Fiber& parent, Fiber& child);

// sync
void sync_init();
void sync_reset();
void sync_kill_proc(int proc);

// vfs
void vfs_init();
void vfs_exec_reset();
bool vfs_region(const void* p);
bool vfs_mapped(const void* p, size_t n);
extern std::string g_scratch;                // for real mode
}  // namespace lmc

#define LMC_PC __builtin_return_address(0)
