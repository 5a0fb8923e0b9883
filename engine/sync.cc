// pthread mutexes, condition variables, rwlocks, threads, once, static guards,
// clocks and sleeping, under the controlled scheduler.
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "internal.h"

namespace lmc {

struct Mtx { int owner = -1; int depth = 0; Clock clk; int readers = 0; bool used = false; };
struct CondW { int fiber; bool signalled; };
struct Cond { std::vector<CondW*> w; Clock clk; };
struct Once { int state = 0; int owner = -1; Clock clk; };

static std::unordered_map<void*, Mtx> g_mtx;
static std::unordered_map<void*, Cond> g_cond;
static std::unordered_map<void*, Once> g_once, g_guard;
static std::vector<CondW*> g_allw;
extern bool g_allow_timeouts;
static uint64_t g_now_us = 1600000000ull * 1000000, g_now_us0 = g_now_us, g_slept_ns, g_mono_us;
static std::vector<std::pair<void (*)(void*), void*>> g_atexit;

void sync_init() {}
void sync_reset() {
  g_mtx.clear(); g_cond.clear(); g_once.clear(); g_guard.clear();
  for (auto* w : g_allw) delete w;
  g_allw.clear();
  g_now_us = g_now_us0 = 1600000000ull * 1000000; g_slept_ns = 0; g_mono_us = 4321ull * 1000000; g_atexit.clear();
}
void sync_kill_proc(int proc) { (void)proc; }

template <class F> static F real(const char* n, const char* ver = nullptr) {
  void* p = ver ? dlvsym(RTLD_NEXT, n, ver) : dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "no real %s\n", n); abort(); }
  return (F)p;
}
#define REAL(name, ...) ([&] { static decltype(&name) f = nullptr; if (!f) { Eng e; f = real<decltype(&name)>(#name, ##__VA_ARGS__); } return f; }())

static void touch(void* m, size_t n, void* pc) { note_read(m, n, pc); }
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static void m_lock(pthread_mutex_t* m, void* pc) {
  touch(m, 8, pc);
  int me = g_cur;
  { Mtx& x = g_mtx[m]; if (x.owner == me && recursive(m)) { x.depth++; return; } }
  trace("lock %p", (void*)m);
  if (g_live == 1) {
    Mtx& x = g_mtx[m];
    if (x.owner >= 0) wait_until([m] { return g_mtx[m].owner < 0; }, x.owner == me ? "lock held by itself" : "lock");
    else sched("lock");
  } else {
    wait_until([m] { return g_mtx[m].owner < 0; }, "lock");
  }
  touch(m, 8, pc);
  Mtx& x = g_mtx[m];
  x.owner = me; x.depth = 1; x.used = true;
  acquire_clock(x.clk);
}
static int m_unlock(pthread_mutex_t* m, void* pc) {
  touch(m, 8, pc);
  Mtx& x = g_mtx[m];
  if (x.owner != g_cur) fail("mutex unlocked by a thread that does not hold it%s", where(pc).c_str());
  if (--x.depth > 0) return 0;
  x.owner = -1;
  release_clock(x.clk);
  trace("unlock %p", (void*)m);
  return 0;
}
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, void* pc) {
  touch(c, 8, pc); touch(m, 8, pc);
  Mtx& x = g_mtx[m];
  if (x.owner != g_cur) fail("condition wait without holding the mutex%s", where(pc).c_str());
  int me = g_cur, depth = x.depth;
  bool spur = choice(2, K_DEV, true, "spurious wakeup") == 1;
  CondW* w = new CondW{me, spur};
  g_allw.push_back(w);
  g_cond[c].w.push_back(w);
  x.owner = -1; x.depth = 0;
  release_clock(x.clk);
  trace("wait on cond %p%s", (void*)c, spur ? " (will wake spuriously)" : "");
  bool timedout = false;
  wait_until([=] { return (w->signalled || (timed && g_allow_timeouts)) && g_mtx[m].owner < 0; }, timed ? "timed wait" : "wait");
  Cond& cd = g_cond[c];
  for (size_t i = 0; i < cd.w.size(); i++) if (cd.w[i] == w) { cd.w.erase(cd.w.begin() + i); break; }
  if (!w->signalled) timedout = true;
  Mtx& y = g_mtx[m];
  y.owner = me; y.depth = depth;
  acquire_clock(y.clk);
  trace("woke from cond %p", (void*)c);
  return timedout ? ETIMEDOUT : 0;
}
static void c_signal(pthread_cond_t* c, bool all, void* pc) {
  touch(c, 8, pc);
  trace("%s cond %p", all ? "broadcast" : "signal", (void*)c);
  sched("signal");
  touch(c, 8, pc);
  Cond& cd = g_cond[c];
  std::vector<CondW*> un;
  for (auto* w : cd.w) if (!w->signalled) un.push_back(w);
  if (un.empty()) return;
  if (all) { for (auto* w : un) w->signalled = true; cd.w.clear(); }
  else {
    int k = choice(un.size(), K_CHOOSE, false, "waiter to wake");
    un[k]->signalled = true;
    for (size_t i = 0; i < cd.w.size(); i++) if (cd.w[i] == un[k]) { cd.w.erase(cd.w.begin() + i); break; }
  }
}
static int t_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  int det = 0; if (a) pthread_attr_getdetachstate(a, &det);
  char nm[24]; snprintf(nm, sizeof nm, "T%d", g_nfib);
  int id = create_fiber(nullptr, arg, fn, cur().proc, true, nm);
  g_fib[id].detached = det == PTHREAD_CREATE_DETACHED;
  *t = (pthread_t)(0x7100000000ull + id * 0x1000);
  trace("create thread %s", nm);
  sched("thread created");
  return 0;
}
static int tid_of(pthread_t t) { uint64_t v = (uint64_t)t; if (v < 0x7100000000ull) return -1; v = (v - 0x7100000000ull) / 0x1000; return v < (uint64_t)g_nfib ? (int)v : -1; }

static void m_sleep(uint64_t ns) {
  uint64_t us = (g_slept_ns + ns) / 1000 - g_slept_ns / 1000; g_now_us += us; g_mono_us += us; g_slept_ns += ns;   // the clocks tick in whole microseconds
  sched("sleep", P_YIELD);
}
}  // namespace lmc
using namespace lmc;

extern "C" {
uint64_t vfs_slept_ns() { return g_slept_ns; }
void vfs_set_time(int64_t sec, int64_t us) { g_now_us = (uint64_t)sec * 1000000 + us; }
uint64_t lmc_now_us() { return g_now_us; }

#define IN() (in_fiber())
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!IN()) return REAL(pthread_mutex_lock)(m); void* pc = LMC_PC; Eng e; m_lock(m, pc); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!IN()) return REAL(pthread_mutex_unlock)(m); void* pc = LMC_PC; Eng e; return m_unlock(m, pc); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!IN()) return REAL(pthread_mutex_trylock)(m);
  void* pc = LMC_PC; Eng e; touch(m, 8, pc); sched("trylock"); Mtx& x = g_mtx[m];
  if (x.owner == g_cur && recursive(m)) { x.depth++; return 0; }
  if (x.owner >= 0) return EBUSY;
  x.owner = g_cur; x.depth = 1; acquire_clock(x.clk); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept {
  if (!IN()) return REAL(pthread_mutex_timedlock)(m, ts);
  void* pc = LMC_PC; Eng e; m_lock(m, pc); return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { int r = REAL(pthread_mutex_init)(m, a); if (IN()) { Eng e; g_mtx.erase(m); note_write(m, sizeof *m, LMC_PC); } return r; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (!IN()) return REAL(pthread_mutex_destroy)(m);
  Eng e; auto it = g_mtx.find(m);
  if (it != g_mtx.end()) { if (it->second.owner >= 0) fail("mutex destroyed while locked"); g_mtx.erase(it); }
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept { int r = REAL(pthread_cond_init, "GLIBC_2.3.2")(c, a); if (IN()) { Eng e; g_cond.erase(c); } return r; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  if (!IN()) return REAL(pthread_cond_destroy, "GLIBC_2.3.2")(c);
  Eng e; auto it = g_cond.find(c);
  if (it != g_cond.end()) { if (!it->second.w.empty()) fail("condition variable destroyed while a thread waits on it"); g_cond.erase(it); }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!IN()) return REAL(pthread_cond_wait, "GLIBC_2.3.2")(c, m); void* pc = LMC_PC; Eng e; return c_wait(c, m, false, pc); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!IN()) return REAL(pthread_cond_timedwait, "GLIBC_2.3.2")(c, m, t); void* pc = LMC_PC; Eng e; return c_wait(c, m, true, pc); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!IN()) return REAL(pthread_cond_clockwait)(c, m, k, t); void* pc = LMC_PC; Eng e; return c_wait(c, m, true, pc); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!IN()) return REAL(pthread_cond_signal, "GLIBC_2.3.2")(c); void* pc = LMC_PC; Eng e; c_signal(c, false, pc); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!IN()) return REAL(pthread_cond_broadcast, "GLIBC_2.3.2")(c); void* pc = LMC_PC; Eng e; c_signal(c, true, pc); return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
  if (!IN()) return REAL(pthread_rwlock_rdlock)(l);
  void* pc = LMC_PC; Eng e; touch(l, 8, pc);
  wait_until([l] { return g_mtx[l].owner < 0; }, "read lock");
  Mtx& x = g_mtx[l]; x.readers++; acquire_clock(x.clk); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept {
  if (!IN()) return REAL(pthread_rwlock_wrlock)(l);
  void* pc = LMC_PC; Eng e; touch(l, 8, pc);
  wait_until([l] { Mtx& x = g_mtx[l]; return x.owner < 0 && x.readers == 0; }, "write lock");
  Mtx& x = g_mtx[l]; x.owner = g_cur; acquire_clock(x.clk); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept {
  if (!IN()) return REAL(pthread_rwlock_tryrdlock)(l);
  Eng e; sched("try read lock"); Mtx& x = g_mtx[l]; if (x.owner >= 0) return EBUSY; x.readers++; acquire_clock(x.clk); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept {
  if (!IN()) return REAL(pthread_rwlock_trywrlock)(l);
  Eng e; sched("try write lock"); Mtx& x = g_mtx[l]; if (x.owner >= 0 || x.readers) return EBUSY; x.owner = g_cur; acquire_clock(x.clk); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  if (!IN()) return REAL(pthread_rwlock_unlock)(l);
  void* pc = LMC_PC; Eng e; touch(l, 8, pc); Mtx& x = g_mtx[l];
  if (x.owner == g_cur) x.owner = -1; else if (x.readers > 0) x.readers--; else fail("rwlock unlocked but not held");
  release_clock(x.clk); return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) noexcept { int r = REAL(pthread_rwlock_init)(l, a); if (IN()) { Eng e; g_mtx.erase(l); } return r; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept { if (IN()) { Eng e; g_mtx.erase(l); return 0; } return REAL(pthread_rwlock_destroy)(l); }
int pthread_spin_init(pthread_spinlock_t* l, int s) noexcept { if (IN()) { Eng e; g_mtx.erase((void*)l); *l = 0; return 0; } return REAL(pthread_spin_init)(l, s); }
int pthread_spin_lock(pthread_spinlock_t* l) noexcept {
  if (!IN()) return REAL(pthread_spin_lock)(l);
  Eng e; wait_until([l] { return g_mtx[(void*)l].owner < 0; }, "spin lock"); Mtx& x = g_mtx[(void*)l]; x.owner = g_cur; acquire_clock(x.clk); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) noexcept {
  if (!IN()) return REAL(pthread_spin_unlock)(l);
  Eng e; Mtx& x = g_mtx[(void*)l]; if (x.owner != g_cur) fail("spin lock released by a thread that does not hold it"); x.owner = -1; release_clock(x.clk); return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept {
  if (!IN()) return REAL(pthread_create)(t, a, fn, arg);
  Eng e; return t_create(t, a, fn, arg);
}
int pthread_join(pthread_t t, void** r) {
  if (!IN()) return REAL(pthread_join)(t, r);
  Eng e; int id = tid_of(t); if (id < 0) fail("join of an unknown thread");
  if (g_fib[id].detached || g_fib[id].joined) fail("join of a detached or joined thread");
  g_fib[id].joined = true;
  cur().join_tid = id;
  if (!g_fib[id].finished) sched("join", P_JOIN);
  acquire_clock(g_fib[id].cur);
  if (r) *r = g_fib[id].ret;
  return 0;
}
int pthread_detach(pthread_t t) noexcept { if (!IN()) return REAL(pthread_detach)(t); Eng e; int id = tid_of(t); if (id < 0) fail("detach of an unknown thread"); g_fib[id].detached = true; return 0; }
pthread_t pthread_self() noexcept { if (!IN()) return REAL(pthread_self)(); return (pthread_t)(0x7100000000ull + g_cur * 0x1000); }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!IN()) return REAL(pthread_once)(o, fn);
  Once* x;
  { Eng e; sched("once"); x = &g_once[o];
    if (x->state == 1) { wait_until([x] { return x->state == 2 || x->state == 0; }, "once"); }
    if (x->state == 2) { acquire_clock(x->clk); return 0; }
    x->state = 1; cur().statics++; }
  fn();
  Eng e; cur().statics--; x->state = 2; release_clock(x->clk); *o = 2; return 0;
}
int sched_yield() noexcept { if (!IN()) return REAL(sched_yield)(); Eng e; sched("yield", P_YIELD); return 0; }
int sem_init(sem_t* s, int p, unsigned v) noexcept { if (!IN()) return REAL(sem_init)(s, p, v); Eng e; Mtx& x = g_mtx[s]; x = Mtx(); x.depth = v; return 0; }
int sem_destroy(sem_t* s) noexcept { if (!IN()) return REAL(sem_destroy)(s); Eng e; g_mtx.erase(s); return 0; }
int sem_wait(sem_t* s) { if (!IN()) return REAL(sem_wait)(s); Eng e; wait_until([s] { return g_mtx[s].depth > 0; }, "semaphore"); Mtx& x = g_mtx[s]; x.depth--; acquire_clock(x.clk); return 0; }
int sem_post(sem_t* s) noexcept { if (!IN()) return REAL(sem_post)(s); Eng e; sched("post"); Mtx& x = g_mtx[s]; x.depth++; release_clock(x.clk); return 0; }

// ---- static initialisation guards -----------------------------------------------------
int __cxa_guard_acquire(uint64_t* g) {
  if (!IN()) { return *(volatile uint8_t*)g ? 0 : 1; }
  Eng e;
  sched("static init");
  Once& x = g_guard[g];
  if (x.state == 1 && x.owner == g_cur) fail("recursive initialisation of a function-local static");
  if (x.state == 1) wait_until([g] { return g_guard[g].state != 1; }, "static init by another thread");
  Once& y = g_guard[g];
  if (*(volatile uint8_t*)g || y.state == 2) { acquire_clock(y.clk); return 0; }
  y.state = 1; y.owner = g_cur; cur().statics++;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  if (!IN()) { *(volatile uint8_t*)g = 1; return; }
  Eng e;
  cur().statics--; Once& x = g_guard[g]; x.state = 2; x.owner = -1;
  guard_store(g, 1);
  release_clock(x.clk);
}
void __cxa_guard_abort(uint64_t* g) { if (!IN()) return; Eng e; cur().statics--; Once& x = g_guard[g]; x.state = 0; x.owner = -1; }

// ---- process exit: destructors of statics ------------------------------------------------
int __wrap___cxa_atexit(void (*f)(void*), void* a, void*) { if (IN()) { Eng e; g_atexit.push_back({f, a}); } return 0; }
int __wrap_atexit(void (*f)(void)) { return __wrap___cxa_atexit((void (*)(void*))f, nullptr, nullptr); }
int lmc_run_exit() { int n = 0; while (!g_atexit.empty()) { auto x = g_atexit.back(); g_atexit.pop_back(); x.first(x.second); n++; } return n; }

// ---- failure of the program ---------------------------------------------------------------
void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept {
  if (!g_exec || g_cur < 0) { fprintf(stderr, "assert %s %s:%u\n", expr, file, line); abort(); }
  g_eng = true;
  const char* b = strrchr(file, '/');
  fail("assertion failed: %s (%s:%u %s)", expr, b ? b + 1 : file, line, fn);
}

// ---- time ------------------------------------------------------------------------------------
// the clocks that do not follow the system time count from elsewhere
// (the coarse ones stand still between ticks)
static uint64_t clock_us(clockid_t k) { if (k == CLOCK_REALTIME_COARSE) return g_now_us / 4000 * 4000; if (k == CLOCK_MONOTONIC_COARSE) return g_mono_us / 4000 * 4000; return k == CLOCK_REALTIME || k == CLOCK_TAI ? g_now_us : g_mono_us; }
int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
  if (!IN()) return REAL(clock_gettime)(k, ts);
  uint64_t v = clock_us(k); ts->tv_sec = v / 1000000; ts->tv_nsec = v % 1000000 * 1000; return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*) {
  if (!IN()) return gettimeofday(tv, nullptr);
  note_write(tv, sizeof *tv, LMC_PC);
  tv->tv_sec = g_now_us / 1000000; tv->tv_usec = g_now_us % 1000000; return 0;
}
// C library functions with a result they all share
static struct tm& g_shared_tm() { static uint32_t of = 0; static struct tm* p; if (!p || of != g_exec_id) { of = g_exec_id; p = (struct tm*)pool_alloc(sizeof *p, 16, 0); } return *p; }
struct tm* __wrap_localtime(const time_t* t) { if (!IN()) return localtime(t); void* pc = LMC_PC; Eng e; note_write(&g_shared_tm(), sizeof(struct tm), pc); return localtime_r(t, &g_shared_tm()); }
struct tm* __wrap_gmtime(const time_t* t) { if (!IN()) return gmtime(t); void* pc = LMC_PC; Eng e; note_write(&g_shared_tm(), sizeof(struct tm), pc); return gmtime_r(t, &g_shared_tm()); }
time_t __wrap_time(time_t* t) { if (!IN()) return time(t); time_t v = g_now_us / 1000000; if (t) *t = v; return v; }
static int m_nanosleep(const struct timespec* rq, struct timespec* rm) {
  Eng e;
  if (rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000 || rq->tv_sec < 0) { errno = EINVAL; return EINVAL; }
  uint64_t ns = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
  if (ns && choice(2, K_DEV, true, "sleep interrupted")) {
    uint64_t part = ns / 2, left = ns - part;
    trace("sleep of %llu ns interrupted", (unsigned long long)ns);
    m_sleep(part);
    if (rm) { rm->tv_sec = left / 1000000000ull; rm->tv_nsec = left % 1000000000ull; }
    errno = EINTR; return EINTR;
  }
  m_sleep(ns);
  return 0;
}
int nanosleep(const struct timespec* rq, struct timespec* rm) {
  if (!IN()) return REAL(nanosleep)(rq, rm);
  int r = m_nanosleep(rq, rm); if (r) { errno = r; return -1; } return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* rq, struct timespec* rm) {
  if (!IN()) return REAL(clock_nanosleep)(k, flags, rq, rm);
  if (flags & TIMER_ABSTIME) {
    uint64_t t = (uint64_t)rq->tv_sec * 1000000ull + (rq->tv_nsec + 999) / 1000;
    uint64_t now = clock_us(k); if (t <= now) return 0;
    struct timespec d; uint64_t us = t - now; d.tv_sec = us / 1000000; d.tv_nsec = us % 1000000 * 1000;
    return m_nanosleep(&d, nullptr);
  }
  return m_nanosleep(rq, rm);
}
int usleep(useconds_t us) {
  if (!IN()) return REAL(usleep)(us);
  struct timespec d; d.tv_sec = us / 1000000; d.tv_nsec = us % 1000000 * 1000; int r = m_nanosleep(&d, nullptr); if (r) { errno = r; return -1; } return 0;
}
unsigned sleep(unsigned s) { if (!IN()) return REAL(sleep)(s); struct timespec d, rm; d.tv_sec = s; d.tv_nsec = 0; if (m_nanosleep(&d, &rm)) return rm.tv_sec + (rm.tv_nsec ? 1 : 0); return 0; }
}
