// Fibers, scheduler, choice tree, exploration, workers, reports.
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include "internal.h"

extern "C" char __libc_single_threaded;

namespace lmc {

Fiber g_fib[MAXT];
int g_nfib = 0, g_cur = -1, g_live = 0, g_quiet = 0;
bool g_eng = true, g_exec = false, g_multi = false, g_trace_on = false, g_loading = false;
uint32_t g_exec_id = 0;
uint64_t g_steps = 0, g_step_base = 0;

constexpr size_t kStack = 512 << 10;
constexpr int MAXCP = 1 << 17;
constexpr int MAXW = 16;
constexpr int QCAP = 2048, QLEN = 2048;
constexpr uint64_t kStepLimit = 400000;

struct CP { uint16_t n, v, lim; uint8_t kind, pad; };   // lim: values explored by this worker

struct WShm {
  volatile uint64_t execs, nodes, steps, counts, pruned, beat;
  volatile uint32_t len, maxlen;
  volatile int viol;           // 1 violation, 2 engine error
  char msg[4096];
  CP st[MAXCP];
};
struct Shm {
  volatile int lock;
  volatile int pending, qhead, qtail, stop, truncated, divergence;
  uint16_t qlen[QCAP];
  CP q[QCAP][QLEN];
  volatile uint64_t nout;
  uint64_t outs[1 << 20];
  char known[32][64];
  volatile int nknown;
  WShm w[MAXW];
};
static Shm* S;
static WShm* W;

static const lmc_scenario* g_scn;
static int g_tier = 0;
static uint64_t g_seed = 1;
static int g_bud_preempt, g_bud_fault, g_bud_stale;
static uint32_t g_depth;       // next choice index
static uint32_t g_fixed;       // choices given by the prefix
static int g_result;           // 0 running 1 done 2 pruned 3 failed
static std::string g_msg;
static std::vector<std::string> g_tr;
static size_t g_tr_bytes;
static void* g_engine_sp;
static std::set<std::string> g_knownset;
static std::string g_prop, g_so, g_replaydir = "replays";
static int g_nworkers = 8;
static uint64_t g_tick;
static int g_in_handler;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void slock() { while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) usleep(1); }
static void sunlock() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

// ---- traces -----------------------------------------------------------------
static void addtrace(const char* buf) {
  if (g_tr_bytes > (4u << 20)) return;
  g_tr.push_back(buf); g_tr_bytes += strlen(buf) + 1;
}
void trace(const char* fmt, ...) {
  if (!g_trace_on) return;
  Eng e;
  char b[600]; int k = 0;
  if (g_cur >= 0) k = snprintf(b, sizeof b, "[%s] ", g_fib[g_cur].name);
  va_list ap; va_start(ap, fmt); vsnprintf(b + k, sizeof b - k, fmt, ap); va_end(ap);
  addtrace(b);
}
static char* g_copy_base[MAXPROC]; static size_t g_copy_len[MAXPROC];
static std::string g_copy_path[MAXPROC];
std::string where(void* pc) {
  if (!g_trace_on) return "";
  for (int i = 0; i < MAXPROC; i++)
    if (g_copy_base[i] && (char*)pc >= g_copy_base[i] && (char*)pc < g_copy_base[i] + g_copy_len[i]) {
      char cmd[600];
      snprintf(cmd, sizeof cmd, "addr2line -Cfsie %s %#lx 2>/dev/null", g_copy_path[i].c_str(), (long)((char*)pc - g_copy_base[i] - 1));
      FILE* f = popen(cmd, "r"); std::string r; char b[300];
      int n = 0;
      if (f) { while (n < 6 && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (strlen(b) > 120) b[120] = 0; r += r.empty() ? " at " : (n % 2 ? " " : " < "); r += b; n++; } pclose(f); }
      return r;
    }
  return "";
}

// ---- fiber switching ----------------------------------------------------------
extern "C" void lmc_switch(void** save, void* to);
asm(R"(
.text
.globl lmc_switch
.type lmc_switch,@function
lmc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

// thread_local data of the library is per fiber
static char* g_tls[MAXPROC]; static size_t g_tlssz[MAXPROC];
static std::vector<char> g_tlsinit[MAXPROC];
static void tls_out(Fiber& f) { for (int i = 0; i < MAXPROC; i++) if (g_tls[i]) f.tls[i].assign(g_tls[i], g_tls[i] + g_tlssz[i]); }
static void tls_in(Fiber& f) { for (int i = 0; i < MAXPROC; i++) if (g_tls[i]) { if (f.tls[i].empty()) f.tls[i] = g_tlsinit[i]; memcpy(g_tls[i], f.tls[i].data(), g_tlssz[i]); } }

static void fiber_main();
static void prepare_stack(Fiber& f) {
  if (!f.stack) {
    char* m = (char*)mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(9); }
    mprotect(m, 4096, PROT_NONE);
    f.stack = m + 4096; f.stack_size = kStack;
  }
  uint64_t* sp = (uint64_t*)(f.stack + f.stack_size);
  *--sp = 0;
  *--sp = (uint64_t)&fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp; ((uint32_t*)sp)[0] = 0x1f80; ((uint32_t*)sp)[1] = 0x037f;
  f.sp = sp;
}
static void to_engine() {
  void* dummy; g_cur = -1; g_eng = true;
  lmc_switch(&dummy, g_engine_sp);
  __builtin_trap();
}
static void switch_to(int id) {
  if (id == g_cur) return;
  Fiber& from = g_fib[g_cur]; Fiber& to = g_fib[id];
  from.saved_errno = errno;
  tls_out(from); tls_in(to);
  trace("--> %s", to.name);
  g_cur = id;
  errno = to.saved_errno;
  lmc_switch(&from.sp, to.sp);
}
static bool enabled_basic(const Fiber& f) {
  if (f.finished) return false;
  switch (f.pend) {
    case P_RUN: case P_YIELD: return true;
    case P_WAIT: return f.ready();
    case P_JOIN: return g_fib[f.join_tid].finished;
    case P_QUIESCE: return false;
  }
  return false;
}
extern bool sync_timeouts();
bool g_allow_timeouts = false;
// choose the next fiber to run; `self` may be finished
static int pick() {
  for (;;) {
    int en[MAXT], n = 0;
    bool cur_en = g_cur >= 0 && enabled_basic(g_fib[g_cur]);
    bool yielding = cur_en && g_fib[g_cur].pend == P_YIELD;
    if (cur_en && !yielding) en[n++] = g_cur;
    for (int k = 1; k <= g_nfib; k++) {
      int i = (g_cur + k) % g_nfib;   // round robin from the current one
      if (i == g_cur) continue;
      if (enabled_basic(g_fib[i])) en[n++] = i;
    }
    if (cur_en && yielding) en[n++] = g_cur;
    if (n == 0) {
      if (!g_allow_timeouts) { g_allow_timeouts = true; continue; }
      for (int i = 0; i < g_nfib; i++)
        if (!g_fib[i].finished && g_fib[i].pend == P_QUIESCE) { g_allow_timeouts = false; return i; }
      std::string s;
      for (int i = 0; i < g_nfib; i++) if (!g_fib[i].finished) { s += " "; s += g_fib[i].name; s += "("; s += g_fib[i].what; s += ")"; }
      fail("deadlock: no thread can run; blocked:%s", s.c_str());
    }
    g_allow_timeouts = false;
    int c = n > 1 ? choice(n, K_SCHED, cur_en && !yielding, "sched") : 0;
    return en[c];
  }
}
static void fiber_main() {
  {
    Fiber& f = cur();
    f.pend = P_RUN;
    g_eng = false; g_quiet = 0;
    if (f.pfn) f.ret = f.pfn(f.arg); else f.fn(f.arg);
    g_eng = true;
  }
  finish_dead();
}
void finish_dead() {
  g_eng = true;
  Fiber& f = cur();
  if (!f.finished) { f.finished = true; g_live--; }
  if (f.id == 0) { g_result = 1; to_engine(); }
  trace("thread ends");
  int nx = pick();
  switch_to(nx);
  __builtin_trap();
}
void kill_fiber(int id) {
  if (!g_fib[id].finished) { g_fib[id].finished = true; g_live--; }
}
static void step(const char* what) {
  g_steps++;
  if (g_steps - g_step_base > kStepLimit) fail("no progress after %llu steps (livelock), last: %s", (unsigned long long)(g_steps - g_step_base), what);
}
void sched(const char* what, Pend pend) {
  Eng e;
  int q = g_quiet;
  step(what);
  Fiber& f = cur();
  if (g_live == 1 && pend != P_QUIESCE) return;
  f.pend = pend; f.what = what;
  int nx = pick();
  switch_to(nx);
  g_eng = true;
  f.pend = P_RUN; g_quiet = q;
  if (f.finished) finish_dead();
}
void wait_until(std::function<bool()> ready, const char* what) {
  Eng e;
  int q = g_quiet;
  step(what);
  Fiber& f = cur();
  f.pend = P_WAIT; f.ready = std::move(ready); f.what = what;
  int nx = pick();
  switch_to(nx);
  g_eng = true;
  f.pend = P_RUN; f.ready = nullptr; g_quiet = q;
  if (f.finished) finish_dead();
}
int create_fiber(void (*fn)(void*), void* arg, void* (*pfn)(void*), int proc, bool sut, const char* name) {
  if (g_nfib >= MAXT) fail("too many threads (%d)", g_nfib);
  int id = g_nfib++;
  Fiber& f = g_fib[id];
  f.id = id; f.proc = proc; f.finished = f.detached = f.joined = false; f.sut = sut;
  f.fn = fn; f.pfn = pfn; f.arg = arg; f.ret = nullptr; f.saved_errno = 0; f.statics = 0;
  f.cur.clear(); f.acq.clear(); f.rel.clear();
  f.pend = P_RUN; f.what = "start"; f.ready = nullptr;
  for (auto& t : f.tls) t.clear();
  snprintf(f.name, sizeof f.name, "%s", name);
  if (id > 0) { g_multi = true; clock_spawn(cur(), f); } else { f.cur.vc.c[0] = 1; }
  prepare_stack(f);
  g_live++;
  return id;
}

// ---- choices --------------------------------------------------------------------
int choice(int n, CPKind kind, bool paid, const char* what) {
  if (n <= 1) return 0;
  int* bud = kind == K_SCHED ? (paid ? &g_bud_preempt : nullptr) : kind == K_DEV ? &g_bud_fault : kind == K_STALE ? &g_bud_stale : nullptr;
  if (bud && *bud == 0) return 0;
  if (g_depth >= MAXCP) fail("choice stack overflow");
  CP& c = W->st[g_depth];
  if (g_depth < g_fixed) {
    if (c.n != n || c.kind != kind) {
      W->viol = 2;
      snprintf(W->msg, sizeof W->msg, "replay divergence at choice %u (%s): had n=%d kind=%d, now n=%d kind=%d", g_depth, what, c.n, c.kind, n, kind);
      S->divergence = 1;
      g_result = 3; to_engine();
    }
  } else {
    c.n = n; c.v = 0; c.lim = n; c.kind = kind; c.pad = 0;
    W->len = g_depth + 1;
  }
  g_depth++;
  if (c.v && bud && *bud > 0) --*bud;
  if (g_trace_on && kind != K_SCHED) trace("choice %s = %d of %d", what, c.v, n);
  return c.v;
}

// ---- verdicts --------------------------------------------------------------------
void failv(const char* fmt, va_list ap) {
  g_eng = true;
  char b[3000]; vsnprintf(b, sizeof b, fmt, ap);
  std::string m = b;
  if (g_cur >= 0) { m += " [thread "; m += g_fib[g_cur].name; m += "]"; }
  snprintf(W->msg, sizeof W->msg, "%s", m.c_str());
  if (!W->viol) W->viol = 1;
  g_msg = m;
  if (g_trace_on) addtrace(("VIOLATION: " + m).c_str());
  g_result = 3;
  if (g_cur >= 0) to_engine();
  _exit(3);
}
void fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); failv(fmt, ap); }

static const char* g_tracefile;
// for the terminal: bytes that are not printable ASCII as \xNN
static std::string plain(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if ((c >= 32 && c < 127) || c == '\n' || c == '\t') o += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } if (o.size() > 4000) { o += "..."; break; } }
  return o;
}
static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static void write_trace() {
  if (!g_tracefile) return;
  FILE* f = fopen(g_tracefile, "w"); if (!f) return;
  for (auto& t : g_tr) fprintf(f, "%s\n", t.c_str());
  fclose(f);
}
static void on_signal(int sig, siginfo_t* si, void* uc) {
  if (g_in_handler++) _exit(4);
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "signal";
  bool was_eng = g_eng;
  void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  bool overflow = false;
  if (g_cur >= 0) { char* a = (char*)si->si_addr; overflow = sig == SIGSEGV && a >= g_fib[g_cur].stack - 4096 && a < g_fib[g_cur].stack + 4096; }
  W->viol = 1;
  g_eng = true;
  snprintf(W->msg, sizeof W->msg, "%s%s at address %p (fiber %s%s)", overflow ? "stack overflow, " : "", n, sig == SIGABRT ? nullptr : si->si_addr,
           g_cur >= 0 ? g_fib[g_cur].name : "none", was_eng ? ", in engine" : "");
  if (g_tracefile) { std::string w = where(pc); addtrace((std::string("VIOLATION: ") + W->msg + w).c_str()); write_trace(); }
  _exit(3);
}

// ---- profile (LMC_PROF=1): where the engine spends its time ---------------------------
static void on_prof(int, siginfo_t*, void* uc) { static void* buf[1]; buf[0] = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; static int n; extern void* g_profbuf[]; if (n < 100000) { g_profbuf[n++] = buf[0]; g_profbuf[100000] = (void*)(long)n; } }
void* g_profbuf[100001];
static void prof_dump() {
  std::map<std::string, int> m; int n = (int)(long)g_profbuf[100000];
  for (int i = 0; i < n; i++) { Dl_info d; std::string s = "?"; if (dladdr(g_profbuf[i], &d)) { s = d.dli_sname ? d.dli_sname : d.dli_fname; } m[s]++; }
  std::vector<std::pair<int, std::string>> v; for (auto& k : m) v.push_back({k.second, k.first});
  std::sort(v.rbegin(), v.rend());
  for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%6d %s\n", v[i].first, v[i].second.c_str());
}

// ---- one execution ------------------------------------------------------------------
static void scn_entry(void*) { g_scn->fn(); }
static int bud(const int b[2]) { return b[g_tier]; }
static void run_one() {
  g_eng = true;
  g_bud_preempt = bud(g_scn->preempt); g_bud_fault = bud(g_scn->fault); g_bud_stale = bud(g_scn->stale);
  g_depth = 0; g_result = 0; g_steps = g_step_base = 0; g_tick = 0; g_quiet = 0;
  g_exec_id++;
  g_nfib = 0; g_live = 0; g_cur = -1; g_multi = false; g_allow_timeouts = false;
  mem_reset(); sync_reset(); vfs_exec_reset();
  create_fiber(scn_entry, nullptr, nullptr, 0, false, "main");
  g_exec = true; g_cur = 0; errno = 0;
  tls_in(g_fib[0]);
  lmc_switch(&g_engine_sp, g_fib[0].sp);
  g_exec = false; g_eng = true; g_cur = -1;
  W->steps += g_steps; W->beat++;
}

// ---- worker loop -------------------------------------------------------------------------
static bool push_item(const CP* p, uint32_t len) {   // lock held
  if (len > QLEN) return false;
  int nt = (S->qtail + 1) % QCAP;
  if (nt == S->qhead) return false;
  memcpy(S->q[S->qtail], p, len * sizeof(CP));
  S->qlen[S->qtail] = len;
  S->qtail = nt; S->pending++;
  return true;
}
static int qsize() { return (S->qtail - S->qhead + QCAP) % QCAP; }
static void donate(uint32_t base) {
  if (qsize() >= g_nworkers) return;
  for (uint32_t i = base; i < W->len && i < QLEN; i++) {
    CP& c = W->st[i];
    if (c.v + 1 >= c.lim) continue;
    slock();
    uint16_t v0 = c.v;
    while (c.lim > v0 + 1) {
      c.v = c.lim - 1;
      if (!push_item(W->st, i + 1)) break;
      c.lim--;
    }
    c.v = v0;
    sunlock();
    return;
  }
}
static void worker(int id, double deadline) {
  W = &S->w[id];
  if (getenv("LMC_PROF") && id == 0) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_prof; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    itimerval it = {{0, 1000}, {0, 1000}}; setitimer(ITIMER_PROF, &it, nullptr);
  }
  // warm-up: default execution once (fills lazily initialised libc state)
  W->len = 0; g_fixed = 0;
  run_one();
  if (g_result == 3) { S->stop = 1; _exit(3); }
  W->steps = 0; W->pruned = 0; W->counts = 0;
  for (;;) {
    if (S->stop) _exit(0);
    slock();
    if (qsize() == 0) {
      bool done = S->pending == 0;
      sunlock();
      if (done) { if (getenv("LMC_PROF") && id == 0) prof_dump(); _exit(0); }
      usleep(200); W->beat++;
      continue;
    }
    int h = S->qhead; uint32_t base = S->qlen[h];
    memcpy(W->st, S->q[h], base * sizeof(CP)); S->qhead = (h + 1) % QCAP;
    sunlock();
    W->len = base; g_fixed = base;
    uint32_t from = base;    // nodes below this depth already counted
    for (uint64_t it = 0;; it++) {
      run_one();
      if (g_result == 3) { S->stop = 1; _exit(3); }
      W->execs++;
      if (g_result == 2) W->pruned++;
      if (g_depth < g_fixed) {
        W->viol = 2; snprintf(W->msg, sizeof W->msg, "replay divergence: execution ended after %u of %u fixed choices", g_depth, g_fixed);
        S->divergence = 1; S->stop = 1; _exit(3);
      }
      W->nodes += W->len - from + 1;
      if (W->len > W->maxlen) W->maxlen = W->len;
      if (S->stop) _exit(0);
      if ((it & 15) == 0 && now() > deadline) { S->truncated = 1; S->stop = 1; _exit(0); }
      if (g_nworkers > 1 && qsize() < g_nworkers / 2) donate(base);
      uint32_t l = W->len;
      while (l > base && W->st[l - 1].v + 1 >= W->st[l - 1].lim) l--;
      if (l == base) break;
      W->st[l - 1].v++;
      W->len = l; g_fixed = l; from = l;
    }
    slock(); S->pending--; sunlock();
  }
}

// ---- reports ------------------------------------------------------------------------------
static std::vector<CP> g_replay_choices;
static std::string choices_str(const CP* st, uint32_t len) {
  std::string s;
  for (uint32_t i = 0; i < len; i++) { char b[40]; snprintf(b, sizeof b, "%s[%d,%d,%d]", i ? "," : "", st[i].v, st[i].n, st[i].kind); s += b; }
  return s;
}
// run one execution in a child with tracing; returns child exit (0 ok, 3 violation)
static int traced_run(const lmc_scenario* s, const std::vector<CP>& ch, std::vector<std::string>* out, std::string* msg, int limit_s) {
  char tf[] = "/tmp/lmc_trace_XXXXXX"; int tfd = mkstemp(tf); if (tfd >= 0) close(tfd);
  memset((void*)S->w[0].msg, 0, 10); S->w[0].viol = 0; S->divergence = 0;
  pid_t p = fork();
  if (p == 0) {
    alarm(limit_s);
    W = &S->w[0]; g_scn = s; g_tracefile = tf;
    W->len = 0; g_fixed = 0;
    bool root_only = ch.empty();
    if (!root_only) { run_one(); if (g_result == 3 && !S->divergence) { W->viol = 0; } }
    W->viol = 0; S->divergence = 0;
    memcpy(W->st, ch.data(), ch.size() * sizeof(CP));
    W->len = ch.size(); g_fixed = ch.size();
    g_tr.clear(); g_tr_bytes = 0; g_trace_on = true;
    run_one();
    write_trace();
    _exit(g_result == 3 ? 3 : 0);
  }
  int st = 0; waitpid(p, &st, 0);
  FILE* f = fopen(tf, "r");
  if (f) { char b[1000]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; out->push_back(b); } fclose(f); }
  unlink(tf);
  *msg = (const char*)S->w[0].msg;
  if (WIFSIGNALED(st)) { if (msg->empty()) *msg = "killed by signal"; return 3; }
  return WEXITSTATUS(st);
}

}  // namespace lmc
using namespace lmc;

// ---- harness API ------------------------------------------------------------------------------
extern "C" {
int lmc_choose(int n, const char* what) { Eng e; if (n <= 0) fail("choose(0)"); if (n > 65535) fail("choose too large"); return choice(n, K_CHOOSE, false, what); }
int lmc_deviate(int n, const char* what) { Eng e; return choice(n, K_DEV, true, what); }
void lmc_prune() { g_eng = true; g_result = 2; to_engine(); __builtin_unreachable(); }
void lmc_fail(const char* fmt, ...) { g_eng = true; va_list ap; va_start(ap, fmt); failv(fmt, ap); }
void lmc_note(const char* fmt, ...) {
  if (!g_trace_on) return;
  Eng e; char b[600]; int k = g_cur >= 0 ? snprintf(b, sizeof b, "[%s] ", g_fib[g_cur].name) : 0;
  va_list ap; va_start(ap, fmt); vsnprintf(b + k, sizeof b - k, fmt, ap); va_end(ap); addtrace(b);
}
int lmc_tracing() { return g_trace_on; }
void lmc_outcome(uint64_t h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  if (!h) h = 1;
  uint64_t m = (1 << 20) - 1, i = h & m;
  for (int k = 0; k < 64; k++, i = (i + 1) & m) {
    uint64_t x = __atomic_load_n(&S->outs[i], __ATOMIC_RELAXED);
    if (x == h) return;
    if (!x) { if (__atomic_compare_exchange_n(&S->outs[i], &x, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&S->nout, 1, __ATOMIC_RELAXED); return; } if (x == h) return; }
  }
}
void lmc_count(uint64_t n) { W->counts += n; W->beat++; g_step_base = g_steps; }   // counted work is progress
int lmc_known(const char* id) {
  Eng e;
  if (!g_knownset.count(id)) return 0;
  slock();
  bool have = false;
  for (int i = 0; i < S->nknown; i++) if (!strcmp(S->known[i], id)) have = true;
  if (!have && S->nknown < 32) { snprintf(S->known[S->nknown], 64, "%s", id); S->nknown++; }
  sunlock();
  return 1;
}
int lmc_spawn_in(int proc, void (*fn)(void*), void* arg, const char* name) {
  Eng e; int id = create_fiber(fn, arg, nullptr, proc, false, name); trace("spawn %s", name); sched("spawn"); return id;
}
int lmc_spawn(void (*fn)(void*), void* arg, const char* name) { return lmc_spawn_in(g_cur >= 0 ? cur().proc : 0, fn, arg, name); }
void lmc_join(int tid) {
  Eng e; Fiber& f = cur(); f.join_tid = tid;
  if (!g_fib[tid].finished) { sched("join", P_JOIN); }
  acquire_clock(g_fib[tid].cur);
}
void lmc_run_in(int n, const int* procs, void (*const* fns)(void*), void* const* args, const char* const* names) {
  Eng e; int t[MAXT];
  for (int i = 0; i < n; i++) t[i] = create_fiber(fns[i], args[i], nullptr, procs ? procs[i] : cur().proc, false, names[i]);
  std::vector<int> ids(t, t + n);
  wait_until([ids] { for (int i : ids) if (!g_fib[i].finished) return false; return true; }, "waiting for threads");
  for (int i : ids) acquire_clock(g_fib[i].cur);
}
void lmc_run(int n, void (*const* fns)(void*), void* const* args, const char* const* names) { lmc_run_in(n, nullptr, fns, args, names); }
void lmc_drain() { Eng e; if (g_live > 1) sched("drain", P_QUIESCE); for (int i = 0; i < g_nfib; i++) if (i != g_cur) acquire_clock(g_fib[i].cur); }
void lmc_yield() { Eng e; sched("yield", P_YIELD); }
int lmc_self() { return g_cur; }
int lmc_proc() { return g_cur >= 0 ? cur().proc : 0; }
void lmc_set_proc(int p) { cur().proc = p; }
uint64_t lmc_tick() { return ++g_tick; }
void lmc_kill_proc(int proc) { Eng e; for (int i = 0; i < g_nfib; i++) if (g_fib[i].proc == proc && i != g_cur) kill_fiber(i); sync_kill_proc(proc); }
int lmc_live_threads() { return g_live - 1; }
int lmc_blocked(int tid) { Eng e; return !g_fib[tid].finished && !enabled_basic(g_fib[tid]); }
int lmc_finished(int tid) { return g_fib[tid].finished; }
int lmc_nthreads() { return g_nfib; }
void lmc_atomic_begin() { g_quiet++; }
void lmc_atomic_end() { g_quiet--; }
int lmc_tier() { return g_tier; }
uint64_t lmc_seed() { return g_seed; }
static void* g_dl[MAXPROC];
void* lmc_other_process(const char* sym) {
  Eng e;
  if (!g_dl[1]) fail("no second process image");
  void* p = dlsym(g_dl[1], sym); if (!p) fail("no symbol %s", sym); return p;
}
}

// ---- main ---------------------------------------------------------------------------------------
static int phdr_cb(struct dl_phdr_info* i, size_t, void* d) {
  auto* q = (std::pair<const char*, int>*)d;
  if (!i->dlpi_name || strcmp(i->dlpi_name, q->first)) return 0;
  uintptr_t rlo = 0, rhi = 0; size_t hi_all = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
    rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rhi = rlo + i->dlpi_phdr[k].p_memsz; rhi &= ~4095ul;
  }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& ph = i->dlpi_phdr[k];
    if (ph.p_type == PT_LOAD) hi_all = std::max(hi_all, (size_t)(ph.p_vaddr + ph.p_memsz));
    if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
      uintptr_t lo = i->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
      if (rhi > lo && rlo <= lo) lo = rhi;
      lo = (lo + 7) & ~7ul;
      if (lo < hi) mem_add_module((char*)lo, (char*)hi);
    }
    if (ph.p_type == PT_TLS && ph.p_memsz) g_tlssz[q->second] = ph.p_memsz;
  }
  g_copy_base[q->second] = (char*)i->dlpi_addr; g_copy_len[q->second] = hi_all;
  return 0;
}
struct TlsIdx { unsigned long m, o; };
extern "C" void* __tls_get_addr(TlsIdx*);
static void load_copy(int k, const char* path) {
  g_loading = true;
  g_dl[k] = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  g_loading = false;
  if (!g_dl[k]) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
  struct link_map* lm; dlinfo(g_dl[k], RTLD_DI_LINKMAP, &lm);
  std::pair<const char*, int> q{lm->l_name, k};
  dl_iterate_phdr(phdr_cb, &q);
  g_copy_path[k] = path;
  if (g_tlssz[k]) {
    size_t mod = 0; dlinfo(g_dl[k], RTLD_DI_TLS_MODID, &mod);
    TlsIdx ti{mod, 0};
    g_tls[k] = (char*)__tls_get_addr(&ti);
    g_tlsinit[k].assign(g_tls[k], g_tls[k] + g_tlssz[k]);
  }
}


static double cpu_of(pid_t p) { clockid_t c; struct timespec t; return clock_getcpuclockid(p, &c) || clock_gettime(c, &t) ? 0 : t.tv_sec + t.tv_nsec / 1e9; }
int main(int argc, char** argv) {
  int per = personality(0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE) && !getenv("LMC_NOASLR")) {
    setenv("LMC_NOASLR", "1", 1);
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  setenv("TZ", "LMC-5:45LMD-6:45,M3.2.0,M11.1.0", 1); tzset();   // no whole hours, with summer time
  std::string out, replay, only; int maxtime = 0;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--so") g_so = nx(); else if (a == "--prop") g_prop = nx(); else if (a == "--tier") g_tier = nx() == "thorough";
    else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10); else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx(); else if (a == "--scenario") only = nx(); else if (a == "--workers") g_nworkers = atoi(nx().c_str());
    else if (a == "--known") { std::string k = nx(); size_t p = 0; while (p < k.size()) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); g_knownset.insert(k.substr(p, q - p)); p = q + 1; } }
    else if (a == "--replaydir") g_replaydir = nx(); else if (a == "--maxtime") maxtime = atoi(nx().c_str()); else if (a == "--list") list = true;
    else if (a == "--scratch") g_scratch = nx();
  }
  if (g_nworkers > MAXW) g_nworkers = MAXW;
  __libc_single_threaded = 0;
  S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("shm"); return 2; }
  W = &S->w[0];
  mem_init(); sync_init(); vfs_init();
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  load_copy(0, g_so.c_str());
  auto scs = (const lmc_scenario*)dlsym(g_dl[0], "lmc_scenarios"); auto nsc = (const int*)dlsym(g_dl[0], "lmc_nscenarios");
  if (!scs || !nsc) { fprintf(stderr, "no scenarios in %s\n", g_so.c_str()); return 2; }
  if (list) { for (int i = 0; i < *nsc; i++) printf("%s\n", scs[i].name); return 0; }
  bool need2 = false;
  for (int i = 0; i < *nsc; i++) if (scs[i].flags & LMC_PROC2) need2 = true;
  if (need2) {
    std::string c2 = g_so + ".p2";
    std::string cmd = "cp '" + g_so + "' '" + c2 + "'"; if (system(cmd.c_str())) return 2;
    load_copy(1, c2.c_str());
  }
  mem_snapshot();
  // alternate signal stack + handlers
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 256 << 10; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);

  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
    std::string t; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f);
    size_t p = t.find("\"scenario\": \""); p += 13; std::string sn = t.substr(p, t.find('"', p) - p);
    std::vector<CP> ch; p = t.find("\"choices\": ["); p += 12;
    size_t end = t.find("]]", p); if (end == std::string::npos) end = p;
    int v, n, kd;
    while (p < end) { size_t q = t.find('[', p); if (q == std::string::npos || q > end) break; if (sscanf(t.c_str() + q, "[%d,%d,%d]", &v, &n, &kd) == 3) ch.push_back({(uint16_t)n, (uint16_t)v, (uint16_t)n, (uint8_t)kd, 0}); p = q + 1; }
    for (int i = 0; i < *nsc; i++) if (sn == scs[i].name) {
      std::vector<std::string> tr; std::string m;
      g_scn = &scs[i];
      int rc = traced_run(&scs[i], ch, &tr, &m, 120);
      for (auto& l : tr) printf("%s\n", plain(l).c_str());
      printf("replay result: %s %s\n", rc == 3 ? "VIOLATION" : "no violation", plain(m).c_str());
      return rc == 3 ? 1 : 0;
    }
    fprintf(stderr, "scenario %s not found\n", sn.c_str()); return 2;
  }

  double t0 = now();
  std::string js = "{\"scenarios\": [";
  uint64_t tot_nodes = 0, tot_steps = 0, tot_execs = 0, tot_counts = 0;
  bool viol = false, err = false; std::string vmsg, vfile, vscn;
  bool all_exh = true; bool first = true;
  std::string samples;
  int ran = 0;
  for (int i = 0; i < *nsc && !viol && !err; i++) {
    const lmc_scenario* s = &scs[i];
    if (!only.empty() && only != s->name) continue;
    if ((s->flags & LMC_THOROUGH_ONLY) && g_tier == 0) continue;
    if ((s->flags & LMC_QUICK_ONLY) && g_tier == 1) continue;
    ran++;
    g_scn = s;
    S->lock = 0; S->pending = 0; S->qhead = S->qtail = 0; S->stop = 0; S->truncated = 0; S->divergence = 0; S->nout = 0;
    memset(S->outs, 0, sizeof S->outs);
    for (int k = 0; k < g_nworkers; k++) { WShm& w = S->w[k]; w.execs = w.nodes = w.steps = w.counts = w.pruned = w.beat = 0; w.len = w.maxlen = 0; w.viol = 0; w.msg[0] = 0; }
    push_item(S->w[0].st, 0);
    int cap = s->time_s[g_tier]; if (cap == 0) cap = g_tier ? 900 : 100;
    if (maxtime && cap > maxtime) cap = maxtime;
    double st = now(), deadline = st + cap;
    pid_t pids[MAXW]; uint64_t beats[MAXW] = {0}; double lastbeat[MAXW], cpubeat[MAXW] = {0}; bool doubtful = false;
    fflush(stdout);
    for (int k = 0; k < g_nworkers; k++) {
      lastbeat[k] = st;
      pids[k] = fork();
      if (pids[k] == 0) worker(k, deadline);
      if (pids[k] < 0) { perror("fork"); return 2; }
    }
    int left = g_nworkers, vi = -1;
    int lowbudget = getenv("LMC_HANG_S") ? atoi(getenv("LMC_HANG_S")) : 60;
    while (left) {
      bool any = false;
      for (int k = 0; k < g_nworkers; k++) if (pids[k] > 0) {
        int stt; pid_t r = waitpid(pids[k], &stt, WNOHANG);
        if (r == pids[k]) {
          pids[k] = 0; left--; any = true;
          bool clean = WIFEXITED(stt) && WEXITSTATUS(stt) == 0;
          if (!clean) {
            if (!S->w[k].viol && WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL) doubtful = true;
            if (!S->w[k].viol) { S->w[k].viol = 1; snprintf(S->w[k].msg, sizeof S->w[k].msg, "process under test ended unexpectedly (status %#x)", stt); }
            if (vi < 0 || (S->w[vi].viol == 2 && S->w[k].viol == 1)) vi = k;
            S->stop = 1;
          }
        } else {
          double t = now();
          if (S->w[k].beat != beats[k]) { beats[k] = S->w[k].beat; lastbeat[k] = t; cpubeat[k] = cpu_of(pids[k]); }
          else if (t - lastbeat[k] > lowbudget && (cpu_of(pids[k]) - cpubeat[k] > lowbudget || t - lastbeat[k] > 4 * lowbudget)) {     // of the process's own time, however busy the machine
            doubtful = true; S->w[k].viol = 1; snprintf(S->w[k].msg, sizeof S->w[k].msg, "hang: no progress for %d s inside one execution", lowbudget);
            kill(pids[k], SIGKILL); lastbeat[k] = t + 1000;
          }
          if (S->stop && vi >= 0 && t - lastbeat[k] > 5 && lastbeat[k] < t) { kill(pids[k], SIGKILL); }
        }
      }
      if (!any) usleep(500);
    }
    uint64_t ex = 0, nd = 0, stp = 0, ct = 0, pr = 0, ml = 0;
    for (int k = 0; k < g_nworkers; k++) { WShm& w = S->w[k]; ex += w.execs; nd += w.nodes; stp += w.steps; ct += w.counts; pr += w.pruned; ml = std::max<uint64_t>(ml, w.maxlen); }
    bool exh = !S->truncated && vi < 0;
    double sw = now() - st;
    if (vi >= 0) {
      WShm& w = S->w[vi];
      vmsg = (const char*)w.msg; vscn = s->name;
      if (w.viol == 2) { err = true; }
      else {
        viol = true;
        std::vector<CP> ch((CP*)w.st, (CP*)w.st + w.len);
        std::vector<std::string> tr; std::string m2;
        int rc = traced_run(s, ch, &tr, &m2, 100);
        if (doubtful && rc != 3) { err = true; viol = false; vmsg = "interrupted: " + vmsg; }     // memory or time ran out; it says nothing of the property
        if (!err) mkdir(g_replaydir.c_str(), 0755);
        if (!err) vfile = g_replaydir + "/" + g_prop + "-" + s->name + ".json";
        FILE* f = err ? nullptr : fopen(vfile.c_str(), "w");
        if (f) {
          fprintf(f, "{\"property\": \"%s\", \"scenario\": \"%s\", \"tier\": \"%s\", \"so\": \"%s\",\n \"message\": \"%s\",\n \"reproduced\": %s,\n \"choices\": [%s],\n \"trace\": [", g_prop.c_str(), s->name, g_tier ? "thorough" : "quick", jesc(g_so).c_str(), jesc(vmsg).c_str(), rc == 3 ? "true" : "false", choices_str(ch.data(), ch.size()).c_str());
          size_t b0 = tr.size() > 400 ? tr.size() - 400 : 0;
          for (size_t k = b0; k < tr.size(); k++) fprintf(f, "%s\n  \"%s\"", k > b0 ? "," : "", jesc(tr[k]).c_str());
          fprintf(f, "]}\n"); fclose(f);
        }
        if (!err) printf("%s/%s: %s%s\n", g_prop.c_str(), s->name, plain(vmsg).c_str(), rc == 3 ? "" : " (replay did not reproduce it)");
        size_t b1 = tr.size() > 25 ? tr.size() - 25 : 0;
        if (!err) for (size_t k = b1; k < tr.size(); k++) printf("    %s\n", plain(tr[k]).c_str());
      }
    } else {
      // a sample: the default execution of this scenario with its trace
      std::vector<std::string> tr; std::string m;
      if (samples.size() < 12000) {
        std::vector<CP> last((CP*)S->w[0].st, (CP*)S->w[0].st + S->w[0].len);
        bool have = S->w[0].execs > 0;
        traced_run(s, have ? last : std::vector<CP>(), &tr, &m, 60);
        std::string one;
        for (size_t k = 0; k < tr.size() && k < 14; k++) { if (k) one += " ; "; one += tr[k].substr(0, 110); }
        if (tr.size() > 14) { char b[60]; snprintf(b, sizeof b, " ; ... (%zu lines)", tr.size()); one += b; }
        if (!samples.empty()) samples += ", ";
        samples += "\"" + jesc(std::string(s->name) + ": " + one) + "\"";
      }
    }
    all_exh &= exh;
    printf("%-4s %-34s %s execs=%llu nodes=%llu steps=%llu evals=%llu outcomes=%llu maxdepth=%llu %.1fs%s\n", g_prop.c_str(), s->name, vi >= 0 ? (err ? "ERROR" : "FAIL") : "ok",
           (unsigned long long)ex, (unsigned long long)nd, (unsigned long long)stp, (unsigned long long)ct, (unsigned long long)S->nout, (unsigned long long)ml, sw, exh ? "" : vi >= 0 ? "" : " TRUNCATED");
    if (err) fprintf(stderr, "engine error in %s: %s\n", s->name, vmsg.c_str());
    fflush(stdout);
    char b[900];
    auto bs = [](int x) { return x < 0 ? std::string("\"unlimited\"") : std::to_string(x); };
    snprintf(b, sizeof b, "%s\n  {\"name\": \"%s\", \"executions\": %llu, \"states\": %llu, \"steps\": %llu, \"inner_evaluations\": %llu, \"pruned\": %llu, \"distinct_outcomes\": %llu, \"max_choices\": %llu, \"preemptions\": %s, \"deviations\": %s, \"stale_reads\": %s, \"exhaustive\": %s, \"wall_s\": %.2f}",
             first ? "" : ",", s->name, (unsigned long long)ex, (unsigned long long)nd, (unsigned long long)stp, (unsigned long long)ct, (unsigned long long)pr, (unsigned long long)S->nout, (unsigned long long)ml,
             bs(s->preempt[g_tier]).c_str(), bs(s->fault[g_tier]).c_str(), bs(s->stale[g_tier]).c_str(), exh ? "true" : "false", sw);
    js += b; first = false;
    tot_nodes += nd; tot_steps += stp; tot_execs += ex; tot_counts += ct;
  }
  js += "],\n";
  char b[700];
  snprintf(b, sizeof b, " \"ran\": %d, \"executions\": %llu, \"states\": %llu, \"steps\": %llu, \"inner_evaluations\": %llu, \"exhaustive\": %s, \"violation\": %s, \"error\": %s, \"wall_s\": %.2f,\n", ran,
           (unsigned long long)tot_execs, (unsigned long long)tot_nodes, (unsigned long long)tot_steps, (unsigned long long)tot_counts, all_exh ? "true" : "false", viol ? "true" : "false", err ? "true" : "false", now() - t0);
  js += b;
  js += " \"message\": \"" + jesc(vmsg) + "\", \"replay\": \"" + jesc(vfile) + "\",\n \"known\": [";
  for (int i = 0; i < S->nknown; i++) { if (i) js += ", "; js += "\"" + jesc(S->known[i]) + "\""; }
  js += "],\n \"samples\": [" + samples + "]}\n";
  if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
  if (err) _exit(2);
  _exit(viol ? 1 : 0);
}
