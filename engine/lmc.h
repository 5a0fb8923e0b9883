// lmc: a stateless model checker for the real lsmdb code.  Harness-side API.
//
// A harness is a shared object holding scenario functions together with the
// library under test.  A scenario is one closed program; the engine runs it
// once for every combination of choices within its bounds.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

extern "C" {

// ---- choices ---------------------------------------------------------------
// Free nondeterminism: every value in [0,n) is explored.
int lmc_choose(int n, const char* what);
// Deviation from a default (0): alternatives cost 1 of the fault budget.
int lmc_deviate(int n, const char* what);
// Abandon this execution: it is outside the space (not an error).
void lmc_prune() __attribute__((noreturn));

// ---- verdicts --------------------------------------------------------------
void lmc_fail(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
// Trace line (kept only when a trace is wanted).
void lmc_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int lmc_tracing();
// Register a hash of what this execution observed (vacuity measure).
void lmc_outcome(uint64_t h);
// Count extra evaluations made inside one execution (inner exhaustive loops).
void lmc_count(uint64_t n);
// A genuine defect listed in the known-findings file: reported, not failed.
// Returns 1 if `id` is listed for this property.
int lmc_known(const char* id);

// ---- threads ---------------------------------------------------------------
int lmc_spawn(void (*fn)(void*), void* arg, const char* name);          // same process
int lmc_spawn_in(int proc, void (*fn)(void*), void* arg, const char* name);
void lmc_join(int tid);
// Start n threads, run them all to completion (no scheduling points of its own).
void lmc_run(int n, void (*const* fns)(void*), void* const* args, const char* const* names);
void lmc_run_in(int n, const int* procs, void (*const* fns)(void*), void* const* args, const char* const* names);
// Wait until nothing else can run (library-created threads included).
void lmc_drain();
void lmc_yield();         // scheduling point
int lmc_self();
int lmc_proc();
int lmc_run_exit();       // run the destructors registered for process exit, latest first; how many
void lmc_set_proc(int proc);  // act as a thread of that process from here on
uint64_t lmc_tick();      // logical time, strictly increasing
// Kill all fibers of a process (model of process exit or crash).
void lmc_kill_proc(int proc);
int lmc_live_threads();   // unfinished fibers other than the caller
int lmc_finished(int tid);
int lmc_nthreads();
int lmc_blocked(int tid); // 1 if tid is unfinished and not enabled
// Uninstrumented critical region for harness recording code.
void lmc_atomic_begin();
void lmc_atomic_end();

// ---- heap ------------------------------------------------------------------
// Bytes and blocks of the modelled heap currently live.
size_t lmc_heap_live();
size_t lmc_heap_blocks();
// Is [p,p+n) inside one live heap block?  Returns bytes valid from p, 0 if none.
size_t lmc_heap_valid(const void* p);
// The live heap block containing p (nullptr if none) and its size.
void* lmc_heap_block(const void* p, size_t* size);
int lmc_tier();           // 0 quick, 1 thorough
uint64_t lmc_seed();
// Ordinary heap instead of the modelled one (for constant tables made while loading).
void lmc_host(int on);

// fault classes for vfs_fault_mask
enum { VF_OPEN = 1, VF_READ = 2, VF_WRITE = 4, VF_CLOSE = 8, VF_SYNC = 16, VF_STAT = 32, VF_MMAP = 64,
       VF_LOCK = 128, VF_DIR = 256, VF_NAME = 512, VF_SEEK = 1024, VF_STDIO = 2048, VF_READDIR = 4096 };
// ---- model POSIX system ------------------------------------------------------
void vfs_reset();
void vfs_mkdir(const char* path);
void vfs_put(const char* path, const void* data, size_t n);     // durable file
void vfs_share(const void* p, uint64_t n);      // the harness will not change this memory: writes from it are not copied, files may grow to any size
void vfs_put_huge(const char* path, uint64_t size);               // a sparse file of zeros
void vfs_poke(const char* path, uint64_t off, const void* data, size_t n);
void vfs_peek(const char* path, uint64_t off, void* data, size_t n);
void vfs_chmod(const char* path, int mode);                     // the owner's bits are honoured unless the user is 0
void vfs_symlink(const char* target, const char* path);
void vfs_notype(int on);                                        // directory entries carry no type
int vfs_exists(const char* path);                               // 0 no, 1 file, 2 dir
int64_t vfs_size(const char* path);
size_t vfs_get(const char* path, void* buf, size_t cap);        // returns size
const char* vfs_data(const char* path, size_t* n);              // pointer to contents
int vfs_list(const char* path, char* out, size_t cap);            // sorted names, count or -1
int vfs_inheritable(int proc);                                  // descriptors that an exec at this moment would pass on
int vfs_open_fds(int proc);                                     // descriptors open
int vfs_live_maps(int proc);
int vfs_max_maps(int proc);
int vfs_max_fds(int proc);
void vfs_faults(int on);                                        // enable deviations
void vfs_first_fd(int fd, int after = 0);                       // descriptors are given out from here on (the lowest after some others), 0 as if the standard ones were closed
void vfs_wide_errnos(int on);                                   // offer every error the call can report
void vfs_fault_mask(uint64_t mask);                             // which calls may fail
uint64_t vfs_faults_hit();                                      // errors injected so far
uint64_t vfs_soft_faults();                                     // interruptions and short transfers injected so far
uint64_t vfs_short_faults();                                    // short transfers only
int vfs_last_fault_errno();
uint64_t vfs_fault_errnos();                                    // set of injected errno values since the last call
void vfs_short_only(int on);                                    // only short/EINTR faults
int vfs_lock_owner(const char* path);                           // proc holding a write lock, -1 none
void vfs_rlimit_nofile(uint64_t cur);                           // answer of getrlimit
void vfs_rlimit_fail(int on);
void vfs_set_euid(unsigned uid);
uint64_t lmc_now_us();                                          // model clock
void vfs_set_env(const char* name, const char* value);          // answer of getenv
void vfs_set_time(int64_t sec, int64_t usec);
uint64_t vfs_slept_ns();                                        // total time slept (granted)
int64_t vfs_syscalls();                                         // calls made so far
// Crash model.
void vfs_crash_enable(int on);    // each mutating call may be preceded by a crash (deviation)
void vfs_crash_here();            // crash now (used after the last call)
int vfs_crashed();
void vfs_recover();               // materialise one post-crash state (free choices)
void vfs_process_exit(int proc);  // close descriptors, drop locks, kill fibers
// Real mode: same calls, on the kernel, re-rooted under a scratch directory.
void vfs_real(int on);
void vfs_real_processes();        // each process of the program is a real one; locks are the kernel's
#define LMC_SOMEBODY 99            // vfs_lock_owner: held, by an owner the kernel does not tell
int vfs_is_real();
// Second instance of the library ("another process"); returns its symbol.
void* lmc_other_process(const char* symbol);

// ---- scenario registration -----------------------------------------------------
struct lmc_scenario {
  const char* name;
  void (*fn)();
  // bounds, [0] quick [1] thorough; -1 unlimited
  int preempt[2];
  int fault[2];
  int stale[2];      // weak-memory loads older than the newest store
  int time_s[2];     // cap in seconds (0: default)
  int flags;         // LMC_*
};
enum { LMC_THOROUGH_ONLY = 1, LMC_PROC2 = 2, LMC_QUICK_ONLY = 8 };
// Defined by the harness:
extern const lmc_scenario lmc_scenarios[];
extern const int lmc_nscenarios;
}

#define LMC_SCENARIOS(...)                                                  \
  extern "C" const lmc_scenario lmc_scenarios[] = {__VA_ARGS__};            \
  extern "C" const int lmc_nscenarios = sizeof(lmc_scenarios) / sizeof(lmc_scenarios[0]);

#define NOTE(...) do { if (lmc_tracing()) lmc_note(__VA_ARGS__); } while (0)
#define CHECK(cond, ...)                    \
  do {                                      \
    if (!(cond)) lmc_fail(__VA_ARGS__);     \
  } while (0)
