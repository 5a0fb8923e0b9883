// C13: a lock file has one holder, across threads and processes.
#include "posix_common.h"
using lsmdb::FileLock;

// What all processes share: the harness's record, never seen by the library.
struct Hold { int proc; const char* name; };
struct Shared { std::vector<Hold> held; uint64_t oh = 1; int got = 0, refused = 0; };
struct Call { Shared* s; int proc; const char* name; FileLock* lock; int op; Status st; int keep; int rounds; };

static uint64_t disturbed() { return vfs_faults_hit() + vfs_soft_faults(); }   // an interrupted attempt may fail or be repeated
// Every held lock must be in force at any moment.
static void inforce(Shared* s, const char* when) {
  for (auto& h : s->held) { int o = vfs_lock_owner(h.name); CHECK(o == h.proc || o == LMC_SOMEBODY, "%s: process %d holds the lock on %s, but %s", when, h.proc, h.name, o < 0 ? "the file is not locked" : "another process has the file locked"); }
}
static void attempt(Call* c) {
  Env* e = Env::Default(); FileLock* l = (FileLock*)c; NOTE("process %d: LockFile(%s)", c->proc, c->name); uint64_t sl = vfs_slept_ns(); Status s = e->LockFile(c->name, &l);
  Quiet q; CHECK(s.ok() || vfs_slept_ns() == sl, "a failed attempt waits %llu ns", (unsigned long long)(vfs_slept_ns() - sl)); NOTE("process %d: LockFile(%s) -> %s", c->proc, c->name, s.ToString().c_str());
  c->lock = nullptr; c->op = s.ok();
  if (s.ok()) {
    CHECK(l, "no lock object"); for (auto& x : c->s->held) CHECK(strcmp(x.name, c->name), "process %d gets the lock on %s while %s holds it", c->proc, c->name, x.proc == c->proc ? "this process" : "another process");
    c->lock = l; c->s->held.push_back({c->proc, c->name}); c->s->got++;
  } else { CHECK(!l, "a failed attempt gives a lock object"); CHECK(s.IsIOError() || s.IsNotFound(), "a failed attempt is reported as %s", s.ToString().c_str()); c->s->refused++; }
  inforce(c->s, s.ok() ? "after an acquisition" : "after a failed attempt"); c->s->oh = mix(c->s->oh, c->proc * 2 + s.ok());
}
static void release(Call* c) {
  Env* e = Env::Default(); { Quiet q; inforce(c->s, "before a release"); NOTE("process %d: UnlockFile(%s)", c->proc, c->name); for (size_t i = 0; i < c->s->held.size(); i++) if (!strcmp(c->s->held[i].name, c->name)) { c->s->held.erase(c->s->held.begin() + i); break; } }
  for (int i = 0; i < 4; i++) { uint64_t h = disturbed(); Status s = e->UnlockFile(c->lock); if (s.ok()) { c->lock = nullptr; break; } CHECK(disturbed() != h, "UnlockFile fails: %s", s.ToString().c_str()); }
  CHECK(!c->lock, "the lock cannot be released"); Quiet q; inforce(c->s, "after a release");
}
// one thread's life: attempts, holding what it got over a scheduling point
static void life(Call* c) {
  for (int i = 0; i < c->rounds; i++) { attempt(c); if (c->lock) { lmc_yield(); { Quiet q; inforce(c->s, "while held"); } if (!(c->keep && i + 1 == c->rounds)) release(c); } }
}
extern "C" void c13_life(void* p) { life((Call*)p); }
extern "C" void c13_attempt(void* p) { attempt((Call*)p); }
extern "C" void c13_release(void* p) { release((Call*)p); }
extern "C" void c13_tryall(void* p) {   // an attempt that must succeed, and its release
  Call* c = (Call*)p; attempt(c); CHECK(c->lock, "nobody holds %s, yet process %d cannot lock it", c->name, c->proc); release(c);
}
typedef void (*Fn)(void*);
static Fn in(int proc, const char* sym, Fn f) { return proc ? (Fn)lmc_other_process(sym) : f; }
#define IN(p, f) in(p, #f, f)
static void one(int proc, const char* sym, Fn f, Call* c) { lmc_set_proc(proc); in(proc, sym, f)(c); lmc_set_proc(0); }
#define ONE(p, f, c) one(p, #f, f, c)
static void all_free(Shared* s, int procs, const char* name) {
  CHECK(s->held.empty() || true, "-"); for (int p = 0; p < procs; p++) { Call* c = new Call{s, p, name}; ONE(p, c13_tryall, c); CHECK(vfs_open_fds(p) == 0, "a descriptor leaks in process %d", p); delete c; }
}
static const char* const LK = "/tmp/LOCK";
// ---- schedules ------------------------------------------------------------------------
static void threads(std::vector<int> procs, std::vector<int> rounds, bool exist, bool samename = true) {
  Shared* s = new Shared; posix_env(); if (exist) vfs_put(LK, "", 0);
  int n = procs.size(); void (*fn[6])(void*); void* ar[6]; const char* nm[6]; static const char* N[] = {"a", "b", "c", "d"};
  for (int i = 0; i < n; i++) { ar[i] = new Call{s, procs[i], samename || i == 0 ? LK : "/tmp/LOCK2", nullptr, 0, Status(), 0, rounds[i]}; fn[i] = IN(procs[i], c13_life); nm[i] = N[i]; }
  lmc_run_in(n, procs.data(), fn, ar, nm);
  if (!samename) CHECK(s->refused == 0, "a lock on one name keeps another from being locked"); else if (disturbed() == 0) CHECK(s->got > 0, "nobody got a lock that was free");
  vfs_faults(0); all_free(s, 2, LK); lmc_outcome(mix(s->oh, s->got));
}
static void two_threads() { int r = deep(2, 3); threads({0, 0}, {r, 2}, lmc_choose(2, "exists")); }
static void two_procs() { int r = deep(2, 3); threads({0, 1}, {r, 2}, lmc_choose(2, "exists")); }
static void threads_procs() { threads({0, 0, 1}, {1, deep(1, 2), 1}, true); }
static void procs22() { threads({0, 0, 1, 1}, {1, 1, 1, 1}, true); }
static void two_names() { threads({0, lmc_choose(2, "process")}, {2, 2}, false, false); }
static void threads_faults() { vfs_faults(1); int p = lmc_choose(2, "process"); threads({0, p}, {deep(1, 2), 2}, true); }
// a holder that stays: every attempt fails without waiting
static void refused() {
  Shared* s = new Shared; posix_env(); int p = lmc_choose(2, "process"), q = lmc_choose(2, "process"), u = lmc_choose(2, "process");
  Call* h = new Call{s, p, LK}; ONE(p, c13_attempt, h); CHECK(h->lock, "a free lock is refused");
  int procs[] = {q, u}; void (*fn[2])(void*) = {IN(q, c13_life), IN(u, c13_life)}; void* ar[2]; for (int i = 0; i < 2; i++) ar[i] = new Call{s, procs[i], LK, nullptr, 0, Status(), 0, 2}; const char* nm[] = {"a", "b"};
  lmc_run_in(2, procs, fn, ar, nm); CHECK(s->got == 1 && s->refused == 4, "attempts on a held lock succeed"); inforce(s, "after failed attempts");
  ONE(p, c13_release, h); all_free(s, 2, LK);
}
// process 1 exits at any moment, whatever it is doing
static void exits() {
  Shared* s = new Shared; posix_env(); int procs[] = {0, 1, 0}; Call* a = new Call{s, 0, LK, nullptr, 0, Status(), 0, 2}; Call* b = new Call{s, 1, LK, nullptr, 0, Status(), 1, deep(1, 2)};
  void (*fn[3])(void*) = {IN(0, c13_life), IN(1, c13_life), [](void* p) { lmc_yield(); Shared* s = (Shared*)p; vfs_process_exit(1); Quiet q; for (size_t j = 0; j < s->held.size();) if (s->held[j].proc == 1) s->held.erase(s->held.begin() + j); else j++; inforce(s, "after process 1 exited"); }};
  void* ar[] = {a, b, s}; const char* nm[] = {"a", "b", "exit"}; lmc_run_in(3, procs, fn, ar, nm); inforce(s, "at the end"); all_free(s, 1, LK); lmc_outcome(s->oh);
}
// ---- histories --------------------------------------------------------------------------
static void history_n(int depth, bool fl, bool kernel = false) {
  Shared* s = new Shared; posix_env(); if (fl) vfs_faults(1); if (kernel) vfs_real_processes();
  vfs_mkdir("/tmp/d"); static const char* NM[] = {"/tmp/LOCK", "/tmp/d/LOCK", "rel"}; Call* c[2][3]; for (int p = 0; p < 2; p++) for (int n = 0; n < 3; n++) c[p][n] = new Call{s, p, NM[n]};
  int names = fl ? 1 : 3; bool dead = false;
  for (int i = 0; i < depth; i++) {
    int k = lmc_choose(4 * names + 1, "operation");
    if (k == 4 * names) {   // process 1 exits
      if (dead) lmc_prune(); dead = true; vfs_process_exit(1); for (size_t j = 0; j < s->held.size();) if (s->held[j].proc == 1) s->held.erase(s->held.begin() + j); else j++;
      for (auto* x : c[1]) x->lock = nullptr; inforce(s, "after process 1 exited"); continue;
    }
    int p = k / (2 * names), n = k / 2 % names; Call* x = c[p][n]; if (p && dead) lmc_prune();
    if (k & 1) { if (!x->lock) lmc_prune(); ONE(p, c13_release, x); }
    else {
      FileLock* mine = x->lock; bool taken = false; for (auto& h : s->held) taken |= !strcmp(h.name, NM[n]); uint64_t h = disturbed();
      ONE(p, c13_attempt, x); if (mine) x->lock = mine; if (!taken) CHECK(x->op || disturbed() != h, "nobody holds %s, yet process %d cannot lock it", NM[n], p);
    }
  }
  vfs_faults(0); for (int p = 0; p < 2; p++) for (int n = 0; n < names; n++) if (c[p][n]->lock) ONE(p, c13_release, c[p][n]);
  for (int n = 0; n < names; n++) all_free(s, dead ? 1 : 2, NM[n]); lmc_outcome(s->oh);
}
static void history() { history_n(deep(5, 6), false); }
static void history_faults() { history_n(deep(6, 7), true); }
// the same on the kernel itself, with a real process for each
static void kernel() { history_n(deep(4, 5), false, true); }
static void errnos() { vfs_wide_errnos(1); history_n(deep(4, 5), true); }
// pairs of names that look alike: a lock on one says nothing of the other
static void shapes() {
  static const std::string LONG(200, 'n'); static const char* NM[] = {"/tmp/LOCK", "/tmp/d/LOCK", "/tmp/lock", "/tmp/LOCK1", "/tmp/LOC", "/tmp/LOCK ", "LOCK", "d", "/tmp/e/LOCK", "/tmp/\xc3\xa9", "/tmp/\xc3\xa8", nullptr, nullptr};
  static std::string l1 = "/tmp/" + LONG + "a", l2 = "/tmp/" + LONG + "b"; NM[11] = l1.c_str(); NM[12] = l2.c_str();
  Shared* s = new Shared; posix_env(); if (lmc_choose(2, "kernel")) vfs_real_processes(); vfs_mkdir("/tmp/d"); vfs_mkdir("/tmp/e"); int a = lmc_choose(13, "name"), b = lmc_choose(13, "name"), p = lmc_choose(2, "process"), q = lmc_choose(2, "process"); if (a == b) lmc_prune();
  Call* x = new Call{s, p, NM[a]}; Call* y = new Call{s, q, NM[b]}; Call* z = new Call{s, lmc_choose(2, "process"), NM[a]};
  ONE(p, c13_attempt, x); CHECK(x->lock, "nobody holds %s, yet it cannot be locked", NM[a]); ONE(q, c13_attempt, y); CHECK(y->lock, "nobody holds %s, yet it cannot be locked while %s is", NM[b], NM[a]);
  if (lmc_choose(2, "order")) { ONE(q, c13_release, y); ONE(z->proc, c13_attempt, z); CHECK(!z->lock, "a held lock is granted again"); ONE(p, c13_release, x); } else { ONE(p, c13_release, x); ONE(z->proc, c13_attempt, z); CHECK(z->lock, "a released lock cannot be had"); ONE(z->proc, c13_release, z); ONE(q, c13_release, y); }
  all_free(s, 2, NM[a]); all_free(s, 2, NM[b]);
}
// locking makes a missing file and leaves one that exists as it is
static void contents() {
  Shared* s = new Shared; posix_env(); int kind = lmc_choose(3, "file"); static const std::string old = "what the file held before\n"; const char* nm = lmc_choose(2, "name") ? LK : "rel"; std::string want = kind == 2 ? old : ""; if (kind) vfs_put(nm, want.data(), want.size()); Call* c[2] = {new Call{s, 0, nm}, new Call{s, 1, nm}}; bool made = kind;
  for (int i = 0; i < deep(4, 6); i++) {
    int k = lmc_choose(4, "operation"), p = k & 1; if (k < 2) { FileLock* mine = c[p]->lock; ONE(p, c13_attempt, c[p]); if (mine) c[p]->lock = mine; made = true; } else { if (!c[p]->lock) lmc_prune(); ONE(p, c13_release, c[p]); }
    size_t n; const char* d = vfs_data(nm, &n); CHECK((d != nullptr) == made, "the lock file is %s", d ? "there" : "missing"); if (d) CHECK(n == want.size() && !memcmp(d, want.data(), n), "locking changes the file's contents from %zu to %zu bytes", want.size(), n);
  }
  for (int p = 0; p < 2; p++) if (c[p]->lock) ONE(p, c13_release, c[p]);
  all_free(s, 2, nm); size_t n; const char* d = vfs_data(nm, &n); CHECK(d && n == want.size() && !memcmp(d, want.data(), n), "locking changes the file's contents from %zu to %zu bytes", want.size(), n);
}
// very many locks held at the same time
static void many() {
  static const int N[] = {2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 250}; Shared* s = new Shared; posix_env(); int n = N[lmc_choose(19, "locks")], p = lmc_choose(2, "process"), q = lmc_choose(2, "process"), how = lmc_choose(3, "order");
  auto* nm = new std::vector<std::string>; for (int i = 0; i < n; i++) nm->push_back("/tmp/L" + std::to_string(i)); std::vector<Call*> c; for (int i = 0; i < n; i++) { c.push_back(new Call{s, p, (*nm)[i].c_str()}); ONE(p, c13_attempt, c[i]); CHECK(c[i]->lock, "nobody holds %s, yet it cannot be locked while %d others are", (*nm)[i].c_str(), i); }
  for (int i = 0; i < n; i++) { Call* x = new Call{s, q, (*nm)[i].c_str()}; ONE(q, c13_attempt, x); CHECK(!x->lock, "one of %d held locks is granted again", n); delete x; }
  for (int k = 0; k < n; k++) { int i = how == 0 ? k : how == 1 ? n - 1 - k : (k * 7 + 3) % n; if (how == 2 && n % 7 == 0) i = k; ONE(p, c13_release, c[i]); Call* x = new Call{s, q, c[i]->name}; ONE(q, c13_tryall, x); delete x; lmc_count(1); }
  CHECK(vfs_open_fds(0) == 0 && vfs_open_fds(1) == 0, "a descriptor leaks"); all_free(s, 2, (*nm)[n - 1].c_str());
}
// a lock in a directory that does not exist yet; a lock on a directory
static void natural() {
  Shared* s = new Shared; Env* e = posix_env(); if (lmc_choose(2, "kernel")) vfs_real_processes(); vfs_mkdir("/tmp/d"); FileLock* l = (FileLock*)s;
  Status st = e->LockFile("/tmp/none/LOCK", &l); CHECK(st.IsNotFound() && !l, "a lock in a missing directory is reported as %s", st.ToString().c_str());
  l = (FileLock*)s; st = e->LockFile("/tmp/d", &l); CHECK(st.IsIOError() && !l, "a lock on a directory is reported as %s", st.ToString().c_str());
  vfs_mkdir("/tmp/none"); all_free(s, 2, "/tmp/none/LOCK"); fine(e->RemoveDir("/tmp/d"), "RemoveDir"); all_free(s, 2, "/tmp/d"); CHECK(vfs_open_fds(0) == 0, "a descriptor leaks");
  fine(e->LockFile("/tmp/x", &l), "LockFile"); FileLock* m = nullptr; fine(e->LockFile("/tmp/y", &m), "locking a second name"); fine(e->UnlockFile(l), "UnlockFile"); CHECK(vfs_lock_owner("/tmp/y") == 0, "releasing one lock releases another"); fine(e->UnlockFile(m), "UnlockFile"); CHECK(vfs_open_fds(0) == 0, "a descriptor leaks");
}
// as if the standard descriptors were closed: 0, 1 and 2 are files like others
static void low_fds() { vfs_first_fd(0, lmc_choose(2, "after")); history_n(deep(4, 5), false); }
LMC_SCENARIOS(
  {"low_fds", low_fds, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"natural", natural, {0, 0}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"history", history, {0, 0}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"kernel", kernel, {0, 0}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"contents", contents, {0, 0}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"many", many, {0, 0}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"shapes", shapes, {0, 0}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"history_faults", history_faults, {0, 0}, {2, 2}, {0, 0}, {60, 900}, LMC_PROC2},
  {"errnos", errnos, {0, 0}, {1, 2}, {0, 0}, {60, 900}, LMC_PROC2},
  {"two_threads", two_threads, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"two_procs", two_procs, {3, 5}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"two_names", two_names, {3, 5}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"threads_procs", threads_procs, {3, 4}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"procs22", procs22, {2, 3}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"threads_faults", threads_faults, {2, 3}, {2, 2}, {0, 0}, {60, 900}, LMC_PROC2},
  {"exits", exits, {3, 5}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2},
  {"refused", refused, {2, 4}, {0, 0}, {0, 0}, {60, 900}, LMC_PROC2})
