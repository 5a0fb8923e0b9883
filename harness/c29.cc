// C29: the default environment, its clock, its sleep and its test directory.
#include "posix_common.h"
static std::string* str(const std::string& s) { Quiet q; return new std::string(s); }

// ---- one instance, fully built --------------------------------------------------------
// 0 clock, 1 a file written and read, 2 scheduled work, 3 a lock, 4 a random read, 5 nothing
static void use(Env* e, int k, const std::string& name, int* ran) {
  switch (k) {
    case 0: { uint64_t a = e->NowMicros(); CHECK(a >= 1600000000000000ull, "the clock says %llu", (unsigned long long)a); break; }
    case 1: { fine(lsmdb::WriteStringToFile(e, "abc", name), "WriteStringToFile"); std::string s; fine(lsmdb::ReadFileToString(e, name, &s), "ReadFileToString"); CHECK(s == "abc", "read back something else"); break; }
    case 2: e->Schedule([](void* p) { ++*(int*)p; }, ran); break;
    case 3: { lsmdb::FileLock* l = nullptr; Status s = e->LockFile("/tmp/LOCK", &l); if (s.ok()) fine(e->UnlockFile(l), "UnlockFile"); break; }
    case 4: { RandomAccessFile* r = nullptr; fine(e->NewRandomAccessFile("/tmp/there", &r), "NewRandomAccessFile"); char b[8]; Slice s; fine(r->Read(1, 3, &s, b), "Read"); CHECK(s == Slice("ell"), "read something else"); delete r; break; }
  }
}
static void first(int T, int calls, int kinds) {
  vfs_put("/tmp/there", "hello", 5); auto* ran = new int[4](); auto* got = new Env*[8](); auto* k = new int[4](); int sched = 0;
  for (int t = 0; t < T; t++) { k[t] = lmc_choose(kinds, "use"); if (t && k[t] < k[t - 1]) lmc_prune(); sched += k[t] == 2; }
  std::vector<std::function<void()>> f;
  for (int t = 0; t < T; t++) f.push_back([=] { for (int c = 0; c < calls; c++) { Env* e = Env::Default(); CHECK(e, "no default environment"); got[t * 2 + c] = e; if (c == 0) use(e, k[t], t == 0 ? "/tmp/a" : t == 1 ? "/tmp/b" : "/tmp/c", ran + t); } });
  run_threads(f); lmc_drain(); Env* e = Env::Default();
  for (int t = 0; t < T; t++) { for (int c = 0; c < calls; c++) CHECK(got[t * 2 + c] == e, "two default environments"); CHECK(ran[t] == (k[t] == 2), "work scheduled on a fresh environment ran %d times", ran[t]); }
  lsmdb::FileLock* l = nullptr; fine(e->LockFile("/tmp/LOCK", &l), "LockFile afterwards"); fine(e->UnlockFile(l), "UnlockFile");
}
static void first_two() { first(2, 2, 6); }
static void first_three() { first(3, 1, 6); }
// first call from scheduled work, from a started thread, and after everything
static void nested() {
  Env* e = posix_env(); auto* got = new Env*[2](); int k = lmc_choose(2, "started");
  auto body = [=](void* p) { got[0] = Env::Default(); CHECK(p == got, "another argument"); }; if (k) e->StartThread(body, got); else e->Schedule(body, got); got[1] = Env::Default(); lmc_drain(); CHECK(got[0] == e && got[1] == e, "two default environments");
}
// still there while and after the program's statics are destroyed
static void at_exit() {
  vfs_put("/tmp/there", "hello", 5); Env* e = posix_env(); auto* ran = new int[6](); int k = lmc_choose(6, "use before"), j = lmc_choose(5, "use after"); use(e, k, "/tmp/a", ran);
  lsmdb::FileLock* l = nullptr; fine(e->LockFile("/tmp/HELD", &l), "LockFile"); lmc_drain(); bool conc = lmc_choose(2, "at the same time");
  if (conc) { run_threads({[=] { use(Env::Default(), j, "/tmp/b", ran + 1); }, [=] { lmc_run_exit(); }}); } else { lmc_run_exit(); }
  CHECK(Env::Default() == e, "two default environments"); use(e, j, "/tmp/c", ran + 2); fine(e->UnlockFile(l), "UnlockFile"); lmc_drain(); CHECK(ran[0] == (k == 2) && ran[1] == (conc && j == 2) && ran[2] == (j == 2), "work scheduled around exit did not run once");
}

// ---- the clock --------------------------------------------------------------------------
static void clock_values() {
  static const int64_t S[] = {0, 1, 999, 4294, 4295, 2147483, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 1600000000ll, 1ll << 33, 4102444800ll, 9223372035ll}; static const int64_t U[] = {0, 1, 999, 1000, 499999, 500000, 999999};
  Env* e = posix_env(); int64_t s = S[lmc_choose(14, "seconds")], u = U[lmc_choose(7, "microseconds")]; vfs_set_time(s, u); uint64_t t = e->NowMicros(), want = (uint64_t)s * 1000000 + u;
  CHECK(t == want, "the clock says %llu at %llu", (unsigned long long)t, (unsigned long long)want); CHECK(e->NowMicros() == want, "the clock says something else a moment later"); int64_t s2 = S[lmc_choose(14, "later")]; vfs_set_time(s2, u); t = e->NowMicros(); CHECK(t == (uint64_t)s2 * 1000000 + u, "the clock does not follow the system's"); lmc_outcome(want);
}
// the system's clock set forward and back by little: what is reported follows
static void clock_steps() {
  Env* e = posix_env(); static const int64_t D[] = {1, -1, 17, -17, 999, -999, 1000, -1001, 50000, -50000, 1000000, -999999, 3600000000ll, -3600000000ll}; int64_t t = 1700000000500000ll; vfs_set_time(t / 1000000, t % 1000000); uint64_t n = e->NowMicros(); CHECK(n == (uint64_t)t, "the clock says %llu", (unsigned long long)n);
  for (int i = 0; i < deep(3, 5); i++) { t += D[lmc_choose(14, "step")]; vfs_set_time(t / 1000000, t % 1000000); n = e->NowMicros(); CHECK(n == (uint64_t)t, "the clock says %llu at %lld", (unsigned long long)n, (long long)t); } lmc_outcome(t);
}
static void clock_threads() { Env* e = posix_env(); vfs_set_time(1700000000, 5); auto f = [=] { for (int i = 0; i < 2; i++) { uint64_t t = e->NowMicros(); CHECK(t == 1700000000000005ull, "the clock says %llu", (unsigned long long)t); } }; run_threads({f, f}); }

// ---- sleep --------------------------------------------------------------------------------
static void sleeps() {
  Env* e = posix_env(); static const int M[] = {0, 1, 2, 999, 1000, 1001, 999999, 1000000, 1000001, 1999999, 60000000, 2147483647, -1, -1000000, -2147483647 - 1}; int n = M[lmc_choose(15, "micros")]; uint64_t a = e->NowMicros(); e->SleepForMicroseconds(n); uint64_t want = n > 0 ? (uint64_t)n * 1000 : 0;
  CHECK(vfs_slept_ns() + 999 >= want, "a sleep of %d us lasts %llu ns", n, (unsigned long long)vfs_slept_ns()); CHECK(e->NowMicros() - a >= want / 1000, "the clock does not move during a sleep"); e->SleepForMicroseconds(10); CHECK(vfs_slept_ns() + 2 * 999 >= want + 10000, "a second sleep is too short");
}
// the system's time is set while the thread sleeps
static void sleep_stepped() {
  Env* e = posix_env(); int n = lmc_choose(2, "micros") ? 5000 : 3; int fwd = lmc_choose(2, "forward"); auto* slept = new uint64_t(0);
  run_threads({[=] { e->SleepForMicroseconds(n); *slept = vfs_slept_ns(); }, [=] { lmc_yield(); vfs_set_time(fwd ? 1900000000 : 1500000000, 0); }}); CHECK(*slept + 999 >= (uint64_t)n * 1000, "a sleep of %d us during which the clock was set lasts %llu ns", n, (unsigned long long)*slept); delete slept;
}
static void sleep_two() { Env* e = posix_env(); run_threads({[=] { e->SleepForMicroseconds(700); }, [=] { e->SleepForMicroseconds(300); }}); CHECK(vfs_slept_ns() + 1998 >= 1000000, "two sleeps last %llu ns together", (unsigned long long)vfs_slept_ns()); }

// ---- the test directory ---------------------------------------------------------------------
static std::string dir_of(Env* e) { std::string r = "what was here"; fine(e->GetTestDirectory(&r), "GetTestDirectory"); return r; }
static void test_dir() {
  Env* e = posix_env(); int k = lmc_choose(9, "TEST_TMPDIR"); static const unsigned U[] = {0, 1, 1000, 65534, 2147483647u, 2147483648u, 4294967295u}; unsigned u = U[lmc_choose(7, "user")]; bool old = lmc_choose(2, "exists already"); vfs_set_euid(u);
  std::string v; switch (k) { case 1: v = ""; break; case 2: v = "/tmp/x"; break; case 3: v = "/tmp/x/"; break; case 4: v = "rel"; break; case 5: v = "/tmp/" + std::string(120, 'l'); break; case 6: v = "/tmp/%s%d%n"; break; case 7: v = "/tmp/" + std::string(4000, 'l'); break; case 8: v = " "; break; }
  if (k) vfs_set_env("TEST_TMPDIR", v.c_str()); if (old && k > 1 && k != 7) vfs_mkdir(v.c_str()); std::string* a = str(dir_of(e));
  if (k > 1) CHECK(*a == v, "the test directory is %s, configured is %s", a->substr(0, 150).c_str(), v.substr(0, 150).c_str()); else CHECK(a->size() && (*a)[0] == '/', "the test directory is \"%s\"", a->c_str());
  if (k != 7) CHECK(vfs_exists(a->c_str()) == 2, "the test directory %s is not there", a->c_str());
  if (lmc_choose(2, "a file in it") && k != 7) { std::string f = *a + "/f"; fine(lsmdb::WriteStringToFile(e, "abc", f), "WriteStringToFile"); }
  for (int i = 0; i < 2; i++) { std::string b = dir_of(e); CHECK(b == *a, "the test directory changes from %s to %s", a->substr(0, 150).c_str(), b.substr(0, 150).c_str()); vfs_set_time(1700000000 + i, 0); }
  lmc_outcome(mixs(1, *a));
}
// another user gets another one, another process of the same user the same one
static void users() {
  Env* e = posix_env(); static const unsigned U[] = {0, 1, 10, 100, 1000, 1001, 65534, 65536, 1000000000u, 1000000001u, 2147483646u, 2147483647u, 2147483648u, 2147483649u, 3000000000u, 4294967293u, 4294967294u}; unsigned a = U[lmc_choose(17, "user")], b = U[lmc_choose(17, "other")]; vfs_set_euid(a); std::string x = dir_of(e); vfs_set_euid(b); std::string y = dir_of(e); CHECK((x == y) == (a == b), "users %u and %u get %s and %s", a, b, x.c_str(), y.c_str());
}
static void dir_threads() { Env* e = posix_env(); int k = lmc_choose(2, "configured"); if (k) vfs_set_env("TEST_TMPDIR", "/tmp/t"); auto* r = new std::string[2]; run_threads({[=] { r[0] = dir_of(e); }, [=] { r[1] = dir_of(e); }}); CHECK(r[0] == r[1] && vfs_exists(r[0].c_str()) == 2, "two threads get %s and %s", r[0].c_str(), r[1].c_str()); delete[] r; }
static void dir_faults() { vfs_wide_errnos(1); Env* e = posix_env(); int k = lmc_choose(2, "configured"); if (k) vfs_set_env("TEST_TMPDIR", "/tmp/t"); vfs_faults(1); std::string a = "", b = ""; Status s = e->GetTestDirectory(&a), t = e->GetTestDirectory(&b); vfs_faults(0); if (s.ok() && t.ok()) CHECK(a == b, "the test directory changes from %s to %s", a.c_str(), b.c_str()); if (s.ok() && k) CHECK(a == "/tmp/t", "the test directory is %s", a.c_str()); std::string c = dir_of(e); if (s.ok()) CHECK(a == c, "the test directory changes"); }
LMC_SCENARIOS(
  {"first_two", first_two, {3, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"first_three", first_three, {2, 3}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"nested", nested, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"at_exit", at_exit, {2, 4}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"clock_values", clock_values, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"clock_steps", clock_steps, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"clock_threads", clock_threads, {2, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"sleeps", sleeps, {0, 0}, {4, 8}, {0, 0}, {60, 900}, 0},
  {"sleep_stepped", sleep_stepped, {2, 3}, {2, 3}, {0, 0}, {60, 900}, 0},
  {"sleep_two", sleep_two, {2, 3}, {2, 3}, {0, 0}, {60, 900}, 0},
  {"test_dir", test_dir, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"users", users, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"dir_threads", dir_threads, {2, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"dir_faults", dir_faults, {0, 0}, {2, 2}, {0, 0}, {60, 900}, 0})
