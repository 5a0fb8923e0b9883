// C28: mutexes, scoped locks and condition variables.
#include <stdexcept>
#include "h.h"
#include "port/port.h"
#include "util/mutexlock.h"
using lsmdb::MutexLock; using lsmdb::port::CondVar; using lsmdb::port::Mutex;
static int deep(int q, int t) { return lmc_tier() ? t : q; }

// ---- exclusion ------------------------------------------------------------------------
struct Excl { Mutex m[2]; int owner[2] = {-1, -1}; int count[2] = {0, 0}; int total[2] = {0, 0}; };
static void in(Excl* x, int i) { CHECK(x->owner[i] == -1, "two threads are between lock and unlock"); x->owner[i] = lmc_self(); x->m[i].AssertHeld(); }   // plain accesses: a race is reported
static void out(Excl* x, int i) { CHECK(x->owner[i] == lmc_self(), "another thread was between lock and unlock"); x->count[i]++; x->owner[i] = -1; }
static int early(Excl* x, int i, int how) {
  MutexLock l(&x->m[i]); in(x, i); if (how == 1) { out(x, i); return 7; } if (how == 2) { out(x, i); throw std::runtime_error("out"); } out(x, i); return how;
}
static void section(Excl* x, int kind) {
  int i = kind >= 7 ? 1 : 0;
  switch (kind) {
    case 0: case 7: x->m[i].Lock(); in(x, i); out(x, i); x->m[i].Unlock(); break;
    case 1: { MutexLock l(&x->m[0]); in(x, 0); out(x, 0); break; }
    case 2: early(x, 0, 1); break;
    case 3: try { early(x, 0, 2); } catch (const std::runtime_error&) {} break;
    case 4: for (int k = 0; k < 2; k++) { MutexLock l(&x->m[0]); in(x, 0); out(x, 0); x->total[0]++; if (k == 0) continue; break; } { Quiet q; } break;
    case 5: { MutexLock a(&x->m[0]); in(x, 0); { MutexLock b(&x->m[1]); in(x, 1); out(x, 1); } out(x, 0); break; }
    case 6: { MutexLock* l = new MutexLock(&x->m[0]); in(x, 0); out(x, 0); delete l; break; }
  }
}
static int adds(int kind, int i) { return kind == 4 ? (i ? 0 : 2) : kind == 5 ? 1 : kind == 7 ? i : !i; }
static void excl(int T, int len) {
  Excl* x = new Excl; auto* p = new std::vector<int>[T]; int want[2] = {0, 0};
  for (int t = 0; t < T; t++) { for (int k = 0; k < len; k++) p[t].push_back(lmc_choose(8, "section")); if (t && p[t] < p[t - 1]) lmc_prune(); for (int k : p[t]) for (int i = 0; i < 2; i++) want[i] += adds(k, i); }
  std::vector<std::function<void()>> f; for (int t = 0; t < T; t++) f.push_back([=] { for (int k : p[t]) section(x, k); }); run_threads(f);
  for (int i = 0; i < 2; i++) { x->m[i].Lock(); in(x, i); CHECK(x->count[i] == want[i], "%d sections ran, the count says %d", want[i], x->count[i]); out(x, i); x->m[i].Unlock(); } delete[] p; delete x;
}
static void excl_one() { excl(1, deep(3, 4)); }
static void excl_two() { excl(2, deep(2, 2)); }
static void excl_three() { excl(3, 1); }
static void excl_four() { excl(4, 1); }

// ---- condition variables: all programs ------------------------------------------------------
struct Wait { int cv; bool began = false, back = false, must = false; int tid = -1; };
struct Mon {
  Mutex mu; CondVar* cv[2]; int owner = -1; int data = 0, shadow = 0;
  std::vector<Wait*> waits; int tokens[2] = {0, 0};
  Mon() { cv[0] = new CondVar(&mu); cv[1] = new CondVar(&mu); } ~Mon() { delete cv[0]; delete cv[1]; }
  void enter() { CHECK(owner == -1, "two threads hold the mutex"); owner = lmc_self(); CHECK(data == shadow, "the last holder's write is not seen"); data++; shadow++; }
  void leave() { CHECK(owner == lmc_self(), "another thread holds the mutex"); data += 2; shadow += 2; owner = -1; }
  int waiting(int c) { int n = 0; for (Wait* w : waits) n += w->cv == c && w->began && !w->back; return n; }
  void returned(Wait* w) { Quiet q; w->back = true; if (tokens[w->cv]) tokens[w->cv]--; }
  void wait(int c, Wait* w) { w->cv = c; mu.Lock(); enter(); { Quiet q; waits.push_back(w); w->began = true; w->tid = lmc_self(); NOTE("waits on %d", c); } leave(); cv[c]->Wait(); enter(); returned(w); NOTE("is back"); leave(); mu.Unlock(); }
  void signal(int c, bool all, bool locked) {
    mu.Lock(); enter(); std::vector<Wait*>* before; int n; { Quiet q; before = new std::vector<Wait*>; for (Wait* w : waits) if (w->cv == c && !w->back) before->push_back(w); n = before->size(); NOTE("signals %d%s%s, %d wait", c, all ? " all" : "", locked ? "" : " without the mutex", n); }
    if (!locked) { leave(); mu.Unlock(); }
    if (all) cv[c]->SignalAll(); else cv[c]->Signal();
    { Quiet q;
      if (all) { for (Wait* w : *before) if (!w->back) w->must = true; }
      else if (locked) { if (tokens[c] < waiting(c)) tokens[c]++; }
      else { bool none = n > 0; for (Wait* w : *before) if (w->back) none = false; if (none && !tokens[c]) tokens[c] = 1; }
      delete before; }
    if (locked) { leave(); mu.Unlock(); }
  }
};
// 0-1 wait, 2-3 signal, 4-5 signal all, 6 signal without the mutex, 7 signal all without the mutex, 8 plain section
static void act(Mon* m, int op) {
  if (op < 2) { Wait* w; { Quiet q; w = new Wait; } m->wait(op, w); } else if (op < 4) m->signal(op - 2, false, true); else if (op < 6) m->signal(op - 4, true, true); else if (op < 8) m->signal(0, op == 7, false); else { MutexLock l(&m->mu); m->enter(); m->leave(); }
}
static void settle(Mon* m) {
  lmc_drain(); uint64_t h = 1;
  for (Wait* w : m->waits) { CHECK(w->back || !w->must, "a waiter that began before a signal to all still waits"); h = mix(h, w->back); }
  for (int c = 0; c < 2; c++) CHECK(!m->tokens[c], "a signal woke nobody though %d wait", m->waiting(c));
  // whoever is left is woken by one signal to all, and the mutex is free
  for (int r = 0; r < 12 && m->waiting(0) + m->waiting(1); r++) { m->signal(0, true, true); m->signal(1, true, true); lmc_drain(); for (Wait* w : m->waits) CHECK(w->back || !w->must, "a waiter stays behind when all are signalled"); }
  lmc_drain(); CHECK(!lmc_live_threads(), "%d threads are stuck", lmc_live_threads()); m->mu.Lock(); m->enter(); m->leave(); m->mu.Unlock(); lmc_outcome(h);
}
static void programs(std::vector<std::vector<int>> p) {
  Mon* m = new Mon; static const char* N[] = {"t1", "t2", "t3", "t4"};
  for (size_t t = 0; t < p.size(); t++) { auto* f = new std::function<void()>([=] { for (int op : p[t]) act(m, op); }); lmc_spawn([](void* a) { (*(std::function<void()>*)a)(); }, f, N[t]); }
  settle(m);
}
static void all_programs(int T, int len, int nops) {
  std::vector<std::vector<int>> p(T); bool w = false;
  for (int t = 0; t < T; t++) { for (int k = 0; k < len; k++) { int op = lmc_choose(nops, "operation"); w |= op < 2; p[t].push_back(op); } if (t && p[t] < p[t - 1]) lmc_prune(); }
  if (!w) lmc_prune(); programs(p);
}
static void two_by_one() { all_programs(2, 1, 9); }
static void two_by_two() { all_programs(2, 2, 9); }
static void three_by_one() { all_programs(3, 1, 9); }
static void three_by_two() { all_programs(3, 2, 5); }
// three waiters and one who signals twice in any way
static void three_waiters() { static const int S[] = {2, 4, 6, 7}; int a = S[lmc_choose(4, "first")], b = S[lmc_choose(4, "then")]; int odd = lmc_choose(2, "third waits elsewhere"); programs({{0}, {0}, {odd}, {a, b}}); }

// ---- the ways condition variables are used ---------------------------------------------------
// a flag: whoever waits for it gets it, in every order of events
struct Flag { Mutex mu; CondVar cv; bool set = false; int payload = 0, got = 0; Flag() : cv(&mu) {} };
static void flag() {
  Flag* f = new Flag; int n = 1 + lmc_choose(2, "waiters"), how = lmc_choose(n == 1 ? 4 : 2, "signal"); std::vector<std::function<void()>> b;
  for (int i = 0; i < n; i++) b.push_back([=] { MutexLock l(&f->mu); while (!f->set) f->cv.Wait(); CHECK(f->payload == 5, "the waiter does not see what was written before the signal"); f->got++; });
  b.push_back([=] { if (how & 1) { { MutexLock l(&f->mu); f->payload = 5; f->set = true; } if (how & 2) f->cv.Signal(); else f->cv.SignalAll(); } else { MutexLock l(&f->mu); if (how & 2) f->cv.Signal(); else f->cv.SignalAll(); f->payload = 5; f->set = true; } });
  run_threads(b); CHECK(f->got == n, "only %d of %d waiters got through", f->got, n); delete f;
}
// a queue of one place, two condition variables
struct Queue { Mutex mu; CondVar room, some; int held = 0, place = 0, put = 0, got = 0, sum = 0; Queue() : room(&mu), some(&mu) {} };
static void queue(int P, int C, int each) {
  Queue* q = new Queue; std::vector<std::function<void()>> b; int total = P * each;
  for (int i = 0; i < P; i++) b.push_back([=] { for (int k = 0; k < each; k++) { q->mu.Lock(); while (q->held) q->room.Wait(); q->place = ++q->put; q->held = 1; q->some.Signal(); q->mu.Unlock(); } });
  for (int i = 0; i < C; i++) b.push_back([=] { for (;;) { MutexLock l(&q->mu); while (!q->held && q->got < total) q->some.Wait(); if (q->got == total) return; q->sum += q->place; q->got++; q->held = 0; q->room.Signal(); if (q->got == total) q->some.SignalAll(); } });
  run_threads(b); CHECK(q->sum == total * (total + 1) / 2, "items were lost or doubled: %d", q->sum); delete q;
}
static void queue_1_1() { queue(1, 1, deep(3, 4)); }
static void queue_2_1() { queue(2, 1, 1); }
static void queue_1_2() { queue(1, 2, deep(2, 2)); }
static void queue_2_2() { queue(2, 2, 1); }
// turns
struct Turns { Mutex mu; CondVar cv; int turn = 0; Turns() : cv(&mu) {} };
static void turns() { Turns* x = new Turns; int T = 3, rounds = deep(1, 2); std::vector<std::function<void()>> b; for (int t = 0; t < T; t++) b.push_back([=] { for (int r = 0; r < rounds; r++) { MutexLock l(&x->mu); while (x->turn % T != t) x->cv.Wait(); x->turn++; x->cv.SignalAll(); } }); run_threads(b); CHECK(x->turn == T * rounds, "turns were lost"); delete x; }
// the mutex is free while a thread waits, and held again afterwards
static void released() {
  Flag* f = new Flag; auto* st = new int[2](); int k = lmc_choose(2, "signal all");
  run_threads({[=] { f->mu.Lock(); st[0] = 1; while (!f->set) f->cv.Wait(); st[1] = 1; st[1] = 2; f->mu.Unlock(); },
               [=] { for (;;) { MutexLock l(&f->mu); if (st[0]) { f->set = true; if (k) f->cv.SignalAll(); else f->cv.Signal(); CHECK(st[1] == 0, "the waiter runs on while another holds the mutex"); break; } lmc_prune(); } },
               [=] { MutexLock l(&f->mu); CHECK(st[1] != 1, "the waiter came back without the mutex"); }});
  CHECK(st[1] == 2, "the waiter is stuck"); delete f;
}
LMC_SCENARIOS(
  {"excl_one", excl_one, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"excl_two", excl_two, {-1, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"excl_three", excl_three, {3, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"excl_four", excl_four, {2, 3}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"two_by_one", two_by_one, {-1, -1}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"two_by_two", two_by_two, {3, -1}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"three_by_one", three_by_one, {3, -1}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"three_by_two", three_by_two, {1, 2}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"three_waiters", three_waiters, {2, 3}, {0, 1}, {0, 0}, {60, 900}, 0},
  {"flag", flag, {-1, -1}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"queue_1_1", queue_1_1, {-1, -1}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"queue_2_1", queue_2_1, {4, -1}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"queue_1_2", queue_1_2, {3, 4}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"queue_2_2", queue_2_2, {3, 4}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"turns", turns, {3, 5}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"released", released, {-1, -1}, {1, 1}, {0, 0}, {60, 900}, 0})
