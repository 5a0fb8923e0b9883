// C14: scheduled work and started threads.
#include "posix_common.h"

struct Item;
struct Ctx { Env* e; std::vector<Item*> items; std::vector<int> order; int running = 0; };
struct Item {
  Ctx* c; int id; int caller; bool thread = false; std::vector<Item*> then;   // scheduled by this item when it runs
  int payload = 0;                 // written plainly by the caller before the call
  int runs = 0, ran_in = -1; int in_call = 0; bool parent = false; int done = 0;
};
static void submit(Item* it);
static void body(Item* it, void* arg) {
  CHECK(arg == it, "item %d is run with another argument", it->id);
  CHECK(it->payload == it->id * 7 + 1, "item %d does not see what the caller wrote before the call", it->id);   // plain read: a race is reported
  { Quiet q; it->runs++; CHECK(it->runs == 1, "item %d is run twice", it->id); it->ran_in = lmc_self(); CHECK(!it->in_call, "item %d is run by its caller's own call", it->id); if (!it->parent || it->thread) CHECK(it->ran_in != it->caller, "item %d is run in its caller's thread", it->id); it->c->order.push_back(it->id); NOTE("item %d runs", it->id); }
  for (Item* x : it->then) { x->parent = !it->thread; submit(x); }
  it->done = 1;
}
static void submit(Item* it) {
  it->caller = lmc_self(); it->payload = it->id * 7 + 1; NOTE("%s item %d", it->thread ? "StartThread" : "Schedule", it->id);
  auto fn = [it](void* a) { { Quiet q; it->in_call = it->in_call && lmc_self() == it->caller; } body(it, a); };
  { Quiet q; it->in_call = 1; }
  if (it->thread) it->c->e->StartThread(fn, it); else it->c->e->Schedule(fn, it);
  { Quiet q; it->in_call = 0; }
}
static Item* item(Ctx* c, bool thread, std::vector<Item*> then = {}) { Item* i = new Item; i->c = c; i->id = c->items.size(); i->thread = thread; i->then = then; c->items.push_back(i); return i; }
static void finish(Ctx* c) {
  lmc_drain(); uint64_t h = 1;
  for (Item* i : c->items) { CHECK(i->runs == 1, "item %d was %s %d times", i->id, i->thread ? "started" : "scheduled and run", i->runs); CHECK(i->done, "item %d did not finish", i->id); }
  for (int x : c->order) h = mix(h, x); lmc_outcome(h);
}
static Ctx* ctx() { Ctx* c = new Ctx; c->e = posix_env(); return c; }
// all ways for 2 (3) threads to submit up to k items of either kind, some submitting more when they run
static void submits(int T, int maxitems, bool nested) {
  Ctx* c = ctx(); auto* todo = new std::vector<Item*>[T]; int total = 0;
  for (int t = 0; t < T; t++) { int n = 1 + (maxitems > 1 ? lmc_choose(maxitems, "items") : 0); for (int i = 0; i < n; i++) { bool th = lmc_choose(2, "start a thread"); std::vector<Item*> then; if (nested && i == 0) { int k = lmc_choose(3, "more"); if (k) then.push_back(item(c, k == 2)); } todo[t].push_back(item(c, th, then)); total++; } }
  int threads = 0; for (auto* i : c->items) threads += i->thread; if (threads > 3 || T + threads > 5) lmc_prune();
  if (T == 1) { for (auto* i : todo[0]) submit(i); }
  else { std::vector<std::function<void()>> f; for (int t = 0; t < T; t++) f.push_back([=] { for (auto* i : todo[t]) submit(i); }); run_threads(f); }
  finish(c);
}
static void one_thread() { submits(1, deep(3, 4), true); }
static void two_threads() { submits(2, deep(1, 2), true); }
static void two_pairs() { submits(2, 2, false); }
static void three_threads() { submits(3, 1, false); }
// items in a row, each scheduling the next, and another thread scheduling meanwhile
static void chain() {
  Ctx* c = ctx(); Item* a = item(c, false); for (int i = 0; i < deep(3, 5); i++) a = item(c, false, {a}); Item* b = item(c, false); Item* d = item(c, false);
  run_threads({[=] { submit(a); }, [=] { submit(b); submit(d); }}); finish(c);
}
// work given when the background thread is asleep again
static void later() {
  Ctx* c = ctx(); int n = deep(3, 4); for (int i = 0; i < n; i++) { Item* it = item(c, false); submit(it); if (lmc_choose(2, "wait")) { lmc_drain(); CHECK(it->done, "item %d is stuck", it->id); } } finish(c);
}
// the caller never waits: the item waits for the caller
struct Gate { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; bool open = false; void wait() { pthread_mutex_lock(&m); while (!open) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); } void go() { pthread_mutex_lock(&m); open = true; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); } };
static void nowait() {
  Ctx* c = ctx(); Gate* g = new Gate; int kind = lmc_choose(4, "kind"); auto* ran = new int[3]();
  auto blocked = [=](void* a) { g->wait(); CHECK(a == g, "wrong argument"); ran[0]++; };
  auto other = [=](void*) { ran[1]++; };
  auto opener = [=](void*) { g->go(); ran[2]++; };
  switch (kind) {
    case 0: c->e->Schedule(blocked, g); c->e->Schedule(other, nullptr); g->go(); ran[2]++; break;
    case 1: c->e->StartThread(blocked, g); c->e->Schedule(other, nullptr); c->e->Schedule(opener, nullptr); break;       // a started thread holds nothing up
    case 2: c->e->StartThread(blocked, g); c->e->StartThread(opener, nullptr); c->e->StartThread(other, nullptr); break;
    case 3: c->e->Schedule(blocked, g); c->e->StartThread(opener, nullptr); c->e->Schedule(other, nullptr); break;
  }
  lmc_drain(); for (int i = 0; i < 3; i++) CHECK(ran[i] == 1, "function %d was run %d times", i, ran[i]); lmc_outcome(kind);
}
// from inside an item, a thread is started and waited for; and what is scheduled there is not waited for
static void inside() {
  Ctx* c = ctx(); Gate* g = new Gate; Env* e = c->e; auto* ran = new int[3](); int k = lmc_choose(2, "outer");
  auto inner = [=](void*) { g->go(); ran[1]++; };
  auto outer = [=](void*) { e->Schedule([=](void*) { ran[2]++; }, nullptr); e->StartThread(inner, nullptr); g->wait(); ran[0]++; };
  if (k) e->Schedule(outer, nullptr); else e->StartThread(outer, nullptr);
  lmc_drain(); for (int i = 0; i < 3; i++) CHECK(ran[i] == 1, "function %d was run %d times", i, ran[i]);
}
// functions that all wait for the last one started
static void crowd() {
  // one after the other, each waiting for the next, so that few schedules tell all
  Ctx* c = ctx(); Env* e = c->e; Gate* g = new Gate[12]; int n = 1 + lmc_choose(9, "threads"), by = lmc_choose(3, "opened by"); auto* ran = new int[12](); if (by == 1 && n > 8) lmc_prune();
  for (int i = 0; i < n; i++) { e->StartThread([=](void* a) { CHECK(a == ran + i, "wrong argument"); g[i].wait(); ran[i]++; if (i) g[i - 1].go(); }, ran + i); lmc_drain(); }
  auto last = [=](void*) { g[n - 1].go(); }; if (by == 0) last(nullptr); else if (by == 1) e->StartThread(last, nullptr); else e->Schedule(last, nullptr);
  lmc_drain(); for (int i = 0; i < n; i++) CHECK(ran[i] == 1, "function %d of %d started is run %d times", i, n, ran[i]);
}
// many items
static void many() {
  Ctx* c = ctx(); int n = deep(2000, 20000); auto* ran = new int[n](); int k = lmc_choose(2, "pattern"); Env* e = c->e; int* rp = ran;
  for (int i = 0; i < n; i++) { e->Schedule([=](void* a) { CHECK(a == rp + i, "wrong argument"); Quiet q; rp[i]++; }, ran + i); if (k == 1 && i % 100 == 0) lmc_drain(); }
  lmc_drain(); for (int i = 0; i < n; i++) CHECK(ran[i] == 1, "item %d of %d was run %d times", i, n, ran[i]); lmc_count(n);
}
// every value of the argument, and every kind of function object, arrives as given; what an item schedules runs after it in the same thread
static std::vector<int>* g_seen; static int g_thread[8];
static void plain(void* a) { Quiet q; g_seen->push_back((int)(intptr_t)a); }
struct Functor { int* count; std::string text; void* want; void operator()(void* a) const { CHECK(a == want && text == "some text that does not fit in place", "a function object or its argument arrives changed"); Quiet q; (*count)++; } };
static void args() {
  Ctx* c = ctx(); Env* e = c->e; static void* const A[] = {nullptr, (void*)1, (void*)~(uintptr_t)0, (void*)((uintptr_t)1 << 63), (void*)&A, (void*)0x7fffffff, (void*)0x80000000, (void*)0x100000000}; int n = deep(2, 3); int* ran = new int(0); int want = 0; bool direct = lmc_choose(2, "drain between");
  { Quiet q; g_seen = new std::vector<int>; }
  for (int i = 0; i < n; i++) {
    void* a = A[lmc_choose(8, "argument")]; int kind = lmc_choose(4, "kind"); want++; Functor f{ran, "some text that does not fit in place", a};
    switch (kind) {
      case 0: e->Schedule(f, a); break;
      case 1: e->StartThread(f, a); break;
      case 2: { std::function<void(void*)> g = f; e->Schedule(g, a); g = nullptr; break; }
      case 3: { void* b = A[lmc_choose(8, "inner argument")]; Functor in{ran, "some text that does not fit in place", b}; int* done = new int(0), *th = new int(-1); want++;
        e->Schedule([=](void* x) { CHECK(x == a, "the argument arrives changed"); { Quiet q; *th = lmc_self(); } e->Schedule([=](void* y) { in(y); CHECK(*done, "what an item schedules is run before the item is over"); Quiet q; CHECK(*th == lmc_self(), "what an item schedules is run in another thread"); }, b); lmc_yield(); *done = 1; f(x); }, a); }
    }
    if (direct) lmc_drain();
  }
  void* p = A[1]; e->Schedule(plain, p); e->StartThread(plain, p); lmc_drain(); CHECK(*ran == want, "%d functions were scheduled or started, %d were run", want, *ran); CHECK(g_seen->size() == 2 && (*g_seen)[0] == 1 && (*g_seen)[1] == 1, "a plain function is not run once with its argument");
}
LMC_SCENARIOS(
  {"args", args, {1, 2}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"one_thread", one_thread, {5, -1}, {2, 2}, {0, 0}, {60, 900}, 0},
  {"two_threads", two_threads, {3, 4}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"two_pairs", two_pairs, {3, 4}, {0, 1}, {0, 0}, {60, 900}, 0},
  {"three_threads", three_threads, {3, 3}, {1, 1}, {0, 0}, {60, 900}, 0},
  {"chain", chain, {5, 7}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"later", later, {5, -1}, {2, 3}, {0, 0}, {60, 900}, 0},
  {"nowait", nowait, {5, -1}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"inside", inside, {5, -1}, {1, 2}, {0, 0}, {60, 900}, 0},
  {"crowd", crowd, {1, 2}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"many", many, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0})
