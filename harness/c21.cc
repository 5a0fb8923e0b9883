// C21: objects open on the in-memory environment outlive what happens to names.
#include "memenv_common.h"
static const char* NAME[] = {"/d/a", "/d/b"};

struct H { int kind; WritableFile* w = nullptr; SequentialFile* q = nullptr; RandomAccessFile* r = nullptr; MF f; uint64_t pos = 0; };   // kind 0 writer 1 seq 2 random
struct Run {
  Env* e; MFs m; std::vector<H> open; int tag = 0; size_t unit;
  std::map<MFile*, std::weak_ptr<MFile>> all;
  size_t limit = 3;
  MF fresh() { MF f(new MFile); return f; }
  void use(H& h) {                      // every handle must still serve its own contents
    const std::string& d = h.f->data;
    if (h.kind == 2) { check_random(h.r, d, 0, d.size() + 4, "open reader"); if (d.size()) check_random(h.r, d, d.size() - 1, 4, "open reader"); }
  }
  void close(size_t i) { H& h = open[i]; delete h.w; delete h.q; delete h.r; open.erase(open.begin() + i); }
  // operations: per name {new, append-open, open seq, open random, remove}, rename a-b, b-a, a-a; per handle {use, close}
  int count(int n) { return 5 * n + n * n + 2 * (int)open.size(); }
  void op(int c, int n, size_t sz) {
    if (c < 5 * n) {
      std::string f = NAME[c / 5]; H h; bool there = m.count(f);
      switch (c % 5) {
        case 0: NOTE("NewWritableFile(%s)", f.c_str()); h.kind = 0; fine(e->NewWritableFile(f, &h.w), "NewWritableFile", f); if (there) m[f]->data.clear(); else m[f] = fresh(); break;
        case 1: NOTE("NewAppendableFile(%s)", f.c_str()); h.kind = 0; fine(e->NewAppendableFile(f, &h.w), "NewAppendableFile", f); if (!there) m[f] = fresh(); break;
        case 2: NOTE("NewSequentialFile(%s)", f.c_str()); h.kind = 1; if (!there) { missing(e->NewSequentialFile(f, &h.q), "NewSequentialFile", f); return; } fine(e->NewSequentialFile(f, &h.q), "NewSequentialFile", f); break;
        case 3: NOTE("NewRandomAccessFile(%s)", f.c_str()); h.kind = 2; if (!there) { missing(e->NewRandomAccessFile(f, &h.r), "NewRandomAccessFile", f); return; } fine(e->NewRandomAccessFile(f, &h.r), "NewRandomAccessFile", f); break;
        case 4: NOTE("RemoveFile(%s)", f.c_str()); if (there) { fine(e->RemoveFile(f), "RemoveFile", f); m.erase(f); } else missing(e->RemoveFile(f), "RemoveFile", f); return;
      }
      h.f = m[f]; if (open.size() == limit) close(0); open.push_back(h);
    } else if (c < 5 * n + n * n) {
      c -= 5 * n; std::string a = NAME[c / n], b = NAME[c % n]; NOTE("RenameFile(%s, %s)", a.c_str(), b.c_str()); Status s = e->RenameFile(a, b);
      if (!m.count(a)) missing(s, "RenameFile", a); else { fine(s, "RenameFile", a); if (a != b) { m[b] = m[a]; m.erase(a); } }
    } else {
      c -= 5 * n + n * n; H& h = open[c / 2];
      if (c % 2) { NOTE("delete handle %d", c / 2); close(c / 2); }
      else if (h.kind == 0) { std::string d = pattern(tag++, sz); NOTE("append %zu through handle %d", sz, c / 2); fine(h.w->Append(d), "Append", ""); h.f->data += d; }
      else if (h.kind == 1) { NOTE("read through handle %d", c / 2); check_seq(h.q, h.f->data, h.pos, sz / 2 + 1, "open sequential reader"); }
      else { NOTE("read through handle %d", c / 2); use(h); }
    }
  }
  void check() { for (auto& h : open) use(h); }
  uint64_t digest() { uint64_t oh = 1; for (auto& kv : m) oh = mixs(mixs(oh, kv.first), kv.second->data); for (auto& h : open) oh = mixs(mix(oh, h.kind), h.f->data); return oh; }
};
static size_t base;
static void warm() {
  Env* e = lsmdb::NewMemEnv(base_env()); WritableFile* w; fine(e->NewWritableFile("/w", &w), "NewWritableFile", "/w"); fine(w->Append("x"), "Append", ""); delete w; std::string s; fine(lsmdb::ReadFileToString(e, "/w", &s), "ReadFileToString", ""); (void)e->RemoveFile("/none"); delete e;
  base = lmc_heap_live();
}
static void history(int n, int depth, size_t sz, size_t limit) {
  warm();
  Run* r = new Run; r->e = lsmdb::NewMemEnv(base_env()); r->limit = limit;
  for (int i = 0; i < depth; i++) { r->op(lmc_choose(r->count(n), "operation"), n, sz); r->check(); }
  for (int i = 0; i < n; i++) observe(r->e, r->m, NAME[i], true);
  lmc_outcome(r->digest());
  // the end: environment first, or handles first, or in between; either way nothing is freed twice or lost
  int order = lmc_choose(3, "what goes first"); size_t k = order == 0 ? 0 : order == 1 ? r->open.size() : r->open.size() / 2;
  for (size_t i = 0; i < k; i++) r->close(0);
  delete r->e; r->m.clear();
  for (auto& h : r->open) { if (h.kind == 0) { fine(h.w->Append("end"), "Append", ""); h.f->data += "end"; } }
  for (auto& h : r->open) if (h.kind == 1) check_seq(h.q, h.f->data, h.pos, 5, "reader after the environment"); else r->use(h);
  while (r->open.size()) r->close(r->open.size() - 1);
  delete r;
  CHECK(lmc_heap_live() == base, "%zu bytes still allocated when nothing refers to them", lmc_heap_live() - base);
}
static void one_name() { history(1, deep(6, 8), 6, 3); }
static void two_names() { history(2, deep(5, 6), 6, 3); }
static void one_blocks() { history(1, deep(5, 6), 8193, 2); }

// names that begin or end alike: what a rename replaces is released, whatever it is called
static void alike() {
  warm(); static const char* N[] = {"/d/f", "/d/f2", "/d/f/g", "/d/", "/d", "/e/f", "f", "/d/F", "/d/f "}; int a = lmc_choose(9, "name"), b = lmc_choose(9, "name"), c = lmc_choose(9, "name"), how = lmc_choose(3, "how"); if (a == b) lmc_prune();
  Env* e = lsmdb::NewMemEnv(base_env()); size_t empty = lmc_heap_live(); std::string big = pattern(3, 50000);
  for (int x : {a, b, c}) fine(lsmdb::WriteStringToFile(e, x == a ? Slice("source") : Slice(big), N[x]), "WriteStringToFile", N[x]);
  if (how == 0) fine(e->RenameFile(N[a], N[b]), "RenameFile", N[a]); else if (how == 1) { fine(e->RemoveFile(N[b]), "RemoveFile", N[b]); fine(e->RenameFile(N[a], N[b]), "RenameFile", N[a]); } else { fine(lsmdb::WriteStringToFile(e, "source", N[b]), "WriteStringToFile", N[b]); fine(e->RemoveFile(N[a]), "RemoveFile", N[a]); }
  size_t held = c != a && c != b ? 1 : 0; size_t now = lmc_heap_live() - big.capacity() - empty; CHECK(held || now < 30000, "%zu bytes are in use after %s was replaced by %s", now, N[b], N[a]);
  std::string got; fine(lsmdb::ReadFileToString(e, N[b], &got), "ReadFileToString", N[b]); CHECK(got == "source", "%s holds other contents", N[b]); CHECK(!e->FileExists(N[a]), "%s is still there", N[a]); if (held) { fine(lsmdb::ReadFileToString(e, N[c], &got), "ReadFileToString", N[c]); CHECK(got == big, "%s holds other contents", N[c]); }
  delete e; std::string().swap(got); std::string().swap(big); CHECK(lmc_heap_live() == base, "%zu bytes still allocated when nothing refers to them", lmc_heap_live() - base);
}
// memory comes back as soon as the last reference goes
static void freed() {
  warm(); Env* e = lsmdb::NewMemEnv(base_env()); const size_t BIG = 100000; Slice got; char* buf = new char[16];
  std::string d = pattern(2, BIG); size_t empty = lmc_heap_live();
  WritableFile* w; fine(e->NewWritableFile("/a", &w), "NewWritableFile", "/a"); fine(w->Append(d), "Append", ""); CHECK(lmc_heap_live() - empty >= BIG, "contents are not stored");
  SequentialFile* q; fine(e->NewSequentialFile("/a", &q), "NewSequentialFile", "/a"); RandomAccessFile* r; fine(e->NewRandomAccessFile("/a", &r), "NewRandomAccessFile", "/a");
  int how = lmc_choose(4, "how the name goes");
  if (how == 0) fine(e->RemoveFile("/a"), "RemoveFile", "/a");
  else if (how == 1) { fine(lsmdb::WriteStringToFile(e, "other", "/b"), "WriteStringToFile", "/b"); fine(e->RenameFile("/b", "/a"), "RenameFile", "/b"); }
  else if (how == 2) { fine(e->RenameFile("/a", "/c"), "RenameFile", "/a"); fine(e->RemoveFile("/c"), "RemoveFile", "/c"); }
  else { delete e; e = nullptr; }
  static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; const int* p = PERM[lmc_choose(6, "order of closing")];
  for (int i = 0; i < 3; i++) {
    CHECK(lmc_heap_live() >= BIG, "contents are gone while %d objects are open", 3 - i);
    bool rr = true, qq = true; for (int j = 0; j < i; j++) { if (p[j] == 2) rr = false; if (p[j] == 1) qq = false; }
    if (rr) { fine(r->Read(50000, 16, &got, buf), "Read", ""); CHECK(got.size() == 16 && !memcmp(got.data(), d.data() + 50000, 16), "other contents after the name went"); }
    if (qq) { fine(q->Read(16, &got, buf), "Read", ""); CHECK(got.size() == 16 && !memcmp(got.data(), d.data() + i * 16, 16), "other contents after the name went"); }
    if (p[i] == 0) delete w; else if (p[i] == 1) delete q; else delete r;
  }
  size_t now = lmc_heap_live(); CHECK(now < empty + BIG / 2, "%zu bytes of an unreachable file are still allocated", now - empty);
  delete e; delete[] buf; d.clear(); d.shrink_to_fit();
  CHECK(lmc_heap_live() == base, "%zu bytes leaked", lmc_heap_live() - base);
}
// the last references go in different threads at the same time
static void last_refs() {
  warm();
  {
    Env* e = lsmdb::NewMemEnv(base_env()); WritableFile* w; fine(e->NewWritableFile("/a", &w), "NewWritableFile", "/a"); fine(w->Append("hello"), "Append", "");
    SequentialFile* q; fine(e->NewSequentialFile("/a", &q), "NewSequentialFile", "/a");
    RandomAccessFile* r; fine(e->NewRandomAccessFile("/a", &r), "NewRandomAccessFile", "/a");
    int a = lmc_choose(4, "t2"), b = lmc_choose(5, "t3"); bool early = lmc_choose(2, "removed before");
    if (early) fine(e->RemoveFile("/a"), "RemoveFile", "/a");
    bool rdel = false;
    auto tail = [&](int k) {
      switch (k) {
        case 0: (void)e->RemoveFile("/a"); break;
        case 1: { WritableFile* x = nullptr; fine(e->NewWritableFile("/a", &x), "NewWritableFile", "/a"); delete x; break; }
        case 2: { SequentialFile* x = nullptr; if (e->NewSequentialFile("/a", &x).ok()) delete x; break; }
        case 3: (void)e->RenameFile("/a", "/b"); break;
        case 4: { char* buf = new char[8]; Slice g; Status s = r->Read(0, 5, &g, buf); CHECK(s.ok() && (g.size() == 0 || (g.size() == 5 && !memcmp(g.data(), "hello", 5))), "an open reader sees other contents"); delete[] buf; delete r; rdel = true; break; }
      }
    };
    run_threads({[&] { delete w; }, [&] { tail(a); delete q; }, [&] { tail(b); }});
    if (!rdel) delete r;
    delete e;
  }
  CHECK(lmc_heap_live() == base, "%zu bytes leaked", lmc_heap_live() - base);
}
// everything else the environment hands out or needs goes too: in sequence, whatever came before
static void others() {
  warm(); size_t base = lmc_heap_live();
  {
    Env* e = lsmdb::NewMemEnv(base_env()); lsmdb::FileLock* held = nullptr; WritableFile* w = nullptr; uint64_t h = 1;
    for (int i = 0; i < deep(4, 5); i++) {
      int c = lmc_choose(13, "operation"); h = mix(h, c);
      switch (c) {
        case 0: { lsmdb::FileLock* l = nullptr; fine(e->LockFile("/LOCK", &l), "LockFile", "/LOCK"); fine(e->UnlockFile(l), "UnlockFile", ""); break; }
        case 1: if (held) { fine(e->UnlockFile(held), "UnlockFile", ""); held = nullptr; } else fine(e->LockFile("/HELD", &held), "LockFile", "/HELD"); break;
        case 2: { lsmdb::Logger* l = nullptr; fine(e->NewLogger("/LOG", &l), "NewLogger", "/LOG"); lsmdb::Log(l, "%d %s", 5, "text"); delete l; break; }
        case 3: { SequentialFile* q = nullptr; Status st = e->NewSequentialFile("/none", &q); CHECK(!st.ok() && !q, "a missing file is opened"); break; }
        case 4: { RandomAccessFile* r = nullptr; Status st = e->NewRandomAccessFile("/none", &r); CHECK(!st.ok() && !r, "a missing file is opened"); break; }
        case 5: { uint64_t n; CHECK(!e->GetFileSize("/none", &n).ok(), "a missing file has a size"); CHECK(!e->RemoveFile("/none").ok(), "a missing file is removed"); CHECK(!e->RenameFile("/none", "/x").ok(), "a missing file is renamed"); break; }
        case 6: fine(lsmdb::WriteStringToFile(e, i & 1 ? Slice("hello") : Slice(std::string(9000, 'x')), "/a"), "WriteStringToFile", "/a"); break;
        case 7: if (e->FileExists("/a")) fine(e->RenameFile("/a", "/a-name-too-long-for-a-short-string"), "RenameFile", "/a"); else lmc_prune(); break;
        case 8: { delete w; w = nullptr; fine(e->NewAppendableFile("/a", &w), "NewAppendableFile", "/a"); fine(w->Append(Slice(std::string(5000, 'y'))), "Append", "/a"); break; }
        case 9: if (!w) lmc_prune(); delete w; w = nullptr; break;
        case 10: if (e->FileExists("/a")) fine(e->RemoveFile("/a"), "RemoveFile", "/a"); else lmc_prune(); break;
        case 11: { std::vector<std::string> v; fine(e->GetChildren("/", &v), "GetChildren", "/"); fine(e->GetChildren("", &v), "GetChildren", ""); std::string t; fine(e->GetTestDirectory(&t), "GetTestDirectory", ""); break; }
        case 12: { std::string d; Status st = lsmdb::ReadFileToString(e, "/a", &d); CHECK(st.ok() == e->FileExists("/a"), "reading a file that may be missing"); break; }
      }
    }
    if (held) fine(e->UnlockFile(held), "UnlockFile", ""); bool first = lmc_choose(2, "environment first"); if (first) delete e; delete w; if (!first) delete e; lmc_outcome(h);
  }
  CHECK(lmc_heap_live() == base, "%lld bytes leaked", (long long)(lmc_heap_live() - base));
}
LMC_SCENARIOS(
  {"others", others, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"alike", alike, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"freed", freed, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"last_refs", last_refs, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"two_names", two_names, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"one_blocks", one_blocks, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"one_name", one_name, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0})
