// C20: the in-memory environment under concurrent use.
#include "memenv_common.h"

static const std::string F = "/d/f", G = "/d/g";
enum Kind { APPEND, RREAD, SREAD, SKIP, NEWW, NEWA, SIZE, REMOVE, REN_FG, REN_GF, EXISTS, LIST, OPENR, SKIPALL, OPENX, NKIND };
static const char* KN[] = {"append", "random read", "read", "skip", "open for writing", "open for appending", "size", "remove", "rename f g", "rename g f", "exists", "list", "open for reading", "skip all", "open for random reading"};

// contents: base bytes of a pattern, then a tail
struct Con { uint32_t base; std::string tail; uint64_t size() const { return base + tail.size(); } };
static char base_char(uint64_t i) { return (char)('a' + i % 26); }
static const std::string* BASE = [] { lmc_host(1); auto* s = new std::string; for (int i = 0; i < 8190; i++) *s += base_char(i); lmc_host(0); return s; }();
static bool equals(const std::string& got, const Con& c) { return got.size() == c.size() && !memcmp(got.data(), BASE->data(), c.base) && !got.compare(c.base, std::string::npos, c.tail); }
static std::string slice_of(const Con& c, uint64_t off, size_t n) {
  std::string s; for (uint64_t i = off; i < c.size() && s.size() < n; i++) s += i < c.base ? base_char(i) : c.tail[i - c.base]; return s;
}
struct Op {
  int kind = 0, thr = 0; uint64_t inv = 0, res = 0;
  std::string arg;             // appended data
  uint64_t off = 0, n = 0;     // read
  int st = 0;                  // 0 ok, 1 not found, 2 other error
  std::string got; uint64_t num = 0;
};
struct Model {
  std::map<std::string, int> names; std::vector<Con> files; int wfile[3], sfile[3]; uint64_t pos[3]; int rfile[3];
  bool apply(const Op& o) {
    auto f = names.find(F), g = names.find(G); int t = o.thr;
    switch (o.kind) {
      case APPEND: if (o.st) return false; files[wfile[t]].tail += o.arg; return true;
      case RREAD: { const Con& c = files[rfile[t]]; if (o.st) return o.off > c.size(); return o.got == slice_of(c, o.off, o.n); }
      case SREAD: {
        const Con& c = files[sfile[t]]; if (o.st) return pos[t] > c.size();
        std::string e = slice_of(c, pos[t], o.n); if (e != o.got) return false; pos[t] += e.size(); return true;
      }
      case SKIP: case SKIPALL: {
        const Con& c = files[sfile[t]]; if (pos[t] > c.size()) return true;
        if (o.st) return false; pos[t] += std::min<uint64_t>(o.n, c.size() - pos[t]); return true;
      }
      case NEWW: if (o.st) return false; if (f == names.end()) { wfile[t] = files.size(); names[F] = files.size(); files.push_back(Con{0, ""}); } else { wfile[t] = f->second; files[f->second] = Con{0, ""}; } return true;
      case NEWA: if (o.st) return false; if (f == names.end()) { wfile[t] = files.size(); names[F] = files.size(); files.push_back(Con{0, ""}); } else wfile[t] = f->second; return true;
      case SIZE: if (f == names.end()) return o.st == 1; return o.st == 0 && o.num == files[f->second].size();
      case REMOVE: if (f == names.end()) return o.st == 1; if (o.st) return false; names.erase(f); return true;
      case REN_FG: if (f == names.end()) return o.st == 1; if (o.st) return false; names[G] = f->second; names.erase(F); return true;
      case REN_GF: if (g == names.end()) return o.st == 1; if (o.st) return false; names[F] = g->second; names.erase(G); return true;
      case EXISTS: return o.num == (uint64_t)(f != names.end());
      case LIST: return o.st == 0 && o.num == (uint64_t)((f != names.end()) | (g != names.end()) << 1);
      case OPENR: if (f == names.end()) return o.st == 1; if (o.st) return false; sfile[t] = f->second; pos[t] = 0; return true;
      case OPENX: if (f == names.end()) return o.st == 1; if (o.st) return false; rfile[t] = f->second; return true;
    }
    return false;
  }
};
static int code(const Status& s) { return s.ok() ? 0 : s.IsNotFound() ? 1 : 2; }

struct World {
  Env* e; WritableFile* w[3]; SequentialFile* q[3]; RandomAccessFile* r; RandomAccessFile* own[3] = {nullptr, nullptr, nullptr}; std::vector<Op> ops; Model m;
  void rec(Op& o) { o.res = lmc_tick(); Quiet z; if (lmc_tracing()) lmc_note("%s -> status %d, %zu bytes, %llu", KN[o.kind], o.st, o.got.size(), (unsigned long long)o.num); ops.push_back(o); }
  void run(int t, int kind) {
    Op* po; { Quiet z; po = new Op; } Op& o = *po; o.kind = kind; o.thr = t;
    char* buf; { Quiet z; buf = new char[64]; }
    switch (kind) {
      case APPEND: { { Quiet z; o.arg = t == 0 ? "01234" : t == 1 ? "PQRST" : "xyz"; o.inv = lmc_tick(); } o.st = code(w[t]->Append(Slice(o.arg))); break; }
      case RREAD: { Slice s; o.off = m.files[0].base > 4 ? m.files[0].base - 4 : 0; o.n = 20; o.inv = lmc_tick(); o.st = code((own[t] ? own[t] : r)->Read(o.off, o.n, &s, buf)); if (!o.st) { Quiet z; CHECK(s.size() <= 20, "a read of 20 gives %zu bytes", s.size()); o.got = s.ToString(); } break; }
      case SREAD: { Slice s; o.n = 3; o.inv = lmc_tick(); o.st = code(q[t]->Read(o.n, &s, buf)); if (!o.st) { Quiet z; CHECK(s.size() <= 3, "a read of 3 gives %zu bytes", s.size()); o.got = s.ToString(); } break; }
      case SKIP: case SKIPALL: o.n = kind == SKIP ? 6 : 1ull << 40; o.inv = lmc_tick(); o.st = code(q[t]->Skip(o.n)); break;
      case NEWW: case NEWA: { WritableFile* x = nullptr; o.inv = lmc_tick(); o.st = code(kind == NEWW ? e->NewWritableFile(F, &x) : e->NewAppendableFile(F, &x)); CHECK(o.st || x, "no file object"); if (!o.st) { rec(o); delete w[t]; w[t] = x; goto done; } break; }
      case SIZE: o.inv = lmc_tick(); o.st = code(e->GetFileSize(F, &o.num)); break;
      case REMOVE: o.inv = lmc_tick(); o.st = code(e->RemoveFile(F)); break;
      case REN_FG: o.inv = lmc_tick(); o.st = code(e->RenameFile(F, G)); break;
      case REN_GF: o.inv = lmc_tick(); o.st = code(e->RenameFile(G, F)); break;
      case EXISTS: o.inv = lmc_tick(); o.num = e->FileExists(F); break;
      case LIST: {
        std::vector<std::string>* v; { Quiet z; v = new std::vector<std::string>; } o.inv = lmc_tick(); o.st = code(e->GetChildren("/d", v)); 
        for (auto& s : *v) { int b = s == "f" ? 1 : s == "g" ? 2 : 0; CHECK(b && !(o.num & b), "listing gives a wrong or repeated name"); o.num |= b; } delete v; break;
      }
      case OPENR: { SequentialFile* x = nullptr; o.inv = lmc_tick(); o.st = code(e->NewSequentialFile(F, &x)); if (!o.st) { rec(o); delete q[t]; q[t] = x; goto done; } break; }
      case OPENX: { RandomAccessFile* x = nullptr; o.inv = lmc_tick(); o.st = code(e->NewRandomAccessFile(F, &x)); CHECK(o.st || x, "no file object"); if (!o.st) { rec(o); delete own[t]; own[t] = x; goto done; } break; }
    }
    rec(o);
   done:
    { Quiet z; delete po; delete[] buf; }
  }
};
static World* W;

static void go(int nthr, const int* len, const std::vector<int>& menu, bool gtoo) {
  int pr[3][3]; long prev = -1; int base = lmc_choose(2, "size") ? 8190 : 2; int nm = menu.size(); bool sym = true; for (int t = 1; t < nthr; t++) sym &= len[t] == len[0];
  for (int t = 0; t < nthr; t++) { long code = 0; for (int i = 0; i < len[t]; i++) { int c = lmc_choose(nm, "op"); pr[t][i] = menu[c]; code = code * nm + c; } if (sym && code < prev) lmc_prune(); prev = code; }
  World* w; { Quiet z; w = new World; } W = w; w->e = lsmdb::NewMemEnv(base_env());
  { Slice init(BASE->data(), base); WritableFile* x; fine(w->e->NewWritableFile(F, &x), "NewWritableFile", F); fine(x->Append(init), "Append", F); delete x; }
  w->m.names[F] = 0; w->m.files.push_back(Con{(uint32_t)base, ""}); for (int& x : w->m.rfile) x = 0;
  if (gtoo) { WritableFile* x; fine(w->e->NewWritableFile(G, &x), "NewWritableFile", G); fine(x->Append("gg"), "Append", G); delete x; w->m.names[G] = 1; w->m.files.push_back(Con{0, "gg"}); }
  for (int t = 0; t < nthr; t++) {
    fine(w->e->NewAppendableFile(F, &w->w[t]), "NewAppendableFile", F); fine(w->e->NewSequentialFile(F, &w->q[t]), "NewSequentialFile", F); w->m.pos[t] = base > 4 ? base - 4 : 1; fine(w->q[t]->Skip(w->m.pos[t]), "Skip", F); w->m.wfile[t] = w->m.sfile[t] = 0;
  }
  fine(w->e->NewRandomAccessFile(F, &w->r), "NewRandomAccessFile", F);
  std::vector<std::function<void()>> fs; for (int t = 0; t < nthr; t++) fs.push_back([w, t, &pr, len] { for (int i = 0; i < len[t]; i++) w->run(t, pr[t][i]); });
  run_threads(fs);
  // final state
  std::map<std::string, std::pair<int, std::string>> fin; uint64_t oh = base;
  for (auto& n : {F, G}) {
    uint64_t sz = 0; Status s = w->e->GetFileSize(n, &sz); if (!s.ok()) { CHECK(s.IsNotFound() && !w->e->FileExists(n), "final state of a name is inconsistent"); continue; }
    std::string c(sz, 0); RandomAccessFile* r = nullptr; fine(w->e->NewRandomAccessFile(n, &r), "NewRandomAccessFile", n); Slice got; fine(r->Read(0, sz, &got, &c[0]), "Read", n); CHECK(got.size() == sz, "final read is short"); delete r;
    Quiet z; fin[n] = {1, got.ToString()}; oh = mix(oh, sz);
  }
  for (auto& o : w->ops) oh = mixs(mix(mix(oh, o.st), o.num), o.got);
  {
    Quiet z; auto accept = [&](const Model& m) { if (m.names.size() != fin.size()) return false; for (auto& kv : m.names) { auto it = fin.find(kv.first); if (it == fin.end()) return false; const Con& c = m.files[kv.second]; if (!equals(it->second.second, c)) return false; } return true; };
    if (!linearizable<Model, Op>(w->m, w->ops, 0, nullptr, accept)) {
      std::string s; for (auto& o : w->ops) { char b[160]; snprintf(b, sizeof b, " t%d:%s=%d,\"%s\",%llu[%llu-%llu]", o.thr + 1, KN[o.kind], o.st, o.got.c_str(), (unsigned long long)o.num, (unsigned long long)o.inv, (unsigned long long)o.res); s += b; }
      for (auto& f : fin) s += " final " + f.first + ":" + std::to_string(f.second.second.size()) + " bytes";
      lmc_fail("no sequential order explains the results:%s", s.c_str());
    }
  }
  for (int t = 0; t < nthr; t++) { delete w->w[t]; delete w->q[t]; delete w->own[t]; } delete w->r; delete w->e; 
  lmc_outcome(oh); { Quiet z; delete w; } W = nullptr;
}
// objects whose name is gone, or goes meanwhile: each thread uses its own object and then gives it up
static void handles_n(int T) {
  int ty[3], op[3]; for (int t = 0; t < T; t++) { ty[t] = lmc_choose(3, "object"); op[t] = lmc_choose(ty[t] == 1 ? 3 : 2, "use"); if (t && ty[t] < ty[t - 1]) lmc_prune(); }
  int gone = lmc_choose(T == 2 ? 4 : 3, "name"), base = lmc_choose(2, "size") ? 8190 : 2;   // kept, removed before, removed by the first thread, replaced by the first thread
  World* w; { Quiet z; w = new World; } W = w; size_t before = 0; w->e = lsmdb::NewMemEnv(base_env()); for (int t = 0; t < 3; t++) { w->w[t] = nullptr; w->q[t] = nullptr; } w->r = nullptr;
  { Slice init(BASE->data(), base); WritableFile* x; fine(w->e->NewWritableFile(F, &x), "NewWritableFile", F); fine(x->Append(init), "Append", F); delete x; }
  w->m.names[F] = 0; w->m.files.push_back(Con{(uint32_t)base, ""}); for (int& x : w->m.rfile) x = 0; RandomAccessFile* rs[3] = {nullptr, nullptr, nullptr};
  for (int t = 0; t < T; t++) { w->m.wfile[t] = w->m.sfile[t] = 0; w->m.pos[t] = 0;
    if (ty[t] == 0) fine(w->e->NewAppendableFile(F, &w->w[t]), "NewAppendableFile", F);
    else if (ty[t] == 1) { fine(w->e->NewSequentialFile(F, &w->q[t]), "NewSequentialFile", F); w->m.pos[t] = base > 4 ? base - 4 : 1; fine(w->q[t]->Skip(w->m.pos[t]), "Skip", F); }
    else fine(w->e->NewRandomAccessFile(F, &rs[t]), "NewRandomAccessFile", F); }
  if (gone == 1) { fine(w->e->RemoveFile(F), "RemoveFile", F); w->m.names.erase(F); }
  std::vector<std::function<void()>> fs; RandomAccessFile** rp = rs;
  for (int t = 0; t < T; t++) fs.push_back([w, t, &ty, &op, gone, rp] {
    if (t == 0 && gone == 2) w->run(t, REMOVE);
    if (op[t]) { if (ty[t] == 0) w->run(t, APPEND); else if (ty[t] == 1) w->run(t, op[t] == 1 ? SREAD : SKIP); else { char* b; { Quiet z; b = new char[32]; } Slice s; Status st = rp[t]->Read(w->m.files[0].base - 2, 20, &s, b); if (gone != 3) fine(st, "Read", F); { Quiet z; CHECK(gone == 3 || (s.size() >= 2 && (s.size() - 2) % 5 % 3 == 0 && !memcmp(s.data(), BASE->data() + w->m.files[0].base - 2, 2)), "a read beside appends gives %zu bytes", s.size()); delete[] b; } } }
    if (ty[t] == 0) delete w->w[t]; else if (ty[t] == 1) delete w->q[t]; else delete rp[t];
    if (t == 0 && gone == 3) { WritableFile* x = nullptr; fine(w->e->NewWritableFile(F, &x), "NewWritableFile", F); delete x; } });
  run_threads(fs);
  if (gone != 3) { Quiet z; auto accept = [&](const Model&) { return true; }; if (!linearizable<Model, Op>(w->m, w->ops, 0, nullptr, accept)) lmc_fail("no sequential order explains the results of %zu calls", w->ops.size()); }
  if (gone == 0) { uint64_t sz = 0; fine(w->e->GetFileSize(F, &sz), "GetFileSize", F); uint64_t want = base; for (int t = 0; t < T; t++) if (ty[t] == 0 && op[t]) want += t == 2 ? 3 : 5; CHECK(sz == want, "the file has %llu bytes in the end, expected %llu", (unsigned long long)sz, (unsigned long long)want); }
  (void)before; delete w->e; { Quiet z; delete w; } W = nullptr;
}
static void handles2() { handles_n(2); }
static void handles3() { handles_n(3); }
// two environments share nothing
static void two_envs() {
  int k = lmc_choose(4, "first"), l = lmc_choose(4, "second"), base = lmc_choose(2, "size") ? 8190 : 2; Env* e[2]; for (auto& x : e) x = lsmdb::NewMemEnv(base_env());
  auto job = [=](Env* e, int k, char c) { return [=] {
    std::string* d; { Quiet z; d = new std::string(base, c); } WritableFile* x; fine(e->NewWritableFile(F, &x), "NewWritableFile", F); fine(x->Append(Slice(*d)), "Append", F); fine(x->Append(Slice(d->data(), 2)), "Append", F); delete x; std::string f = F; uint64_t sz = 0;
    switch (k) { case 0: fine(e->RenameFile(F, G), "RenameFile", F); f = G; break; case 1: fine(e->RemoveFile(F), "RemoveFile", F); CHECK(!e->FileExists(F), "a removed file is there"); return; case 2: fine(e->GetFileSize(F, &sz), "GetFileSize", F); CHECK(sz == (uint64_t)base + 2, "size"); break; case 3: fine(e->NewWritableFile(G, &x), "NewWritableFile", G); fine(x->Append(Slice(*d)), "Append", G); delete x; break; }
    SequentialFile* q; fine(e->NewSequentialFile(f, &q), "NewSequentialFile", f); char* b; { Quiet z; b = new char[16384]; } Slice s; fine(q->Read(16384, &s, b), "Read", f); { Quiet z; CHECK(s.size() == (size_t)base + 2 && s[0] == c && s[base + 1] == c, "an environment shows another one's data"); delete[] b; delete d; } delete q; }; };
  run_threads({job(e[0], k, 'a'), job(e[1], l, 'b')}); for (auto x : e) delete x;
}
static const int L11[] = {1, 1}, L22[] = {2, 2}, L111[] = {1, 1, 1}, L21[] = {2, 1}, L211[] = {2, 1, 1}, L33[] = {3, 3}, L222[] = {2, 2, 2};
static const std::vector<int> all = {APPEND, RREAD, SREAD, SKIP, NEWW, NEWA, SIZE, REMOVE, REN_FG, REN_GF, EXISTS, LIST, OPENR, SKIPALL, OPENX};
static const std::vector<int> data = {APPEND, RREAD, SREAD, SKIP, NEWW, SIZE};
static const std::vector<int> names = {NEWW, NEWA, REMOVE, REN_FG, REN_GF, LIST, SIZE};
static const std::vector<int> tiny = {APPEND, RREAD, SREAD, SKIPALL, NEWW};
static void two_all() { go(2, L22, all, false); }
static void two_data() { go(2, L33, tiny, false); }
static void two_names() { go(2, L22, names, true); }
static void three_all() { go(3, L111, all, false); }
static void three_names() { go(3, L111, names, true); }
static void three_data() { go(3, L211, tiny, false); }
static void three_deep() { go(3, L222, tiny, false); }
static void three_deep_names() { go(3, L222, {NEWA, REMOVE, REN_FG, REN_GF}, true); }
LMC_SCENARIOS(
  {"handles2", handles2, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"handles3", handles3, {2, 4}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"two_envs", two_envs, {1, 3}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"two_all", two_all, {2, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"two_data", two_data, {2, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"two_names", two_names, {-1, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"three_all", three_all, {3, -1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"three_names", three_names, {3, -1}, {0, 0}, {0, 0}, {60, 600}, 0},
  {"three_data", three_data, {2, 4}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"three_deep", three_deep, {2, 2}, {0, 0}, {0, 0}, {60, 900}, LMC_THOROUGH_ONLY},
  {"three_deep_names", three_deep_names, {2, 3}, {0, 0}, {0, 0}, {60, 900}, LMC_THOROUGH_ONLY})
