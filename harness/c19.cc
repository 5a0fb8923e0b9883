// C19: the in-memory environment against a plain file-system model.
#include "memenv_common.h"

static const char* NAME[] = {"/d/a", "/d/ab", "/d2/a"};

// every history over the names, writers left open
static void run_history(int nnames, int depth, std::vector<int> sizes) {
  Env* e = lsmdb::NewMemEnv(base_env()); MFs m;
  struct W { WritableFile* w; MF f; }; std::vector<W> open; int tag = 0; uint64_t oh = 1;
  for (int step = 0; step < depth; step++) {
    // operations: per name: new, append-open, remove; per pair: rename; per open writer: append*sizes, close
    int n = nnames, nw = open.size(), ns = sizes.size();
    int c = lmc_choose(3 * n + n * n + nw * (ns + 1), "operation");
    if (c < 3 * n) {
      std::string f = NAME[c / 3];
      if (c % 3 == 0) {
        NOTE("NewWritableFile(%s)", f.c_str()); WritableFile* w = nullptr; fine(e->NewWritableFile(f, &w), "NewWritableFile", f); CHECK(w, "no file object");
        MF& x = m[f]; if (x) x->data.clear(); else x.reset(new MFile); if (open.size() < 2) open.push_back({w, x}); else { fine(w->Close(), "Close", f); delete w; }
      } else if (c % 3 == 1) {
        NOTE("NewAppendableFile(%s)", f.c_str()); WritableFile* w = nullptr; fine(e->NewAppendableFile(f, &w), "NewAppendableFile", f); CHECK(w, "no file object");
        MF& x = m[f]; if (!x) x.reset(new MFile); if (open.size() < 2) open.push_back({w, x}); else { fine(w->Append("+"), "Append", f); x->data += "+"; delete w; }
      } else {
        NOTE("RemoveFile(%s)", f.c_str()); Status s = e->RemoveFile(f);
        if (m.erase(f)) fine(s, "RemoveFile", f); else missing(s, "RemoveFile", f);
      }
    } else if (c < 3 * n + n * n) {
      c -= 3 * n; std::string a = NAME[c / n], b = NAME[c % n]; NOTE("RenameFile(%s, %s)", a.c_str(), b.c_str()); Status s = e->RenameFile(a, b);
      if (!m.count(a)) missing(s, "RenameFile", a); else { fine(s, "RenameFile", a); if (a != b) { m[b] = m[a]; m.erase(a); } }
    } else {
      c -= 3 * n + n * n; W& w = open[c / (ns + 1)]; int o = c % (ns + 1);
      if (o < ns) { std::string d = pattern(tag++, sizes[o]); NOTE("Append(%d bytes)", sizes[o]); fine(w.w->Append(d), "Append", ""); w.f->data += d; std::fill(d.begin(), d.end(), '!'); }
      else { NOTE("Close"); fine(w.w->Flush(), "Flush", ""); fine(w.w->Sync(), "Sync", ""); fine(w.w->Close(), "Close", ""); delete w.w; open.erase(open.begin() + (&w - &open[0])); }
    }
    bool last = step + 1 == depth;
    for (int i = 0; i < n; i++) observe(e, m, NAME[i], last);
  }
  observe_dir(e, m, "/d"); observe_dir(e, m, "/d2"); observe_dir(e, m, "/none");
  for (auto& kv : m) oh = mixs(mixs(oh, kv.first), kv.second->data);
  lmc_outcome(oh);
  for (auto& w : open) delete w.w; delete e;
}
static void names3() { run_history(3, deep(4, 5), {2}); }
static void names2() { run_history(2, deep(5, 6), {0, 3}); }
static void names1() { run_history(1, deep(6, 8), {1, 8192}); }

// all append patterns around block boundaries, then reads at every boundary
static const int SZ[] = {0, 1, 100, 4095, 4096, 8190, 8191, 8192, 8193, 8194, 16383, 16384, 16385, 24577, 40000};
static const int NSZ = sizeof SZ / sizeof SZ[0];
static void blocks() {
  Env* e = lsmdb::NewMemEnv(base_env()); MFs m; std::string f = "/d/f"; m[f].reset(new MFile); std::string& d = m[f]->data;
  WritableFile* w = nullptr; fine(e->NewWritableFile(f, &w), "NewWritableFile", f);
  int n = deep(3, 4);
  for (int i = 0; i < n; i++) {
    int z = SZ[lmc_choose(NSZ, "append size")]; std::string p = pattern(i, z); fine(w->Append(p), "Append", f); d += p;
    if (i == 1) { fine(w->Flush(), "Flush", f); fine(w->Sync(), "Sync", f); delete w; fine(e->NewAppendableFile(f, &w), "NewAppendableFile", f); }
  }
  observe(e, m, f, true);
  RandomAccessFile* r; fine(e->NewRandomAccessFile(f, &r), "NewRandomAccessFile", f);
  std::set<uint64_t> off = {0, 1, d.size() / 2, d.size(), d.size() + 1, 1ull << 32, ~0ull}; for (uint64_t b = 4096; b <= d.size() + 8192; b += 4096) { off.insert(b - 1); off.insert(b); off.insert(b + 1); } if (d.size()) off.insert(d.size() - 1);
  static const size_t len[] = {0, 1, 8191, 8192, 8193, 16385, 100000, ~(size_t)0};
  for (uint64_t o : off) for (size_t l : len) check_random(r, d, o, l, "f");
  delete r; delete w;
  lmc_outcome(mixs(1, d)); delete e;
}
// sequential reads and skips of every pattern
static void seq() {
  Env* e = lsmdb::NewMemEnv(base_env()); std::string f = "x"; int z = SZ[lmc_choose(NSZ, "file size")]; std::string d = pattern(1, z);
  WritableFile* w = nullptr; fine(e->NewWritableFile(f, &w), "NewWritableFile", f); fine(w->Append(d), "Append", f); 
  SequentialFile* q = nullptr; fine(e->NewSequentialFile(f, &q), "NewSequentialFile", f); uint64_t pos = 0;
  static const uint64_t N[] = {0, 1, 5000, 8191, 8192, 8193, 20000, ~0ull, 1ull << 63, 1ull << 32}; int n = deep(3, 4);
  for (int i = 0; i < n; i++) {
    int c = lmc_choose(19, "read, skip or append"); if (c == 18) { fine(w->Append("more"), "Append", f); d += "more"; }
    else if (c < 8) { NOTE("read %llu", (unsigned long long)N[c]); check_seq(q, d, pos, N[c], "x"); } else { NOTE("skip %llu", (unsigned long long)N[c - 8]); check_skip(q, d, pos, N[c - 8], "x"); }
  }
  check_seq(q, d, pos, 7, "x"); delete q; delete w; lmc_outcome(mix(z, pos)); delete e;
}
// a reader whose file is emptied behind it
static void emptied() {
  Env* e = lsmdb::NewMemEnv(base_env()); std::string f = "/d/f"; int z = SZ[lmc_choose(NSZ, "first size")], y = SZ[lmc_choose(NSZ, "second size")]; std::string d = pattern(1, z);
  WritableFile* w = nullptr; fine(e->NewWritableFile(f, &w), "NewWritableFile", f); fine(w->Append(d), "Append", f); 
  SequentialFile* q = nullptr; fine(e->NewSequentialFile(f, &q), "NewSequentialFile", f); RandomAccessFile* r = nullptr; fine(e->NewRandomAccessFile(f, &r), "NewRandomAccessFile", f); uint64_t pos = 0;
  check_seq(q, d, pos, lmc_choose(2, "read") ? 8193 : 10, "f");
  WritableFile* w2 = nullptr; fine(e->NewWritableFile(f, &w2), "NewWritableFile", f); d.clear(); check_random(r, d, 0, 10, "f"); uint64_t sz = 9; fine(e->GetFileSize(f, &sz), "GetFileSize", f); CHECK(!sz, "size %llu after emptying", (unsigned long long)sz);
  std::string d2 = pattern(2, y); fine(w2->Append(d2), "Append", f); d = d2; if (lmc_choose(2, "skip")) check_skip(q, d, pos, 100, "f"); check_seq(q, d, pos, 9000, "f"); check_random(r, d, 0, 50000, "f"); check_random(r, d, 8191, 5, "f");
  fine(w->Append("tail"), "Append", f); d += "tail"; check_random(r, d, 0, 50000, "f");
  delete w; delete w2; delete q; delete r; delete e;
}
// a file of thousands of blocks
static void huge() {
  Env* e = lsmdb::NewMemEnv(base_env()); std::string f = "/d/huge"; std::string* d; size_t z = (size_t)deep(20, 200) * 1048576 + lmc_choose(3, "size") - 1;
  { Quiet q; d = new std::string(z, 'x'); for (size_t i = 0; i + 8 <= z; i += 1000) memcpy(&(*d)[i], &i, 8); }
  WritableFile* w = nullptr; fine(e->NewWritableFile(f, &w), "NewWritableFile", f); static const size_t P[] = {8192, 100000, 1048576, ~(size_t)0}; size_t piece = P[lmc_choose(4, "append size")];
  for (size_t at = 0; at < z;) { size_t k = std::min(piece, z - at); fine(w->Append(Slice(d->data() + at, k)), "Append", f); at += k; }
  uint64_t sz = 0; fine(e->GetFileSize(f, &sz), "GetFileSize", f); CHECK(sz == z, "size %llu of %zu", (unsigned long long)sz, z);
  RandomAccessFile* r; fine(e->NewRandomAccessFile(f, &r), "NewRandomAccessFile", f);
  for (uint64_t at : {(uint64_t)0, (uint64_t)65535, (uint64_t)524287, (uint64_t)1048576, (uint64_t)2097151, (uint64_t)8388607, (uint64_t)8388608, (uint64_t)16777215, (uint64_t)z - 8193, (uint64_t)z - 1, (uint64_t)z}) for (size_t n : {(size_t)1, (size_t)10000}) check_random(r, *d, at, n, "huge");
  check_random(r, *d, 0, z, "huge"); check_random(r, *d, 5, 9 << 20, "huge"); delete r;
  SequentialFile* q = nullptr; fine(e->NewSequentialFile(f, &q), "NewSequentialFile", f); uint64_t pos = 0; check_seq(q, *d, pos, 3, "huge"); check_skip(q, *d, pos, 9 << 20, "huge"); check_seq(q, *d, pos, 10000, "huge"); check_seq(q, *d, pos, z, "huge"); delete q;
  delete w; delete e; { Quiet q; delete d; }
}
// more bytes than 32 bits count (on the ordinary heap: 4 GB of it)
static char giant_byte(uint64_t i) { uint64_t b = i >> 13; return (i & 8191) < 8 ? (char)(b >> (i & 7) * 8) : (char)('a' + (i >> 13) % 23); }
static void giant() {
  lmc_host(1); Env* e = lsmdb::NewMemEnv(base_env()); std::string f = "/d/giant"; const uint64_t CH = 8 << 20, N = (1ull << 32) + 20000; char* c = (char*)malloc(CH); memset(c, 0, CH); WritableFile* w = nullptr; fine(e->NewWritableFile(f, &w), "NewWritableFile", f);
  for (uint64_t at = 0; at < N; at += CH) { uint64_t k = std::min(CH, N - at); for (uint64_t b = 0; b < k; b += 8192) { memset(c + b, 'a' + ((at + b) >> 13) % 23, 8192); uint64_t x = (at + b) >> 13; memcpy(c + b, &x, 8); } fine(w->Append(Slice(c, k)), "Append", f); }
  uint64_t sz = 0; fine(e->GetFileSize(f, &sz), "GetFileSize", f); CHECK(sz == N, "size %llu of %llu", (unsigned long long)sz, (unsigned long long)N);
  auto want = [&](const Slice& r, uint64_t off, size_t n, const char* what) { size_t k = off >= N ? 0 : std::min<uint64_t>(n, N - off); CHECK(r.size() == k, "%s of %zu at %llu of a file of 4 GB gives %zu bytes", what, n, (unsigned long long)off, r.size()); for (size_t i = 0; i < k; i++) CHECK(r[i] == giant_byte(off + i), "%s of %zu at %llu of a file of 4 GB gives other bytes at %zu", what, n, (unsigned long long)off, i); };
  RandomAccessFile* r; fine(e->NewRandomAccessFile(f, &r), "NewRandomAccessFile", f);
  for (uint64_t at : std::vector<uint64_t>{0, 12345, (1ull << 31) - 100, 1ull << 31, (1ull << 31) + 8190, (1ull << 32) - 100, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 12345, N - 1, N}) for (size_t n : {(size_t)1, (size_t)300, (size_t)9000, (size_t)30000}) { Slice g; fine(r->Read(at, n, &g, c), "Read", f); want(g, at, n, "a read"); }
  SequentialFile* q = nullptr; fine(e->NewSequentialFile(f, &q), "NewSequentialFile", f); uint64_t pos = 0; Slice g;
  for (uint64_t sk : std::vector<uint64_t>{(1ull << 31) - 50, 70, 1ull << 31, 9000, ~0ull}) { fine(q->Skip(sk), "Skip", f); pos = sk > N - pos ? N : pos + sk; fine(q->Read(100, &g, c), "Read", f); want(g, pos, 100, "a sequential read"); pos += g.size(); }
  delete q; fine(w->Append("tail"), "Append", f); fine(e->RenameFile(f, "/d/other"), "RenameFile", f); fine(e->GetFileSize("/d/other", &sz), "GetFileSize", f); CHECK(sz == N + 4, "size %llu of %llu", (unsigned long long)sz, (unsigned long long)N + 4); fine(r->Read(N - 2, 10, &g, c), "Read", f); CHECK(g.size() == 6 && !memcmp(g.data() + 2, "tail", 4), "what is appended at 4 GB does not come back");
  delete r; delete w; delete e; free(c); lmc_host(0);
}
// listings: names of every shape around the directory's own, in any company
static void listing() {
  static const std::string LONG(300, 'n');
  static const std::string N[] = {"/d", "/d/a", "/d/~", "/d/\xff", "/d/\x7f", "/d/\xc3\xa9", "/d/\x01", "/d/ ", "/d/-", "/d/A", "/d/z", "/d/" + LONG, std::string("/d/a\0b", 6), "/d-x", "/d.bak", "/d ", "/d!", "/d0", "/dd/a", "/D/a", "/c/z", "d/a", "/d\xff/a", "/e", "~", "a", "/~", "/a", "/dd"};
  static const char* D[] = {"/d", "d", "/d/d", "/d-x", "/none", "/dd", "/c", "/D", "/d/a", "/d-"};
  const int K = sizeof N / sizeof *N; Env* e = lsmdb::NewMemEnv(base_env()); MFs m; int a = lmc_choose(K + 1, "name"), b = lmc_choose(K, "name"), c = lmc_choose(K, "name");
  // a == K: all of them, but for two
  for (int i = 0; i < K; i++) if (a == K ? i != b && i != c : i == a || i == b || i == c) { WritableFile* w = nullptr; fine(e->NewWritableFile(N[i], &w), "NewWritableFile", N[i]); delete w; m[N[i]].reset(new MFile); }
  for (auto d : D) observe_dir(e, m, d);
  if (m.count(N[b])) { fine(e->RemoveFile(N[b]), "RemoveFile", N[b]); m.erase(N[b]); } else { WritableFile* w = nullptr; fine(e->NewAppendableFile(N[b], &w), "NewAppendableFile", N[b]); delete w; m[N[b]].reset(new MFile); }
  for (auto d : D) observe_dir(e, m, d);
  if (!m.empty()) { std::string f = m.begin()->first; fine(e->RenameFile(f, "/d/new"), "RenameFile", f); m["/d/new"] = m[f]; m.erase(f); for (auto d : D) observe_dir(e, m, d); }
  delete e;
}
static void rest() {
  Env* e = lsmdb::NewMemEnv(base_env()); fine(e->CreateDir("/d"), "CreateDir", "/d"); fine(e->RemoveDir("/d"), "RemoveDir", "/d");
  lsmdb::FileLock* l = nullptr; fine(e->LockFile("/d/LOCK", &l), "LockFile", ""); CHECK(l, "no lock object"); fine(e->UnlockFile(l), "UnlockFile", "");
  std::string t; fine(e->GetTestDirectory(&t), "GetTestDirectory", ""); CHECK(!t.empty(), "empty test directory");
  lsmdb::Logger* lg = nullptr; fine(e->NewLogger("/d/LOG", &lg), "NewLogger", ""); CHECK(lg, "no logger"); lsmdb::Log(lg, "hello %d", 5); lsmdb::Log(nullptr, "%s", "x"); delete lg;
  CHECK(e->NowMicros() == 77, "NowMicros is not the base's"); 
  std::string big = pattern(3, 300 * 1024 + lmc_choose(3, "size")), back; fine(lsmdb::WriteStringToFile(e, big, "/d/big"), "WriteStringToFile", ""); fine(lsmdb::ReadFileToString(e, "/d/big", &back), "ReadFileToString", ""); CHECK(back == big, "large file differs");
  delete e;
}
LMC_SCENARIOS(
  {"blocks", blocks, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"seq", seq, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"emptied", emptied, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"huge", huge, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"giant", giant, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"listing", listing, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"rest", rest, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"names1", names1, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"names2", names2, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"names3", names3, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
