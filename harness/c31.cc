// C31: objects of their own and values: threads that share nothing, or only constant values, do not disturb each other.
#include <cstdarg>
#include "posix_common.h"
#include "db/skiplist.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/cache.h"
#include "util/arena.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
#include "util/random.h"
using lsmdb::FileLock; using lsmdb::Logger;
namespace lsmdb { Status WriteStringToFileSync(Env*, const Slice&, const std::string&); }
using lsmdb::WriteStringToFileSync;
typedef std::string Str;
static Slice* g_slice; static Status *g_status, *g_ok; static Env* g_env;
static Str num(long long v) { char b[32]; snprintf(b, sizeof b, "%lld,", v); return b; }
static Str key(int v, int i) { Str k(1 + (v * 7 + i * 5) % 40, 'a' + (v + i) % 26); k += num(v * 1000 + i); return k; }
static Str at(int who, const char* n) { char b[40]; snprintf(b, sizeof b, "/tmp/t%d/%s", who, n); return b; }
static Str put(int, int v) { Str s; lsmdb::PutFixed32(&s, 0x01020304 * v); lsmdb::PutFixed64(&s, 0x0102030405060708ull * v); lsmdb::PutVarint32(&s, 1u << (v + 20)); lsmdb::PutVarint64(&s, 1ull << (v + 50)); lsmdb::PutLengthPrefixedSlice(&s, key(v, 1)); return s + num(lsmdb::VarintLength(1ull << (v * 9))); }
static Str get(int, int v) {
  Str s; lsmdb::PutVarint32(&s, 77777u * v); lsmdb::PutVarint64(&s, 77777777777ull * v); lsmdb::PutLengthPrefixedSlice(&s, key(v, 2)); lsmdb::PutFixed32(&s, 12345 + v); lsmdb::PutFixed64(&s, ~0ull - v);
  Slice in(s), r; uint32_t a = 0; uint64_t b = 0; bool ok = lsmdb::GetVarint32(&in, &a) && lsmdb::GetVarint64(&in, &b) && lsmdb::GetLengthPrefixedSlice(&in, &r); CHECK(ok && in.size() == 12, "decoding fails");
  return num(a) + num(b) + r.ToString() + num(lsmdb::DecodeFixed32(in.data())) + num(lsmdb::DecodeFixed64(in.data() + 4));
}
static Str hash(int, int v) { Str k = key(v, 3); return num(lsmdb::Hash(k.data(), k.size(), 0xbc9f1d34 + v)); }
static Str number(int, int v) { Str s = "x"; lsmdb::AppendNumberTo(&s, 12345678901ull * v); return s + lsmdb::NumberToString(~0ull / v); }
static Str escape(int, int v) { Str t(9, (char)(v * 101)), s = "x"; lsmdb::AppendEscapedStringTo(&s, t); Str e = lsmdb::EscapeString(key(v, 4) + t); return s + e; }
static Str parse(int, int v) { Str t = num(98765432109ll * v); Slice in(t); uint64_t n = 0; bool ok = lsmdb::ConsumeDecimalNumber(&in, &n); return num(ok) + num(n) + in.ToString(); }
static Str draw(int, int v) { lsmdb::Random r(v * 7919); Str s; for (int i = 0; i < 3; i++) s += num(r.Next()) + num(r.Uniform(100)) + num(r.OneIn(3)) + num(r.Skewed(9)); return s; }
static Str status(int, int v) { Str m = key(v, 5), n = key(v, 6); Status a = Status::NotFound(m, n), b = Status::IOError(m), c = a, d; d = b; Status e = std::move(c); return a.ToString() + b.ToString() + d.ToString() + e.ToString() + num(a.IsNotFound()) + num(d.IsIOError()) + Status::Corruption(n).ToString() + Status::NotSupported(n, m).ToString() + Status::InvalidArgument(m, m).ToString() + Status::OK().ToString(); }
static Str same_status(int, int) { Status c(*g_status), d; d = *g_status; return c.ToString() + d.ToString() + g_status->ToString() + g_ok->ToString() + num(g_status->ok()) + num(g_status->IsCorruption()) + num(g_status->IsNotFound()) + num(g_status->IsIOError()) + num(g_status->IsNotSupportedError()) + num(g_status->IsInvalidArgument()) + num(g_ok->ok()); }
static Str slice(int, int v) { Str k = key(v, 7), l = key(v, 8); Slice a(k), b(l), c(k.c_str()); b.remove_prefix(1); Str s = num(a.compare(b) > 0) + num(a == c) + num(a != b) + num(a.starts_with(b)) + b.ToString() + num(a[0]); a.clear(); return s + num(a.empty()); }
static Str same_slice(int, int) { Slice c(*g_slice); return g_slice->ToString() + num(g_slice->size()) + num(g_slice->compare(c)) + num(*g_slice == c) + num(g_slice->starts_with(c)) + num((*g_slice)[2]) + Str(g_slice->data(), 3); }
static Str arena(int, int v) { lsmdb::Arena a; Str s; std::vector<char*> ps; for (int i = 0; i < 6; i++) { size_t n = 1 + (v * 613 + i * 977) % 3000; char* p = i & 1 ? a.AllocateAligned(n) : a.Allocate(n); memset(p, 'a' + i, n); ps.push_back(p); s += num(((uintptr_t)p & 7) && (i & 1)); } for (int i = 0; i < 6; i++) s += ps[i][0]; return s + num(a.MemoryUsage()); }
struct Cmp { int operator()(uint64_t a, uint64_t b) const { return a < b ? -1 : a > b; } };
static Str list(int, int v) {
  lsmdb::Arena a; lsmdb::SkipList<uint64_t, Cmp> l(Cmp(), &a); for (int i = 0; i < 5; i++) l.Insert((v * 31 + i * 17) % 97 + 1); Str s; lsmdb::SkipList<uint64_t, Cmp>::Iterator it(&l);
  for (it.SeekToFirst(); it.Valid(); it.Next()) s += num(it.key()); for (it.SeekToLast(); it.Valid(); it.Prev()) s += num(it.key()); it.Seek(40); if (it.Valid()) s += num(it.key()); return s + num(l.Contains(v)) + num(a.MemoryUsage() > 0);
}
static void gone(const Slice& k, void* p) { *(Str*)p += "-" + k.ToString(); }
static Str cache(int, int v) {
  Str* log; { Quiet z; log = new Str; } Str s;
  { auto c = lsmdb::NewLRUCache(64); for (int i = 0; i < 4; i++) c->Release(c->Insert(key(v, i % 3), log, 1 + i, gone)); lsmdb::Cache::Handle* h = c->Lookup(key(v, 1)); s += num(h != nullptr); if (h) { s += num(c->Value(h) == log); c->Erase(key(v, 1)); c->Release(h); } s += num(c->TotalCharge()); uint64_t a = c->NewId(), b = c->NewId(); s += num(a != b); c->Prune(); s += num(c->TotalCharge()); c->Release(c->Insert(key(v, 9), log, 1, gone)); }
  s += *log; { Quiet z; delete log; } return s;
}
static Str files(Env* e, int who, int v) {       // a little life in a directory of one's own
  Str d = at(who, ""), f = at(who, "f"), g = at(who, "g"), s, t = key(v, 1); d.pop_back(); WritableFile* w = nullptr; fine(e->NewWritableFile(f, &w), "NewWritableFile"); fine(w->Append(t), "Append"); fine(w->Append(key(v, 2)), "Append"); fine(w->Sync(), "Sync"); fine(w->Close(), "Close"); delete w;
  fine(e->NewAppendableFile(f, &w), "NewAppendableFile"); fine(w->Append("+"), "Append"); fine(w->Flush(), "Flush"); delete w; fine(e->RenameFile(f, g), "RenameFile");
  char b[100]; Slice r; SequentialFile* q = nullptr; fine(e->NewSequentialFile(g, &q), "NewSequentialFile"); fine(q->Skip(2), "Skip"); fine(q->Read(90, &r, b), "Read"); s += r.ToString(); delete q; RandomAccessFile* ra = nullptr; fine(e->NewRandomAccessFile(g, &ra), "NewRandomAccessFile"); fine(ra->Read(1, 5, &r, b), "Read"); s += r.ToString(); delete ra;
  uint64_t n = 0; fine(e->GetFileSize(g, &n), "GetFileSize"); std::vector<Str> ns; fine(e->GetChildren(d, &ns), "GetChildren"); std::sort(ns.begin(), ns.end()); for (auto& x : ns) if (x[0] != '.') s += x; s += num(n) + num(e->FileExists(f)) + num(e->FileExists(g)); fine(e->RemoveFile(g), "RemoveFile"); Status nf = e->RemoveFile(g); return s + num(nf.IsNotFound()) + num(nf.ToString().size() > 5);
}
static Str posix(int who, int v) { return files(g_env, who, v); }
static Str memory(int who, int v) { Env* m = lsmdb::NewMemEnv(g_env); Str s = files(m, who, v); delete m; return s; }
static Str whole(int who, int v) { Str f = at(who, "w"), r; fine(WriteStringToFile(g_env, key(v, 3), f), "WriteStringToFile"); fine(ReadFileToString(g_env, f, &r), "ReadFileToString"); Str s = r; fine(WriteStringToFileSync(g_env, "short", f), "WriteStringToFileSync"); fine(ReadFileToString(g_env, f, &r), "ReadFileToString"); fine(g_env->RemoveFile(f), "RemoveFile"); Status x = ReadFileToString(g_env, f, &r); return s + r + num(x.IsNotFound()); }
static Str missing(int who, int v) { Str f = at(who, v & 1 ? "nothing" : "none"), s; SequentialFile* q; RandomAccessFile* r; uint64_t n; s += g_env->NewSequentialFile(f, &q).ToString() + g_env->NewRandomAccessFile(f, &r).ToString() + g_env->GetFileSize(f, &n).ToString() + g_env->RemoveDir(f).ToString() + g_env->RenameFile(f, f + "x").ToString(); WritableFile* w; return s + g_env->NewWritableFile(f + "/y", &w).ToString() + g_env->CreateDir(at(who, "")).ToString(); }
static Str lock(int who, int v) { Str f = at(who, "LOCK"); FileLock *l = nullptr, *m = nullptr; fine(g_env->LockFile(f, &l), "LockFile"); Status s = g_env->LockFile(f, &m); CHECK(!s.ok(), "a lock is given twice"); Str t = s.ToString(); fine(g_env->UnlockFile(l), "UnlockFile"); fine(g_env->LockFile(f, &l), "LockFile"); fine(g_env->UnlockFile(l), "UnlockFile"); fine(g_env->RemoveFile(f), "RemoveFile"); return t; }
static Str logger(int who, int v) { Str f = at(who, "LOG"), r, s; Logger* l = nullptr; fine(g_env->NewLogger(f, &l), "NewLogger"); for (int i = 0; i < 2; i++) lsmdb::Log(l, "%s<%d>", (key(v, i) + (v & 1 ? Str(600, 'L') : Str())).c_str(), v + i); delete l; fine(ReadFileToString(g_env, f, &r), "ReadFileToString"); fine(g_env->RemoveFile(f), "RemoveFile"); size_t p = 0; for (;;) { size_t n = r.find('\n', p); if (n == Str::npos) break; Str line = r.substr(p, n - p); size_t k = line.rfind(key(v, 0).substr(0, 1)), x = line.find(' ', 20); s += (x == Str::npos ? line : line.substr(line.rfind(' ') + 1)) + "|"; p = n + 1; (void)k; } return s + num(r.size() - p); }
struct Sub : lsmdb::EnvWapper { using EnvWapper::EnvWapper; };
static Str wrapped(int who, int v) { Sub* w = new Sub(g_env); Str f = at(who, "x"), t; fine(WriteStringToFile(w, key(v, 4), f), "WriteStringToFile"); fine(ReadFileToString(w, f, &t), "ReadFileToString"); fine(w->RemoveFile(f), "RemoveFile"); t += num(w->FileExists(f)); Str d; fine(w->GetTestDirectory(&d), "GetTestDirectory"); t += d; delete w; return t; }
static void add_job(void* p) { ++*(int*)p; }
static Str clock(int, int v) { uint64_t a = g_env->NowMicros(); g_env->SleepForMicroseconds(v); uint64_t b = g_env->NowMicros(); return num(b >= a + v); }
struct Thing { const char* name; Str (*fn)(int, int); };
static const Thing things[] = {{"encode", put}, {"decode", get}, {"hash", hash}, {"print", number}, {"escape", escape}, {"parse", parse}, {"draw", draw}, {"statuses", status}, {"one status", same_status}, {"slices", slice}, {"one slice", same_slice}, {"arena", arena}, {"list", list}, {"cache", cache}, {"files", posix}, {"files in memory", memory}, {"whole files", whole}, {"missing names", missing}, {"lock", lock}, {"log", logger}, {"wrapper", wrapped}, {"clock", clock}};
static const int NT = sizeof things / sizeof *things;
static void go(int T, int rounds) {
  int c[3][2]; int prev = 0; for (int t = 0; t < T; t++) for (int r = 0; r < rounds; r++) { int k = lmc_choose(NT, "activity"); if (r == 0) { if (k < prev) lmc_prune(); prev = k; } c[t][r] = k; }
  for (int t = 0; t < T; t++) { char d[20]; snprintf(d, sizeof d, "/tmp/t%d", t); vfs_mkdir(d); }
  g_env = posix_env(); g_slice = new Slice(strcpy(new char[8], "shared!"), 7); g_status = new Status(Status::Corruption("shared", "status")); g_ok = new Status;
  Str* out[3]; for (int t = 0; t < T; t++) { Quiet z; out[t] = new Str[2]; }
  Heap heap; {
  std::vector<std::function<void()>> fs; for (int t = 0; t < T; t++) fs.push_back([t, rounds, &c, &out] { for (int r = 0; r < rounds; r++) { Str s = things[c[t][r]].fn(t, t + 1 + r); Quiet z; out[t][r] = s; } });
  run_threads(fs); } heap.near("by the threads"); uint64_t oh = 0;
  for (int t = 0; t < T; t++) for (int r = 0; r < rounds; r++) { Heap h; { Str e = things[c[t][r]].fn(t, t + 1 + r); CHECK(out[t][r] == e, "%s beside %s gives \"%s\", alone \"%s\"", things[c[t][r]].name, things[c[!t][0]].name, out[t][r].c_str(), e.c_str()); Quiet z; oh = mixs(oh, e); } h.same(things[c[t][r]].name); }
  for (int t = 0; t < T; t++) { Quiet z; delete[] out[t]; } delete[] g_slice->data(); delete g_slice; delete g_status; delete g_ok; CHECK(vfs_open_fds(0) == 0 && vfs_live_maps(0) == 0, "%d descriptors and %d mappings are left", vfs_open_fds(0), vfs_live_maps(0)); lmc_outcome(oh);
}
static void two() { go(2, 1); }
static void three() { go(3, 1); }
static void two_each() { go(2, 2); }
LMC_SCENARIOS(
  {"two", two, {2, 3}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"three", three, {0, 1}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"two_each", two_each, {0, 1}, {0, 0}, {0, 0}, {60, 900}, 0})
