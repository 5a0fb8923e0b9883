// C18: the environment wrapper forwards every call unchanged.
#include "posix_common.h"
using lsmdb::FileLock; using lsmdb::Logger;
typedef std::function<void(void*)> Fn;
static Status verdict(int k) { switch (k) { case 0: return Status::OK(); case 1: return Status::NotFound("nf", "x"); case 2: return Status::IOError("io"); case 3: return Status::Corruption("c", std::string(300, 'c')); case 4: return Status::NotSupported("ns"); default: return Status::InvalidArgument("ia"); } }
struct Call { int op = -1; std::string a, b; const void *pa = nullptr, *pb = nullptr, *out = nullptr; long long n = 0; };
struct Got : Env {   // the target: writes down what it is asked
  std::vector<Call> log; int status = 0; bool value = false; void* handout = nullptr; uint64_t number = 0; std::vector<std::string> list; std::string path; std::vector<Fn> fns; bool gone = false;
  ~Got() { CHECK(gone, "the wrapper destroys its target"); }
  template <class T> Status file(int op, const std::string& f, T** r) { Call c; c.op = op; c.a = f; c.pa = &f; c.out = r; log.push_back(c); *r = (T*)handout; return verdict(status); }
  Status name(int op, const std::string& f, const void* out = nullptr) { Call c; c.op = op; c.a = f; c.pa = &f; c.out = out; log.push_back(c); return verdict(status); }
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override { return file(0, f, r); }
  Status NewRandomAccessFile(const std::string& f, RandomAccessFile** r) override { return file(1, f, r); }
  Status NewWritableFile(const std::string& f, WritableFile** r) override { return file(2, f, r); }
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { return file(3, f, r); }
  bool FileExists(const std::string& f) override { name(4, f); return value; }
  Status GetChildren(const std::string& f, std::vector<std::string>* r) override { CHECK(r->size() == 1 && (*r)[0] == "mine", "GetChildren changes the list before the target sees it"); *r = list; return name(5, f, r); }
  Status RemoveFile(const std::string& f) override { return name(6, f); }
  Status CreateDir(const std::string& f) override { return name(7, f); }
  Status RemoveDir(const std::string& f) override { return name(8, f); }
  Status GetFileSize(const std::string& f, uint64_t* s) override { CHECK(*s == 5, "GetFileSize changes the size before the target sees it"); *s = number; return name(9, f, s); }
  Status RenameFile(const std::string& f, const std::string& t) override { Call c; c.op = 10; c.a = f; c.b = t; c.pa = &f; c.pb = &t; log.push_back(c); return verdict(status); }
  Status LockFile(const std::string& f, FileLock** l) override { return file(11, f, l); }
  Status UnlockFile(FileLock* l) override { Call c; c.op = 12; c.pa = l; log.push_back(c); return verdict(status); }
  void Schedule(Fn f, void* a) override { Call c; c.op = 13; c.pa = a; log.push_back(c); fns.push_back(f); }
  void StartThread(Fn f, void* a) override { Call c; c.op = 14; c.pa = a; log.push_back(c); fns.push_back(f); }
  Status GetTestDirectory(std::string* p) override { CHECK(*p == "mine", "GetTestDirectory changes the path before the target sees it"); *p = path; return name(15, "", p); }
  Status NewLogger(const std::string& f, Logger** r) override { return file(16, f, r); }
  uint64_t NowMicros() override { Call c; c.op = 17; log.push_back(c); return number; }
  void SleepForMicroseconds(int n) override { Call c; c.op = 18; c.n = n; log.push_back(c); }
};
static const char* OPS[] = {"NewSequentialFile", "NewRandomAccessFile", "NewWritableFile", "NewAppendableFile", "FileExists", "GetChildren", "RemoveFile", "CreateDir", "RemoveDir", "GetFileSize", "RenameFile", "LockFile", "UnlockFile", "Schedule", "StartThread", "GetTestDirectory", "NewLogger", "NowMicros", "SleepForMicroseconds"};
enum { NOPS = 19 };
static std::string text(int k) { switch (k) { case 0: return "/dir/file"; case 1: return ""; case 2: return std::string("a\0b", 3); case 3: return std::string(3000, 'n'); default: return "\xff%s\n/../x"; } }
static int ran; static void* ranarg;
static void one(Env* e, Got* t, int op) {
  std::string a, b; bool named = op <= 11 || op == 16, st = op != 4 && op != 13 && op != 14 && op < 17; a = named ? text(lmc_choose(5, "name")) : ""; if (op == 10) b = text(lmc_choose(5, "other name"));
  t->status = st ? lmc_choose(6, "status") : 0; t->value = lmc_choose(2, "value"); t->handout = t->value ? (void*)0x7001 : nullptr; static const uint64_t N[] = {0, 1, 1ull << 32, ~0ull}; t->number = op == 9 || op == 17 ? N[lmc_choose(4, "number")] : 7; size_t k = op == 5 ? lmc_choose(3, "children") : 0; t->list.assign(k, text(2)); if (op == 15) t->path = text(lmc_choose(5, "path"));
  static const int M[] = {0, 1, -1, 2147483647, -2147483647 - 1, 1000000}; int micros = op == 18 ? M[lmc_choose(6, "micros")] : 0; void* arg = t->value ? (void*)&ran : nullptr;
  size_t n0 = t->log.size(); Status s; const void* out = nullptr; NOTE("%s", OPS[op]);
  switch (op) {
    case 0: { SequentialFile* r = (SequentialFile*)8; s = e->NewSequentialFile(a, &r); out = &r; CHECK((void*)r == t->handout, "NewSequentialFile hands back another file"); goto after; }
    case 1: { RandomAccessFile* r = (RandomAccessFile*)8; s = e->NewRandomAccessFile(a, &r); out = &r; CHECK((void*)r == t->handout, "NewRandomAccessFile hands back another file"); goto after; }
    case 2: { WritableFile* r = (WritableFile*)8; s = e->NewWritableFile(a, &r); CHECK((void*)r == t->handout, "NewWritableFile hands back another file"); break; }
    case 3: { WritableFile* r = (WritableFile*)8; s = e->NewAppendableFile(a, &r); CHECK((void*)r == t->handout, "NewAppendableFile hands back another file"); break; }
    case 4: { bool r = e->FileExists(a); CHECK(r == t->value, "FileExists hands back another answer"); break; }
    case 5: { std::vector<std::string> r = {"mine"}; s = e->GetChildren(a, &r); CHECK(r == t->list, "GetChildren hands back another list"); break; }
    case 6: s = e->RemoveFile(a); break;
    case 7: s = e->CreateDir(a); break;
    case 8: s = e->RemoveDir(a); break;
    case 9: { uint64_t r = 5; s = e->GetFileSize(a, &r); CHECK(r == t->number, "GetFileSize hands back another size"); break; }
    case 10: s = e->RenameFile(a, b); break;
    case 11: { FileLock* r = (FileLock*)8; s = e->LockFile(a, &r); CHECK((void*)r == t->handout, "LockFile hands back another lock"); break; }
    case 12: s = e->UnlockFile((FileLock*)t->handout); break;
    case 13: case 14: {
      int mark = (int)n0 + 1; Fn f = [mark](void* p) { ran = ran * 100 + mark; ranarg = p; };
      if (op == 13) e->Schedule(f, arg); else e->StartThread(f, arg);
      CHECK(ran == 0, "%s runs the function itself", OPS[op]); CHECK(t->fns.size() == 1, "%s hands on %zu functions", OPS[op], t->fns.size()); t->fns[0](arg); CHECK(ran == mark && ranarg == arg, "%s hands on another function", OPS[op]); ran = 0; t->fns.clear(); break;
    }
    case 15: { std::string r = "mine"; s = e->GetTestDirectory(&r); CHECK(r == t->path, "GetTestDirectory hands back another path"); break; }
    case 16: { Logger* r = (Logger*)8; s = e->NewLogger(a, &r); CHECK((void*)r == t->handout, "NewLogger hands back another logger"); break; }
    case 17: { uint64_t r = e->NowMicros(); CHECK(r == t->number, "NowMicros hands back another time"); break; }
    case 18: e->SleepForMicroseconds(micros); break;
  }
after: (void)out;
  CHECK(t->log.size() == n0 + 1, "%s reaches the target %zu times", OPS[op], t->log.size() - n0); Call& c = t->log.back();
  CHECK(c.op == op, "%s is forwarded to %s", OPS[op], OPS[c.op]); CHECK(c.a == a && c.b == b, "%s is forwarded with other names", OPS[op]);
  if (op == 12) CHECK(c.pa == t->handout, "UnlockFile is forwarded with another lock"); if (op == 13 || op == 14) CHECK(c.pa == arg, "%s is forwarded with another argument", OPS[op]); if (op == 18) CHECK(c.n == micros, "SleepForMicroseconds(%d) is forwarded as %lld", micros, c.n);
  if (st) CHECK(s.ToString() == verdict(t->status).ToString() && s.ok() == !t->status && s.IsNotFound() == (t->status == 1) && s.IsIOError() == (t->status == 2) && s.IsCorruption() == (t->status == 3), "%s hands back \"%s\"", OPS[op], s.ToString().substr(0, 99).c_str());
}
struct Plain : lsmdb::EnvWapper { explicit Plain(Env* t) : EnvWapper(t) {} };
struct Some : lsmdb::EnvWapper { explicit Some(Env* t) : EnvWapper(t) {} bool FileExists(const std::string&) override { return false; } };
static void calls(int len, int kinds) {
  Got* t = new Got; int kind = lmc_choose(kinds, "wrapper"); lsmdb::EnvWapper *w, *in = nullptr;
  switch (kind) { case 0: w = new lsmdb::EnvWapper(t); break; case 1: w = new Plain(t); break; case 2: in = new Plain(t); w = new Plain(in); break; default: w = new Some(t); }
  CHECK(w->target() == (in ? (Env*)in : (Env*)t), "target() is another environment");
  for (int i = 0; i < len; i++) { int op = lmc_choose(NOPS, "operation"); if (kind == 3 && op == 4) lmc_prune(); one(w, t, op); }
  size_t n = t->log.size(); CHECK(w->target() == (in ? (Env*)in : (Env*)t), "target() changed"); delete w; delete in; CHECK(t->log.size() == n, "destroying the wrapper calls the target"); t->gone = true; delete t;
}
static void single() { calls(1, 4); }
static void pairs() { calls(2, 2); }
static void append_default() {   // an environment that does not implement appending
  struct Base : Env {
    int n = 0; Status any() { n++; return Status::OK(); }
    Status NewSequentialFile(const std::string&, SequentialFile**) override { return any(); } Status NewRandomAccessFile(const std::string&, RandomAccessFile**) override { return any(); } Status NewWritableFile(const std::string&, WritableFile**) override { return any(); }
    bool FileExists(const std::string&) override { n++; return true; } Status GetChildren(const std::string&, std::vector<std::string>*) override { return any(); } Status RemoveFile(const std::string&) override { return any(); } Status CreateDir(const std::string&) override { return any(); } Status RemoveDir(const std::string&) override { return any(); }
    Status GetFileSize(const std::string&, uint64_t*) override { return any(); } Status RenameFile(const std::string&, const std::string&) override { return any(); } Status LockFile(const std::string&, FileLock**) override { return any(); } Status UnlockFile(FileLock*) override { return any(); } void Schedule(Fn, void*) override {} void StartThread(Fn, void*) override {}
    Status GetTestDirectory(std::string*) override { return any(); } Status NewLogger(const std::string&, Logger**) override { return any(); } uint64_t NowMicros() override { return 0; } void SleepForMicroseconds(int) override {}
  };
  Base* b = new Base; lsmdb::EnvWapper* w = new lsmdb::EnvWapper(b); bool wrapped = lmc_choose(2, "through a wrapper"); std::string f = text(lmc_choose(5, "name")); WritableFile* r = nullptr; Env* e = wrapped ? (Env*)w : b;
  Status s = e->NewAppendableFile(f, &r); std::string m = s.ToString(); CHECK(!s.ok() && !s.IsNotFound() && !s.IsIOError() && !s.IsCorruption(), "NewAppendableFile by default gives \"%s\"", m.c_str()); CHECK(s.IsNotSupportedError(), "NewAppendableFile by default gives \"%s\", not not-supported", m.substr(0, 90).c_str()); CHECK(!b->n && !r, "NewAppendableFile by default does something"); CHECK(m.find(f) != std::string::npos || f.find('\0') != std::string::npos, "the status does not name the file"); delete w; delete b;
}
LMC_SCENARIOS(
  {"single", single, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"pairs", pairs, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"append_default", append_default, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0})
