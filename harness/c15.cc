// C15: log records.
#include <ctime>
#include "posix_common.h"
using lsmdb::Log; using lsmdb::Logger;
static const char* const LOGF = "/tmp/LOG";
static Logger* open(Env* e, const char* p = LOGF) { Logger* l = nullptr; fine(e->NewLogger(p, &l), "NewLogger"); CHECK(l, "no logger"); return l; }
// letters only, so that a record's end is where it is expected
static std::string text(size_t n, int kind, size_t from = 0) { std::string s(n, 0); for (size_t i = 0; i < n; i++) { unsigned char c = TEXT[(i + from) % TEXTLEN]; s[i] = kind & 2 ? (c ? c : 1) : 'a' + c % 26; } if ((kind & 1) && n) s[n - 1] = '\n'; else if (n && s[n - 1] == '\n') s[n - 1] = 'x'; return s; }
static std::string stamp() { time_t t = lmc_now_us() / 1000000; struct tm tm; localtime_r(&t, &tm); char b[64]; snprintf(b, sizeof b, "%04d/%02d/%02d-%02d:%02d:%02d.%06d ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(lmc_now_us() % 1000000)); return b; }
static std::string want_text(const std::string& t) { return !t.empty() && t.back() == '\n' ? t : t + "\n"; }
// Length of the record with this text at p, 0 if there is none; the thread's name goes to id.
static size_t record(const char* p, size_t n, const std::string& st, const std::string& txt, std::string* id) {
  if (n < st.size() || memcmp(p, st.data(), st.size())) return 0;
  size_t i = st.size(); while (i < n && p[i] != ' ' && p[i] != '\n') i++;
  if (i >= n || p[i] != ' ' || i == st.size() || i - st.size() > 40) return 0;
  *id = std::string(p + st.size(), i - st.size()); i++;
  std::string w = want_text(txt); if (n - i < w.size() || memcmp(p + i, w.data(), w.size())) return 0;
  return i + w.size();
}
struct Seq { std::string old; size_t at = 0; std::string id;
  void expect(const std::string& st, const std::string& txt, const char* path = LOGF) {
    Quiet q; size_t n; const char* p = vfs_data(path, &n); CHECK(p && n >= old.size() && !memcmp(p, old.data(), old.size()), "the file's previous contents are gone");
    std::string i; size_t k = record(p + at, n - at, st, txt, &i); CHECK(k, "a message of %zu bytes is not in the file as one record when the call returns (%zu bytes were added)", txt.size(), n - at);
    CHECK(at + k == n, "a message of %zu bytes leaves %zu bytes too many", txt.size(), n - at - k); CHECK(id.empty() || id == i, "one thread has two names"); id = i; at = n; }
};
static void log_s(Logger* l, const std::string& s) { Log(l, "%s", s.c_str()); }
// every length around the buffer, with and without newline, twice in a row
static void lengths() {
  Env* e = posix_env(); int part = lmc_choose(8, "part"), kind = lmc_choose(4, "kind"); size_t N = deep(1400, 9000); Seq s; uint64_t n = 0;
  Logger* l = open(e);
  for (size_t i = part; i < N; i += 8) { std::string t; { Quiet q; t = text(i, kind, i * 3); } std::string st = stamp(); log_s(l, t); s.expect(st, t); n++; if (s.at > (2u << 20)) { delete l; vfs_put(LOGF, "", 0); s = Seq(); l = open(e); } }
  delete l; lmc_count(n); lmc_outcome(part * 4 + kind);
}
static void large() { static const size_t S[] = {4000, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1000000, (1 << 20) - 70, (1 << 20) + 1, 3000000}; Env* e = posix_env(); std::string t; { Quiet q; t = text(S[lmc_choose(12, "size")] + lmc_choose(3, "more"), lmc_choose(4, "kind")); } Seq s; Logger* l = open(e); for (int i = 0; i < 2; i++) { std::string st = stamp(); log_s(l, t); s.expect(st, t); } delete l; }
// every kind of date: years before and after, leap days, the last second of anything
static void dates() {
  static const int64_t T[] = {0, -1, 1, 59, 60, 3599, 3600, 86399, 86400, -86400, -2208988801ll, 951782400, 951868799, 951868800, 946684799, 946684800, 978307199, 1078012800, 1709164800, 1709251200, (1ll << 31) - 1, 1ll << 31, (1ll << 32) - 1, 1ll << 32, 4107542400ll, 253402300799ll, 1583612099, 1583612100, 1583612100 + 3600, 1604171699, 1604171700, 1604171700 - 3600, 1604171700 + 3600};
  static const int U[] = {0, 1, 9, 10, 999, 1000, 99999, 100000, 999999}; Env* e = posix_env(); Seq s; Logger* l = open(e); uint64_t n = 0; int step = 1 + lmc_choose(3, "order") * 4, first = lmc_choose(4, "length"); static const size_t S[] = {3, 453, 460, 3000}; std::string t = text(S[first], 0);
  for (int i = 0; i < 33; i++) for (int u = 0; u < 9; u++) { vfs_set_time(T[i * step % 33], U[u]); std::string st = stamp(); log_s(l, t); s.expect(st, t); n++; }
  if (first == 0) { int64_t b = 1583000000 + lmc_choose(4, "part") * 86400 * 100; for (int i = 0; i < deep(2000, 20000); i++) { vfs_set_time(b + i * 4321ll, i % 1000000); std::string st = stamp(); log_s(l, t); s.expect(st, t); n++; } }
  delete l; lmc_count(n);
}
// histories: messages of several lengths, times passing, loggers closed and reopened, two loggers on one file, no logger
static void history() {
  Env* e = posix_env(); Seq s; if (lmc_choose(2, "old contents")) { s.old = "old contents without newline"; vfs_put(LOGF, s.old.data(), s.old.size()); s.at = s.old.size(); }
  static const size_t S[] = {0, 3, 452, 453, 600}; Logger* l[2] = {open(e), nullptr}; int64_t now = 1600000000; uint64_t h = 1;
  for (int i = 0; i < deep(4, 5); i++) {
    int c = lmc_choose(5 * 2 + 4, "operation");
    if (c < 10) { Logger* x = l[1] && (i & 1) ? l[1] : l[0] ? l[0] : l[1]; if (!x) lmc_prune(); std::string t = text(S[c / 2], c & 1, i * 50); std::string st = stamp(); NOTE("Log %zu", t.size()); log_s(x, t); s.expect(st, t); }
    else if (c == 10) { std::string t = text(500, 0); Log(nullptr, "%s", t.c_str()); size_t n; vfs_data(LOGF, &n); CHECK(n == s.at, "logging to no logger writes"); }
    else if (c < 13) { auto*& x = l[c - 11]; if (x) { delete x; x = nullptr; } else x = open(e); size_t n; const char* p = vfs_data(LOGF, &n); CHECK(p && n == s.at, "opening or closing a logger changes the file from %zu to %zu bytes", s.at, n); }
    else { static const int64_t D[] = {1, 59, 86400 * 200}; static const int U[] = {0, 1, 999999}; now += D[i % 3]; vfs_set_time(now, U[i % 3]); }
    h = mix(h, s.at);
  }
  delete l[0]; delete l[1]; size_t n; vfs_data(LOGF, &n); CHECK(n == s.at, "closing a logger changes the file"); CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); lmc_outcome(h);
}
// formatting
static void formats() {
  Env* e = posix_env(); Logger* l = open(e); Seq s; std::string st = stamp(); char b[3000];
  Log(l, "plain"); s.expect(st, "plain"); Log(l, "%d %s %llu %c%%", -5, "text", ~0ull, 'x'); snprintf(b, sizeof b, "%d %s %llu %c%%", -5, "text", ~0ull, 'x'); s.expect(st, b);
  Log(l, "%1000d|%s", 7, "end"); snprintf(b, sizeof b, "%1000d|%s", 7, "end"); s.expect(st, b); Log(l, "%.*f %g", 30, 1.0 / 3, 1e300); snprintf(b, sizeof b, "%.*f %g", 30, 1.0 / 3, 1e300); s.expect(st, b);
  Log(l, "\n"); s.expect(st, "\n"); Log(l, "a\n\n"); s.expect(st, "a\n\n"); Log(l, "a\nb"); s.expect(st, "a\nb"); Log(l, "%s %s %s %s %d", text(300, 0).c_str(), text(300, 2).c_str(), "x", "", 5); snprintf(b, sizeof b, "%s %s %s %s %d", text(300, 0).c_str(), text(300, 2).c_str(), "x", "", 5); s.expect(st, b);
  // bytes of value zero are text as well
  auto z = [](std::string t) { for (auto& ch : t) if (ch == '@') ch = 0; return t; };
  Log(l, "a%cb", 0); s.expect(st, z("a@b")); Log(l, "%c", 0); s.expect(st, z("@")); Log(l, "%c\n%c", 0, 0); s.expect(st, z("@\n@")); Log(l, "%s%c%s\n", text(700, 0).c_str(), 0, "end"); s.expect(st, z(text(700, 0) + "@end\n")); for (int n = 440; n < 470; n++) { Log(l, "%s%c", text(n, 0).c_str(), 0); s.expect(st, z(text(n, 0) + "@")); Log(l, "%c%s", 0, text(n, 1).c_str()); s.expect(st, z("@" + text(n, 1))); }
  // a newline that is not the last byte ends nothing
  for (int n = 440; n < 470; n++) { Log(l, "a\n%s", text(n, 0).c_str()); s.expect(st, "a\n" + text(n, 0)); }
  delete l;
}
// what a logger or a message needed is released: repeating it does not use more
static void memory() {
  Env* e = posix_env(); int n = lmc_choose(3, "messages") + 1; size_t a[3]; static const size_t S[] = {5, 440, 452, 453, 454, 460, 511, 512, 513, 600, 1023, 1024, 2000, 70000}; for (int i = 0; i < n; i++) a[i] = S[lmc_choose(14, "length")]; int kind = lmc_choose(2, "newline"), fails = lmc_choose(2, "failing open");
  std::string t[3]; { Quiet q; for (int i = 0; i < n; i++) t[i] = text(a[i], kind, i * 10); }
  size_t live = 0, blocks = 0;
  for (int r = 0; r < 4; r++) {
    Logger* l = open(e); for (int i = 0; i < n; i++) log_s(l, t[i]); delete l; Logger* no = nullptr; if (fails) { CHECK(!e->NewLogger("/tmp/none/LOG", &no).ok() && !no, "a log is opened in no directory"); Log(no, "%s", t[0].c_str()); }
    if (r == 1) { live = lmc_heap_live(); blocks = lmc_heap_blocks(); }
  }
  CHECK(lmc_heap_live() <= live && lmc_heap_blocks() <= blocks, "each logger leaks %lld bytes in %lld blocks", (long long)(lmc_heap_live() - live) / 2, (long long)(lmc_heap_blocks() - blocks) / 2);
  Logger* l = open(e); log_s(l, t[0]); live = lmc_heap_live(); blocks = lmc_heap_blocks(); for (int i = 0; i < 6; i++) log_s(l, t[0]); CHECK(lmc_heap_blocks() <= blocks + 2 && lmc_heap_live() <= live + 2 * a[0] + 100, "messages leak %lld bytes in %lld blocks", (long long)(lmc_heap_live() - live), (long long)(lmc_heap_blocks() - blocks)); delete l;
}
// ---- threads -------------------------------------------------------------------------
// the same message again and again at one time, with others between, by one logger or two
static void repeats() {
  Env* e = posix_env(); Seq s; static const size_t S[] = {0, 1, 5, 453, 454, 700}; std::string t[2]; { Quiet q; t[0] = text(S[lmc_choose(6, "length")], lmc_choose(2, "newline")); t[1] = text(3, 0, 7); } Logger* l[2] = {open(e), open(e)}; uint64_t h = 1;
  for (int i = 0; i < deep(5, 8); i++) { int m = lmc_choose(2, "message"), w = lmc_choose(2, "logger"); std::string st = stamp(); log_s(l[w], t[m]); s.expect(st, t[m]); h = mix(h, m * 2 + w); }
  delete l[0]; delete l[1]; size_t n; vfs_data(LOGF, &n); CHECK(n == s.at, "closing a logger changes the file"); lmc_outcome(h);
}
// writes fail: the file keeps what it has, and only the messages whose writes fail suffer
static void errors() {
  vfs_wide_errnos(1); Env* e = posix_env(); std::string* was; { Quiet q; was = new std::string("old\n"); } vfs_put(LOGF, "old\n", 4); Logger* l = open(e); static const size_t S[] = {5, 700, 4095, 9000}; auto bad = [] { return vfs_faults_hit() + vfs_soft_faults() - vfs_short_faults(); }; vfs_faults(1); uint64_t h = 1; int n = deep(3, 4);
  for (int i = 0; i <= n; i++) {
    if (i == n) vfs_faults(0); std::string t; { Quiet q; t = text(S[lmc_choose(i < n ? 4 : 2, "length")], i & 1, i * 50); } std::string st = stamp(); uint64_t b = bad(); log_s(l, t); bool hit = bad() != b; NOTE("message %d of %zu bytes%s", i, t.size(), hit ? ", disturbed" : "");
    Quiet q; size_t len; const char* p = vfs_data(LOGF, &len); CHECK(p && len >= was->size() && !memcmp(p, was->data(), was->size()), "the file's previous contents are gone"); std::string id; bool whole = false; size_t w = want_text(t).size() + st.size();
    if (!hit) { for (size_t k = w + 2; k <= w + 42 && k <= len - was->size() && !whole; k++) whole = record(p + len - k, k, st, t, &id) == k; CHECK(whole, "a message of %zu bytes whose writes succeed does not end the file as a record", t.size()); }
    was->assign(p, len); h = mix(h, hit);
  }
  delete l; size_t len; vfs_data(LOGF, &len); CHECK(len == was->size(), "closing a logger changes the file"); CHECK(vfs_open_fds(0) == 0, "a descriptor leaks"); delete was; lmc_outcome(h);
}
struct Msg { std::string t; };
static void threads_n(std::vector<std::vector<std::string>> msgs) {
  Env* e = posix_env(); std::string old = "old\n"; vfs_put(LOGF, old.data(), old.size()); Logger* l = open(e); auto* M = new std::vector<std::vector<std::string>>(msgs); std::string st = stamp();
  std::vector<std::function<void()>> f; for (size_t i = 0; i < msgs.size(); i++) f.push_back([=] { for (auto& m : (*M)[i]) { log_s(l, m); Quiet q; size_t n; const char* p = vfs_data(LOGF, &n); CHECK(memmem(p, n, m.data(), m.size()), "a message is not in the file when the call returns"); } });
  run_threads(f);
  size_t n; const char* p = vfs_data(LOGF, &n); CHECK(n >= 4 && !memcmp(p, "old\n", 4), "the file's previous contents are gone"); size_t at = 4; std::vector<size_t> next(msgs.size()); std::vector<std::string> id(msgs.size()); uint64_t h = 1;
  while (at < n) { bool ok = false; for (size_t t = 0; t < msgs.size() && !ok; t++) if (next[t] < msgs[t].size()) { std::string i; size_t k = record(p + at, n - at, st, msgs[t][next[t]], &i); if (k) { ok = true; at += k; next[t]++; CHECK(id[t].empty() || id[t] == i, "one thread has two names"); id[t] = i; h = mix(h, t); } } CHECK(ok, "the file holds something else than whole records at byte %zu of %zu", at, n); }
  for (size_t t = 0; t < msgs.size(); t++) CHECK(next[t] == msgs[t].size(), "message %zu of thread %zu is lost", next[t], t);
  for (size_t a = 0; a < msgs.size(); a++) for (size_t b = 0; b < a; b++) CHECK(id[a] != id[b], "two threads have one name");
  delete l; lmc_outcome(h);
}
static std::string pick(int salt) { static const size_t S[] = {5, 700}; return text(S[lmc_choose(2, "length")], lmc_choose(2, "newline"), salt * 100); }
static void two_threads() { std::vector<std::vector<std::string>> m(2); int s = 1; for (auto& x : m) for (int i = 0; i < 2; i++) x.push_back(pick(s++)); threads_n(m); }
static void three_threads() { std::vector<std::vector<std::string>> m(3); int s = 1; for (auto& x : m) x.push_back(pick(s++)); threads_n(m); }
// as if the standard descriptors were closed: 0, 1 and 2 are files like others
static void low_fds() { vfs_first_fd(0, lmc_choose(2, "after")); history(); }
LMC_SCENARIOS(
  {"low_fds", low_fds, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"formats", formats, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"memory", memory, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"lengths", lengths, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"large", large, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"dates", dates, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"history", history, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"repeats", repeats, {0, 0}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"errors", errors, {0, 0}, {1, 3}, {0, 0}, {60, 900}, 0},
  {"two_threads", two_threads, {3, 5}, {0, 0}, {0, 0}, {60, 900}, 0},
  {"three_threads", three_threads, {3, 5}, {0, 0}, {0, 0}, {60, 900}, 0})
