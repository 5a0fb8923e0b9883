// C26: slices.
#include "beside.h"
#include <sys/mman.h>
#include "lsmdb/slice.h"
using lsmdb::Slice;
static int deep(int q, int t) { return lmc_tier() ? t : q; }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int ref_cmp(const std::string& a, const std::string& b) { size_t i = 0; for (; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
struct Ex { char* p; size_t n; Ex(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); } ~Ex() { delete[] p; } Slice s() const { return Slice(p, n); } };
static void pair(const std::string& a, const std::string& b) {
  Ex x(a), y(b); int r = ref_cmp(a, b);
  CHECK(sgn(x.s().compare(y.s())) == r && sgn(y.s().compare(x.s())) == -r, "comparing %zu and %zu bytes: %d, expected %d", a.size(), b.size(), x.s().compare(y.s()), r);
  CHECK((x.s() == y.s()) == (r == 0) && (y.s() == x.s()) == (r == 0), "equality disagrees with comparison");
  CHECK((x.s() != y.s()) == (r != 0), "inequality disagrees with comparison");
  bool pre = a.size() >= b.size() && a.compare(0, b.size(), b) == 0; CHECK(x.s().starts_with(y.s()) == pre, "prefix test");
  pre = b.size() >= a.size() && b.compare(0, a.size(), a) == 0; CHECK(y.s().starts_with(x.s()) == pre, "prefix test");
  CHECK(x.s().compare(x.s()) == 0 && x.s() == x.s() && x.s().starts_with(x.s()), "a slice differs from itself");
}
static std::vector<std::string>& all() {
  static std::vector<std::string>* v; if (!v) { v = new std::vector<std::string>; static const char A[] = {0, 1, 0x7f, (char)0x80, (char)0xff}; v->push_back(""); size_t lo = 0; int L = deep(3, 4); for (int l = 0; l < L; l++) { size_t hi = v->size(); for (size_t i = lo; i < hi; i++) for (char c : A) v->push_back((*v)[i] + c); lo = hi; } } return *v;
}
static void pairs() { Quiet* q = new Quiet; auto& v = all(); delete q; size_t i = lmc_choose(v.size(), "first"); for (auto& b : v) { pair(v[i], b); lmc_count(1); } }
static void bytes() { int a = lmc_choose(256, "byte"); for (int b = 0; b < 256; b++) { pair(std::string(1, (char)a), std::string(1, (char)b)); pair(std::string("k\0", 2) + (char)a + "x", std::string("k\0", 2) + (char)b); lmc_count(2); } }
static void long_prefix() { int n = lmc_choose(deep(80, 300), "common"), d = lmc_choose(4, "difference"); std::string a(n, (char)0x9c), b = a; if (d == 1) { b += '\0'; } else if (d == 2) { a += (char)0x80; b += '\x01'; } else if (d == 3 && n) { b[n / 2] ^= 0x80; } pair(a, b); pair(a + "tail", b + "tail2"); }
static void sizes() {      // lengths whose difference does not fit an int
  static const size_t L[] = {0, 1, 2, (size_t)1 << 31, ((size_t)1 << 31) - 1, ((size_t)1 << 31) + 1, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) - 1, (size_t)1 << 63, ((size_t)1 << 32) + 2};
  size_t a = L[lmc_choose(11, "size")], b = lmc_choose(3, "small"); char* p = new char[2]; p[0] = p[1] = 'a';
  Slice x(p, a), y(p, b); int r = a < b ? -1 : a > b;
  CHECK(sgn(x.compare(y)) == r && sgn(y.compare(x)) == -r, "sizes %zu and %zu compare as %d", a, b, x.compare(y));
  CHECK(x.starts_with(y) == (a >= b), "prefix test on sizes %zu and %zu", a, b);
  if (a != b) CHECK(!(x == y) && x != y && !(y == x), "equality on sizes %zu and %zu", a, b);
  CHECK(x.size() == a && x.empty() == (a == 0), "size"); delete[] p;
}
static void giants() {     // gigabytes of zeros but for one byte
  static const size_t L[] = {((size_t)1 << 31) + 3, ((size_t)1 << 32) + 3, ((size_t)1 << 33) + 9}; size_t n = L[lmc_choose(3, "size")]; static const size_t AT[] = {0, 5, 70000, 1 << 20}; size_t at = AT[lmc_choose(4, "difference")]; int trunc = lmc_choose(3, "tail");
  char* p = (char*)mmap(nullptr, n + 9, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); char* q = (char*)mmap(nullptr, n + 9, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CHECK(p != MAP_FAILED && q != MAP_FAILED, "mmap"); q[at] = 1;
  Slice a(p, n), b(q, trunc == 0 ? n : trunc == 1 ? n - 1 : n + 1);
  CHECK(a.compare(b) < 0 && b.compare(a) > 0, "slices of %zu bytes differing at %zu compare as %d", n, at, a.compare(b)); CHECK(!(a == b) && a != b, "slices of %zu bytes differing at %zu are equal", n, at); CHECK(!b.starts_with(a) && !a.starts_with(b), "a slice of %zu bytes differing at %zu is a prefix", n, at);
  Slice c = b; c.remove_prefix(n - 2); CHECK(c.size() == b.size() - (n - 2) && c.data() == q + (n - 2), "dropping %zu bytes", n - 2); munmap(p, n + 9); munmap(q, n + 9);
}
static void narrow() {
  int n = lmc_choose(deep(24, 60), "length"), k = lmc_choose(n + 1, "dropped"); std::string s(n, 0); for (int i = 0; i < n; i++) s[i] = (char)(i * 41);
  Ex x(s); Slice a(x.p, x.n), b = a, c; c = a; CHECK(a.data() == x.p && a.size() == x.n && a.empty() == (n == 0), "construction");
  for (int i = 0; i < n; i++) CHECK(a[i] == s[i], "byte %d", i);
  a.remove_prefix(k); CHECK(a.data() == x.p + k && a.size() == (size_t)(n - k) && a.ToString() == s.substr(k), "after dropping %d of %d", k, n);
  CHECK(b.data() == x.p && b.size() == x.n && b.ToString() == s && c.ToString() == s, "dropping changed a copy");
  b.clear(); CHECK(b.size() == 0 && b.empty() && b.ToString().empty(), "clear"); CHECK(c.ToString() == s && c == Slice(s), "clearing changed a copy");
  a.remove_prefix(n - k); CHECK(a.empty() && a == b && a.compare(b) == 0, "empty slices differ");
  CHECK(!memcmp(x.p, s.data(), n), "bytes changed");
  Slice d(s); CHECK(d.size() == s.size() && d.data() == s.data(), "from string"); std::string t = d.ToString(); CHECK(t == s && t.data() != s.data(), "to string");
  const char* cs = "nul\0tail"; CHECK(Slice(cs).size() == 3 && Slice(cs) == Slice("nul", 3), "from a C string"); CHECK(Slice().empty() && Slice() == Slice("") && Slice().ToString() == "", "empty");
}
static Slice* g_shared;
static std::string one(int v) { std::string k(v + 4, 'a' + v), l(v + 3, 'a' + v); Slice a(k), b(l), c(*g_shared); std::string s = a.ToString() + b.ToString() + g_shared->ToString(); s += 'a' + (a.compare(b) > 0) + 2 * (c == *g_shared) + 4 * a.starts_with(b) + 8 * (g_shared->compare(a) < 0); a.remove_prefix(1); b.clear(); return s + a.ToString() + b.ToString() + (*g_shared)[1] + std::string(c.data(), c.size()); }
static void beside_all() { g_shared = new Slice("shared"); beside(one); delete g_shared; }
LMC_SCENARIOS(
  {"beside", beside_all, {2, -1}, {0, 0}, {0, 0}, {30, 60}, 0},
  {"narrow", narrow, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"sizes", sizes, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"giants", giants, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"bytes", bytes, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"long_prefix", long_prefix, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"pairs", pairs, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
