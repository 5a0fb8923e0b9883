// C22: encodings.  Instrumented: every decoder input sits in a block of its
// exact length, so a byte touched outside it is an invalid access.
#include "beside.h"
#include "util/coding.h"
using lsmdb::Slice;
namespace lsmdb { const char* GetLengthPrefixedSlice(const char* p, const char* limit, Slice* result) __attribute__((weak)); }
static int deep(int q, int t) { return lmc_tier() ? t : q; }

struct Exact {
  char *base, *p; size_t n;
  explicit Exact(const std::string& s, size_t shift = 0) : base(new char[s.size() + shift]), p(base + shift), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { delete[] base; }
};
static std::string ref_varint(uint64_t v) { std::string s; while (v >= 128) { s += (char)(v | 128); v >>= 7; } s += (char)v; return s; }
static std::string ref_fixed(uint64_t v, int n) { std::string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
static const std::string SUF[] = {std::string(), std::string("\x80", 1), std::string("\0\xff", 2), std::string("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", 12)};

struct BlkBuf { char* p; size_t n; BlkBuf(size_t k) : p(new char[k]), n(k) {} ~BlkBuf() { delete[] p; } };
static void one32(uint32_t v) {
  std::string e = ref_varint(v), f = ref_fixed(v, 4);
  { BlkBuf b(e.size()); char* r = lsmdb::EncodeVarint32(b.p, v); CHECK(r == b.p + e.size() && !memcmp(b.p, e.data(), e.size()), "EncodeVarint32(%u)", v); }
  { BlkBuf b(4); lsmdb::EncodeFixed32(b.p, v); CHECK(!memcmp(b.p, f.data(), 4), "EncodeFixed32(%u)", v); CHECK(lsmdb::DecodeFixed32(b.p) == v, "DecodeFixed32(%u)", v); }
  CHECK(lsmdb::VarintLength(v) == (int)e.size(), "VarintLength(%u)", v);
  std::string s = "ab"; lsmdb::PutVarint32(&s, v); CHECK(s == "ab" + e, "PutVarint32(%u)", v);
  s = "ab"; lsmdb::PutFixed32(&s, v); CHECK(s == "ab" + f, "PutFixed32(%u)", v);
  for (auto& suf : SUF) {
    Exact x(e + suf); Slice in(x.p, x.n); uint32_t r = 0;
    CHECK(lsmdb::GetVarint32(&in, &r) && r == v && in.data() == x.p + e.size() && in.size() == suf.size(), "GetVarint32 of the encoding of %u", v);
    r = 0; CHECK(lsmdb::GetVarint32Ptr(x.p, x.p + x.n, &r) == x.p + e.size() && r == v, "GetVarint32Ptr of the encoding of %u", v);
    uint64_t w = 0; in = Slice(x.p, x.n); CHECK(lsmdb::GetVarint64(&in, &w) && w == v && in.size() == suf.size(), "GetVarint64 of the 32-bit encoding of %u", v);
  }
  for (size_t k = 0; k < e.size(); k++) { Exact x(e.substr(0, k)); Slice in(x.p, x.n); uint32_t r = 77; CHECK(!lsmdb::GetVarint32(&in, &r), "GetVarint32 accepts %zu of the %zu bytes of %u", k, e.size(), v); CHECK(!lsmdb::GetVarint32Ptr(x.p, x.p + x.n, &r), "GetVarint32Ptr accepts a truncated encoding of %u", v); }
}
static void one64(uint64_t v) {
  std::string e = ref_varint(v), f = ref_fixed(v, 8); unsigned long long V = v;
  { BlkBuf b(e.size()); char* r = lsmdb::EncodeVarint64(b.p, v); CHECK(r == b.p + e.size() && !memcmp(b.p, e.data(), e.size()), "EncodeVarint64(%llu)", V); }
  { BlkBuf b(8); lsmdb::EncodeFixed64(b.p, v); CHECK(!memcmp(b.p, f.data(), 8), "EncodeFixed64(%llu)", V); CHECK(lsmdb::DecodeFixed64(b.p) == v, "DecodeFixed64(%llu)", V); }
  CHECK(lsmdb::VarintLength(v) == (int)e.size(), "VarintLength(%llu)", V);
  std::string s = "ab"; lsmdb::PutVarint64(&s, v); CHECK(s == "ab" + e, "PutVarint64(%llu)", V);
  s = "ab"; lsmdb::PutFixed64(&s, v); CHECK(s == "ab" + f, "PutFixed64(%llu)", V);
  for (auto& suf : SUF) {
    Exact x(e + suf); Slice in(x.p, x.n); uint64_t r = 0;
    CHECK(lsmdb::GetVarint64(&in, &r) && r == v && in.data() == x.p + e.size() && in.size() == suf.size(), "GetVarint64 of the encoding of %llu", V);
    r = 0; CHECK(lsmdb::GetVarint64Ptr(x.p, x.p + x.n, &r) == x.p + e.size() && r == v, "GetVarint64Ptr of the encoding of %llu", V);
  }
  for (size_t k = 0; k < e.size(); k++) { Exact x(e.substr(0, k)); Slice in(x.p, x.n); uint64_t r = 77; CHECK(!lsmdb::GetVarint64(&in, &r), "GetVarint64 accepts %zu of the %zu bytes of %llu", k, e.size(), V); CHECK(!lsmdb::GetVarint64Ptr(x.p, x.p + x.n, &r), "GetVarint64Ptr accepts a truncated encoding of %llu", V); }
}
#ifndef LMC_PLAIN
// every boundary, and every pattern of 7-bit groups / bytes from a small alphabet
static void edges() {
  int k = lmc_choose(65, "power");
  uint64_t b = k == 64 ? 0 : 1ull << k;
  for (int d = -40; d <= 40; d++) { one64(b + d); one32((uint32_t)(b + d)); lmc_count(2); }
}
static void groups() {
  static const uint64_t g[] = {0, 1, 0x7f, 0x40};
  uint64_t v = 0; for (int i = 0; i < 5; i++) v |= g[lmc_choose(4, "group")] << (7 * i);
  int n = lmc_tier() ? 1024 : 256;
  for (int c = 0; c < n; c++) { uint64_t w = v, x = c; int sh = 35; for (int i = 0; i < (lmc_tier() ? 5 : 4); i++, sh += 7) { if (sh < 64) w |= g[x & 3] << sh; x >>= 2; } one64(w); one32((uint32_t)w); lmc_count(2); }
}
static void bytes() {
  static const uint64_t g[] = {0, 1, 0x7f, 0x80, 0xff};
  uint64_t v = 0; for (int i = 0; i < 4; i++) v |= g[lmc_choose(5, "byte")] << (8 * i);
  for (int c = 0; c < 625; c++) { if (!lmc_tier() && c % 5 != 3) continue; uint64_t w = v; int x = c; for (int i = 4; i < 8; i++) { w |= g[x % 5] << (8 * i); x /= 5; } one64(w); one32((uint32_t)w); lmc_count(2); }
}
// every byte string over an alphabet: forms agree, nothing outside is touched
static void agree(const std::string& s) {
  Exact x(s); const char* lim = x.p + x.n;
  uint32_t a = 1, b = 2; Slice in(x.p, x.n); bool ok = lsmdb::GetVarint32(&in, &a); const char* q = lsmdb::GetVarint32Ptr(x.p, lim, &b);
  CHECK(ok == (q != nullptr), "GetVarint32 and GetVarint32Ptr disagree on acceptance");
  if (ok) { CHECK(a == b, "GetVarint32 gives %u, GetVarint32Ptr %u", a, b); CHECK(in.data() == q && in.data() + in.size() == lim && q > x.p && q <= lim, "GetVarint32 consumed other bytes than GetVarint32Ptr"); CHECK(!(q[-1] & 0x80), "accepted without a final byte"); }
  else CHECK(in.data() + in.size() <= lim && in.data() >= x.p, "failed GetVarint32 leaves the slice outside the input");
  uint64_t c = 1, d = 2; Slice in2(x.p, x.n); bool ok2 = lsmdb::GetVarint64(&in2, &c); const char* q2 = lsmdb::GetVarint64Ptr(x.p, lim, &d);
  CHECK(ok2 == (q2 != nullptr), "GetVarint64 and GetVarint64Ptr disagree on acceptance");
  if (ok2) { CHECK(c == d, "GetVarint64 gives another value than GetVarint64Ptr"); CHECK(in2.data() == q2 && in2.data() + in2.size() == lim && q2 > x.p && q2 <= lim, "GetVarint64 consumed other bytes than its pointer form"); CHECK(!(q2[-1] & 0x80), "accepted without a final byte"); }
  Slice in3(x.p, x.n), r3("zz"); bool ok3 = lsmdb::GetLengthPrefixedSlice(&in3, &r3);
  if (ok3) {
    CHECK(ok, "GetLengthPrefixedSlice accepts a length GetVarint32 rejects");
    CHECK(r3.size() == a && r3.data() == q && r3.data() + r3.size() <= lim, "GetLengthPrefixedSlice returned bytes outside its input");
    CHECK(in3.data() == r3.data() + r3.size() && in3.data() + in3.size() == lim, "GetLengthPrefixedSlice left the wrong rest");
  } else CHECK(!ok || a > (size_t)(lim - q), "GetLengthPrefixedSlice rejects a complete string");
  const char* (*fn)(const char*, const char*, Slice*) = lsmdb::GetLengthPrefixedSlice;
  if (fn) {
    Slice r4("yy"); const char* q4 = fn(x.p, lim, &r4);
    CHECK((q4 != nullptr) == ok3, "the two forms of GetLengthPrefixedSlice disagree");
    if (q4) CHECK(r4.data() == r3.data() && r4.size() == r3.size() && q4 == in3.data(), "the two forms of GetLengthPrefixedSlice disagree on the result");
  }
}
static const unsigned char AL[] = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff, 0x0f, 0x10};
static void malformed() {
  int n = lmc_choose(deep(7, 8), "length"); std::string s;
  int pre = n < 3 ? n : 3; for (int i = 0; i < pre; i++) s += (char)AL[lmc_choose(8, "byte")];
  long rest = 1; for (int i = pre; i < n; i++) rest *= 8;
  for (long c = 0; c < rest; c++) { std::string t = s; long x = c; for (int i = pre; i < n; i++) { t += (char)AL[x & 7]; x >>= 3; } agree(t); lmc_count(1); }
}
static void short_all() { int b = lmc_choose(256, "first byte"); for (int c = -1; c < 256; c++) { std::string s(1, (char)b); if (c >= 0) s += (char)c; agree(s); lmc_count(1); } }
static void long_chains() {
  int n = lmc_choose(14, "length"); int kind = lmc_choose(3, "continuation"); int last = lmc_choose(8, "last"); int odd = lmc_choose(14, "odd position");
  static const unsigned char co[] = {0x80, 0xff, 0x81};
  std::string s(n, (char)co[kind]); if (odd < n) s[odd] = (char)AL[last]; else if (n) s[n - 1] = (char)AL[last];
  agree(s); agree(s + std::string("\x01", 1)); agree(s + std::string("\x7f", 1)); lmc_count(3);
}
static void strings() {
  static const size_t ln[] = {0, 1, 2, 126, 127, 128, 129, 255, 256, 300, 16382, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152};
  int i = lmc_choose(18, "length"), pat = lmc_choose(3, "content");
  std::string v(ln[i], '\0'); for (size_t k = 0; k < v.size() && k < 70000; k++) v[k] = pat == 0 ? 0 : pat == 1 ? (char)0xff : (char)(k * 31);
  std::string e = "q"; { Exact x(v); lsmdb::PutLengthPrefixedSlice(&e, Slice(x.p, x.n)); }
  CHECK(e == "q" + ref_varint(v.size()) + v, "PutLengthPrefixedSlice of %zu bytes", v.size());
  e.erase(0, 1);
  for (auto& suf : SUF) {
    Exact x(e + suf); Slice in(x.p, x.n), r; CHECK(lsmdb::GetLengthPrefixedSlice(&in, &r), "a complete string of %zu bytes is rejected", v.size());
    CHECK(r.size() == v.size() && !memcmp(r.data(), v.data(), v.size()) && in.data() == x.p + e.size() && in.size() == suf.size(), "GetLengthPrefixedSlice of %zu bytes", v.size());
  }
  size_t cut[] = {0, 1, e.size() / 2, e.size() - 1};
  for (size_t c : cut) if (c < e.size()) { Exact x(e.substr(0, c)); Slice in(x.p, x.n), r; CHECK(!lsmdb::GetLengthPrefixedSlice(&in, &r), "a string cut to %zu of %zu bytes is accepted", c, e.size()); }
  // several in a row
  std::string two; lsmdb::PutLengthPrefixedSlice(&two, Slice(v)); lsmdb::PutLengthPrefixedSlice(&two, Slice("x")); lsmdb::PutFixed32(&two, 7);
  Slice in(two), r; CHECK(lsmdb::GetLengthPrefixedSlice(&in, &r) && r == Slice(v) && lsmdb::GetLengthPrefixedSlice(&in, &r) && r == Slice("x") && in.size() == 4 && lsmdb::DecodeFixed32(in.data()) == 7, "sequence of strings");
}
static void unaligned() {
  int off = lmc_choose(8, "offset");
  for (int k = 0; k < 64; k++) { uint64_t v = 0x0123456789abcdefull * (k + 1) ^ (1ull << k); char* b = new char[off + 8]; lsmdb::EncodeFixed64(b + off, v); CHECK(lsmdb::DecodeFixed64(b + off) == v && lsmdb::DecodeFixed32(b + off) == (uint32_t)v && lsmdb::DecodeFixed32(b + off + 4) == (uint32_t)(v >> 32), "fixed at offset %d", off); delete[] b; lmc_count(1); }
}
static std::string one(int v) { std::string s; lsmdb::PutFixed32(&s, 0x01020304 * v); lsmdb::PutFixed64(&s, 0x0102030405060708ull * v); lsmdb::PutVarint32(&s, 1u << (v + 20)); lsmdb::PutVarint64(&s, 1ull << (v + 50)); lsmdb::PutLengthPrefixedSlice(&s, s); Slice in(s), r; in.remove_prefix(12); uint32_t a = 0; uint64_t b = 0; bool ok = lsmdb::GetVarint32(&in, &a) && lsmdb::GetVarint64(&in, &b) && lsmdb::GetLengthPrefixedSlice(&in, &r); CHECK(ok && a == 1u << (v + 20) && b == 1ull << (v + 50), "decoding beside another thread"); return s + r.ToString(); }
static void beside_all() { beside(one); }
LMC_SCENARIOS(
  {"beside", beside_all, {2, -1}, {0, 0}, {0, 0}, {30, 60}, 0},
  {"edges", edges, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"unaligned", unaligned, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"short_all", short_all, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"malformed", malformed, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"long_chains", long_chains, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"strings", strings, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"groups", groups, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"bytes", bytes, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
#else
// all 2^32 values
static void all32() {
  uint32_t hi = (uint32_t)lmc_choose(1024, "top bits") << 22;
  char b[16];
  for (uint32_t l = 0; l < 1u << 22; l++) {
    uint32_t v = hi | l; int n = v < 128 ? 1 : v < 1 << 14 ? 2 : v < 1 << 21 ? 3 : v < 1 << 28 ? 4 : 5;
    char* e = lsmdb::EncodeVarint32(b, v); uint32_t r = 0, s = 0; b[n] = (char)0x80;
    bool ok = e == b + n && lsmdb::VarintLength(v) == n && lsmdb::GetVarint32Ptr(b, b + n + 1, &r) == e && r == v && !lsmdb::GetVarint32Ptr(b, b + n - 1, &s);
    if (ok) { for (int i = 0; i < n; i++) ok &= (unsigned char)b[i] == (((v >> (7 * i)) & 127) | (i + 1 < n ? 128 : 0)); }
    uint64_t w = 0; ok = ok && lsmdb::GetVarint64Ptr(b, b + n, &w) == e && w == v;
    char* f = lsmdb::EncodeVarint64(b, v); ok = ok && f == b + n;
    lsmdb::EncodeFixed32(b, v); ok = ok && lsmdb::DecodeFixed32(b) == v && (unsigned char)b[0] == (v & 255) && (unsigned char)b[3] == v >> 24;
    if (!ok) { one32(v); lmc_fail("32-bit value %u does not round-trip", v); }
    if (!(l & 0xfffff)) lmc_count(1 << 20);
  }
}
// 64-bit: every value with at most 3 runs of equal bits, and a stride over the rest
static void runs64() {
  int a = lmc_choose(65, "first edge");
  for (int b = a; b <= 64; b++) for (int c = b; c <= 64; c++) for (int inv = 0; inv < 2; inv++) {
    auto m = [](int k) { return k >= 64 ? ~0ull : (1ull << k) - 1; };
    uint64_t v = (m(a)) ^ (m(b)) ^ (m(c)); if (inv) v = ~v;
    for (int d = -2; d <= 2; d++) one64(v + d);
    lmc_count(5);
  }
}
LMC_SCENARIOS(
  {"all_32bit", all32, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"runs_64bit", runs64, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
#endif
