// C24: numbers and text.
#include "h.h"
#include "util/logging.h"
#include "lsmdb/slice.h"
using lsmdb::Slice;
static int deep(int q, int t) { return lmc_tier() ? t : q; }
static std::string ref_num(uint64_t v) { std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return s; }
static void num(uint64_t v) {
  std::string r = ref_num(v);
  CHECK(lsmdb::NumberToString(v) == r, "NumberToString(%llu) is %s", (unsigned long long)v, lsmdb::NumberToString(v).c_str());
  std::string s("p\0q", 3); lsmdb::AppendNumberTo(&s, v); CHECK(s == std::string("p\0q", 3) + r, "AppendNumberTo(%llu)", (unsigned long long)v);
}
// parse against an oracle, from a block of the exact length
static void parse(const std::string& t) {
  char* b = new char[t.size()]; memcpy(b, t.data(), t.size());
  size_t k = 0; unsigned __int128 v = 0; bool over = false;
  while (k < t.size() && t[k] >= '0' && t[k] <= '9') { if (!over) { v = v * 10 + (t[k] - '0'); if (v > ~0ull) over = true; } k++; }
  bool ok = k > 0 && !over;
  Slice in(b, t.size()); uint64_t got = 12345; bool r = lsmdb::ConsumeDecimalNumber(&in, &got);
  CHECK(r == ok, "parsing \"%s\": %s, expected %s", t.substr(0, 60).c_str(), r ? "accepted" : "rejected", ok ? "acceptance" : "rejection");
  if (ok) { CHECK(got == (uint64_t)v, "parsing \"%s\" gave %llu", t.c_str(), (unsigned long long)got); CHECK(in.data() == b + k && in.size() == t.size() - k, "parsing \"%s\" consumed %zu bytes, expected %zu", t.c_str(), t.size() - in.size(), k); }
  delete[] b;
}
static void esc(const std::string& t) {
  std::string r; for (unsigned char c : t) { if (c >= 32 && c <= 126) r += (char)c; else { char b[8]; static const char* H = "0123456789abcdef"; b[0] = '\\'; b[1] = 'x'; b[2] = H[c >> 4]; b[3] = H[c & 15]; r.append(b, 4); } }
  char* b = new char[t.size()]; memcpy(b, t.data(), t.size());
  CHECK(lsmdb::EscapeString(Slice(b, t.size())) == r, "escaping %zu bytes gives \"%s\"", t.size(), lsmdb::EscapeString(Slice(b, t.size())).substr(0, 100).c_str());
  std::string s("a\0b", 3); lsmdb::AppendEscapedStringTo(&s, Slice(b, t.size())); CHECK(s == std::string("a\0b", 3) + r, "AppendEscapedStringTo");
  delete[] b;
}
#ifndef LMC_PLAIN
static void powers() {
  int k = lmc_choose(20, "power of ten"); uint64_t p = 1; for (int i = 0; i < k; i++) p *= 10;
  for (int m = 1; m <= 18; m++) for (int d = -3; d <= 3; d++) { uint64_t v = p * m + d; num(v); parse(ref_num(v)); parse(ref_num(v) + "x"); lmc_count(1); }
  for (int b = 0; b < 64; b++) for (int d = -2; d <= 2; d++) { uint64_t v = (1ull << b) + d + k; num(v); parse(ref_num(v)); lmc_count(1); }
}
static void texts() {      // every text over an alphabet to a length
  static const char A[] = {'0', '1', '9', '/', ':', ' ', '-', '+', '\0', (char)0x80, (char)0xb9, 'a', '5'};
  int n = lmc_choose(deep(6, 7), "length"); std::string s; int pre = n < 3 ? n : 3;
  for (int i = 0; i < pre; i++) s += A[lmc_choose(13, "char")];
  long rest = 1; for (int i = pre; i < n; i++) rest *= 13;
  for (long c = 0; c < rest; c++) { std::string t = s; long x = c; for (int i = pre; i < n; i++) { t += A[x % 13]; x /= 13; } parse(t); lmc_count(1); }
}
// around the largest value: every digit changed, leading zeros, more digits, what follows
static void limit() {
  static const char* base[] = {"18446744073709551615", "18446744073709551616", "18446744073709551609", "18446744073709551620", "9999999999999999999", "99999999999999999999", "10000000000000000000", "1844674407370955161", "184467440737095516150", "18446744073709551614999", "36893488147419103232", "55340232221128654848", "28446744073709551615", "340282366920938463463374607431768211456", "0", "000"};
  std::string s = base[lmc_choose(16, "number")]; int z = lmc_choose(5, "zeros"); int suf = lmc_choose(6, "suffix");
  static const std::string S[] = {"", "x", "0", "9", std::string("\0", 1), std::string("\xff", 1)};
  static const int Z[] = {0, 1, 2, 20, 70};
  std::string zs(Z[z], '0');
  parse(zs + s + S[suf]);
  for (size_t p = 0; p < s.size(); p++) for (int d = 0; d < 10; d++) { std::string t = s; t[p] = '0' + d; parse(zs + t + S[suf]); lmc_count(1); }
  for (int d = 0; d < 100; d++) { std::string t = s; if (t.size() >= 2) { t[t.size() - 2] = '0' + d / 10; t[t.size() - 1] = '0' + d % 10; } parse(zs + t + S[suf]); lmc_count(1); }
}
static void digits() { int n = lmc_choose(25, "digits"), d = lmc_choose(10, "digit"), e = lmc_choose(10, "first"); std::string s(n, '0' + d); if (n) s[0] = '0' + e; for (int tail = 0; tail < 10; tail++) { if (n) s[n - 1] = '0' + tail; parse(s); parse(s + "."); lmc_count(2); } }
static void zeros() {      // long runs of leading zeros and of digits
  static const int Z[] = {120, 127, 128, 129, 250, 255, 256, 257, 300, 4096, 32768, 65535, 65536, 65600, 1000000}; std::string z(Z[lmc_choose(15, "zeros")], '0'); static const char* T[] = {"", "1", "18446744073709551615", "18446744073709551616", "7x", "x", "0 1"}; int t = lmc_choose(7, "rest"); parse(z + T[t]); std::string nine(z.size(), '9'); parse(nine); parse(T[t] + z); parse("1" + z + T[t]); parse("x" + z);
}
static void threads() {    // pure functions: two threads do not disturb each other
  int k = lmc_choose(5, "function"); auto job = [=](uint64_t v, char c) { return [=] { for (int i = 0; i < 2; i++) {
    if (k == 0) { std::string s = "p"; lsmdb::AppendNumberTo(&s, v + i); CHECK(s == "p" + ref_num(v + i), "a number printed beside another comes out as %s", s.c_str()); }
    else if (k == 1) { std::string t(3, c), s = "p"; lsmdb::AppendEscapedStringTo(&s, t); char b[20]; snprintf(b, sizeof b, "\\x%02x", c & 255); CHECK(s == std::string("p") + b + b + b, "a text escaped beside another comes out as %s", s.c_str()); }
    else if (k == 3) { std::string s = lsmdb::NumberToString(v + i); CHECK(s == ref_num(v + i), "a number made beside another comes out as %s", s.c_str()); }
    else if (k == 4) { std::string s = lsmdb::EscapeString(std::string(3, c)); char b[20]; snprintf(b, sizeof b, "\\x%02x", c & 255); CHECK(s == std::string(b) + b + b, "a text escaped beside another comes out as %s", s.c_str()); }
    else { std::string t = ref_num(v) + "x"; Slice in(t); uint64_t r = 0; CHECK(lsmdb::ConsumeDecimalNumber(&in, &r) && r == v, "a number parsed beside another comes out as %llu", (unsigned long long)r); } } }; };
  run_threads({job(~0ull - 5, '\n'), job(1234567, (char)0xfe)});
}
static void pairs() { int a = lmc_choose(256, "byte"); esc(std::string(1, (char)a)); for (int b = 0; b < 256; b++) { std::string t(1, (char)a); t += (char)b; esc(t); lmc_count(1); } }
static void escape_long() { int n = lmc_choose(deep(300, 3000), "length"); std::string t(n, 0), u(n, 'z'); for (int i = 0; i < n; i++) t[i] = (char)(i * 67); esc(t); esc(u); esc(std::string(n, '\n')); esc(""); }
LMC_SCENARIOS(
  {"powers", powers, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"zeros", zeros, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"threads", threads, {2, -1}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"limit", limit, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"digits", digits, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"escape_pairs", pairs, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"escape_long", escape_long, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0},
  {"texts", texts, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
#else
static void range() {
  uint64_t base = (uint64_t)lmc_choose(64, "part") << 16; int shift = lmc_choose(12, "scale"); 
  for (uint64_t l = 0; l < 1 << 16; l++) {
    uint64_t v = (base | l) << (4 * shift); v += shift * 7; if (shift == 11) v = ~(base | l);
    std::string s = lsmdb::NumberToString(v); Slice in(s); uint64_t r = ~v;
    if (s != ref_num(v) || !lsmdb::ConsumeDecimalNumber(&in, &r) || r != v || in.size()) lmc_fail("%llu prints as %s and reads back as %llu", (unsigned long long)v, s.c_str(), (unsigned long long)r);
  }
  lmc_count(1 << 16);
}
LMC_SCENARIOS({"range", range, {0, 0}, {0, 0}, {0, 0}, {0, 0}, 0})
#endif
