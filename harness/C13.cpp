//! bounds texts of 0..6 (quick) / 0..8 (thorough) characters with arbitrary contents, of up to 300 with three arbitrary characters; alignments 2^0..2^63 with every value; every four character code; fractions of 1..63 bits
//! outside longer texts
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <vector>
#include <memory>
#include <string>
#include "datas/string_view.hpp"
#include "datas/supercore.hpp"
static bool blank(char c, bool nl) { return c == ' ' || c == '\t' || (nl && c == '\n'); }
static void trimming(char *t, size_t n) {
  const es::string_view v(t, n);
  const bool nl = pick("nl", 2);
  es::string_view r; bool front = false, back = false;
  switch (pick("op", 5)) {
  case 0: r = es::SkipStartWhitespace(v, nl); front = true; break;
  case 1: r = es::SkipEndWhitespace(v, nl); back = true; break;
  case 2: if (nl) return; r = es::TrimWhitespace(v); front = back = true; break;
  case 3: if (nl) return; r = es::SkipStartWhitespace(v); front = true; break;
  default: if (nl) return; r = es::SkipEndWhitespace(v); back = true; break;
  }
  const size_t lo = r.data() - t, hi = lo + r.size();
  observe("lo", lo); observe("hi", hi);
  CHECK(lo <= n && hi <= n, "the result is part of the text");
  for (size_t i = 0; i < lo && !(lo == n); i++) CHECK(blank(t[i], nl), "only blanks are taken off the front");
  for (size_t i = hi; i < n; i++) CHECK(blank(t[i], nl), "only blanks are taken off the end");
  if (!front) CHECK(lo == 0, "the front stays");
  if (!back) CHECK(hi == n, "the end stays");
  if (r.size() && front) CHECK(!blank(r[0], nl), "no blank stays in front");
  if (r.size() && back) CHECK(!blank(r[r.size() - 1], nl), "no blank stays at the end");
  free(t);
}
ENTRY(trimming) { const size_t n = pick("n", TIER(7, 9)); char *t = (char *)malloc(n); symBytes(t, n, "text"); trimming(t, n); }
ENTRY(trimming_long) { // long runs of blanks, or of other characters, with arbitrary characters in three places
  const size_t n = bigSize("n"); const bool b = pick("blank", 2); char *t = (char *)malloc(n);
  for (size_t i = 0; i < n; i++) t[i] = b ? (i % 3 ? ' ' : '\t') : 'x';
  t[n / 2] = sym<char>("c"); const size_t e = pick("e", 3); t[e] = sym<char>("c"); t[n - 1 - e] = sym<char>("c");
  trimming(t, n);
}
ENTRY(padding) {
  const size_t v = sym<size_t>("value"), a = (size_t)1 << pick("shift", 64), p = GetPadding(v, a);
  CHECK(p < a, "padding is less than the alignment"); CHECK(((v + p) & (a - 1)) == 0, "padding reaches the alignment");
  const uint32_t x = sym<uint32_t>("x"); unsigned bits = 0; for (int i = 0; i < 32; i++) bits += x >> i & 1;
  if (x) CHECK(IsPow2(x) == (bits == 1), "powers of two have one bit");
  const uint64_t y = sym<uint64_t>("y"); unsigned b2 = 0; for (int i = 0; i < 64; i++) b2 += y >> i & 1;
  if (y) CHECK(IsPow2(y) == (b2 == 1), "powers of two have one bit");
}
ENTRY(codes) {
  char c[5] = {}; symBytes(c, 4, "c"); for (int i = 0; i < 4; i++) assume(c[i] >= 0); // codes are ASCII
  uint32_t f = CompileFourCC(c); char back[4]; memcpy(back, &f, 4);
  CHECK(!memcmp(back, c, 4), "a code is its characters in memory order");
  const uint8_t h = sym<uint8_t>("h");
  if (h >= '0' && h <= '9') CHECK(atohLUT[h] == h - '0', "hexadecimal digits");
  else if (h >= 'a' && h <= 'f') CHECK(atohLUT[h] == h - 'a' + 10, "hexadecimal digits");
  else if (h >= 'A' && h <= 'F') CHECK(atohLUT[h] == h - 'A' + 10, "hexadecimal digits");
  else if (h < 'f') CHECK(atohLUT[h] == '.', "other characters are no digits");
}
ENTRY(fractions) {
  const size_t n = 1 + pick("bits", 63); const float f = GetFraction(n), m = (float)((1ull << n) - 1);
  const float one = f * m; CHECK(one > 0.9999998f && one < 1.0000002f, "a fraction scales the largest number to one");
}
ENTRY(small_helpers) {
  const size_t n = pick("n", 4); std::vector<int> v(n, 1); const size_t k = pick("k", n + 1);
  CHECK(es::IsEnd(v, v.begin() + k) == (k == n), "end of a container");
  int arr[3] = {}; CHECK(es::IsEnd(arr, arr + 3) && !es::IsEnd(arr, arr + 2), "end of an array");
  es::Dispose(v); CHECK(v.empty(), "a disposed container is empty");
  std::unique_ptr<int> p(new int(3)); es::Dispose(p); CHECK(!p, "a disposed pointer is empty");
  std::string s(20, 'x'); es::Dispose(s); CHECK(s.empty(), "a disposed string is empty");
  CHECK(sizeof(es::TypeFromSize<1>::type) == 1 && sizeof(es::TypeFromSize<2>::type) == 2 && sizeof(es::TypeFromSize<4>::type) == 4 && sizeof(es::TypeFromSize<8>::type) == 8, "types of a size");
}
