//! bounds decimal texts of up to 6 digits (32 and 64 bit: also 8 to 20 digits with the last four free, thorough more), hexadecimal texts of up to 6 (64 bit: 16 with the last four free) digits, with blanks, sign and any byte behind; texts of up to 3 (thorough 4) arbitrary bytes; every value of 8 and 16 bit members and windows of 4096 values elsewhere for reading; every float and double a text can denote
//! outside 64 bit numbers with more than six free digits, the digits of floating point texts (the C library converts them), strings
//! assume strtod, strtof and snprintf behave as the stand-ins of the harness: correctly rounded, range errors reported by errno
#include <cstdlib>
#define atof(t) strtod(t, nullptr) // an inline of the C library
#include "refl.h"

static double fpTrue; static bool fpZero, fpInf, fpBad, fpUsed; // what the text denotes
extern "C" double strtod(const char *t, char **e) {
  fpUsed = true;
  if (e) *e = (char *)t + (fpBad ? 0 : 1);
  if (fpBad) return 0;
  const double a = __builtin_fabs(fpTrue);
  if ((a > 1.7976931348623157e308 && !fpInf) || (a < 2.2250738585072014e-308 && !fpZero)) errno = ERANGE;
  return fpTrue;
}
extern "C" float strtof(const char *t, char **e) {
  fpUsed = true;
  if (e) *e = (char *)t + (fpBad ? 0 : 1);
  if (fpBad) return 0;
  const float f = (float)fpTrue, a = __builtin_fabsf(f);
  if ((a > 3.40282347e38f && !fpInf) || (a < 1.17549435e-38f && !fpZero)) errno = ERANGE;
  return f;
}
static double printed; static size_t digits;
#include <cstdarg>
extern "C" int snprintf(char *o, size_t n, const char *f, ...) {
  va_list a; va_start(a, f); printed = va_arg(a, double); va_end(a);
  digits = 0; for (f += 2; *f >= '0' && *f <= '9'; f++) digits = digits * 10 + (*f - '0');
  o[0] = '7'; o[1] = 0; return 1;
}

struct Nums {
  uint8 g0; int8 a; uint8 b; uint8 g1; int16 c; uint16 d; int32 e; uint32 f; int64 g; uint64 h; bool i; uint8 g2; float j; double k;
  void ReflectorTag();
};
REFLECTOR_CREATE(Nums, 1, VARNAMES, a, b, c, d, e, f, g, h, i, j, k);
typedef __int128 Big;

template <class T> static void only(const Nums &before, const Nums &after, T Nums::*m, const char *l) {
  const size_t at = (const char *)&(before.*m) - (const char *)&before;
  uint8 diff = 0; const uint8 *x = (const uint8 *)&before, *y = (const uint8 *)&after;
  for (size_t i = 0; i < sizeof(Nums); i++) if (i < at || i >= at + sizeof(T)) diff |= x[i] ^ y[i];
  CHECK(!diff, "only that member changes");
}
template <class T> static constexpr Big top() { return (Big)std::numeric_limits<T>::max(); }
template <class T> static constexpr Big low() { return (Big)std::numeric_limits<T>::min(); }
// |v| with a sign as text denotes them; how the member and the result have to look
template <class T> static void judge(T got, Err err, bool neg, Big mag) {
  const Big v = neg ? -mag : mag;
  if (std::is_signed<T>::value) {
    const bool fits = v >= low<T>() & v <= top<T>();
    CHECK(!fits | ((Big)got == v & err == Err::None), "a number in range is stored as it is");
    CHECK(fits | ((Big)got == (neg ? low<T>() : top<T>()) & err == Err::OutOfRange), "a number out of range saturates");
  } else if (!neg) {
    const bool fits = v <= top<T>();
    CHECK(!fits | ((Big)got == v & err == Err::None), "a number in range is stored as it is");
    CHECK(fits | ((Big)got == top<T>() & err == Err::OutOfRange), "a number out of range saturates");
  } else {
    CHECK(err != Err::None, "a sign on an unsigned member is reported");
    CHECK(mag > top<T>() | (got == (T)(0 - (uint64_t)mag) & err == Err::SignMismatch), "a negative number on an unsigned member wraps as assignment does");
  }
}
template <class T> static void text(size_t id, T Nums::*m, const std::string &t, bool neg, Big mag) {
  Nums n, o; symBytes(&n, sizeof n, "before"); memcpy(&o, &n, sizeof o);
  ReflectorWrap<Nums> r(n);
  const Err e = r.SetReflectedValue(id, es::string_view(t.data(), t.size()));
  judge<T>(n.*m, e, neg, mag); only(o, n, m, "");
}
static unsigned digit(unsigned base, char &c, bool upper) { const unsigned d = below("digit", base); c = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); return d; }
template <class T> static void decimal(size_t id, T Nums::*m) {
  const size_t k = 1 + pick("digits", sizeof(T) == 1 ? 4 : TIER(6, 7)); const bool neg = pick("neg", 2);
  std::string t(pick("blank", 2) ? " \t" : ""); if (neg) t += '-'; Big v = 0;
  for (size_t i = 0; i < k; i++) { char c; v = v * 10 + digit(10, c, false); t += c; }
  const char junk = sym<char>("behind"); assume(junk < '0' | junk > '9'); t += junk;
  text(id, m, t, neg, v);
}
template <class T> static void hex(size_t id, T Nums::*m) {
  const size_t k = 1 + pick("digits", sizeof(T) == 1 ? 3 : TIER(5, 7)); const bool neg = pick("neg", 2), up = sizeof(T) == 1 && pick("upper", 2);
  std::string t(neg ? "-0x" : "0x"); Big v = 0;
  for (size_t i = 0; i < k; i++) { char c; v = v * 16 + digit(16, c, up); t += c; }
  t += ' ';
  text(id, m, t, neg, v);
}
// numbers around the limits: a fixed beginning and free last digits
template <class T> static void edge(size_t id, T Nums::*m, const char *const *starts, size_t ns, unsigned base, size_t nfree) {
  const char *s = starts[pick("start", ns)]; const bool neg = pick("neg", 2);
  std::string t(neg ? "-" : ""); if (base == 16) t += "0x"; Big v = 0;
  for (const char *p = s; *p; p++) { v = v * base + (*p <= '9' ? *p - '0' : *p - 'a' + 10); t += *p; }
  for (size_t i = 0; i < nfree; i++) { char c; v = v * base + digit(base, c, false); t += c; }
  text(id, m, t, neg, v);
}
ENTRY(dec_i8) { decimal(0, &Nums::a); }
ENTRY(dec_u8) { decimal(1, &Nums::b); }
ENTRY(dec_i16) { decimal(2, &Nums::c); }
ENTRY(dec_u16) { decimal(3, &Nums::d); }
ENTRY(dec_i32) { decimal(4, &Nums::e); }
ENTRY(dec_u32) { decimal(5, &Nums::f); }
ENTRY(dec_i64) { decimal(6, &Nums::g); }
ENTRY(dec_u64) { decimal(7, &Nums::h); }
ENTRY(hex_i8) { hex(0, &Nums::a); }
ENTRY(hex_u8) { hex(1, &Nums::b); }
ENTRY(hex_i16) { hex(2, &Nums::c); }
ENTRY(hex_u16) { hex(3, &Nums::d); }
ENTRY(hex_i32) { hex(4, &Nums::e); }
ENTRY(hex_u64) { hex(7, &Nums::h); }
static const char *const d32[]{"214748", "429496", "0000000000000", "99999999999999999"};
static const char *const d64[]{"922337203685477", "1844674407370955", "00000000000000000000000", "9999999999999999999999999", "42949672959999999"};
static const char *const h32[]{"7ffff", "80000", "fffff", "100000", "ffffffffffff", "1234567890abcdef1"};
static const char *const h64[]{"7ffffffffffff", "8000000000000", "fffffffffffff", "10000000000000", "1234567890abcdef1"};
ENTRY(edge_i32) { edge(4, &Nums::e, d32, 4, 10, 4); }
ENTRY(edge_u32) { edge(5, &Nums::f, d32, 4, 10, 4); }
ENTRY(edge_i64) { edge(6, &Nums::g, d64, 5, 10, 4); }
ENTRY(edge_u64) { edge(7, &Nums::h, d64, 5, 10, 4); }
ENTRY(hexedge_i32) { edge(4, &Nums::e, h32, 6, 16, TIER(3, 4)); }
ENTRY(hexedge_u32) { edge(5, &Nums::f, h32, 6, 16, TIER(3, 4)); }
ENTRY(hexedge_i64) { edge(6, &Nums::g, h64, 5, 16, TIER(3, 4)); }
ENTRY(hexedge_u64) { edge(7, &Nums::h, h64, 5, 16, TIER(3, 4)); }

static bool blank(char c) { return c == ' ' || c == 9; }
// a text of any bytes: blanks, a sign, digits; anything else is no number
template <class T> static void any(size_t id, T Nums::*m) {
  const size_t n = pick("length", TIER(4, 5));
  char t[5]; symBytes(t, n, "text"); bool odd = false;
  for (size_t i = 0; i < n; i++) odd |= t[i] > 9 & t[i] < 14;
  assume(!odd); // whether these are blanks is left to the C library
  Nums o; symBytes(&o, sizeof o, "before"); Nums x; memcpy(&x, &o, sizeof x);
  ReflectorWrap<Nums> r(x);
  const Err e = r.SetReflectedValue(id, es::string_view(t, n));
  size_t p = 0; while (p < n && blank(t[p])) p++;
  bool neg = false; unsigned base = 10; size_t q = p;
  if (q < n && (t[q] == '-' || t[q] == '+')) neg = t[q++] == '-';
  // a hexadecimal prefix is accepted in lower case, behind nothing but a minus
  if (n - q > 1 && t[q] == '0' && t[q + 1] == 'x' && (q == p || neg)) { base = 16; q += 2; }
  Big v = 0; bool some = base == 16;
  for (; q < n; q++) {
    const char c = t[q];
    unsigned d = c >= '0' && c <= '9' ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
    if (d > 15) break;
    v = v * base + d; some = true;
  }
  if (!some) { CHECK(e == Err::InvalidFormat, "a text without a number is refused"); CHECK(!memcmp(&o, &x, sizeof x), "a refused text changes nothing"); return; }
  judge<T>(x.*m, e, neg, v); only(o, x, m, "");
}
ENTRY(any_i8) { any(0, &Nums::a); }
ENTRY(any_u8) { any(1, &Nums::b); }
ENTRY(any_i16) { any(2, &Nums::c); }
ENTRY(any_u64) { any(7, &Nums::h); }

static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
ENTRY(boolean) {
  const size_t n = pick("length", TIER(6, 7));
  char t[7]; symBytes(t, n, "text"); bool odd = false;
  for (size_t i = 0; i < n; i++) odd |= t[i] > 9 & t[i] < 14;
  assume(!odd);
  Nums o; symBytes(&o, sizeof o, "before"); Nums x; memcpy(&x, &o, sizeof x);
  ReflectorWrap<Nums> r(x);
  const Err e = r.SetReflectedValue(8, es::string_view(t, n));
  size_t p = 0; while (p < n && blank(t[p])) p++;
  bool yes = n - p >= 4, no = n - p >= 5;
  for (size_t i = 0; i < 4 && p + i < n; i++) yes &= lower(t[p + i]) == "true"[i];
  for (size_t i = 0; i < 5 && p + i < n; i++) no &= lower(t[p + i]) == "false"[i];
  uint8 raw; memcpy(&raw, &x.i, 1);
  CHECK(!yes | (raw == 1 & e == Err::None), "true is stored");
  CHECK(!no | (raw == 0 & e == Err::None), "false is stored");
  CHECK(yes | no | (e == Err::InvalidFormat), "another text is reported");
  only(o, x, &Nums::i, "");
}
ENTRY(boolean_again) {
  Nums x; symBytes(&x, sizeof x, "before"); const bool b = pick("value", 2); x.i = b;
  Nums o; memcpy(&o, &x, sizeof x);
  ReflectorWrap<Nums> r(x);
  const std::string t = r.GetReflectedValue(8);
  CHECK(t == (b ? "true" : "false"), "a boolean reads as its name");
  CHECK(r.SetReflectedValue(8, t) == Err::None, "its text is accepted");
  CHECK(!memcmp(&o, &x, sizeof x), "setting what was read changes nothing");
}
// reading a number and setting it again
template <class T> static void again(size_t id, T Nums::*m, T from, unsigned span) {
  Nums x, y; symBytes(&x, sizeof x, "before"); symBytes(&y, sizeof y, "other"); x.i = y.i = false;
  const T v = (T)(from + (T)below("value", span)); x.*m = v;
  Nums o; memcpy(&o, &x, sizeof x); Nums p; memcpy(&p, &y, sizeof y);
  ReflectorWrap<Nums> r(x), w(y);
  const std::string t = r.GetReflectedValue(id);
  CHECK(!memcmp(&o, &x, sizeof x), "reading changes nothing");
  CHECK(w.SetReflectedValue(id, t) == Err::None, "the text of a number is accepted");
  CHECK(y.*m == v, "setting what was read gives the number back");
  only(p, y, m, "");
}
template <class T> static void windows(size_t id, T Nums::*m) {
  typedef typename std::make_unsigned<T>::type U;
  static const U froms[]{0, (U)(std::numeric_limits<T>::max() - 2048), (U)-4096, (U)1000000000, (U)(0xe8d4a51000ull), (U)(~(U)0 / 3)};
  again(id, m, (T)froms[pick("window", 6)], 4096);
}
ENTRY(again_i8) { again<int8>(0, &Nums::a, 0, 256); }
ENTRY(again_u8) { again<uint8>(1, &Nums::b, 0, 256); }
ENTRY(again_i16) { again<int16>(2, &Nums::c, 0, 65536); }
ENTRY(again_u16) { again<uint16>(3, &Nums::d, 0, 65536); }
ENTRY(again_i32) { windows(4, &Nums::e); }
ENTRY(again_u32) { windows(5, &Nums::f); }
ENTRY(again_i64) { windows(6, &Nums::g); }
ENTRY(again_u64) { windows(7, &Nums::h); }

template <class T> static void floating(size_t id, T Nums::*m) {
  Nums x; symBytes(&x, sizeof x, "before"); Nums o; memcpy(&o, &x, sizeof x);
  const double d = sym<double>("denotes"); const bool inf = pick("infinity", 2), bad = pick("no number", 2);
  const double a = __builtin_fabs(d);
  assume(d == d); // NaN has its own entry
  fpTrue = d; fpBad = bad; fpInf = inf; fpZero = pick("zero", 2);
  if (inf) assume(a > 1.7976931348623157e308);
  if (fpZero) assume(a == 0); // a text that says zero, as opposed to one too small
  ReflectorWrap<Nums> r(x);
  const Err e = r.SetReflectedValue(id, "1.0");
  const T big = std::numeric_limits<T>::max(), small = std::numeric_limits<T>::min(), want = (T)d;
  const T aw = want < 0 ? -want : want;
  const bool minus = fbits(d) >> 63;
  const T got = x.*m;
  if (bad) { CHECK(e == Err::InvalidFormat, "a text without a number is refused"); CHECK(!memcmp(&o, &x, sizeof x), "a refused text changes nothing"); return; }
  const bool over = aw > big & !inf, under = aw < small & !fpZero;
  CHECK(over | under | (fbits(got) == fbits(want) & e == Err::None), "a number in range is stored as it is");
  CHECK(!over | (got == (minus ? -big : big) & e == Err::OutOfRange), "a number too large saturates with its sign");
  CHECK(!under | (got == (minus ? -small : small) & e == Err::OutOfRange), "a number too small keeps its sign");
  only(o, x, m, "");
}
ENTRY(float_text) { floating(9, &Nums::j); }
ENTRY(double_text) { floating(10, &Nums::k); }
template <class T> static void nan(size_t id, T Nums::*m) {
  Nums x; symBytes(&x, sizeof x, "before"); Nums o; memcpy(&o, &x, sizeof x);
  fpTrue = __builtin_nan(""); fpBad = fpInf = fpZero = false;
  ReflectorWrap<Nums> r(x);
  const Err e = r.SetReflectedValue(id, "nan");
  CHECK(e == Err::None, "not a number is accepted"); CHECK(x.*m != x.*m, "not a number is stored"); only(o, x, m, "");
}
ENTRY(float_nan) { nan(9, &Nums::j); }
ENTRY(double_nan) { nan(10, &Nums::k); }
ENTRY(float_read) {
  Nums x; symBytes(&x, sizeof x, "before"); Nums o; memcpy(&o, &x, sizeof x); ReflectorWrap<Nums> r(x);
  const bool dbl = pick("double", 2);
  const std::string t = r.GetReflectedValue(dbl ? 10 : 9);
  const double v = dbl ? x.k : (double)x.j;
  CHECK((printed == v) | (printed != printed & v != v), "the value of the member is printed"); CHECK(digits >= (dbl ? 13u : 6u), "with the digits the type holds"); CHECK(t == "7", "and nothing but the number");
  CHECK(!memcmp(&o, &x, sizeof x), "reading changes nothing");
}
