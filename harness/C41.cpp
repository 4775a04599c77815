//! bounds every comparison of two arbitrary values of 32 bits signed and unsigned, of 64 bits, of fractions and of texts of up to 3 bytes; checks of plain values and of expressions of every operator that binds weaker than a comparison; groups of up to 5 test functions failing in every combination; messages for values of one digit
//! outside values that cannot be compared, nested groups
//! flags * --max-steps 400000000
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <string>
#include <vector>
#include "datas/master_printer.cpp"
#include "datas/macroLoop.hpp"
#include <type_traits>
// the library is built by gcc, for which the header prints values
#ifdef __clang__
#pragma push_macro("__clang__")
#pragma push_macro("__GNUC__")
#undef __clang__
#undef __GNUC__
#define __GNUC__ 9
#include "datas/unit_testing.hpp"
#pragma pop_macro("__GNUC__")
#pragma pop_macro("__clang__")
#else
#include "datas/unit_testing.hpp"
#endif

static std::string *out;
static void sink(const char *c) { out->append(c); }
static void init() { out = new std::string(); printer.AddPrinterFunction(sink, false); }
static bool has(const char *t) { return out->find(t) != out->npos; }
template <class A, class B> static int equal(A a, B b) { TEST_EQUAL(a, b); return 0; }
template <class A, class B> static int notEqual(A a, B b) { TEST_NOT_EQUAL(a, b); return 0; }
template <class A, class B> static int greater(A a, B b) { TEST_GT(a, b); return 0; }
template <class A, class B> static int less(A a, B b) { TEST_LT(a, b); return 0; }
template <class A, class B> static int greaterEqual(A a, B b) { TEST_GT_EQ(a, b); return 0; }
template <class A, class B> static int lessEqual(A a, B b) { TEST_LE_EQ(a, b); return 0; }
template <class T> static void all(const T &a, const T &b, bool lt, bool eq, bool gt, const std::string &sa = "a", const std::string &sb = "b") {
  init(); const size_t which = pick("check", 6); int r; bool holds;
  switch (which) {
  case 0: r = equal(a, b); holds = eq; break;
  case 1: r = notEqual(a, b); holds = !eq; break;
  case 2: r = greater(a, b); holds = gt; break;
  case 3: r = less(a, b); holds = lt; break;
  case 4: r = greaterEqual(a, b); holds = gt | eq; break;
  default: r = lessEqual(a, b); holds = lt | eq; break;
  }
  static const char *const named[]{"a != b, ", "a == b, ", "a <= b, ", "a >= b, ", "a < b, ", "a > b, "};
  if (!holds) { std::string t = "): "; t += named[which]; t += sa; const char *op = named[which] + 1; while (*op != 'b') t += *op++; t += sb; t += "\n"; CHECK(out->size() > t.size() && !memcmp(out->data() + out->size() - t.size(), t.data(), t.size()), "the values of a failing check are reported"); }
  CHECK((r == 0) == holds && (r == 0 || r == 1), "a check fails exactly when it does not hold");
  CHECK(out->empty() == holds, "exactly a failing check is reported");
  if (!holds) CHECK(has("ERROR: Check failed ") && has("C41.cpp(") && has(named[which]) && out->back() == '\n', "a failing check is reported with its place and expression");
}
// no digits of arbitrary values in messages
#define MUTED(T) struct Q##T { T v; bool operator!=(const Q##T &o) const { return v != o.v; } bool operator==(const Q##T &o) const { return v == o.v; } bool operator<(const Q##T &o) const { return v < o.v; } \
  bool operator>(const Q##T &o) const { return v > o.v; } bool operator<=(const Q##T &o) const { return v <= o.v; } bool operator>=(const Q##T &o) const { return v >= o.v; } };
MUTED(int32) MUTED(uint32) MUTED(int64) MUTED(double)
template <class Q, class T> static void muted() { const T x = sym<T>("a"), y = sym<T>("b"); const Q a{x}, b{y}; all(a, b, x < y, x == y, x > y); }
ENTRY(signed_numbers) { muted<Qint32, int32>(); }
ENTRY(unsigned_numbers) { muted<Quint32, uint32>(); }
ENTRY(long_numbers) { muted<Qint64, int64>(); }
ENTRY(digits) { const int a = (int)pick("a", 10), b = (int)pick("b", 10); all(a, b, a < b, a == b, a > b, std::string(1, (char)('0' + a)), std::string(1, (char)('0' + b))); }
ENTRY(texts) {
  const size_t n = pick("n", 4), m = pick("m", 4); char c[4] = {}, d[4] = {}; symBytes(c, n, "a"); symBytes(d, m, "b"); for (size_t i = 0; i < n; i++) assume(c[i] > 0 && c[i] != '\n'); for (size_t i = 0; i < m; i++) assume(d[i] > 0 && d[i] != '\n');
  const std::string a(c, n), b(d, m); int o = 0; for (size_t i = 0; i < 4; i++) o = o ? o : (int)c[i] - (int)d[i];
  all(a, b, o < 0, o == 0, o > 0, a, b);
}
static int isSet(int v) { TEST_CHECK(v); return 0; }
static int isNot(int v) { TEST_NOT_CHECK(v); return 0; }
ENTRY(checks) { init(); const int v = sym<int>("v"); const size_t k = pick("check", 2); const int r = k ? isNot(v) : isSet(v); const bool holds = (v != 0) != (k == 1);
  CHECK((r == 0) == holds && out->empty() == holds, "a check of a value fails exactly when it does not hold"); if (!holds) CHECK(has("Check failed ") && has("C41.cpp(") && has("): v\n"), "a failing check names what it checked"); }
#define EXPR(name, ...) static int name##_(int a, int b, int c, int d) { (void)a, (void)b, (void)c, (void)d; __VA_ARGS__; return 0; }
EXPR(c0, TEST_CHECK(a == b)) EXPR(c1, TEST_CHECK(a && b)) EXPR(c2, TEST_CHECK(a || b)) EXPR(c3, TEST_CHECK(a > b)) EXPR(c4, TEST_CHECK(a & b)) EXPR(c5, TEST_CHECK(a ? b : c))
EXPR(c6, TEST_NOT_CHECK(a == b)) EXPR(c7, TEST_NOT_CHECK(a || b)) EXPR(c8, TEST_CHECK(!a)) EXPR(c9, TEST_CHECK(a != b))
EXPR(e0, TEST_EQUAL(a & b, c)) EXPR(e1, TEST_EQUAL(a, b | c)) EXPR(e2, TEST_NOT_EQUAL(a & b, c)) EXPR(e3, TEST_GT(a | b, c)) EXPR(e4, TEST_LT(a, b ^ c)) EXPR(e5, TEST_GT_EQ(a & b, c)) EXPR(e6, TEST_LE_EQ(a ? b : c, d)) EXPR(e7, TEST_EQUAL(a == b, c == d))
ENTRY(expressions) {
  init(); const int a = sym<int>("a"), b = sym<int>("b"), c = sym<int>("c"), d = sym<int>("d");
  struct { int (*f)(int, int, int, int); bool holds; } const t[]{{c0_, a == b}, {c1_, a && b}, {c2_, a || b}, {c3_, a > b}, {c4_, (a & b) != 0}, {c5_, (a ? b : c) != 0}, {c6_, !(a == b)}, {c7_, !(a || b)}, {c8_, a == 0}, {c9_, a != b}};
  const size_t k = pick("expression", 10); const int r = t[k].f(a, b, c, d); CHECK((r == 0) == t[k].holds, "a checked expression fails exactly when it is false");
}
ENTRY(compared_expressions) {
  init(); const int a = (int)below("a", 3), b = (int)below("b", 3), c = (int)below("c", 3), d = (int)below("d", 3);
  struct { int (*f)(int, int, int, int); bool holds; } const t[]{{e0_, (a & b) == c}, {e1_, a == (b | c)}, {e2_, (a & b) != c}, {e3_, (a | b) > c}, {e4_, a < (b ^ c)}, {e5_, (a & b) >= c}, {e6_, (a ? b : c) <= d}, {e7_, (a == b) == (c == d)}};
  const size_t k = pick("expression", 8); const int r = t[k].f(a, b, c, d); CHECK((r == 0) == t[k].holds, "a comparison of expressions fails exactly when it is false");
}
static int throwing(int k) { TEST_THROW(std::out_of_range, if (k == 0) throw std::out_of_range(""); if (k == 1) throw std::runtime_error(""); if (k == 2) throw 1;); return 0; }
ENTRY(throws) { init(); const int k = (int)pick("thrown", 4); const int r = throwing(k);
  CHECK(r == (k != 0) && out->empty() == !k, "an expected exception is demanded"); if (k) CHECK(has(k == 3 ? "Expected throw " : "Unhandled exception ") && has("C41.cpp("), "what was thrown instead is reported"); }
static bool fails[5]; static int ran[5];
template <int K> static int caseOf(int more = 0) { ran[K]++; return (fails[K] || more) ? 1 : 0; }
static int group() { int r = -1; TEST_CASES(r, TEST_FUNC(caseOf<0>), TEST_FUNC(caseOf<1>), TEST_FUNC(caseOf<2>), TEST_FUNC(caseOf<3>), TEST_FUNC(caseOf<4>, 0)); return r; }
static int one() { int r = -1; TEST_CASES(r, TEST_FUNC(caseOf<0>)); return r; }
ENTRY(groups) {
  init(); int bad = 0; const bool single = pick("single", 2); for (int i = 0; i < (single ? 1 : 5); i++) { fails[i] = pick("fails", 2); bad += fails[i]; } for (auto &i : ran) i = 0;
  const int r = single ? one() : group();
  CHECK(r == bad, "a group counts the test functions that fail"); for (int i = 0; i < 5; i++) CHECK(ran[i] == (single ? i == 0 : 1), "a group runs every test function once");
  char t[64]; snprintf(t, sizeof t, "Testing result: %d out of %d successed.\n", (single ? 1 : 5) - bad, single ? 1 : 5); CHECK(has(t), "a group reports how many succeeded");
  for (int i = 0; i < 5; i++) { snprintf(t, sizeof t, "Method caseOf<%d> failed!", i); CHECK(has(t) == (single && i ? false : fails[i]), "the test functions that fail are named"); }
}
