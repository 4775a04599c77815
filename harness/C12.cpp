//! bounds views of 0..5 (quick) / 0..6 (thorough) characters, needles and sets of 0..3, both with arbitrary contents, positions 0..n+1 and the two largest, counts 0..n+1 and the largest; long views of up to 65 (thorough 129; comparisons 100 and 300) characters with three arbitrary ones; narrow characters everywhere, wide characters for searches of 0..3
//! outside longer views in general, other character traits
//! flags * --timeout 400
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <sstream>
#include <vector>
#include "datas/string_view.hpp"
using SV = es::string_view;
static const size_t NP = (size_t)-1;
template <class C> struct Txt {
  C *p; size_t n;
  Txt(const char *name, size_t n) : p((C *)malloc(n * sizeof(C))), n(n) { symBytes(p, n * sizeof(C), name); }
  ~Txt() { free(p); }
  es::basic_string_view<C> sv() const { return {p, n}; }
  bool in(C c) const { unsigned r = 0; for (size_t i = 0; i < n; i++) r |= p[i] == c; return r; }
  bool at(size_t pos, const Txt &o) const { if (pos + o.n > n) return false; unsigned r = 1; for (size_t i = 0; i < o.n; i++) r &= p[pos + i] == o.p[i]; return r; }
};
static size_t position(size_t n, const char *name = "pos") { size_t k = pick(name, n + 4); return k <= n + 1 ? k : k == n + 2 ? NP : NP - 1; }
// first / last index in [from, n) or [0, from] for which f holds, without forking
template <class F> static size_t first(size_t n, size_t from, F f) { size_t r = NP; for (size_t i = n; i-- > 0;) if (i >= from) r = f(i) ? i : r; return r; }
template <class F> static size_t last(size_t n, size_t from, F f) { size_t r = NP; for (size_t i = 0; i < n; i++) if (i <= from) r = f(i) ? i : r; return r; }
template <class C> static void searches(size_t maxn, size_t maxk) {
  Txt<C> h("hay", pick("n", maxn + 1)), k("needle", pick("k", maxk + 1)); const size_t pos = position(h.n), n = h.n; auto s = h.sv(), v = k.sv();
  size_t got, want;
  switch (pick("op", 6)) {
  case 0: got = s.find(v, pos); want = first(n + 1, pos, [&](size_t i) { return h.at(i, k); }); break;
  case 1: got = s.rfind(v, pos); want = last(n + 1, pos, [&](size_t i) { return h.at(i, k); }); break;
  case 2: got = s.find_first_of(v, pos); want = first(n, pos, [&](size_t i) { return k.in(h.p[i]); }); break;
  case 3: got = s.find_last_of(v, pos); want = last(n, pos, [&](size_t i) { return k.in(h.p[i]); }); break;
  case 4: got = s.find_first_not_of(v, pos); want = first(n, pos, [&](size_t i) { return !k.in(h.p[i]); }); break;
  default: got = s.find_last_not_of(v, pos); want = last(n, pos, [&](size_t i) { return !k.in(h.p[i]); });
  }
  observe("got", got);
  CHECK(got == want, "a search finds what it defines");
}
ENTRY(search) { searches<char>(TIER(5, 6), TIER(2, 3)); }
ENTRY(search_wide) { searches<wchar_t>(3, 2); }
ENTRY(search_overloads) { // character, counted and terminated forms agree with the view form
  Txt<char> h("hay", pick("n", 4)), k("needle", 2); const size_t pos = position(h.n), cnt = pick("cnt", 3); auto s = h.sv();
  char z[3] = {k.p[0], k.p[1], 0}; const char c = k.p[0]; const SV one(&k.p[0], 1), part(k.p, cnt);
  switch (pick("op", 6)) {
#define F(i, f) case i: CHECK(s.f(c, pos) == s.f(one, pos), "character form"); CHECK(s.f(k.p, pos, cnt) == s.f(part, pos), "counted form"); CHECK(s.f((const char *)z, pos) == s.f(SV(z), pos), "terminated form"); break;
    F(0, find) F(1, rfind) F(2, find_first_of) F(3, find_last_of) F(4, find_first_not_of) F(5, find_last_not_of)
  }
  const bool fw = s.find(one) != NP;
  CHECK(s.find(c) == s.find(c, 0) && s.find_first_of(c) == s.find_first_of(c, 0) && s.find_first_not_of(c) == s.find_first_not_of(c, 0), "forward searches start at the front by default");
  CHECK(s.rfind(c) == s.rfind(c, NP) && s.find_last_of(c) == s.find_last_of(c, NP) && s.find_last_not_of(c) == s.find_last_not_of(c, NP), "backward searches start at the end by default");
  CHECK((s.rfind(one) != NP) == fw && (s.find_first_of(one) != NP) == fw && (s.find_last_of(one) != NP) == fw, "all searches agree whether a character occurs");
}
static int cmp(const char *a, size_t n, const char *b, size_t m) {
  int r = n < m ? -1 : n > m ? 1 : 0;
  for (size_t i = std::min(n, m); i-- > 0;) { uint8_t x = a[i], y = b[i]; r = x < y ? -1 : x > y ? 1 : r; }
  return r;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
ENTRY(comparison) {
  Txt<char> a("a", pick("n", TIER(5, 6))), b("b", pick("m", TIER(5, 6))); SV x = a.sv(), y = b.sv();
  const int w = cmp(a.p, a.n, b.p, b.n);
  CHECK(sgn(x.compare(y)) == w, "comparison is lexicographic on unsigned characters, shorter first");
  CHECK((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w <= 0) && (x >= y) == (w >= 0), "comparison operators");
  std::string s(b.p, b.n);
  CHECK((x == s) == (w == 0) && (x != s) == (w != 0) && (x < s) == (w < 0) && (x > s) == (w > 0) && (x <= s) == (w <= 0) && (x >= s) == (w >= 0), "comparison with strings");
  CHECK((s == x) == (w == 0) && (s != x) == (w != 0) && (s < x) == (w > 0) && (s > x) == (w < 0) && (s <= x) == (w >= 0) && (s >= x) == (w <= 0), "comparison of strings");
}
ENTRY(comparison_parts) {
  Txt<char> a("a", pick("n", 4)), b("b", pick("m", 3)); SV x = a.sv(), y = b.sv();
  const size_t p = position(a.n), c = position(a.n, "cnt");
  const size_t rc = p > a.n ? 0 : std::min(c, a.n - p);
  bool threw = false; int got = 0, want = 0;
  const int form = (int)pick("form", 4);
  char z[4] = {0}; memcpy(z, b.p, b.n); size_t zn = 0; while (z[zn]) zn++;
  try {
    switch (form) {
    case 0: got = x.compare(p, c, y); want = cmp(a.p + (p > a.n ? 0 : p), rc, b.p, b.n); break;
    case 1: { size_t p2 = pick("pos2", 4), c2 = pick("cnt2", 3); if (p2 > b.n) { try { x.compare(0, 0, y, p2, c2); CHECK(false, "a position behind the end is refused"); } catch (const std::out_of_range &) {} return; }
      got = x.compare(p, c, y, p2, c2); want = cmp(a.p + (p > a.n ? 0 : p), rc, b.p + p2, std::min(c2, b.n - p2)); break; }
    case 2: got = x.compare(p, c, (const char *)z); want = cmp(a.p + (p > a.n ? 0 : p), rc, z, zn); break;
    default: got = x.compare(p, c, b.p, b.n); want = cmp(a.p + (p > a.n ? 0 : p), rc, b.p, b.n); break;
    }
  } catch (const std::out_of_range &) { threw = true; }
  CHECK(threw == (p > a.n), "a position behind the end is refused and no other");
  if (!threw) CHECK(sgn(got) == want, "comparison of parts");
}
ENTRY(comparison_terminated) {
  Txt<char> a("a", pick("n", 4)); char z[4]; symBytes(z, 3, "z"); z[3] = 0; size_t zn = 0; while (z[zn]) zn++;
  const int w = cmp(a.p, a.n, z, zn); SV x = a.sv(); const char *c = z;
  CHECK(sgn(x.compare(c)) == w, "comparison with terminated text");
  CHECK((x == c) == (w == 0) && (x != c) == (w != 0) && (x < c) == (w < 0) && (x > c) == (w > 0) && (x <= c) == (w <= 0) && (x >= c) == (w >= 0), "operators with terminated text");
  CHECK((c == x) == (w == 0) && (c != x) == (w != 0) && (c < x) == (w > 0) && (c > x) == (w < 0) && (c <= x) == (w >= 0) && (c >= x) == (w <= 0), "operators of terminated text");
}
ENTRY(parts) {
  Txt<char> a("a", pick("n", 5)); SV x = a.sv(); const size_t p = position(a.n), c = position(a.n, "cnt"); bool threw = false;
  try { SV s = x.substr(p, c); CHECK(s.data() == a.p + p && s.size() == std::min(c, a.n - p), "a part is the characters it names"); } catch (const std::out_of_range &) { threw = true; }
  CHECK(threw == (p > a.n), "a part behind the end is refused and no other");
  const size_t rc = p > a.n ? 0 : std::min(c, a.n - p);
  char *d = (char *)malloc(rc); threw = false;
  try { size_t r = x.copy(d, c, p); CHECK(r == rc, "a copy reports its length"); CHECK(!memcmp(d, a.p + p, rc), "a copy holds the characters"); } catch (const std::out_of_range &) { threw = true; }
  CHECK(threw == (p > a.n), "a copy from behind the end is refused and no other"); free(d);
  threw = false; char got = 0; try { got = x.at(p); } catch (const std::out_of_range &) { threw = true; }
  CHECK(threw == (p >= a.n), "checked access"); if (!threw) CHECK(got == a.p[p] && x[p] == got, "access");
}
ENTRY(shapes) {
  Txt<char> a("a", pick("n", 5)); SV x = a.sv(), e;
  CHECK(e.empty() && e.size() == 0 && x.size() == a.n && x.length() == a.n && x.empty() == (a.n == 0) && x.data() == a.p && x.c_str() == a.p, "sizes");
  CHECK(x.begin() == a.p && x.end() == a.p + a.n && x.cbegin() == a.p && x.cend() == a.p + a.n && SV(a.p, a.p + a.n) == x, "iterators");
  if (a.n) CHECK(&x.front() == a.p && &x.back() == a.p + a.n - 1, "ends");
  std::string s = x.to_string(), t = x; CHECK(s.size() == a.n && !memcmp(s.data(), a.p, a.n) && s == t, "conversion to a string"); CHECK(SV(s) == x && SV(s).data() == s.data(), "view of a string");
  const size_t k = pick("k", a.n + 1);
  SV p = x, q = x, r = x; p.remove_prefix(k); q.remove_suffix(k); r.resize(k);
  CHECK(p.data() == a.p + k && p.size() == a.n - k && q.data() == a.p && q.size() == a.n - k && r.data() == a.p && r.size() == k, "shortening");
  swap(p, q); CHECK(q.data() == a.p + k && p.data() == a.p && p.size() == q.size(), "exchange"); p.swap(r); CHECK(p.size() == k && r.size() == a.n - k, "exchange");
  std::ostringstream o; o << x; CHECK(o.str() == s, "output writes the characters");
  auto lit = es::MakeStringView("ab\0d"); CHECK(lit.size() == 4 && lit[2] == 0 && lit[3] == 'd', "literal views keep every character");
}
// long views: fixed text with arbitrary characters in three places
ENTRY(search_long) {
  const size_t n = bigSize("n", TIER(65, 129)); Txt<char> h("none", 0), k("needle", pick("k", TIER(2, 3)));
  free(h.p); h.p = (char *)malloc(n); h.n = n;
  for (size_t i = 0; i < n; i++) h.p[i] = "abcab"[i % 5];
  for (size_t i : {size_t(1), n / 2, n - 2}) h.p[i] = sym<char>("c");
  const size_t at = pick("at", 4), pos = at == 0 ? 0 : at == 1 ? NP : at == 2 ? n / 2 : n - 1; auto s = h.sv(), v = k.sv();
  size_t got, want;
  switch (pick("op", 6)) {
  case 0: got = s.find(v, pos); want = first(n + 1, pos, [&](size_t i) { return h.at(i, k); }); break;
  case 1: got = s.rfind(v, pos); want = last(n + 1, pos, [&](size_t i) { return h.at(i, k); }); break;
  case 2: got = s.find_first_of(v, pos); want = first(n, pos, [&](size_t i) { return k.in(h.p[i]); }); break;
  case 3: got = s.find_last_of(v, pos); want = last(n, pos, [&](size_t i) { return k.in(h.p[i]); }); break;
  case 4: got = s.find_first_not_of(v, pos); want = first(n, pos, [&](size_t i) { return !k.in(h.p[i]); }); break;
  default: got = s.find_last_not_of(v, pos); want = last(n, pos, [&](size_t i) { return !k.in(h.p[i]); });
  }
  observe("got", got);
  CHECK(got == want, "a search finds what it defines");
}
ENTRY(comparison_long) {
  const size_t n = bigSize("n", TIER(100, 300)), d = pick("d", 3), m = n + d - 1; char *a = (char *)malloc(n), *b = (char *)malloc(m);
  fillBytes(a, n, "a"); fillBytes(b, m, "b"); es::string_view x(a, n), y(b, m); std::string s(b, m);
  const int w = cmp(a, n, b, m);
  CHECK(sgn(x.compare(y)) == w && (x == y) == (w == 0) && (x < y) == (w < 0) && (x == s) == (w == 0) && (s > x) == (w < 0), "comparison is lexicographic on unsigned characters, shorter first");
  std::string t = x; CHECK(t.size() == n && !memcmp(t.data(), a, n) && es::string_view(t) == x, "conversion to a string");
  std::vector<char> c(n + 1, 0); CHECK(x.copy(c.data(), n) == n && !memcmp(c.data(), a, n) && c[n] == 0, "a copy holds the characters");
  free(a); free(b);
}
