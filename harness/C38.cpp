//! bounds vectors of 2, 3 and 4 components of every integer type but characters; all values of any one component next to all one digit ones (two components; thorough three) or fixed ones, the text read back for all components of up to 2 (thorough 3) digits; for text, wide text and streams, into empty and used streams with default and other settings
//! bounds fractional components: a set of distinct exact values, in every place
//! outside rounding of fractional components (the digits are the standard library's), components that are characters
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <sstream>
#include "datas/vectors_simd.hpp"
#include "datas/vectors_string.hpp"
#include "datas/vectors_stream.hpp"

template <class T> static T component(bool wide, int small) {
  T v = sym<T>("component");
  if (!wide) assume(v >= T(std::is_signed<T>::value ? -small : 0) && v <= T(small));
  return v;
}
template <class T> struct Parts {
  T v[4]; unsigned n;
  Parts(unsigned n, int small, bool wides = true) : n(n) {
    const size_t w = wides ? pick("wide", n) : n;
    static const int others[]{7, 3, 50, 12};
    for (unsigned i = 0; i < 4; i++) v[i] = i >= n ? T(0) : wides && n > TIER(2, 3) && i != w ? T(std::is_signed<T>::value && i & 1 ? -others[i] : others[i]) : component<T>(i == w, small);
  }
  std::string text() const { std::string r; for (unsigned i = 0; i < n; i++) { if (i) r += ' '; r += std::to_string(v[i]); } return r; }
  std::wstring wtext() const { std::wstring r; for (unsigned i = 0; i < n; i++) { if (i) r += L' '; r += std::to_wstring(v[i]); } return r; }
  void write(std::ostream &s) const { for (unsigned i = 0; i < n; i++) { if (i) s << ' '; s << v[i]; } }
};
// what the text denotes: numbers separated by single blanks
template <class T> static bool denotes(const std::string &s, const Parts<T> &p) {
  size_t at = 0;
  for (unsigned i = 0; i < p.n; i++) {
    if (i) { if (at >= s.size() || s[at] != ' ') return false; at++; }
    bool neg = false; if (at < s.size() && s[at] == '-') { neg = true; at++; }
    uint64_t r = 0; size_t b = at;
    while (at < s.size() && s[at] >= '0' && s[at] <= '9') r = r * 10 + (s[at++] - '0');
    if (at == b || T(neg ? 0 - r : r) != p.v[i]) return false;
  }
  return at == s.size();
}
template <class V, class T> static void texts(const V &v, const Parts<T> &p, bool wide) {
  const std::string s = std::to_string(v);
  CHECK(s == p.text(), "a vector's text has every component in order, separated by a blank");
  if (wide) CHECK(std::to_wstring(v) == p.wtext(), "a vector's wide text has every component in order, separated by a blank");
}
template <class V, class T> static void streamed(const V &v, const Parts<T> &p, const std::string &before) {
  std::stringstream a, b;
  b << before; p.write(b); b << '!';
  a << before;
  std::ostream &r = (a << v);
  CHECK(&r == &a, "writing a vector gives the stream");
  a << "!";
  CHECK(a.str() == b.str(), "a vector written to a stream has every component in order, separated by a blank");
  CHECK(a.good(), "the stream stays good");
}
#define ALL(NAME, T, SMALL, WIDE) \
  ENTRY(NAME##_2) { Parts<T> p(2, SMALL); texts(t_Vector2<T>(p.v[0], p.v[1]), p, WIDE); streamed(t_Vector2<T>(p.v[0], p.v[1]), p, "a"); } \
  ENTRY(NAME##_3) { Parts<T> p(3, SMALL); texts(t_Vector<T>(p.v[0], p.v[1], p.v[2]), p, WIDE); streamed(t_Vector<T>(p.v[0], p.v[1], p.v[2]), p, ""); } \
  ENTRY(NAME##_4) { Parts<T> p(4, SMALL); texts(t_Vector4<T>(p.v[0], p.v[1], p.v[2], p.v[3]), p, WIDE); streamed(t_Vector4<T>(p.v[0], p.v[1], p.v[2], p.v[3]), p, ""); }
ALL(i16, int16, 9, true)
ALL(u16, uint16, 9, true)
ALL(i32, int32, 9, true)
ALL(u32, uint32, 9, true)
ALL(i64, int64, 9, true)
ALL(u64, uint64, 9, true)
ENTRY(read_back_2) {
  Parts<int32> p(2, TIER(99, 999), false);
  CHECK(denotes(std::to_string(t_Vector2<int32>(p.v[0], p.v[1])), p), "a vector's text denotes its components");
}
ENTRY(read_back_4) {
  Parts<int32> p(4, 9, false);
  CHECK(denotes(std::to_string(t_Vector4<int32>(p.v[0], p.v[1], p.v[2], p.v[3])), p), "a vector's text denotes its components");
}
template <class T> static T frac(size_t i) { static const T a[]{T(0.5), T(-1.25), T(3), T(1024.75), T(-0.0), T(65536), T(-0.015625)}; return a[i]; }
template <class T> static void fractional() {
  size_t k = pick("value", 7), at = pick("at", 4);
  T v[4]{T(1), T(2), T(3), T(4)};
  v[at] = frac<T>(k);
  const std::string w[]{std::to_string(v[0]), std::to_string(v[1]), std::to_string(v[2]), std::to_string(v[3])};
  std::string t = w[0] + " " + w[1]; 
  CHECK(std::to_string(t_Vector2<T>(v[0], v[1])) == t, "a vector's text has every component in order, separated by a blank");
  t += " " + w[2];
  CHECK(std::to_string(t_Vector<T>(v[0], v[1], v[2])) == t, "a vector's text has every component in order, separated by a blank");
  t += " " + w[3];
  CHECK(std::to_string(t_Vector4<T>(v[0], v[1], v[2], v[3])) == t, "a vector's text has every component in order, separated by a blank");
  std::stringstream a, b;
  a << t_Vector2<T>(v[0], v[1]); b << v[0] << ' ' << v[1];
  CHECK(a.str() == b.str(), "a vector written to a stream has every component in order, separated by a blank");
  a << '/' << t_Vector<T>(v[0], v[1], v[2]); b << '/' << v[0] << ' ' << v[1] << ' ' << v[2];
  CHECK(a.str() == b.str(), "a vector written to a stream has every component in order, separated by a blank");
  a << '/' << t_Vector4<T>(v[0], v[1], v[2], v[3]); b << '/' << v[0] << ' ' << v[1] << ' ' << v[2] << ' ' << v[3];
  CHECK(a.str() == b.str(), "a vector written to a stream has every component in order, separated by a blank");
}
ENTRY(fractional_float) { fractional<float>(); }
ENTRY(fractional_double) { fractional<double>(); }
// the vector with aligned members is one of four floats
ENTRY(aligned) {
  const float v[4]{frac<float>(pick("x", 7)), 1.f, 2.5f, frac<float>(pick("w", 7))};
  Vector4A16 a(v[0], v[1], v[2], v[3]);
  CHECK(std::to_string(a) == std::to_string(Vector4(v[0], v[1], v[2], v[3])), "an aligned vector's text is the one of its components");
  std::stringstream s, t; s << a; t << Vector4(v[0], v[1], v[2], v[3]);
  CHECK(s.str() == t.str(), "an aligned vector writes the text of its components");
}
