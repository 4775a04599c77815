//! bounds every stored value and every field value for seven layouts over 8, 16, 32 and 64 bit words; byte order conversion also for every layout of up to 3 (quick) / 4 (thorough) fields of any sizes over 8..64 bit words
//! outside layouts with more fields than listed; field sizes of zero
//! flags * --timeout 400
#include "sx.h"
#include <limits>
#include <tuple>
#include "datas/bitfield.hpp"
#include "datas/reflector.hpp"
template <size_t i, size_t s> using M = BitMemberDecl<i, s>;

template <class BF, class T, class Mem, size_t pos> static void member(T before) {
  BF v; v.value = before;
  const T mask = (Mem::size >= sizeof(T) * 8 ? T(-1) : T((T(1) << Mem::size) - 1));
  CHECK(v.template Get<Mem>() == T((before >> pos) & mask), "a field is its bits of the word, lowest field first");
  T in = sym<T>("in");
  v.template Set<Mem>(in);
  CHECK(v.template Get<Mem>() == T(in & mask), "a field reads back what was set, cut to its width");
  CHECK(T(v.value & T(~(mask << pos))) == T(before & T(~(mask << pos))), "setting a field leaves every other bit alone");
  v.template Set<Mem>(v.template Get<Mem>());
  CHECK(v.template Get<Mem>() == T(in & mask), "setting a field to itself changes nothing");
}
template <class BF, class T, size_t pos, class... Ms> struct Each;
template <class BF, class T, size_t pos> struct Each<BF, T, pos> { static void run(T) {} };
template <class BF, class T, size_t pos, class H, class... R> struct Each<BF, T, pos, H, R...> {
  static void run(T b) { member<BF, T, H, pos>(b); Each<BF, T, pos + H::size, R...>::run(b); }
};
template <class BF> static void same(BF &, BF &) {}
template <class BF, class H, class... R> static void same(BF &a, BF &b) { CHECK(a.template Get<H>() == b.template Get<H>(), "fields survive a change of byte order and back"); same<BF, R...>(a, b); }
template <class T, class... Ms> static void layout() {
  using BF = BitFieldType<T, Ms...>;
  T before = sym<T>("word");
  Each<BF, T, 0, Ms...>::run(before);
  BF a, b; a.value = before; b.value = before;
  FByteswapper(a, true);
  // big endian words carry the first field in the top bits of the first byte
  uint8_t raw[sizeof(T)]; memcpy(raw, &a.value, sizeof(T));
  size_t at = 0, src = 0;
  for (size_t sz : {Ms::size...}) {
    for (size_t k = 0; k < sz; k++) { // k-th bit from the top of the field
      const size_t bit = at + k;
      CHECK(((raw[bit / 8] >> (7 - bit % 8)) & 1) == ((before >> (src + sz - 1 - k)) & 1), "the other byte order mirrors the field order");
    }
    at += sz; src += sz;
  }
  FByteswapper(a, false);
  same<BF, Ms...>(a, b);
}
ENTRY(l16a) { layout<uint16, M<0, 2>, M<1, 5>, M<2, 3>, M<3, 1>, M<4, 2>, M<5, 3>>(); }
ENTRY(l32a) { layout<uint32, M<0, 4>, M<1, 2>, M<2, 4>, M<3, 4>, M<4, 4>, M<5, 4>, M<6, 4>, M<7, 4>, M<8, 2>>(); }
ENTRY(l32b) { layout<uint32, M<0, 31>, M<1, 1>>(); }
ENTRY(l32c) { layout<uint32, M<0, 1>, M<1, 23>, M<2, 3>>(); } // unused top bits
ENTRY(l64a) { layout<uint64, M<0, 33>, M<1, 1>, M<2, 30>>(); }
ENTRY(l64b) { layout<uint64, M<0, 7>, M<1, 50>, M<2, 5>>(); }
ENTRY(l8a) { layout<uint8, M<0, 3>, M<1, 1>, M<2, 4>>(); }

// All layouts: field sizes are symbolic.
template <class T> static void masks() {
  BitMember m{below("pos", sizeof(T) * 8), below("size", sizeof(T) * 8 + 1)};
  assume(m.size >= 1 && m.position + m.size <= sizeof(T) * 8);
  T k = m.GetMask<T>(), r = m.GetMirrorMask<T>();
  size_t bit = below("bit", sizeof(T) * 8);
  CHECK(bool((k >> bit) & 1) == (bit >= m.position && bit < m.position + m.size), "the mask of a field covers its bits");
  CHECK(bool((r >> (sizeof(T) * 8 - 1 - bit)) & 1) == (bit >= m.position && bit < m.position + m.size), "the mirrored mask covers the same bits counted from the top");
}
ENTRY(mask8) { masks<uint8>(); }
ENTRY(mask16) { masks<uint16>(); }
ENTRY(mask32) { masks<uint32>(); }
ENTRY(mask64) { masks<uint64>(); }
template <class T> static void anyLayout() {
  const size_t N = TIER(3, 4), W = sizeof(T) * 8;
  BitMember m[N]; size_t at = 0;
  for (auto &x : m) { x.position = at; x.size = below("size", W + 1); assume(x.size >= 1 && at + x.size <= W); at += x.size; }
  T before = sym<T>("word"), v = before;
  SwapBitField(N, true, v, [&](size_t i) { return m[i]; });
  T out = v; if (W > 8) FByteswapper(out);
  size_t f = pick("field", N);
  for (size_t i = 0; i < N; i++) if (i == f) {
    T want = (before >> m[i].position) & (T(-1) >> (W - m[i].size));
    CHECK(T((out >> (W - m[i].position - m[i].size)) & (T(-1) >> (W - m[i].size))) == want, "a field going out lies at the mirrored position");
    SwapBitField(N, false, v, [&](size_t i) { return m[i]; });
    CHECK(T((v >> m[i].position) & (T(-1) >> (W - m[i].size))) == want, "a field comes back where it was");
  }
}
ENTRY(any8) { anyLayout<uint8>(); }
ENTRY(any16) { anyLayout<uint16>(); }
ENTRY(any32) { anyLayout<uint32>(); }
ENTRY(any64_thorough) { anyLayout<uint64>(); }
