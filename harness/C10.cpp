//! bounds every pattern of the 16 bit half, the 11 bit signed, the 11 and 10 bit unsigned layouts in every vector lane; all 2^32 single precision values, all ordered pairs of them; every packed 11-11-10 word
//! outside layouts not instantiated in the repository
//! flags * --timeout 600
#include "sx.h"
#include <limits>
#include "datas/float.hpp"

// What the fields denote, built without the code under test.
static uint32_t sel(bool c, uint32_t t, uint32_t f) { return f ^ ((t ^ f) & (0u - (uint32_t)c)); }
template <size_t M, size_t E, bool S> static uint32_t denotes(uint32_t v) {
  const uint32_t m = v & ((1u << M) - 1), e = (v >> M) & ((1u << E) - 1), s = S ? (v >> (M + E)) & 1 : 0;
  const uint32_t emax = (1u << E) - 1, bias = emax >> 1;
  uint32_t r = 0; // denormal: m * 2^(1 - bias - M), the highest bit of the fraction decides
  for (uint32_t b = 0; b < M; b++)
    r = sel(m >> b & 1, (b + 127 + 1 - bias - M) << 23 | ((m << (23 - b)) & 0x7fffff), r);
  r = sel(e != 0, (e + 127 - bias) << 23 | m << (23 - M), r);
  r = sel(e == emax, 0x7f800000u | m << (23 - M), r);
  return s << 31 | r;
}
static uint32_t bitsOf(float f) { uint32_t r; memcpy(&r, &f, 4); return r; }
static float floatOf(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static bool nanBits(uint32_t b) { return (b & 0x7fffffff) > 0x7f800000; }

template <size_t M, size_t E, bool S> static void widen() {
  typedef esFloat<M, E, S> F;
  const uint32_t v = sym<uint16_t>("v") & ((1u << (M + E + S)) - 1);
  const float f = F::ToFloat(v);
  observe("f", bitsOf(f));
  CHECK(bitsOf(f) == (denotes<M, E, S>(v)), "a pattern widens to the number its fields denote");
  CHECK(F::FromFloat(f) == v, "narrowing the widened number gives the pattern back");
}
ENTRY(widen_half) { widen<10, 5, true>(); }
ENTRY(widen_s11) { widen<5, 5, true>(); }
ENTRY(widen_u11) { widen<6, 5, false>(); }
ENTRY(widen_u10) { widen<5, 5, false>(); }

template <size_t M, size_t E, bool S> static void lanes() {
  typedef esFloat<M, E, S> F;
  uint32_t in[4]; uint32_t out[4];
  for (auto &i : in) i = sym<uint16_t>("v") & ((1u << (M + E + S)) - 1);
  const Vector4A16 w = F::ToVector4(IVector4A16(in[0], in[1], in[2], in[3]));
  memcpy(out, &w, 16);
  const size_t i = pick("lane", 4);
  CHECK(out[i] == (denotes<M, E, S>(in[i])), "every lane widens on its own");
  const IVector4A16 n = F::FromVector4(w);
  memcpy(out, &n, 16);
  CHECK(out[i] == in[i], "every lane narrows back on its own");
}
ENTRY(lanes_half) { lanes<10, 5, true>(); }
ENTRY(lanes_s11) { lanes<5, 5, true>(); }
ENTRY(lanes_u11) { lanes<6, 5, false>(); }

// Narrowing of any number.
template <size_t M, size_t E, bool S> static void narrow() {
  typedef esFloat<M, E, S> F;
  const uint32_t b = sym<uint32_t>("bits"), a = b & 0x7fffffff;
  const uint32_t n = F::FromFloat(floatOf(b));
  observe("n", n);
  const uint32_t inf = ((1u << E) - 1) << M, mag = n & ((1u << (M + E)) - 1);
  CHECK(n < (1u << (M + E + S)), "a narrowed number fits the layout");
  if (S) CHECK(n >> (M + E) == b >> 31, "the sign is kept");
  if (nanBits(b)) { CHECK(mag > inf, "not a number stays not a number"); return; }
  CHECK(mag <= inf, "a number does not become not a number");
  const uint32_t top = denotes<M, E, false>(inf - 1);
  if (a <= top) CHECK(mag < inf, "a number in range does not become an infinity");
  if (a == 0x7f800000) CHECK(mag == inf, "an infinity stays one");
  // the result is one of the two neighbours of the number
  if (mag < inf) {
    const uint32_t back = denotes<M, E, false>(mag);
    if (back <= a) CHECK(mag == inf - 1 || (denotes<M, E, false>(mag + 1)) > a, "the number lies next to its narrowed form, above");
    else CHECK(mag > 0 && (denotes<M, E, false>(mag - 1)) < a, "the number lies next to its narrowed form, below");
  }
}
ENTRY(narrow_half) { narrow<10, 5, true>(); }
ENTRY(narrow_s11) { narrow<5, 5, true>(); }
ENTRY(narrow_u11) { narrow<6, 5, false>(); }

template <size_t M, size_t E, bool S> static void monotone() {
  typedef esFloat<M, E, S> F;
  const uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b");
  assume(a <= b && b <= 0x7f800000);
  const uint32_t na = F::FromFloat(floatOf(a)), nb = F::FromFloat(floatOf(b));
  CHECK(na <= nb, "a larger number does not narrow to a smaller one");
  if (S) {
    const uint32_t ma = F::FromFloat(floatOf(a | 0x80000000u));
    CHECK(ma == (na | 1u << (M + E)), "narrowing is symmetric about zero");
  }
}
ENTRY(monotone_half) { monotone<10, 5, true>(); }
ENTRY(monotone_u11) { monotone<6, 5, false>(); }

ENTRY(packed) {
  VectorR11G11B10_UFLOAT p;
  p.data = sym<uint32_t>("data");
  const Vector4A16 v = p;
  uint32_t o[4];
  memcpy(o, &v, 16);
  CHECK(o[0] == (denotes<6, 5, false>(p.data & 0x7ff)), "red is the lowest 11 bits");
  CHECK(o[1] == (denotes<6, 5, false>(p.data >> 11 & 0x7ff)), "green is the middle 11 bits");
  CHECK(o[2] == (denotes<5, 5, false>(p.data >> 22)), "blue is the highest 10 bits");
  CHECK(o[3] == 0, "there is no fourth component");
}
