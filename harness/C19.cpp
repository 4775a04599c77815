//! bounds all component values of every class: two, three and four components of float, int32, uint32, int16, uint16, int8 and uint8 (portable) and four components of float, int32 and uint32 (SIMD); all shift amounts below the width; all element indices
//! outside payload bits of not-a-number results; division by zero components of integers; conversions of numbers the target type cannot hold; text and stream output (C38)
//! assume pow(x, 2) is x*x rounded once (glibc), _mm_dp_ps adds pairwise as the processor manual defines
//! cxx -Wno-narrowing -Wno-c++11-narrowing
//! flags * --timeout 300
#include "sx.h"
#include <limits>
#include "datas/endian.hpp"
#include "datas/vectors_simd.hpp"

// One scalar result equals another: same bits, or both not a number.
template <class T> static bool isNan(T) { return false; }
static bool isNan(float f) { uint32_t b; memcpy(&b, &f, 4); return (b & 0x7fffffff) > 0x7f800000; }
template <class T> static bool same(T a, T b) { return (isNan(a) & isNan(b)) | (fbits(a) == fbits(b)); }

template <class V> struct dim { static const size_t N = sizeof(V) / sizeof(typename V::value_type); };
template <class V> static V any(const char *n) { V v; symBytes(&v, sizeof v, n); return v; }
template <class V> static bool unchanged(const V &a, const V &b) { return memcmp(&a, &b, sizeof a) == 0; }

#define EACH(V, R, EXPR, label) { const auto R_ = (R); bool ok = true; for (size_t i = 0; i < dim<V>::N; i++) { typedef typename V::value_type T; const T x = a0._arr[i], y = b0._arr[i]; (void)x; (void)y; ok &= same<T>(R_._arr[i], T(EXPR)); } CHECK(ok, label); }
#define KEPT CHECK(unchanged(a, a0) && unchanged(b, b0), "operands keep their value")

template <class V> static V vec(typename V::value_type s) { return V(s); }

template <class V> static void arith() {
  typedef typename V::value_type S;
  const V a = any<V>("a"), b = any<V>("b"); const V a0 = a, b0 = b;
  EACH(V, a + b, x + y, "a + b");
  EACH(V, a - b, x - y, "a - b");
  EACH(V, a * b, x * y, "a * b");
  EACH(V, -a, (x * T(-1)), "-a");
  { V c = a; const void *r = &(c += b); EACH(V, c, x + y, "a += b"); CHECK(r == &c, "compound assignment returns the object"); }
  { V c = a; const void *r = &(c -= b); EACH(V, c, x - y, "a -= b"); CHECK(r == &c, "compound assignment returns the object"); }
  { V c = a; const void *r = &(c *= b); EACH(V, c, x * y, "a *= b"); CHECK(r == &c, "compound assignment returns the object"); }
  { V c = a; c += c; EACH(V, c, x + x, "a += a"); }
  { V c = a; c -= c; EACH(V, c, x - x, "a -= a"); }
  const S s = b0._arr[0];
  EACH(V, a + s, x + s, "a + scalar");
  EACH(V, a - s, x - s, "a - scalar");
  EACH(V, a * s, x * s, "a * scalar");
  { V c = a; c += s; EACH(V, c, x + s, "a += scalar"); }
  { V c = a; c -= s; EACH(V, c, x - s, "a -= scalar"); }
  { V c = a; c *= s; EACH(V, c, x * s, "a *= scalar"); }
  // a component of the object itself as the scalar
  { V c = a; c += c._arr[0]; EACH(V, c, x + a0._arr[0], "a += a.X"); }
  { V c = a; c *= c._arr[1]; EACH(V, c, x * a0._arr[1], "a *= a.Y"); }
  EACH(V, V(s), s, "a scalar fills all components");
  EACH(V, V(), T(0), "a new vector is zero");
  KEPT;
}
template <class V> static void division() {
  typedef typename V::value_type S;
  const V a = any<V>("a"), b = any<V>("b"); const V a0 = a, b0 = b;
  if (std::is_integral<S>::value) {
    for (size_t i = 0; i < dim<V>::N; i++) { assume(b0._arr[i] != S(0)); if (std::is_signed<S>::value) assume(!((b0._arr[i] == S(-1)) & (a0._arr[i] == std::numeric_limits<S>::min()))); }
    if (std::is_signed<S>::value) for (size_t i = 0; i < dim<V>::N; i++) assume(!((b0._arr[1] == S(-1)) & (a0._arr[i] == std::numeric_limits<S>::min())));
  }
  EACH(V, a / b, x / y, "a / b");
  { V c = a; c /= b; EACH(V, c, x / y, "a /= b"); }
  const S s = b0._arr[1];
  EACH(V, a / s, x / s, "a / scalar");
  { V c = a; c /= s; EACH(V, c, x / s, "a /= scalar"); }
  KEPT;
}
template <class V> static void logic() {
  typedef typename V::value_type S;
  const V a = any<V>("a"), b = any<V>("b"); const V a0 = a, b0 = b;
  const S s = b0._arr[0];
  EACH(V, a & b, x & y, "a & b");
  EACH(V, a | b, x | y, "a | b");
  { V c = a; c &= b; EACH(V, c, x & y, "a &= b"); }
  { V c = a; c |= b; EACH(V, c, x | y, "a |= b"); }
  EACH(V, a & s, x & s, "a & scalar");
  EACH(V, a | s, x | s, "a | scalar");
  { V c = a; c &= s; EACH(V, c, x & s, "a &= scalar"); }
  { V c = a; c |= s; EACH(V, c, x | s, "a |= scalar"); }
  KEPT;
}
template <class V, class SV> static void shifts() {
  typedef typename V::value_type S;
  const V a = any<V>("a"), b = any<V>("b"); const V a0 = a, b0 = b;
  SV n; for (size_t i = 0; i < dim<V>::N; i++) n._arr[i] = int(below("n", 8 * sizeof(S)));
  const SV n0 = n;
  { const auto r = a >> n; bool ok = true; for (size_t i = 0; i < dim<V>::N; i++) ok &= r._arr[i] == S(a0._arr[i] >> n0._arr[i]); CHECK(ok, "a >> n"); }
  { const auto r = a << n; bool ok = true; for (size_t i = 0; i < dim<V>::N; i++) ok &= r._arr[i] == S(a0._arr[i] << n0._arr[i]); CHECK(ok, "a << n"); }
  { V r = a; r >>= n; bool ok = true; for (size_t i = 0; i < dim<V>::N; i++) ok &= r._arr[i] == S(a0._arr[i] >> n0._arr[i]); CHECK(ok, "a >>= n"); }
  { V r = a; r <<= n; bool ok = true; for (size_t i = 0; i < dim<V>::N; i++) ok &= r._arr[i] == S(a0._arr[i] << n0._arr[i]); CHECK(ok, "a <<= n"); }
  const int m = n._arr[0];
  EACH(V, a >> m, x >> m, "a >> scalar");
  EACH(V, a << m, x << m, "a << scalar");
  { V c = a; c >>= m; EACH(V, c, x >> m, "a >>= scalar"); }
  { V c = a; c <<= m; EACH(V, c, x << m, "a <<= scalar"); }
  KEPT;
}
// Equality: all components; floats within the epsilon.
template <class T> static bool near(T a, T b) { return a == b; }
static bool near(float a, float b) { return (a <= b + FLT_EPSILON) & (a >= b - FLT_EPSILON); }
template <class V> static void equality() {
  const V a = any<V>("a"), b = any<V>("b"); const V a0 = a, b0 = b;
  bool eq = true;
  for (size_t i = 0; i < dim<V>::N; i++) eq &= near(a0._arr[i], b0._arr[i]);
  const bool r = a == b, n = a != b;
  observe("eq", r);
  CHECK(r == eq, "equal exactly when all components are");
  CHECK(n == !eq, "unequal exactly when a component is");
  KEPT;
}
template <class V> static void symmetry() {
  const V a = any<V>("a");
  bool eq = true, exact = true;
  for (size_t i = 1; i < dim<V>::N; i++) { eq &= near(a._arr[i], a._arr[0]); exact &= a._arr[i] == a._arr[0]; }
  const bool r = a.IsSymetrical();
  if (exact && near(a._arr[0], a._arr[0])) CHECK(r, "equal components are symmetrical");
  if (!eq) CHECK(!r, "unequal components are not symmetrical");
}
template <class V> static void sign() {
  const V a = any<V>("a");
  bool neg = false;
  for (size_t i = 0; i < dim<V>::N; i++) neg |= a._arr[i] < 0;
  CHECK(a.Sign() == (neg ? -1 : 1), "the sign is negative exactly when a component is");
}

// Dot product with any order of additions, in single or double precision.
template <class T> static bool isDot(T r, const T *a, const T *b, size_t n) {
  if (n == 2) return same<T>(r, T(a[0] * b[0] + a[1] * b[1]));
  const T p = T(a[0] * b[0] + a[1] * b[1]) , q = T(p + T(a[2] * b[2]));
  if (n == 3) return same<T>(r, q);
  return same<T>(r, T(q + a[3] * b[3])) | same<T>(r, T(p + T(a[2] * b[2] + a[3] * b[3])));
}
template <class V> static void dot() {
  typedef typename V::value_type S;
  const V a = any<V>("a"), b = any<V>("b"); const V a0 = a, b0 = b;
  CHECK(isDot<S>(a.Dot(b), a0._arr, b0._arr, dim<V>::N), "the dot product is the sum of the products of all components");
  KEPT;
}
template <class V> static void cross() {
  typedef typename V::value_type T;
  const V a = any<V>("a"), b = any<V>("b"); const V a0 = a, b0 = b;
  const V r = a.Cross(b);
  CHECK((same<T>(r.X, T(a0.Y * b0.Z - a0.Z * b0.Y))), "X of the cross product");
  CHECK((same<T>(r.Y, T(a0.Z * b0.X - a0.X * b0.Z))), "Y of the cross product");
  CHECK((same<T>(r.Z, T(a0.X * b0.Y - a0.Y * b0.X))), "Z of the cross product");
  KEPT;
}
// Length: square root of the sum of squares, whatever the precision of the steps.
template <class V> static bool isLength(typename V::value_type r, const V &a) {
  typedef typename V::value_type T;
  const size_t N = dim<V>::N;
  double s = double(a._arr[0]) * double(a._arr[0]);
  for (size_t i = 1; i < N; i++) s += double(a._arr[i]) * double(a._arr[i]);
  bool ok = same<T>(r, T(sqrt(s)));
  if (N == 4) { double d[4]; for (int i = 0; i < 4; i++) d[i] = double(a._arr[i]) * double(a._arr[i]); ok |= same<T>(r, T(sqrt((d[0] + d[1]) + (d[2] + d[3])))); }
  if (std::is_same<T, float>::value) {
    float f[4]; for (size_t i = 0; i < N; i++) f[i] = float(a._arr[i]) * float(a._arr[i]);
    float q = f[0] + f[1]; if (N > 2) q += f[2]; if (N > 3) { ok |= same<T>(r, T(sqrtf((f[0] + f[1]) + (f[2] + f[3])))); q += f[3]; }
    ok |= same<T>(r, T(sqrtf(q)));
  }
  return ok;
}
template <class V> static void length() {
  const V a = any<V>("a"); const V a0 = a;
  CHECK(isLength<V>(a.Length(), a0), "the length is the root of the sum of all squares");
  CHECK(unchanged(a, a0), "operands keep their value");
}
template <class V> static void normalize() {
  typedef typename V::value_type T;
  V a = any<V>("a"), b0 = V(); const V a0 = a;
  const T l = a0.Length();
  const void *r = &a.Normalize();
  CHECK(r == &a, "normalising returns the object");
  if (!l) { CHECK(unchanged(a, a0), "a vector of length zero stays"); return; }
  EACH(V, a, x / l, "normalising divides every component by the length");
}
template <class T, class V, class R> static bool conv(const V &a, const R &r) {
  bool ok = true;
  for (size_t i = 0; i < dim<V>::N; i++) ok &= same<T>(r._arr[i], T(a._arr[i]));
  return ok;
}
template <class V> static void convertInt() {
  const V a = any<V>("a");
  CHECK(conv<int8_t>(a, a.template Convert<int8>()), "to int8");
  CHECK(conv<uint16_t>(a, a.template Convert<uint16>()), "to uint16");
  CHECK(conv<int32_t>(a, a.template Convert<int32>()), "to int32");
  CHECK(conv<uint32_t>(a, a.template Convert<uint32>()), "to uint32");
  CHECK(conv<float>(a, a.template Convert<float>()), "to float");
}
template <class V, class T> static void convertFlt(float lo, float hi) {
  const V a = any<V>("a");
  for (size_t i = 0; i < dim<V>::N; i++) assume((a._arr[i] > lo) & (a._arr[i] < hi));
  CHECK(conv<T>(a, a.template Convert<T>()), "numbers are cut towards zero");
}
template <class V> static void swapped() {
  typedef typename V::value_type S;
  V a = any<V>("a"); V a0 = a;
  a.SwapEndian();
  const uint8_t *p = (const uint8_t *)&a, *q = (const uint8_t *)&a0;
  bool ok = true;
  for (size_t i = 0; i < dim<V>::N; i++) for (size_t j = 0; j < sizeof(S); j++) ok &= p[i * sizeof(S) + j] == q[i * sizeof(S) + sizeof(S) - 1 - j];
  CHECK(ok, "every component is swapped on its own");
}
template <class V> static void index() {
  V a = any<V>("a"); const V a0 = a; const V &c = a0;
  const size_t i = pick("i", dim<V>::N);
  CHECK(memcmp(&c[i], &c._arr[i], sizeof c[i]) == 0 && &c[i] == &c._arr[i], "the index names the component");
  a[i] = 1;
  CHECK(a._arr[i] == 1, "the component is written");
  for (size_t k = 0; k < dim<V>::N; k++) if (k != i) CHECK(memcmp(&a._arr[k], &a0._arr[k], sizeof a0._arr[k]) == 0, "the others stay");
  CHECK(&a.X == &a._arr[0] && &a.y == &a._arr[1] && &a.x == &a.X, "names and indices agree");
}

#define INTV(N, V, SV) \
  ENTRY(N##_arith) { arith<V>(); } ENTRY(N##_logic) { logic<V>(); } ENTRY(N##_shift) { shifts<V, SV>(); } \
  ENTRY(N##_equal) { equality<V>(); } ENTRY(N##_symmetry) { symmetry<V>(); } ENTRY(N##_convert) { convertInt<V>(); } ENTRY(N##_index) { index<V>(); } ENTRY(N##_dot) { dot<V>(); }
#define INTW(N, V, SV) INTV(N, V, SV) ENTRY(N##_length) { length<V>(); }
#define FLTV(N, V) \
  ENTRY(N##_arith) { arith<V>(); } ENTRY(N##_div) { division<V>(); } ENTRY(N##_equal) { equality<V>(); } ENTRY(N##_symmetry) { symmetry<V>(); } \
  ENTRY(N##_dot) { dot<V>(); } ENTRY(N##_length) { length<V>(); } ENTRY(N##_normalize) { normalize<V>(); } ENTRY(N##_index) { index<V>(); } \
  ENTRY(N##_convert_i32) { convertFlt<V, int32_t>(-2147483648.f, 2147483648.f); } ENTRY(N##_convert_u8) { convertFlt<V, uint8_t>(-1.f, 256.f); }
#define DIVV(N, V) ENTRY(N##_div) { division<V>(); }

INTW(i2, IVector2, IVector2) INTW(u3, UIVector, IVector) INTW(i3, IVector, IVector) INTW(u4, UIVector4, IVector4) INTW(i4, IVector4, IVector4)
INTV(us2, USVector2, IVector2) INTV(c3, CVector, IVector) INTV(uc4, UCVector4, IVector4) INTV(s4, SVector4, IVector4)
DIVV(uc4, UCVector4) DIVV(c3, CVector) DIVV(us2, USVector2)
ENTRY(i2_div_thorough) { division<IVector2>(); }
ENTRY(u4_div_thorough) { division<UIVector4>(); }
FLTV(f2, Vector2) FLTV(f3, Vector) FLTV(f4, Vector4)
ENTRY(f3_cross) { cross<Vector>(); }
ENTRY(i3_cross) { cross<IVector>(); }
ENTRY(i2_sign) { sign<IVector2>(); }
ENTRY(c3_sign) { sign<CVector>(); }
ENTRY(i3_sign) { sign<IVector>(); }
ENTRY(us2_swap) { swapped<USVector2>(); }
ENTRY(f3_swap) { swapped<Vector>(); }
ENTRY(u4_swap) { swapped<UIVector4>(); }
ENTRY(sf_swap) { swapped<Vector4A16>(); }

// SIMD, float
ENTRY(sf_arith) { arith<Vector4A16>(); }
ENTRY(sf_div) { division<Vector4A16>(); }
ENTRY(sf_equal) { equality<Vector4A16>(); }
ENTRY(sf_symmetry) { symmetry<Vector4A16>(); }
ENTRY(sf_dot) { dot<Vector4A16>(); }
ENTRY(sf_cross) { cross<Vector4A16>(); }
ENTRY(sf_length) { length<Vector4A16>(); }
ENTRY(sf_normalize) { normalize<Vector4A16>(); }
ENTRY(sf_index) { index<Vector4A16>(); }
ENTRY(sf_convert_i32) { convertFlt<Vector4A16, int32_t>(-2147483648.f, 2147483648.f); }
ENTRY(sf_convert_u8) { convertFlt<Vector4A16, uint8_t>(-1.f, 256.f); }
ENTRY(sf_sign) {
  const Vector4A16 a = any<Vector4A16>("a");
  bool neg = false;
  for (float f : a._arr) { assume(!isNan(f)); assume(fbits(f) != 0x80000000u); neg |= f < 0; }
  CHECK(a.Sign() == (neg ? -1 : 1), "the sign is negative exactly when a component is");
}
static uint32_t ub(float f) { return uint32_t(fbits(f)); }
ENTRY(sf_logic) {
  const Vector4A16 a = any<Vector4A16>("a"), b = any<Vector4A16>("b"); const Vector4A16 a0 = a, b0 = b;
  bool ok[16]; for (auto &o : ok) o = true;
  const float s = b0.X;
  const Vector4A16 r[] = {a & b, a | b, a ^ b, ~a, a & s, a | s, a ^ s};
  Vector4A16 c[6] = {a, a, a, a, a, a}; c[0] &= b; c[1] |= b; c[2] ^= b; c[3] &= s; c[4] |= s; c[5] ^= s;
  for (size_t i = 0; i < 4; i++) {
    const uint32_t x = ub(a0._arr[i]), y = ub(b0._arr[i]), z = ub(s);
    const uint32_t w[] = {x & y, x | y, x ^ y, ~x, x & z, x | z, x ^ z};
    for (int k = 0; k < 7; k++) ok[k] &= ub(r[k]._arr[i]) == w[k];
    const uint32_t v[] = {x & y, x | y, x ^ y, x & z, x | z, x ^ z};
    for (int k = 0; k < 6; k++) ok[7 + k] &= ub(c[k]._arr[i]) == v[k];
  }
  CHECK(ok[0], "a & b"); CHECK(ok[1], "a | b"); CHECK(ok[2], "a ^ b"); CHECK(ok[3], "~a"); CHECK(ok[4], "a & scalar"); CHECK(ok[5], "a | scalar"); CHECK(ok[6], "a ^ scalar");
  CHECK(ok[7], "a &= b"); CHECK(ok[8], "a |= b"); CHECK(ok[9], "a ^= b"); CHECK(ok[10], "a &= scalar"); CHECK(ok[11], "a |= scalar"); CHECK(ok[12], "a ^= scalar");
  KEPT;
}
ENTRY(sf_order) {
  const Vector4A16 a = any<Vector4A16>("a"), b = any<Vector4A16>("b"); const Vector4A16 a0 = a, b0 = b;
  bool lt = true, gt = true, le = true, ge = true, leE = true, geE = true, slt = true, sgt = true;
  const float s = b0.X;
  for (size_t i = 0; i < 4; i++) {
    const float x = a0._arr[i], y = b0._arr[i];
    lt &= x < y; gt &= x > y; le &= x <= y; ge &= x >= y; leE &= x <= y + FLT_EPSILON; geE &= x >= y - FLT_EPSILON;
    slt &= x < s; sgt &= x > s;
  }
  CHECK((a < b) == lt, "less in every component");
  CHECK((a > b) == gt, "greater in every component");
  CHECK((a < s) == slt, "less than a scalar in every component");
  CHECK((a > s) == sgt, "greater than a scalar in every component");
  const bool l = a <= b, g = a >= b;
  CHECK(l || !le, "less or equal in every component is recognised");
  CHECK(g || !ge, "greater or equal in every component is recognised");
  CHECK(!l || leE, "a greater component is not less or equal");
  CHECK(!g || geE, "a smaller component is not greater or equal");
  KEPT;
}
ENTRY(sf_make) {
  float f[4]; symBytes(f, 16, "f");
  const Vector4A16 a(f[0], f[1], f[2], f[3]), b(Vector(f[0], f[1], f[2]), f[3]), c(Vector4(f[0], f[1], f[2], f[3]));
  CHECK(!memcmp(&a, f, 16) && !memcmp(&b, f, 16) && !memcmp(&c, f, 16), "components are taken in order");
  const Vector v3 = a; const Vector2 v2 = a;
  CHECK(!memcmp(&v3, f, 12) && !memcmp(&v2, f, 8), "shortening keeps the first components");
  const Vector4 p(f[0], f[1], f[2], f[3]); const Vector p3 = p; const Vector2 p2 = p; const Vector2 p22 = v3;
  CHECK(!memcmp(&p, f, 16) && !memcmp(&p3, f, 12) && !memcmp(&p2, f, 8) && !memcmp(&p22, f, 8), "shortening keeps the first components");
  const Vector4 w = static_cast<Vector4>(v3);
  CHECK(!memcmp(&w, f, 12) && fbits(w.W) == 0, "widening adds a zero");
}
ENTRY(sf_conjugate) {
  const Vector4A16 a = any<Vector4A16>("a"), b0 = a;
  const Vector4A16 r = a.QConjugate();
  CHECK(same<float>(r.X, a.X * -1.f) && same<float>(r.Y, a.Y * -1.f) && same<float>(r.Z, a.Z * -1.f) && same<float>(r.W, a.W), "conjugating negates all but W");
  CHECK(unchanged(a, b0), "operands keep their value");
}
template <size_t I> static void computeElement() {
  Vector4A16 a = any<Vector4A16>("a");
  a._arr[I] = 0.f;
  Vector4A16 v = a; const Vector4A16 a0 = a;
  a.QComputeElement<I>(); v.QComputeElementVar(I);
  const float d = a0.Dot(a0), w = sqrtf(1.f - d);
  for (size_t i = 0; i < 4; i++)
    if (i == I) { CHECK(same<float>(a._arr[i], w), "the missing element completes the unit quaternion"); CHECK(same<float>(v._arr[i], w), "by index too"); }
    else CHECK(ub(a._arr[i]) == ub(a0._arr[i]) && ub(v._arr[i]) == ub(a0._arr[i]), "the other elements stay");
}
ENTRY(sf_element0) { computeElement<0>(); }
ENTRY(sf_element1) { computeElement<1>(); }
ENTRY(sf_element2) { computeElement<2>(); }
ENTRY(sf_element3) { computeElement<3>(); }
ENTRY(sf_normalized) {
  const Vector4A16 a = any<Vector4A16>("a"), b0 = a, a0 = a;
  const float l = a.Length();
  const Vector4A16 r = a.Normalized();
  if (!l) { CHECK(unchanged(r, a0), "a vector of length zero stays"); }
  else EACH(Vector4A16, r, x / l, "normalising divides every component by the length");
  CHECK(unchanged(a, a0), "operands keep their value");
}
ENTRY(sf_toint) {
  const Vector4A16 a = any<Vector4A16>("a");
  for (float f : a._arr) assume((f > -2147483648.f) & (f < 2147483648.f));
  const IVector4A16 r = static_cast<V4SimdIntType>(a);
  for (size_t i = 0; i < 4; i++) CHECK(r._arr[i] == int(nearbyintf(a._arr[i])), "numbers are rounded to the nearest");
  const Vector4A16 b(r);
  for (size_t i = 0; i < 4; i++) CHECK(b._arr[i] == float(r._arr[i]), "integers become numbers");
}

// SIMD, integers
template <class V> static void simdInt() {
  typedef typename V::value_type S;
  const V a = any<V>("a"), b = any<V>("b"); const V a0 = a, b0 = b;
  const S s = b0._arr[0];
  EACH(V, a + b, x + y, "a + b"); EACH(V, a - b, x - y, "a - b"); EACH(V, a * b, x * y, "a * b");
  EACH(V, a & b, x & y, "a & b"); EACH(V, a | b, x | y, "a | b"); EACH(V, a ^ b, x ^ y, "a ^ b"); EACH(V, ~a, ~x, "~a");
  EACH(V, a + s, x + s, "a + scalar"); EACH(V, a - s, x - s, "a - scalar"); EACH(V, a * s, x * s, "a * scalar");
  EACH(V, a & s, x & s, "a & scalar"); EACH(V, a | s, x | s, "a | scalar");
  { V c = a; c += b; EACH(V, c, x + y, "a += b"); } { V c = a; c -= b; EACH(V, c, x - y, "a -= b"); } { V c = a; c *= b; EACH(V, c, x * y, "a *= b"); }
  { V c = a; c &= b; EACH(V, c, x & y, "a &= b"); } { V c = a; c |= b; EACH(V, c, x | y, "a |= b"); } { V c = a; c ^= b; EACH(V, c, x ^ y, "a ^= b"); }
  { V c = a; c += s; EACH(V, c, x + s, "a += scalar"); } { V c = a; c -= s; EACH(V, c, x - s, "a -= scalar"); } { V c = a; c *= s; EACH(V, c, x * s, "a *= scalar"); }
  { V c = a; c &= s; EACH(V, c, x & s, "a &= scalar"); } { V c = a; c |= s; EACH(V, c, x | s, "a |= scalar"); }
  EACH(V, V(s), s, "a scalar fills all components");
  EACH(V, V(), T(0), "a new vector is zero");
  EACH(V, V(a0._arr[0], a0._arr[1], a0._arr[2], a0._arr[3]), x, "components are taken in order");
  KEPT;
}
template <class V> static void simdShift() {
  const V a = any<V>("a"); const V a0 = a, b0 = a;
  const int m = below("n", 32);
  EACH(V, a << m, x << m, "a << scalar"); EACH(V, a >> m, x >> m, "a >> scalar");
  { V c = a; c <<= m; EACH(V, c, x << m, "a <<= scalar"); } { V c = a; c >>= m; EACH(V, c, x >> m, "a >>= scalar"); }
}
ENTRY(si_ops) { simdInt<IVector4A16>(); }
ENTRY(su_ops) { simdInt<UIVector4A16>(); }
ENTRY(si_shift) { simdShift<IVector4A16>(); }
ENTRY(su_shift) { simdShift<UIVector4A16>(); }
ENTRY(si_equal) { equality<IVector4A16>(); }
ENTRY(su_equal) { equality<UIVector4A16>(); }
ENTRY(si_convert) { convertInt<IVector4A16>(); }
ENTRY(su_convert) { convertInt<UIVector4A16>(); }
ENTRY(si_index) { index<IVector4A16>(); }
// the default comparison epsilon can be replaced, and only changes comparisons
ENTRY(sf_epsilon) {
  const Vector4A16 a = any<Vector4A16>("a"), b = any<Vector4A16>("b");
  const float e = sym<float>("e");
  Vector4A16::SetEpsilon(e);
  bool eq = true;
  for (size_t i = 0; i < 4; i++) eq &= (a._arr[i] <= b._arr[i] + e) & (a._arr[i] >= b._arr[i] - e);
  CHECK((a == b) == eq, "equal exactly when all components are within the epsilon");
  const float s = a.X + b.X;
  CHECK(same<float>((a + b).X, s), "arithmetic does not depend on the epsilon");
}
