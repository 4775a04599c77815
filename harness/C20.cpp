//! bounds every matrix, vector and quaternion; the numbers are exact reals (see assume)
//! outside rounding, overflow and not-a-number; W of rows one to three other than the value all three share
//! assume floating point addition, subtraction, multiplication, division and square root are exact: the algebra is decided over the reals, replays allow for rounding
//! flags * --real --timeout 300
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include "datas/endian.hpp"
#include "datas/matrix44.cpp"

// Exact for the solver; natively the same up to rounding.
static bool is(float a, float b) {
  if (__sx_engine()) return a == b;
  const float m = 1.f + fabsf(a) + fabsf(b);
  return fabsf(a - b) <= 2e-3f * m;
}
static float num(const char *n) { const float f = sym<float>(n); return f; }
static Vector4A16 vec(const char *n) { float f[4]; for (auto &i : f) i = num(n); return Vector4A16(f[0], f[1], f[2], f[3]); }
struct M4 { float m[4][4]; };
static esMatrix44 make(const M4 &m) { return esMatrix44(Vector4A16(m.m[0][0], m.m[0][1], m.m[0][2], m.m[0][3]), Vector4A16(m.m[1][0], m.m[1][1], m.m[1][2], m.m[1][3]), Vector4A16(m.m[2][0], m.m[2][1], m.m[2][2], m.m[2][3]), Vector4A16(m.m[3][0], m.m[3][1], m.m[3][2], m.m[3][3])); }
static M4 any(const char *n) { M4 r; for (auto &i : r.m) for (auto &f : i) f = num(n); return r; }
static M4 affine(const char *n) { M4 r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.m[i][j] = j == 3 ? float(i == 3) : num(n); return r; }
static bool rowIs(const Vector4A16 &r, float x, float y, float z, float w) { return is(r.X, x) & is(r.Y, y) & is(r.Z, z) & is(r.W, w); }

ENTRY(product) {
  const M4 a = any("a"), b = any("b");
  const esMatrix44 A = make(a), B = make(b), R = A * B;
  esMatrix44 C = A; void *self = &(C *= B);
  CHECK(self == &C, "compound assignment returns the object");
  bool ok[4] = {true, true, true, true}, keep = true, same = true;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    float s = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j] + a.m[i][3] * b.m[3][j];
    ok[i] &= is(R.v[i]._arr[j], s); same &= is(C.v[i]._arr[j], s);
    keep &= is(A.v[i]._arr[j], a.m[i][j]) & is(B.v[i]._arr[j], b.m[i][j]);
  }
  CHECK(ok[0], "row 1 of the product"); CHECK(ok[1], "row 2 of the product"); CHECK(ok[2], "row 3 of the product"); CHECK(ok[3], "row 4 of the product");
  CHECK(same, "compound product"); CHECK(keep, "operands keep their value");
}
ENTRY(square) { // a matrix times itself in place
  const M4 a = any("a");
  esMatrix44 A = make(a); A *= A;
  bool ok = true;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ok &= is(A.v[i]._arr[j], a.m[i][0] * a.m[0][j] + a.m[i][1] * a.m[1][j] + a.m[i][2] * a.m[2][j] + a.m[i][3] * a.m[3][j]);
  CHECK(ok, "a matrix multiplied by itself in place");
}
ENTRY(transpose) {
  const M4 a = any("a");
  esMatrix44 A = make(a), B = make(a);
  A.TransposeFull();
  bool ok = true;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ok &= is(A.v[i]._arr[j], a.m[j][i]);
  CHECK(ok, "the full transposition mirrors all elements");
  M4 c = a; c.m[0][3] = c.m[1][3] = c.m[2][3];
  B = make(c); B.Transpose();
  ok = true;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ok &= is(B.v[i]._arr[j], i < 3 && j < 3 ? c.m[j][i] : c.m[i][j]);
  CHECK(ok, "the transposition mirrors the 3x3 part and keeps the rest");
}
ENTRY(identity) {
  esMatrix44 I; const M4 a = any("a"); esMatrix44 A = make(a), J = A;
  J.MakeIdentity();
  bool ok = true, id = true;
  const esMatrix44 L = I * A, R = A * I;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { ok &= is(L.v[i]._arr[j], a.m[i][j]) & is(R.v[i]._arr[j], a.m[i][j]); id &= is(I.v[i]._arr[j], i == j) & is(J.v[i]._arr[j], i == j); }
  CHECK(id, "a new matrix and a reset one are the identity");
  CHECK(ok, "the identity is neutral");
}
ENTRY(access) {
  const M4 a = any("a"); const esMatrix44 A = make(a); esMatrix44 B(A.v), C(A.v[0], A.v[1], A.v[2]);
  CHECK(&A.r1() == &A[0] && &A.r2() == &A[1] && &A.r3() == &A[2] && &A.r4() == &A[3] && &B.r1() == &B[0] && &B.r2() == &B[1] && &B.r3() == &B[2] && &B.r4() == &B[3] && &B[0] == B.v, "rows by name and by index agree");
  bool ok = true, z = true;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { ok &= is(B.v[i]._arr[j], a.m[i][j]); z &= is(C.v[i]._arr[j], i < 3 ? a.m[i][j] : 0.f); }
  CHECK(ok, "rows are taken in order"); CHECK(z, "rows are taken in order, a missing one is zero");
}
ENTRY(rotate) {
  const M4 a = affine("a"); const esMatrix44 A = make(a); const Vector4A16 p = vec("p");
  const Vector4A16 r = A.RotatePoint(p);
  for (int j = 0; j < 3; j++) CHECK(is(r._arr[j], p.X * a.m[0][j] + p.Y * a.m[1][j] + p.Z * a.m[2][j]), "a point is rotated as a row vector");
  CHECK(is(r.W, 1.f), "a point stays a point");
}
// Any number of the unit sphere.
static Vector4A16 unit(const char *n) {
  const Vector4A16 q = vec(n);
  assume(is(q.X * q.X + q.Y * q.Y + q.Z * q.Z + q.W * q.W, 1.f));
  return q;
}
// the rotation matrix of a unit quaternion, rows are the images of the axes
static M4 rotation(const Vector4A16 &q) {
  const float x = q.X, y = q.Y, z = q.Z, w = q.W;
  return M4{{{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 0},
             {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 0},
             {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y), 0},
             {0, 0, 0, 1}}};
}
ENTRY(fromquat) {
  const Vector4A16 q = vec("q"); const M4 r = rotation(q);
  const esMatrix44 A(q);
  for (int i = 0; i < 4; i++) CHECK(rowIs(A.v[i], r.m[i][0], r.m[i][1], r.m[i][2], r.m[i][3]), "the rotation of a quaternion");
  const M4 b = any("b"); esMatrix44 B = make(b); B.FromQuat(q);
  for (int i = 0; i < 3; i++) CHECK(rowIs(B.v[i], r.m[i][0], r.m[i][1], r.m[i][2], 0), "a matrix is made to rotate");
  CHECK(rowIs(B.v[3], b.m[3][0], b.m[3][1], b.m[3][2], b.m[3][3]), "and keeps its position");
}
static bool sameRotation(const Vector4A16 &p, const Vector4A16 &q) { return rowIs(p, q.X, q.Y, q.Z, q.W) | rowIs(p, -q.X, -q.Y, -q.Z, -q.W); }
ENTRY(toquat) {
  const Vector4A16 q = unit("q");
  const M4 r = rotation(q);
  const esMatrix44 A = make(r);
  const Vector4A16 p = A.ToQuat();
  CHECK(sameRotation(p, q), "a rotation is recovered up to the sign of the quaternion");
  CHECK(rowIs(A.v[0], r.m[0][0], r.m[0][1], r.m[0][2], 0), "operands keep their value");
}
ENTRY(compose) {
  const Vector4A16 q = vec("q"), p = vec("p"), s = vec("s"); const M4 r = rotation(q);
  esMatrix44 A = make(any("a"));
  A.Compose(p, q, s);
  for (int i = 0; i < 3; i++) CHECK(rowIs(A.v[i], r.m[i][0] * s._arr[i], r.m[i][1] * s._arr[i], r.m[i][2] * s._arr[i], 0), "rows are the scaled axes");
  CHECK(rowIs(A.v[3], p.X, p.Y, p.Z, p.W), "the last row is the position");
}

// Decomposition in two steps: of any matrix into lengths, handedness and the rotation of the normalised rows,
// and of a composed matrix these are what it was composed of.
ENTRY(decompose) {
  const M4 a = affine("a"); const esMatrix44 A = make(a);
  Vector4A16 p, q, s;
  for (int i = 0; i < 3; i++) assume(a.m[i][0] * a.m[i][0] + a.m[i][1] * a.m[i][1] + a.m[i][2] * a.m[i][2] > (__sx_engine() ? 0.f : 1e-3f));
  const float det = a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) + a.m[0][1] * (a.m[1][2] * a.m[2][0] - a.m[1][0] * a.m[2][2]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]);
  if (!__sx_engine()) assume(fabsf(det) > 1e-3f);
  A.Decompose(p, q, s);
  CHECK(rowIs(p, a.m[3][0], a.m[3][1], a.m[3][2], 1), "the position is the last row");
  for (int i = 0; i < 3; i++) CHECK(is(s._arr[i] * s._arr[i], a.m[i][0] * a.m[i][0] + a.m[i][1] * a.m[i][1] + a.m[i][2] * a.m[i][2]), "scales are the lengths of the rows");
  for (int i = 0; i < 3; i++) CHECK((det < 0) == (s._arr[i] < 0), "scales are negative exactly for mirrored matrices");
  M4 n = a; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) n.m[i][j] = a.m[i][j] / s._arr[i];
  const Vector4A16 r = make(n).ToQuat();
  CHECK(sameRotation(q, r), "the rotation is the one of the normalised rows");
}
static void parts(float sign) {
  const Vector4A16 q = unit("q"), p = vec("p"); Vector4A16 s = vec("s");
  for (int i = 0; i < 3; i++) { assume(s._arr[i] > (__sx_engine() ? 0.f : 1e-3f)); s._arr[i] *= sign; }
  esMatrix44 A;
  A.Compose(p, q, s);
  const M4 r = rotation(q);
  for (int i = 0; i < 3; i++) {
    const Vector4A16 &v = A.v[i];
    CHECK(is(v.Length(), s._arr[i] * sign), "rows of a composed matrix are as long as the scale");
    for (int j = 0; j < 3; j++) CHECK(is(v._arr[j] / s._arr[i], r.m[i][j]), "normalised rows are the rotation");
  }
  const M4 &a = r;
  const float det = a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) + a.m[0][1] * (a.m[1][2] * a.m[2][0] - a.m[1][0] * a.m[2][2]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]);
  CHECK(is(det, 1), "a rotation does not mirror");
}
ENTRY(composed) { parts(1); }
ENTRY(composed_mirrored) { parts(-1); }
// scaled rotations with a position
static esMatrix44 scaledRotation(M4 &r, const Vector4A16 &s, const Vector4A16 &p) {
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] *= s._arr[i];
  for (int j = 0; j < 3; j++) r.m[3][j] = p._arr[j];
  return make(r);
}
ENTRY(inverse) {
  const Vector4A16 q = unit("q"), s = vec("s"), p = vec("p"); M4 r = rotation(q);
  for (int i = 0; i < 3; i++) assume((s._arr[i] > .01f) | (s._arr[i] < -.01f));
  const esMatrix44 A = scaledRotation(r, s, p), B = -A;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    float e = 0; for (int k = 0; k < 3; k++) e += A.v[i]._arr[k] * B.v[k]._arr[j];
    CHECK(is(e, i == j), "the linear part times its inverse is the identity");
  }
  CHECK(is(B.v[0].W, 0) & is(B.v[1].W, 0) & is(B.v[2].W, 0) & is(B.v[3].W, 1), "the inverse is affine");
  for (int k = 0; k < 3; k++) CHECK(is(B.v[3]._arr[k], -(B.v[k].X * p.X + B.v[k].Y * p.Y + B.v[k].Z * p.Z)), "the position of the inverse is the one the tests pin");
}
ENTRY(known_inverse_position) {
  const Vector4A16 q = unit("q"), s = vec("s"), p = vec("p"); M4 r = rotation(q);
  for (int i = 0; i < 3; i++) assume((s._arr[i] > .01f) | (s._arr[i] < -.01f));
  const esMatrix44 A = scaledRotation(r, s, p), B = -A;
  const esMatrix44 C = A * B;
  CHECK(rowIs(C.v[3], 0, 0, 0, 1), "a matrix times its inverse has no position");
}
