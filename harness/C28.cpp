//! bounds every registered pair of format and layout (4 integer and normalised interpretations of all 17 layouts, the 10 floating layouts) and every unregistered pair; every bit pattern of an element, in a buffer of exactly its size; arrays of up to 3 elements at every stride up to 3 bytes over the element's size, up to 4 elements already in the array
//! outside longer arrays; strides more than 3 bytes over the element's size
//! flags * --timeout 600
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include "uni/uni_format.cpp"
#include "datas/matrix44.hpp"
#include "uni/model.hpp"

struct Layout { uint8_t n, w[4]; };
static const Layout LAYOUT[18] = {
    {0, {}}, {4, {32, 32, 32, 32}}, {3, {32, 32, 32}}, {4, {16, 16, 16, 16}}, {2, {32, 32}},
    {3, {16, 16, 16}}, {1, {32}}, {2, {16, 16}}, {4, {10, 10, 10, 2}}, {3, {11, 11, 10}},
    {4, {8, 8, 8, 8}}, {2, {24, 8}}, {3, {8, 8, 8}}, {2, {8, 8}}, {1, {16}}, {3, {5, 6, 5}},
    {4, {5, 5, 5, 1}}, {1, {8}}};
static size_t sizeOf(DataType d) {
  const Layout &l = LAYOUT[(size_t)d];
  return (l.w[0] + l.w[1] + l.w[2] + l.w[3]) / 8;
}
// the i-th field of an element, the first one lies in the lowest bits
static uint32_t field(DataType d, const uint8_t *p, size_t i) {
  const Layout &l = LAYOUT[(size_t)d];
  if (i >= l.n) return 0;
  size_t at = 0;
  for (size_t k = 0; k < i; k++) at += l.w[k];
  uint64_t v = 0;
  for (size_t k = at / 8; k < (at + l.w[i] + 7) / 8; k++) v |= (uint64_t)p[k] << (8 * (k - at / 8));
  return (uint32_t)((v >> (at % 8)) & ((1ull << l.w[i]) - 1));
}
static int32_t widenSign(uint32_t v, size_t w) { return (int32_t)(v << (32 - w)) >> (32 - w); }
static uint32_t sel(bool c, uint32_t t, uint32_t f) { return f ^ ((t ^ f) & (0u - (uint32_t)c)); }
static uint32_t bitsOf(float f) { uint32_t r; memcpy(&r, &f, 4); return r; }

// exactly one element, nothing may be read past it
struct Packed {
  uint8_t *b;
  DataType d;
  Packed(DataType d, const char *name = "element") : b((uint8_t *)malloc(sizeOf(d))), d(d) { symBytes(b, sizeOf(d), name); }
  ~Packed() { free(b); }
  const char *p() const { return (const char *)b; }
  uint32_t f(size_t i) const { return field(d, b, i); }
};
template <class T> static void lanes(const T &v, uint32_t *o) { memcpy(o, &v, 16); }

static void integers(FormatType t, DataType d) {
  Packed e(d);
  IVector4A16 v(0x55555555);
  FormatCodec::Get({t, d}).GetValue(v, e.p());
  uint32_t o[4];
  lanes(v, o);
  for (size_t i = 0; i < 4; i++) {
    const size_t w = LAYOUT[(size_t)d].w[i];
    uint32_t want = e.f(i);
    if (w && t == FormatType::INT) want = widenSign(want, w);
    observe("lane", o[i]);
    CHECK(o[i] == want, "a lane of an integer element is its field, lanes without a field are zero");
  }
}
static void norms(FormatType t, DataType d, size_t first, size_t last) {
  Packed e(d);
  Vector4A16 v(7.f);
  FormatCodec::Get({t, d}).GetValue(v, e.p());
  uint32_t o[4];
  lanes(v, o);
  for (size_t i = first; i < last; i++) {
    const size_t w = LAYOUT[(size_t)d].w[i];
    const uint32_t f = e.f(i);
    observe("lane", o[i]);
    if (!w) { CHECK(o[i] == 0, "lanes without a field are zero"); continue; }
    float want;
    if (t == FormatType::UNORM) // the lowest bit of a 32 bit field is past single precision
      want = w == 32 ? (float)(int32_t)(f >> 1) * (1.f / 2147483647.f) : (float)(int32_t)f * (1.f / (float)((1u << w) - 1));
    else
      want = (float)widenSign(f, w) * (w > 1 ? 1.f / (float)((1u << (w - 1)) - 1) : 1.f);
    const uint32_t wb = bitsOf(want), diff = (wb - o[i]) + 2;
    CHECK(diff <= 4 || ((wb | o[i]) & 0x7fffffff) == 0, "a lane of a normalised element is its field over the largest value of the field");
  }
}
#define LAYOUTS(X) X(R32G32B32A32) X(R32G32B32) X(R16G16B16A16) X(R32G32) X(R16G16B16) X(R32) X(R16G16) X(R10G10B10A2) X(R8G8B8A8) X(R24G8) X(R8G8B8) X(R8G8) X(R16) X(R5G5B5A1) X(R8)
#define I1(d) ENTRY(uint_##d) { integers(FormatType::UINT, DataType::d); }
#define I2(d) ENTRY(int_##d) { integers(FormatType::INT, DataType::d); }
#define N1(d) ENTRY(unorm_##d) { norms(FormatType::UNORM, DataType::d, 0, 4); }
#define N2(d) ENTRY(norm_##d) { norms(FormatType::NORM, DataType::d, 0, 4); }
LAYOUTS(I1) LAYOUTS(I2) LAYOUTS(N1) LAYOUTS(N2)
I1(R11G11B10) I2(R11G11B10) I1(R5G6B5) I2(R5G6B5)
// the lanes of the full width, and the narrower ones of the same layouts
ENTRY(unorm_R11G11B10) { norms(FormatType::UNORM, DataType::R11G11B10, 0, 2); norms(FormatType::UNORM, DataType::R11G11B10, 3, 4); }
ENTRY(norm_R11G11B10) { norms(FormatType::NORM, DataType::R11G11B10, 0, 2); norms(FormatType::NORM, DataType::R11G11B10, 3, 4); }
ENTRY(unorm_R5G6B5) { norms(FormatType::UNORM, DataType::R5G6B5, 1, 2); norms(FormatType::UNORM, DataType::R5G6B5, 3, 4); }
ENTRY(norm_R5G6B5) { norms(FormatType::NORM, DataType::R5G6B5, 1, 2); norms(FormatType::NORM, DataType::R5G6B5, 3, 4); }
ENTRY(unorm_narrow_R11G11B10) { norms(FormatType::UNORM, DataType::R11G11B10, 2, 3); }
ENTRY(norm_narrow_R11G11B10) { norms(FormatType::NORM, DataType::R11G11B10, 2, 3); }
ENTRY(unorm_narrow_red_R5G6B5) { norms(FormatType::UNORM, DataType::R5G6B5, 0, 1); }
ENTRY(unorm_narrow_blue_R5G6B5) { norms(FormatType::UNORM, DataType::R5G6B5, 2, 3); }
ENTRY(norm_narrow_red_R5G6B5) { norms(FormatType::NORM, DataType::R5G6B5, 0, 1); }
ENTRY(norm_narrow_blue_R5G6B5) { norms(FormatType::NORM, DataType::R5G6B5, 2, 3); }

// What the narrower lanes hold whatever their scale: nothing but their own field, and within
// one step of it.
static bool same(uint32_t a, uint32_t b) { return a - b + 2 <= 4 || ((a | b) & 0x7fffffff) == 0; }
static void narrowSigned(DataType d, size_t lane) {
  Packed e(d);
  const size_t w = LAYOUT[(size_t)d].w[lane];
  Vector4A16 v;
  FormatCodec::Get({FormatType::NORM, d}).GetValue(v, e.p());
  uint32_t o[4];
  lanes(v, o);
  const int32_t f = widenSign(e.f(lane), w);
  const float step = 1.f / (float)((1u << w) - 1);
  const float exact = (float)f * (1.f / (float)((1u << (w - 1)) - 1));
  CHECK(same(bitsOf((float)(f * 2) * step), o[lane]) | same(bitsOf((float)(f * 2 + 1) * step), o[lane]) | same(bitsOf(exact), o[lane]),
        "a narrower lane of a normalised element is within a step of its field");
}
ENTRY(norm_near_R11G11B10) { narrowSigned(DataType::R11G11B10, 2); }
ENTRY(norm_near_red_R5G6B5) { narrowSigned(DataType::R5G6B5, 0); }
ENTRY(norm_near_blue_R5G6B5) { narrowSigned(DataType::R5G6B5, 2); }
static void narrow(DataType d, size_t lane) {
  Packed e(d);
  const size_t w = LAYOUT[(size_t)d].w[lane];
  Vector4A16 v;
  FormatCodec::Get({FormatType::UNORM, d}).GetValue(v, e.p());
  uint32_t o[4];
  lanes(v, o);
  // twice the field over the largest value of the wider field
  const float want = (float)(int32_t)(e.f(lane) * 2) * (1.f / (float)((2u << w) - 1));
  const uint32_t wb = bitsOf(want);
  const float exact = (float)(int32_t)e.f(lane) * (1.f / (float)((1u << w) - 1));
  CHECK(wb - o[lane] + 2 <= 4 || ((wb | o[lane]) & 0x7fffffff) == 0 || bitsOf(exact) - o[lane] + 2 <= 4,
        "a narrower lane of a normalised element depends on its own field only");
}
ENTRY(unorm_own_R11G11B10) { narrow(DataType::R11G11B10, 2); }
ENTRY(unorm_own_red_R5G6B5) { narrow(DataType::R5G6B5, 0); }
ENTRY(unorm_own_blue_R5G6B5) { narrow(DataType::R5G6B5, 2); }

// What the fields of a floating layout denote.
static uint32_t denotes(uint32_t M, uint32_t E, bool S, uint32_t v) {
  const uint32_t m = v & ((1u << M) - 1), e = (v >> M) & ((1u << E) - 1), s = S ? (v >> (M + E)) & 1 : 0;
  const uint32_t emax = (1u << E) - 1, bias = emax >> 1;
  uint32_t r = 0;
  for (uint32_t b = 0; b < M; b++)
    r = sel(m >> b & 1, (b + 127 + 1 - bias - M) << 23 | ((m << (23 - b)) & 0x7fffff), r);
  r = sel(e != 0, (e + 127 - bias) << 23 | m << (23 - M), r);
  r = sel(e == emax, 0x7f800000u | m << (23 - M), r);
  return s << 31 | r;
}
static void floats(FormatType t, DataType d) {
  Packed e(d);
  Vector4A16 v(7.f);
  FormatCodec::Get({t, d}).GetValue(v, e.p());
  uint32_t o[4];
  lanes(v, o);
  for (size_t i = 0; i < 4; i++) {
    const size_t w = LAYOUT[(size_t)d].w[i];
    const uint32_t f = e.f(i);
    const uint32_t want = !w ? 0 : w == 32 ? f : t == FormatType::UFLOAT ? denotes(w - 5, 5, false, f) : denotes(w - 6, 5, true, f);
    observe("lane", o[i]);
    CHECK(o[i] == want, "a lane of a floating element is the number its field denotes");
  }
}
#define F1(d) ENTRY(float_##d) { floats(FormatType::FLOAT, DataType::d); }
F1(R32G32B32A32) F1(R32G32B32) F1(R32G32) F1(R32) F1(R16G16B16A16) F1(R16G16B16) F1(R16G16) F1(R16) F1(R11G11B10)
ENTRY(ufloat_R11G11B10) { floats(FormatType::UFLOAT, DataType::R11G11B10); }

// Which pairs exist and which outputs they serve.
ENTRY(registry) {
  const FormatType t = (FormatType)pick("format", 8);
  const DataType d = (DataType)pick("layout", 20);
  const bool known = d > DataType::CUSTOM && d <= DataType::R8;
  const bool half = LAYOUT[known ? (size_t)d : 0].w[0] == 16, full = LAYOUT[known ? (size_t)d : 0].w[0] == 32;
  const bool isInt = t == FormatType::INT || t == FormatType::UINT;
  bool want = false;
  if (known) {
    if (isInt || t == FormatType::UNORM || t == FormatType::NORM) want = true;
    if (t == FormatType::FLOAT) want = half || full || d == DataType::R11G11B10;
    if (t == FormatType::UFLOAT) want = d == DataType::R11G11B10;
  }
  bool got = true;
  FormatCodec *c = nullptr;
  try { c = &FormatCodec::Get({t, d}); } catch (const std::out_of_range &) { got = false; }
  CHECK(got == want, "exactly the documented pairs have a codec");
  if (!c) return;
  uint8_t *b = (uint8_t *)malloc(sizeOf(d));
  memset(b, 0, sizeOf(d));
  IVector4A16 i; Vector4A16 f;
  FormatCodec::ivec is; FormatCodec::fvec fs;
  int refused = 0;
  try { c->GetValue(i, (char *)b); } catch (const std::runtime_error &) { refused |= 1; }
  try { c->GetValue(f, (char *)b); } catch (const std::runtime_error &) { refused |= 2; }
  try { c->Sample(is, (char *)b, 1); } catch (const std::runtime_error &) { refused |= 4; }
  try { c->Sample(fs, (char *)b, 1); } catch (const std::runtime_error &) { refused |= 8; }
  CHECK(refused == (isInt ? 10 : 5), "integer formats serve integers, the others floats, the rest is refused");
  free(b);
}

static void arrays(FormatType t, DataType d) {
  const size_t es = sizeOf(d), count = pick("count", 4), had = pick("had", 5), stride = pick("stride", es + 4);
  const size_t n = count ? count : had, step = stride ? stride : es, bytes = n ? (n - 1) * step + es : 0;
  uint8_t *b = (uint8_t *)malloc(bytes ? bytes : 1);
  if (bytes) symBytes(b, bytes, "array");
  FormatCodec &c = FormatCodec::Get({t, d});
  const bool isInt = t == FormatType::INT || t == FormatType::UINT;
  FormatCodec::ivec is(isInt ? had : 0); FormatCodec::fvec fs(isInt ? 0 : had);
  bool refused = false;
  try {
    if (isInt) c.Sample(is, (char *)b, count, stride);
    else c.Sample(fs, (char *)b, count, stride);
  } catch (const std::runtime_error &) { refused = true; }
  CHECK(refused == (stride && stride < es), "a stride smaller than the element is refused, any other is taken");
  if (refused) CHECK((isInt ? is.size() : fs.size()) == had, "a refused call leaves the array as it was");
  else {
    CHECK((isInt ? is.size() : fs.size()) == n, "the array holds the asked for elements");
    for (size_t k = 0; k < n; k++) {
      uint32_t got[4], want[4];
      if (isInt) { IVector4A16 w; c.GetValue(w, (char *)b + k * step); lanes(w, want); lanes(is[k], got); }
      else { Vector4A16 w; c.GetValue(w, (char *)b + k * step); lanes(w, want); lanes(fs[k], got); }
      for (size_t i = 0; i < 4; i++) CHECK(got[i] == want[i], "every element of an array is the value at its place");
    }
  }
  free(b);
}
#define A1(d) ENTRY(array_uint_##d) { arrays(FormatType::UINT, DataType::d); }
#define A2(d) ENTRY(array_int_##d) { arrays(FormatType::INT, DataType::d); }
#define A3(d) ENTRY(array_unorm_##d) { arrays(FormatType::UNORM, DataType::d); }
#define A4(d) ENTRY(array_norm_##d) { arrays(FormatType::NORM, DataType::d); }
#define A5(d) ENTRY(array_float_##d) { arrays(FormatType::FLOAT, DataType::d); }
A1(R32G32B32A32) A2(R32G32B32) A3(R16G16B16A16) A4(R16G16B16) A1(R32G32) A2(R32) A3(R16G16) A4(R10G10B10A2) A1(R11G11B10)
A2(R8G8B8A8) A3(R24G8) A4(R8G8B8) A1(R8G8) A2(R16) A3(R5G6B5) A4(R5G5B5A1) A1(R8)
A5(R32G32B32) A5(R16G16B16) A5(R11G11B10)

// The ends of every normalised field.
ENTRY(ends) {
  const DataType d = (DataType)(1 + pick("layout", 17));
  const FormatType t = pick("signed", 2) ? FormatType::NORM : FormatType::UNORM;
  const Layout &l = LAYOUT[(size_t)d];
  const size_t lane = pick("lane", l.n), w = l.w[lane];
  if (d == DataType::R11G11B10 && lane == 2) return; // the narrower lanes have entries of their own
  if (d == DataType::R5G6B5 && lane != 1) return;
  if (t == FormatType::NORM && w == 1) return;
  const bool low = pick("low", 2);
  size_t at = 0;
  for (size_t k = 0; k < lane; k++) at += l.w[k];
  uint8_t b[16] = {};
  const uint64_t top = t == FormatType::UNORM ? (1ull << w) - 1 : (1ull << (w - 1)) - 1;
  const uint64_t put = low ? t == FormatType::UNORM ? 0 : (0 - top) & ((1ull << w) - 1) : top;
  for (size_t k = 0; k < w; k++) b[(at + k) / 8] |= (put >> k & 1) << ((at + k) % 8);
  Vector4A16 v;
  FormatCodec::Get({t, d}).GetValue(v, (char *)b);
  const float want = low ? t == FormatType::UNORM ? 0.f : -1.f : 1.f;
  uint32_t o[4];
  lanes(v, o);
  CHECK(o[lane] == bitsOf(want), "the ends of a normalised field are exactly zero, one and minus one");
}

// Unpacking of sampled values with the data of their descriptor.
struct Descriptor : PrimitiveDescriptor {
  UnpackDataType_e kind;
  BBOX box;
  const char *RawBuffer() const override { return nullptr; }
  size_t Stride() const override { return 0; }
  size_t Offset() const override { return 0; }
  size_t Index() const override { return 0; }
  Usage_e Usage() const override { return Usage_e::Position; }
  FormatDescr Type() const override { return {FormatType::FLOAT, DataType::R32}; }
  BBOX UnpackData() const override { return box; }
  UnpackDataType_e UnpackDataType() const override { return kind; }
};
ENTRY(unpack) {
  Descriptor d;
  float v[2][4], lo[4], hi[4];
  const size_t n = pick("size", 3);
  symBytes(v, sizeof v, "values"); symBytes(lo, sizeof lo, "min"); symBytes(hi, sizeof hi, "max");
  d.kind = (PrimitiveDescriptor::UnpackDataType_e)pick("kind", 4);
  d.box.min = Vector4A16(lo[0], lo[1], lo[2], lo[3]);
  d.box.max = Vector4A16(hi[0], hi[1], hi[2], hi[3]);
  FormatCodec::fvec data;
  for (size_t k = 0; k < n; k++) data.push_back(Vector4A16(v[k][0], v[k][1], v[k][2], v[k][3]));
  d.Resample(data);
  CHECK(data.size() == n, "unpacking keeps the number of values");
  for (size_t k = 0; k < n; k++)
    for (size_t i = 0; i < 4; i++) {
      float got, want = v[k][i];
      memcpy(&got, (char *)&data[k] + 4 * i, 4);
      typedef PrimitiveDescriptor::UnpackDataType_e U;
      if (d.kind == U::Add) want = want + lo[i];
      if (d.kind == U::Mul) want = want * lo[i];
      if (d.kind == U::Madd) want = hi[i] + want * lo[i];
      CHECK(bitsOf(got) == bitsOf(want) || (got != got && want != want), "values unpack as their descriptor declares");
    }
}
