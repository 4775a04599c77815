//! bounds every value of every 16, 32 and 64 bit integer and floating type, arrays of up to 5 elements, a structure mixing them, element-wise swapping of packed structures
//! outside 8-bit scalars (nothing to swap; the streams skip them), arrays longer than 5
#include "sx.h"
#include <iterator>
#include "datas/endian.hpp"

template <class T> static void reversed(const void *before, const void *after, size_t n, const char *why) {
  const uint8_t *a = (const uint8_t *)before, *b = (const uint8_t *)after;
  for (size_t e = 0; e < n; e++)
    for (size_t i = 0; i < sizeof(T); i++)
      CHECK(a[e * sizeof(T) + i] == b[e * sizeof(T) + sizeof(T) - 1 - i], why);
}
template <class T> static void scalar(bool outWay) {
  T v, o;
  symBytes(&v, sizeof v, "v");
  memcpy(&o, &v, sizeof v);
  FByteswapper(v, outWay);
  uint64 raw = 0; memcpy(&raw, &v, sizeof v);
  observe("swapped", raw);
  reversed<T>(&o, &v, 1, "one swap reverses the bytes of a scalar");
  FByteswapper(v, !outWay);
  CHECK(!memcmp(&o, &v, sizeof v), "two swaps restore a scalar");
}
ENTRY(ints) { bool o = sym<bool>("way"); scalar<uint16>(o); scalar<int16>(o); scalar<uint32>(o); scalar<int32>(o); scalar<uint64>(o); scalar<int64>(o); scalar<wchar_t>(o); }
ENTRY(floats) { bool o = sym<bool>("way"); scalar<float>(o); scalar<double>(o); }

enum E16 : uint16 { E16_a };
enum class E32 : uint32 { a };
ENTRY(enums) { bool o = sym<bool>("way"); scalar<E16>(o); scalar<E32>(o); }

template <class T, size_t n> static void array() {
  T v[n + 1], o[n + 1];
  symBytes(v, sizeof v, "v");
  memcpy(o, v, sizeof v);
  T(&part)[n] = reinterpret_cast<T(&)[n]>(v);
  FByteswapper(part, sym<bool>("way"));
  reversed<T>(o, v, n, "an array swap reverses every element in place");
  CHECK(!memcmp(&o[n], &v[n], sizeof(T)), "an array swap leaves what follows alone");
  FByteswapper(part);
  CHECK(!memcmp(o, v, sizeof v), "two array swaps restore it");
}
ENTRY(arrays) { array<uint16, 1>(); array<uint16, 4>(); array<uint32, 2>(); array<uint32, 3>(); array<float, 5>(); array<uint64, 2>(); array<double, 3>(); }

struct Packed { uint32 a, b, c, d; };
struct Guard { Packed p; uint32 next; };
ENTRY(packed) {
  Guard g, o;
  symBytes(&g, sizeof g, "g");
  memcpy(&o, &g, sizeof g);
  FArraySwapper<uint32>(g.p);
  reversed<uint32>(&o.p, &g.p, 4, "an element-wise swap reverses every element");
  CHECK(o.next == g.next, "an element-wise swap stays inside the object");
  FArraySwapper<uint32>(g.p);
  CHECK(!memcmp(&o, &g, sizeof g), "two element-wise swaps restore the object");
  FArraySwapper<uint16>(g.p);
  reversed<uint16>(&o.p, &g.p, 8, "an element-wise swap uses the element width asked for");
}
// Classes with their own member do the swapping themselves, and are told the direction.
struct Inner { uint16 x; uint8 keep; int seen; void SwapEndian(bool way) { FByteswapper(x); seen = way; } };
struct Outer { uint32 a; Inner i[2]; double d; void SwapEndian() { FByteswapper(a); FByteswapper(i, true); FByteswapper(d); } };
ENTRY(classes) {
  Outer v;
  symBytes(&v.a, 4, "a"); symBytes(&v.i[0].x, 2, "x0"); symBytes(&v.i[1].x, 2, "x1"); symBytes(&v.d, 8, "d");
  v.i[0].keep = sym<uint8>("k"); v.i[1].keep = 7; v.i[0].seen = v.i[1].seen = -1;
  Outer o; memcpy(&o, &v, sizeof v);
  FByteswapper(v);
  reversed<uint32>(&o.a, &v.a, 1, "a class member is swapped once");
  reversed<double>(&o.d, &v.d, 1, "a class member is swapped once");
  for (int i = 0; i < 2; i++) {
    reversed<uint16>(&o.i[i].x, &v.i[i].x, 1, "members of array elements are swapped once");
    CHECK(v.i[i].keep == o.i[i].keep, "members a class does not swap stay");
    CHECK(v.i[i].seen == 1, "the direction reaches the class");
  }
  FByteswapper(v);
  CHECK(v.a == o.a && v.i[0].x == o.i[0].x && v.i[1].x == o.i[1].x && !memcmp(&v.d, &o.d, 8), "two swaps restore a class");
  Inner one = v.i[0];
  FByteswapper(one, false);
  CHECK(one.seen == 0, "the direction reaches the class");
}
