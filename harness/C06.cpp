//! bounds every flag set over 8, 16, 32 and 64 bit storage and every flag position inside it; sequences of four set/clear operations
//! outside flag positions beyond the storage width
#include "sx.h"
#include <limits>
#include "datas/flags.hpp"
#include "datas/reflector.hpp"
enum E64 : uint64 { e64 };
enum class E8 : uint8 {};
enum class E32 : int32 {};
template <class E, class F, class V> static void set() {
  F f; const size_t W = sizeof(V) * 8;
  CHECK(static_cast<V>(f) == 0, "a set starts empty");
  V raw = sym<V>("raw"); f = raw;
  CHECK(static_cast<V>(f) == raw, "a set takes a raw value");
  size_t p = below("p", W), q = below("q", W);
  auto has = [&](V v, size_t at) { return bool((v >> at) & 1); };
  CHECK(f[E(p)] == has(raw, p), "a flag is its bit");
  CHECK((f == E(p)) == has(raw, p) && (f != E(p)) == !has(raw, p), "comparing with a flag asks for membership");
  F g = f; bool on = sym<bool>("on");
  g.Set(E(p), on);
  CHECK(g[E(p)] == on, "a flag set is set, a flag cleared is clear");
  if (q != p) CHECK(g[E(q)] == has(raw, q), "no other flag changes");
  CHECK(static_cast<V>(g) == (on ? V(raw | (V(1) << p)) : V(raw & V(~(V(1) << p)))), "setting touches one bit");
  F h = f; h += E(p); CHECK(static_cast<V>(h) == V(raw | (V(1) << p)), "adding a flag");
  F k = f; k -= E(q); CHECK(static_cast<V>(k) == V(raw & V(~(V(1) << q))), "removing a flag");
  (h += E(p)) -= E(p);
  CHECK(static_cast<V>(h) == V(raw & V(~(V(1) << p))), "adding twice then removing removes");
  CHECK((g == f) == (static_cast<V>(g) == raw) && (g != f) == !(g == f), "sets are equal when every flag is");
  const F two{E(p), E(q)};
  CHECK(static_cast<V>(two) == V((V(1) << p) | (V(1) << q)), "a set built from flags holds those flags");
  const F &cf = f; F more{cf, E(p), E(q)};
  CHECK(static_cast<V>(more) == V(raw | (V(1) << p) | (V(1) << q)), "a set extended by flags holds both");
}
ENTRY(plain8) { set<uint8, es::Flags<uint8>, uint8>(); }
ENTRY(plain16) { set<uint16, es::Flags<uint16>, uint16>(); }
ENTRY(plain64) { set<uint64, es::Flags<uint64>, uint64>(); }
ENTRY(enum64) { set<E64, es::Flags<E64>, uint64>(); }
ENTRY(enum8) { set<E8, es::Flags<E8>, uint8>(); }
ENTRY(enum8on32) { set<E8, es::Flags<E8, uint32>, uint32>(); }
ENTRY(enum8on64) { set<E8, es::Flags<E8, uint64>, uint64>(); }
ENTRY(enum32) { set<E32, es::Flags<E32>, uint32>(); }
ENTRY(enum32on16) { set<E32, es::Flags<E32, uint16>, uint16>(); }
