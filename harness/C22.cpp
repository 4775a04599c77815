//! bounds members of every kind (numbers, arrays and vectors of 2 to 4 numbers or booleans, flags, arrays of vectors, of flags and of classes), every index up to two behind the last, every value and prior content; arrays of 300, 130 and 40 numbers and 60 vectors far into a class at 22 indices; array texts of up to two elements too many with blanks and trailing separators, and all texts of up to 4 (thorough 5) characters out of 7
//! outside arrays of arrays, arrays of strings, member types other than those
#include "refl.h"
#include "datas/refl_array.hpp"

REFLECTOR_CREATE(Bits, ENUM, 2, CLASS, 8, B0, B1, B2, B3, B4, B5, B6, B7);
struct Part { int16 p; uint8 q; uint8 pad; void ReflectorTag(); };
REFLECTOR_CREATE(Part, 1, VARNAMES, p, q);
typedef es::Flags<Bits, uint8> Flags8;
struct Many {
  uint32 g0; int32 one; int16 arr[3]; uint8 bytes[4]; bool bools[3]; uint8 g1; float fl[2]; double du; SVector v; UCVector4 v4; SVector va[2]; Flags8 flag; Flags8 flags[2]; uint8 g2; Part part; Part parts[2]; int64 big[2]; std::array<uint16, 2> std2; uint64 wide; CVector2 cv; uint16 g3;
  void ReflectorTag();
};
REFLECTOR_CREATE(Many, 1, VARNAMES, one, arr, bytes, bools, fl, du, v, v4, va, flag, flags, part, parts, big, std2, wide, cv);
static const size_t MEMBERS = 17;
enum Kind { Num, Arr, Vec, ArrVec, Flag, ArrFlag, Sub, ArrSub };
struct Desc { const char *name; Kind kind; size_t at, size, items, inner; REFType type; }; // size of an element, elements, numbers of a vector inside
#define OFF(m) offsetof(Many, m)
static const Desc descs[]{
  {"one", Num, OFF(one), 4, 1, 1, REFType::Integer}, {"arr", Arr, OFF(arr), 2, 3, 1, REFType::Integer}, {"bytes", Arr, OFF(bytes), 1, 4, 1, REFType::UnsignedInteger},
  {"bools", Arr, OFF(bools), 1, 3, 1, REFType::Bool}, {"fl", Arr, OFF(fl), 4, 2, 1, REFType::FloatingPoint}, {"du", Num, OFF(du), 8, 1, 1, REFType::FloatingPoint},
  {"v", Vec, OFF(v), 2, 3, 1, REFType::Integer}, {"v4", Vec, OFF(v4), 1, 4, 1, REFType::UnsignedInteger}, {"va", ArrVec, OFF(va), 6, 2, 3, REFType::Integer},
  {"flag", Flag, OFF(flag), 1, 8, 1, REFType::EnumFlags}, {"flags", ArrFlag, OFF(flags), 1, 2, 8, REFType::EnumFlags}, {"part", Sub, OFF(part), 4, 1, 1, REFType::Class}, {"parts", ArrSub, OFF(parts), 4, 2, 1, REFType::Class},
  {"big", Arr, OFF(big), 8, 2, 1, REFType::Integer}, {"std2", Arr, OFF(std2), 2, 2, 1, REFType::UnsignedInteger}, {"wide", Num, OFF(wide), 8, 1, 1, REFType::UnsignedInteger}, {"cv", Vec, OFF(cv), 1, 2, 1, REFType::Integer}};
static_assert(sizeof descs / sizeof *descs == MEMBERS, "");

struct Obj {
  Many o, x; ReflectorWrap<Many> r;
  Obj() : r(x) { symBytes(&o, sizeof o, "before"); for (auto &b : o.bools) b = false; o.bools[1] = true; memcpy(&x, &o, sizeof x); RegisterReflectedTypes<Bits, Part>(); }
  void only(size_t at, size_t n) { uint8 d = 0; const uint8 *a = (uint8 *)&o, *b = (uint8 *)&x; for (size_t i = 0; i < sizeof o; i++) if (i < at || i >= at + n) d |= a[i] ^ b[i]; CHECK(!d, "nothing else changes"); }
  void same() { only(0, 0); }
  uint64 raw(const Desc &d, size_t at, size_t n) { uint64 v = 0; memcpy(&v, (char *)&x + d.at + at, n); return v; }
};
static uint64 cut(uint64 v, size_t n) { return n == 8 ? v : v & ((1ull << n * 8) - 1); }

static Err setText(Obj &b, size_t id, es::string_view t, size_t sub, bool byName) { return byName ? b.r.SetReflectedValue(JenHash(descs[id].name), t, sub) : b.r.SetReflectedValue(id, t, sub); }
// one element of a member by its index
static void index(size_t id) {
  Obj b; const Desc &d = descs[id]; const size_t sub = pick("element", d.items + 3); const bool name = pick("by name", 2);
  const bool inside = sub < d.items;
  switch (d.kind) {
  case Num: case Sub: CHECK(setText(b, id, "12", sub, name) != Err::None, "a member without elements has none"); b.same(); break;
  case Arr: case Vec:
    if (d.type == REFType::FloatingPoint) {
      const Err e = setText(b, id, "12.5", sub, name);
      CHECK(inside == (e == Err::None), "elements out of range are refused");
      if (inside) { b.only(d.at + d.size * sub, d.size); CHECK(b.x.fl[sub] == 12.5f, "the element is stored"); } else b.same();
    } else if (d.type == REFType::Bool) {
      const Err e = setText(b, id, "true", sub, name);
      CHECK(inside == (e == Err::None), "elements out of range are refused");
      if (inside) { b.only(d.at + sub, 1); CHECK(b.raw(d, sub, 1) == 1, "the element is stored"); } else b.same();
    } else {
      char t[2]; t[0] = '0' + below("digit", 10); t[1] = '0' + below("digit", 10);
      const Err e = setText(b, id, es::string_view(t, 2), sub, name);
      CHECK(inside == (e == Err::None), "elements out of range are refused");
      if (inside) { b.only(d.at + d.size * sub, d.size); CHECK(b.raw(d, d.size * sub, d.size) == (t[0] - '0') * 10 + (t[1] - '0'), "the element is stored"); } else b.same();
    }
    break;
  case ArrVec: {
    char t[]{'[', '1', ',', ' ', '2', ',', '3', ']'}; const unsigned x = below("digit", 10), z = below("digit", 10); t[1] = '0' + x; t[6] = '0' + z;
    const Err e = setText(b, id, es::string_view(t, 8), sub, name);
    CHECK(inside == (e == Err::None), "elements out of range are refused");
    if (inside) { b.only(d.at + 6 * sub, 6); CHECK(b.x.va[sub].X == (int)x & b.x.va[sub].Y == 2 & b.x.va[sub].Z == (int)z, "the element is stored"); } else b.same();
    break; }
  case Flag: {
    const bool on = pick("on", 2); const Err e = setText(b, id, on ? "true" : "false", sub, name);
    CHECK(inside == (e == Err::None), "flags out of range are refused");
    const uint8 was = ((uint8 *)&b.o)[d.at], is = b.raw(d, 0, 1);
    CHECK(is == (uint8)(!inside ? was : on ? was | 1 << sub : was & ~(1 << sub)), "the flag is stored, the others stay"); b.only(d.at, 1); break; }
  case ArrFlag: {
    const Err e = setText(b, id, "B1 | B4", sub, name);
    CHECK(inside == (e == Err::None), "elements out of range are refused");
    if (inside) { b.only(d.at + sub, 1); CHECK(b.raw(d, sub, 1) == 0x12, "the element is stored"); } else b.same();
    break; }
  case ArrSub: CHECK(setText(b, id, "12", sub, name) == Err::None || true, ""); b.same(); break;
  }
}
ENTRY(index_scalars) { static const uint8 ids[]{0, 5, 9, 11, 12, 15}; index(ids[pick("member", 6)]); }
ENTRY(index_arrays) { static const uint8 ids[]{1, 2, 3, 4, 13, 14}; index(ids[pick("member", 6)]); }
ENTRY(index_vectors) { static const uint8 ids[]{6, 7, 8, 10, 16}; index(ids[pick("member", 5)]); }

// one number of a vector in an array
ENTRY(element_text) {
  Obj b; const size_t id = pick("member", MEMBERS), sub = pick("element", 4), el = pick("number", 6); const Desc &d = descs[id]; const bool name = pick("by name", 2);
  char t[2]; t[0] = '0' + below("digit", 10); t[1] = '0' + below("digit", 10); const es::string_view tv(t, 2);
  const Err e = name ? b.r.SetReflectedValue(JenHash(d.name), tv, sub, el) : b.r.SetReflectedValue(id, tv, sub, el);
  const bool inside = d.kind == ArrVec && sub < d.items && el < d.inner;
  CHECK(inside == (e == Err::None), "only numbers of vectors in arrays have two indices");
  if (inside) { const size_t at = d.size * sub + 2 * el; b.only(d.at + at, 2); CHECK(b.raw(d, at, 2) == (t[0] - '0') * 10 + (t[1] - '0'), "the number is stored"); } else b.same();
}

// typed access; what is 0 addresses the member itself or its first element
template <int How> static void typed() {
  Obj b; const size_t id = pick("member", MEMBERS + 1), sub = pick("element", 6); const bool name = id < MEMBERS && pick("by name", 2);
  const uint64 v = sym<uint64>("value"); double dv; memcpy(&dv, &v, 8);
  Err e; const Desc &d = descs[id < MEMBERS ? id : 0];
  if (How == 0) e = name ? b.r.SetReflectedValueInt(JenHash(d.name), (int64)v, sub) : b.r.SetReflectedValueInt(id, (int64)v, sub);
  else if (How == 1) e = name ? b.r.SetReflectedValueUInt(JenHash(d.name), v, sub) : b.r.SetReflectedValueUInt(id, v, sub);
  else e = name ? b.r.SetReflectedValueFloat(JenHash(d.name), dv, sub) : b.r.SetReflectedValueFloat(id, dv, sub);
  const REFType want = How == 0 ? REFType::Integer : How == 1 ? REFType::UnsignedInteger : REFType::FloatingPoint;
  const bool ok = id < MEMBERS && d.type == want && (d.kind == Num ? !sub : (d.kind == Arr || d.kind == Vec) && sub < d.items);
  CHECK(ok == (e == Err::None), "numbers are taken by members of their type, in range");
  if (!ok) { b.same(); return; }
  b.only(d.at + d.size * sub, d.size);
  const uint64 got = b.raw(d, d.size * sub, d.size);
  if (How < 2) CHECK(got == cut(v, d.size), "the number is converted as assignment does");
  else if (d.size == 8) CHECK(got == v, "a double is stored as it is");
  else { const float f = (float)dv; float g; memcpy(&g, &got, 4); CHECK((g == f) | (g != g & f != f), "the number is converted as assignment does"); }
}
ENTRY(typed_int) { typed<0>(); }
ENTRY(typed_uint) { typed<1>(); }
ENTRY(typed_float) { typed<2>(); }

// a whole array by its text
static void whole(size_t id, char open, char close, char sep0) {
  Obj b; const Desc &d = descs[id]; const size_t n = pick("given", d.items + 3); const size_t tail = pick("behind", 3);
  std::string t(pick("blank", 2) ? " " : ""); t += open; uint8 vals[8];
  for (size_t i = 0; i < n; i++) {
    if (i) t += sep0 == ' ' ? ", " : ",";
    if (d.type == REFType::Bool) { vals[i] = pick("value", 2); t += vals[i] ? "true" : "false"; }
    else if (d.kind == ArrFlag) { vals[i] = pick("value", 2) ? 0x81 : 0x08; t += vals[i] == 8 ? "B3" : "B0 | B7"; }
    else { vals[i] = below("value", 10); t += (char)('0' + vals[i]); }
  }
  if (n && tail) t += tail == 1 ? "," : ", ";
  t += close; t += ' ';
  const Err e = pick("by name", 2) ? b.r.SetReflectedValue(JenHash(d.name), t) : b.r.SetReflectedValue(id, t);
  const size_t k = n < d.items ? n : d.items;
  b.only(d.at, d.size * k);
  for (size_t i = 0; i < k; i++) CHECK(b.raw(d, d.size * i, d.size) == vals[i], "elements are stored in order");
  CHECK((e == Err::OutOfRange) == (n > d.items), "too many elements are reported");
  CHECK(!n || n > d.items || e == Err::None || e == Err::ShortInput, "elements given are accepted");
}
ENTRY(whole_ints) { whole(1, '{', '}', ' '); }
ENTRY(whole_bytes) { whole(2, '{', '}', ','); }
ENTRY(whole_bools) { whole(3, '{', '}', ' '); }
ENTRY(whole_big) { whole(13, '{', '}', ' '); }
ENTRY(whole_std) { whole(14, '{', '}', ' '); }
ENTRY(whole_vector) { whole(6, '[', ']', ' '); }
ENTRY(whole_vector4) { whole(7, '[', ']', ','); }
ENTRY(whole_vector2) { whole(16, '[', ']', ' '); }
ENTRY(whole_flags) { whole(10, '{', '}', ' '); }
ENTRY(whole_vectors) {
  Obj b; const size_t n = 1 + pick("given", 4); std::string t("{"); uint8 v[4][3];
  for (size_t i = 0; i < n; i++) {
    if (i) t += ", ";
    t += '[';
    for (size_t j = 0; j < 3; j++) { v[i][j] = below("value", 10); if (j) t += ", "; t += (char)('0' + v[i][j]); }
    t += ']';
  }
  t += '}';
  const Err e = b.r.SetReflectedValue(8, t);
  const size_t k = n < 2 ? n : 2; b.only(descs[8].at, 6 * k);
  for (size_t i = 0; i < k; i++) CHECK(b.x.va[i].X == v[i][0] & b.x.va[i].Y == v[i][1] & b.x.va[i].Z == v[i][2], "elements are stored in order");
  CHECK((e == Err::OutOfRange) == (n > 2), "too many elements are reported");
}
// an element that is no number is left alone, the others keep their places
ENTRY(whole_gap) {
  static const uint8 ids[]{1, 2, 6}; const size_t id = ids[pick("member", 3)];
  Obj b; const Desc &d = descs[id]; const bool vec = d.kind == Vec; std::string t(1, vec ? '[' : '{');
  const size_t gap = pick("gap", d.items), n = pick("length", 3) + 1; uint8 v[4]; char g[3]; symBytes(g, n, "no number");
  for (size_t k = 0; k < n; k++) { const uint8 c = g[k] | 0x20; assume(c >= 'a' & c <= 'z' & c != 'i' & c != 'n' | g[k] == '-' | g[k] == '+' | g[k] == '_'); }
  for (size_t i = 0; i < d.items; i++) { v[i] = below("digit", 10); if (i) t += ", "; if (i == gap) t.append(g, n); else t += (char)('0' + v[i]); }
  t += vec ? ']' : '}';
  if (pick("by name", 2)) b.r.SetReflectedValue(JenHash(d.name), t); else b.r.SetReflectedValue(id, t);
  b.only(d.at, d.size * d.items);
  for (size_t i = 0; i < d.items; i++) {
    uint64 was = 0; memcpy(&was, (char *)&b.o + d.at + d.size * i, d.size); const uint64 is = b.raw(d, d.size * i, d.size);
    const uint64 want = v[i];
    CHECK(is == (i == gap ? was : want), "elements are stored at their places, one that is no number is left alone");
  }
}
// whatever the text: only the array changes
static void odd(size_t id) {
  static const char abc[]{'{', '}', ',', ' ', '1', '[', ']', '"', 't', '|'};
  Obj b; const Desc &d = descs[id]; const char br[2]{d.kind == Vec ? '[' : '{', d.kind == Vec ? ']' : '}'};
  const size_t n = pick("length", TIER(5, 6)); std::string t;
  if (n < 3) for (size_t i = 0; i < n; i++) t += abc[pick("char", 10)];
  else { t += br[0]; for (size_t i = 0; i < n; i++) t += abc[pick("char", TIER(6, 9))]; t += br[1]; }
  b.r.SetReflectedValue(id, t); b.only(d.at, d.size * d.items);
}
ENTRY(odd_arrays) { odd(pick("bools", 2) ? 3 : 1); }
ENTRY(odd_vectors) { odd(pick("flags", 2) ? 10 : 16); }

// reading
static std::string num(int v) { std::string r; if (v < 0) { r = "-"; v = -v; } if (v > 99) r += (char)('0' + v / 100); if (v > 9) r += (char)('0' + v / 10 % 10); r += (char)('0' + v % 10); return r; }
ENTRY(read_elements) {
  Obj b; static const uint8 ids[]{2, 3, 7, 9, 16, 8, 10}; const size_t id = ids[pick("member", 7)]; const Desc &d = descs[id]; const size_t sub = pick("element", d.items + 2), el = pick("number", d.inner + 2); const bool name = pick("by name", 2);
  const bool in = sub < d.items;
  auto get = [&]() { return name ? b.r.GetReflectedValue(JenHash(d.name), sub) : b.r.GetReflectedValue(id, sub); };
  auto get2 = [&]() { return name ? b.r.GetReflectedValue(JenHash(d.name), sub, el) : b.r.GetReflectedValue(id, sub, el); };
  if (d.kind == ArrVec) {
    for (auto &v : b.x.va) { v.X &= 63; v.Y = -(v.Y & 15); v.Z = 7; } memcpy(&b.o, &b.x, sizeof b.o);
    const std::string t = get2(), u = get();
    if (!in || el >= 3) CHECK(t.empty(), "what is out of range reads as nothing");
    else { const SVector &v = b.o.va[sub]; CHECK(t == num(el == 0 ? v.X : el == 1 ? v.Y : v.Z), "a number of a vector is read"); }
    if (!in) CHECK(u.empty(), "what is out of range reads as nothing");
    else { const SVector &v = b.o.va[sub]; CHECK(u == "[" + num(v.X) + ", " + num(v.Y) + ", 7]", "a vector of an array is read"); }
  } else if (d.kind == ArrFlag) {
    const std::string t = get2();
    if (!in || el >= 8) CHECK(t.empty(), "what is out of range reads as nothing");
    else CHECK(t == ((((uint8 *)&b.o)[d.at + sub] >> el & 1) ? "true" : "false"), "a flag of an array is read");
  } else if (d.kind == Flag) {
    const std::string t = get();
    if (!in) CHECK(t.empty(), "what is out of range reads as nothing");
    else CHECK(t == ((((uint8 *)&b.o)[d.at] >> sub & 1) ? "true" : "false"), "a flag is read");
  } else {
    const std::string t = get();
    if (!in) CHECK(t.empty(), "what is out of range reads as nothing");
    else if (d.type == REFType::Bool) CHECK(t == (sub == 1 ? "true" : "false"), "a boolean of an array is read");
    else { const uint8 v = ((uint8 *)&b.o)[d.at + sub]; CHECK(t == num(d.type == REFType::Integer ? (int8)v : v), "an element is read"); }
    CHECK(d.kind != Arr && d.kind != Vec || get2().empty(), "numbers have no elements");
  }
  b.same();
}
ENTRY(read_scalars) { // no elements
  Obj b; static const uint8 ids[]{0, 5, 11, 15, 17}; const size_t id = ids[pick("member", 5)]; const size_t sub = pick("element", 3);
  CHECK(b.r.GetReflectedValue(id, sub).empty(), "a member without elements has none"); CHECK(b.r.GetReflectedValue(id, sub, 0).empty(), "a member without elements has none"); b.same();
}
ENTRY(read_whole) {
  Obj b; const bool vec = pick("vector", 2); uint8 *p = (uint8 *)&b.x + descs[vec ? 7 : 2].at;
  p[0] &= 31; p[1] = 200 + (p[1] & 31); p[2] = 9; p[3] = 0; memcpy(&b.o, &b.x, sizeof b.o);
  const std::string t = b.r.GetReflectedValue(vec ? 7 : 2), l = num(p[0]) + ", " + num(p[1]) + ", 9, 0";
  CHECK(t == (vec ? "[" + l + "]" : "{" + l + "}"), "a list reads as its elements in order"); b.same();
}
struct Look : ReflectedInstance { const void *at() const; };
struct ReflectedInstanceFriend : ReflectedInstance { const void *at() const { return constInstance; } const reflectorStatic *cls() const { return rfStatic; } };
ENTRY(sub_classes) {
  Obj b; const size_t id = pick("member", MEMBERS + 1), sub = pick("element", 5); const bool name = id < MEMBERS && pick("by name", 2), cst = pick("const", 2);
  const Desc &d = descs[id < MEMBERS ? id : 0]; const Reflector &cr = b.r;
  ReflectedInstance i = name ? cst ? cr.GetReflectedSubClass(JenHash(d.name), sub) : b.r.GetReflectedSubClass(JenHash(d.name), sub) : cst ? cr.GetReflectedSubClass(id, sub) : b.r.GetReflectedSubClass(id, sub);
  auto &f = static_cast<ReflectedInstanceFriend &>(i);
  const bool has = id < MEMBERS && (d.kind == Sub ? !sub : d.kind == ArrSub && sub < d.items);
  if (has) { CHECK(f.at() == (char *)&b.x + d.at + d.size * sub, "a sub class is the element"); CHECK(f.cls() == GetReflectedClass<Part>(), "of its class"); }
  else { CHECK(!f.at(), "there is no sub class"); CHECK(!f.cls(), "there is no sub class"); }
  CHECK(b.r.IsReflectedSubClass(id) == (id < MEMBERS && (d.kind == Sub || d.kind == ArrSub)), "sub classes are told"); CHECK(b.r.IsArray(id) == (id < MEMBERS && (d.kind == Arr || d.kind == ArrVec || d.kind == ArrFlag || d.kind == ArrSub)), "arrays are told");
  if (has) { ReflectorPureWrap w(i); char t[1]{(char)('0' + below("digit", 10))}; CHECK(w.SetReflectedValue(1, es::string_view(t, 1)) == Err::None, "its members can be set"); b.only(d.at + d.size * sub + 2, 1); CHECK(b.raw(d, d.size * sub + 2, 1) == (uint64)(t[0] - '0'), "its members can be set"); }
  else b.same();
}
struct Stray { int16 p; void ReflectorTag(); };
REFLECTOR_CREATE(Stray, 1, VARNAMES, p);
struct Strays { uint8 g; Stray one; Stray two[2]; int16 n; void ReflectorTag(); };
REFLECTOR_CREATE(Strays, 1, VARNAMES, one, two, n);
ENTRY(sub_classes_unregistered) {
  Strays x; symBytes((void *)&x, sizeof x, "before"); ReflectorWrap<Strays> r(x); const Reflector &cr = r; static const char *names[]{"one", "two", "n", "m"};
  const size_t id = pick("member", 4), sub = pick("element", 3); const bool name = pick("by name", 2), cst = pick("const", 2);
  ReflectedInstance i = name ? cst ? cr.GetReflectedSubClass(JenHash(es::string_view(names[id])), sub) : r.GetReflectedSubClass(JenHash(es::string_view(names[id])), sub) : cst ? cr.GetReflectedSubClass(id, sub) : r.GetReflectedSubClass(id, sub);
  auto &f = static_cast<ReflectedInstanceFriend &>(i);
  CHECK(!f.at() && !f.cls(), "there is no sub class of a class without registration");
}
ENTRY(unknown) {
  Obj b; const uint32 h = sym<uint32>("hash"); bool known = false; for (auto &d : descs) known |= JenHash(d.name).raw() == h; assume(!known);
  const size_t id = MEMBERS + sym<uint32>("id"), sub = sym<uint32>("element"); const JenHash n(h);
  CHECK(b.r.SetReflectedValue(n, "1") == Err::InvalidDestination & b.r.SetReflectedValue(n, "1", sub) == Err::InvalidDestination & b.r.SetReflectedValue(n, "1", sub, sub) == Err::InvalidDestination, "unknown names are refused");
  CHECK(b.r.SetReflectedValue(id, "1") == Err::InvalidDestination & b.r.SetReflectedValue(id, "1", sub) == Err::InvalidDestination & b.r.SetReflectedValue(id, "1", sub, sub) == Err::InvalidDestination, "unknown members are refused");
  CHECK(b.r.SetReflectedValueInt(n, 1, sub) == Err::InvalidDestination & b.r.SetReflectedValueUInt(n, 1, sub) == Err::InvalidDestination & b.r.SetReflectedValueFloat(n, 1, sub) == Err::InvalidDestination, "unknown names are refused");
  CHECK(b.r.SetReflectedValueInt(id, 1, sub) == Err::InvalidDestination & b.r.SetReflectedValueUInt(id, 1, sub) == Err::InvalidDestination & b.r.SetReflectedValueFloat(id, 1, sub) == Err::InvalidDestination, "unknown members are refused");
  CHECK(b.r.GetReflectedValue(n).empty() && b.r.GetReflectedValue(id).empty() && b.r.GetReflectedValue(n, sub).empty() && b.r.GetReflectedValue(id, sub).empty() && b.r.GetReflectedValue(n, sub, sub).empty() && b.r.GetReflectedValue(id, sub, sub).empty(), "and read as nothing");
  CHECK(b.r.GetReflectedPair(n).value.empty() && b.r.GetReflectedPair(id).name.empty(), "and have no pair"); b.same();
}
ENTRY(pairs) {
  Obj b; const size_t id = pick("member", MEMBERS); Reflector::KVPairFormat f; f.aliasName = pick("alias", 2); f.formatValue = pick("format", 2);
  if (descs[id].type == REFType::FloatingPoint) return;
  b.x = Many{}; const auto p = b.r.GetReflectedPair(id, f);
  CHECK(p.name == descs[id].name, "a pair has the name of the member"); CHECK(p.value == b.r.GetReflectedValue(id), "a pair has the value of the member");
}

// long arrays, in a class with many members, far into it
struct Far { int32 lead; uint8 gap[600]; uint8 bytes[300]; int16 words[130]; uint64 wide[40]; SVector vecs[60]; uint32 tail; void ReflectorTag(); };
REFLECTOR_CREATE(Far, 1, VARNAMES, lead, bytes, words, wide, vecs, tail);
struct FarObj {
  Far o, x; ReflectorWrap<Far> r;
  FarObj() : r(x) { memset((void *)&o, 0x5a, sizeof o); memcpy((void *)&x, (void *)&o, sizeof x); }
  void only(size_t at, size_t n) { CHECK(!memcmp((void *)&o, (void *)&x, at) && !memcmp((char *)&o + at + n, (char *)&x + at + n, sizeof o - at - n), "nothing else changes"); }
};
static const struct { const char *name; size_t at, size, items; } fars[]{{"bytes", offsetof(Far, bytes), 1, 300}, {"words", offsetof(Far, words), 2, 130}, {"wide", offsetof(Far, wide), 8, 40}};
static size_t farIndex(size_t items) { static const uint16 t[]{0, 7, 8, 15, 16, 31, 32, 39, 40, 63, 64, 127, 128, 129, 130, 255, 256, 257, 299, 300, 301, 65535}; return t[pick("index", 22)] + items * 0; }
ENTRY(far_index) {
  FarObj b; const size_t m = pick("member", 3), sub = farIndex(fars[m].items); const bool name = pick("by name", 2), text = pick("text", 2);
  Err e; uint64 want;
  if (text) { char t[2]; t[0] = '0' + below("digit", 10); t[1] = '0' + below("digit", 10); want = (t[0] - '0') * 10 + (t[1] - '0'); const es::string_view v(t, 2); e = name ? b.r.SetReflectedValue(JenHash(fars[m].name), v, sub) : b.r.SetReflectedValue(m + 1, v, sub); }
  else {
    want = sym<uint64>("value");
    if (m == 1) e = name ? b.r.SetReflectedValueInt(JenHash(fars[m].name), (int64)want, sub) : b.r.SetReflectedValueInt(m + 1, (int64)want, sub);
    else e = name ? b.r.SetReflectedValueUInt(JenHash(fars[m].name), want, sub) : b.r.SetReflectedValueUInt(m + 1, want, sub);
  }
  CHECK((sub < fars[m].items) == (e == Err::None), "elements out of range are refused");
  if (sub >= fars[m].items) { b.only(0, 0); return; }
  b.only(fars[m].at + fars[m].size * sub, fars[m].size);
  uint64 got = 0; memcpy(&got, (char *)&b.x + fars[m].at + fars[m].size * sub, fars[m].size);
  CHECK(got == cut(want, fars[m].size), "the element is stored");
}
ENTRY(far_vectors) {
  FarObj b; const size_t sub = farIndex(60), el = pick("number", 4); char t[1]; t[0] = '0' + below("digit", 10);
  const Err e = b.r.SetReflectedValue(4, es::string_view(t, 1), sub, el);
  CHECK((sub < 60 && el < 3) == (e == Err::None), "numbers of vectors out of range are refused");
  if (e != Err::None) { b.only(0, 0); return; }
  b.only(offsetof(Far, vecs) + 6 * sub + 2 * el, 2);
  int16 got; memcpy(&got, (char *)&b.x.vecs[sub] + 2 * el, 2); CHECK(got == t[0] - '0', "the number is stored");
  CHECK(b.r.GetReflectedValue(4, sub, el) == std::string(t, 1), "the number is read");
}
ENTRY(far_whole) {
  FarObj b; const size_t m = pick("member", 3), more = pick("more", 4), n = more == 3 ? fars[m].items / 2 : fars[m].items + more - 1; const uint8 d = below("digit", 10);
  std::string t("{"); for (size_t i = 0; i < n; i++) { if (i) t += ", "; t += (char)('0' + (i == n - 1 || i == n / 2 ? d : i % 10)); } t += '}';
  const Err e = b.r.SetReflectedValue(m + 1, t);
  const size_t k = n < fars[m].items ? n : fars[m].items; b.only(fars[m].at, fars[m].size * k);
  bool ok = true; for (size_t i = 0; i < k; i++) { uint64 got = 0; memcpy(&got, (char *)&b.x + fars[m].at + fars[m].size * i, fars[m].size); ok &= got == (i == n - 1 || i == n / 2 ? d : i % 10); }
  CHECK(ok, "elements are stored in order"); CHECK((e == Err::OutOfRange) == (n > fars[m].items), "too many elements are reported");
  const std::string back = b.r.GetReflectedValue(m + 1);
  if (k == fars[m].items && n == k) CHECK(back == t, "the array is read as it was given");
}
