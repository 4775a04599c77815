//! bounds objects with members of every kind saved as data (numbers of 1 to 8 bytes, booleans, floating point, enumerations, flags, bit fields, texts of up to 3 bytes, texts of 7 to 300 and of about 65536 bytes and arrays of 100 and 200 numbers and of 258 classes with some elements arbitrary, vectors, arrays of each, classes nested to depth 4 and arrays of them): every value of the members under scrutiny, two at a time, the rest fixed; both byte orders; data cut off at every byte; other versions made by renaming, reordering, retyping and adding members
//! outside classes of more than 255 bytes inside arrays and members more than 64 KiB into a class (the description has no room for them, C22), values of members whose type changed between versions, longer texts with arbitrary contents throughout
//! flags * --timeout 150
#include "refl.h"
#include <sstream>
#include "datas/reflector_io.cpp"
#include "datas/refl_array.hpp"

REFLECTOR_CREATE(Kind, ENUM, 2, CLASS, 16, One = 1, Two, Far = 0x8000);
REFLECTOR_CREATE(Bits, ENUM, 2, CLASS, 8, B0, B1, B2, B3);
typedef es::Flags<Bits, uint8> Flags8;
typedef es::Flags<Bits, uint16> Flags16;
typedef BitMemberDecl<0, 5> F0; typedef BitMemberDecl<1, 27> F1;
typedef BitFieldType<uint32, F0, F1> Field;
REFLECTOR_CREATE(Field, BITFIELD, 1, VARNAMES, F0, F1);

struct Leaf { int16 p; uint8 q; float f; void ReflectorTag(); };
REFLECTOR_CREATE(Leaf, 1, VARNAMES, p, q, f);
struct Twig { uint8 head; Leaf leaf; Leaf leaves[2]; std::string name; void ReflectorTag(); };
REFLECTOR_CREATE(Twig, 1, VARNAMES, head, leaf, leaves, name);
struct Branch { uint16 head; Twig twig; Leaf other; void ReflectorTag(); };
REFLECTOR_CREATE(Branch, 1, VARNAMES, head, twig, other);
struct Tree { Leaf first; Branch branch; uint32 tail; void ReflectorTag(); };
REFLECTOR_CREATE(Tree, 1, VARNAMES, first, branch, tail);

struct Many {
  bool b; int8 i8; uint8 u8; int16 i16; uint16 u16; int32 i32; uint32 u32; int64 i64; uint64 u64; float f; double d; Kind e; Flags8 fl; Flags16 fw; Field bf; std::string s;
  void ReflectorTag();
};
REFLECTOR_CREATE(Many, 1, VARNAMES, b, i8, u8, i16, u16, i32, u32, i64, u64, f, d, e, fl, fw, bf, s);
struct Groups {
  int16 ai[3]; uint8 ab[2]; bool abo[2]; double ad[2]; SVector v; CVector2 cv; Vector4 v4; SVector va[2]; Kind ae[2]; Flags8 af[2]; std::string as[2]; std::array<uint32, 2> su;
  void ReflectorTag();
};
REFLECTOR_CREATE(Groups, 1, VARNAMES, ai, ab, abo, ad, v, cv, v4, va, ae, af, as, su);

template <class T> static void reg() { RegisterReflectedTypes<Kind, Bits, Field, Leaf, Twig, Branch>(); }
static std::string text(const char *n, size_t max) { char t[4]; const size_t l = pick(n, max + 1); symBytes(t, l, n); return std::string(t, l); }

static const char TRAIL[] = "\x11\x22\x33\x44\x55";
// saves one object and loads it into the other, with bytes in front and behind
template <class T> static void through(T &from, T &into, bool swapped = false, size_t front = 3) {
  std::stringstream str;
  str.write(TRAIL, front);
  ReflectorWrap<T> rf(from), ri(into);
  BinWritterRef wr(str);
  wr.SwapEndian(swapped);
  CHECK(ReflectorBinUtil::Save(rf, wr) == 0, "an object is saved");
  const size_t end = wr.Tell();
  str.write(TRAIL, 5);
  BinReaderRef rd(str);
  rd.SwapEndian(swapped);
  rd.Seek(front);
  CHECK(ReflectorBinUtil::Load(ri, rd) == 0, "a saved object is loaded");
  CHECK(rd.Tell() == end, "the stream is behind the record");
}
template <class V> static bool eq(const V &a, const V &b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool eq(const std::string &a, const std::string &b) { return a == b; }

static void fill(Many &m) {
  m.b = true; m.i8 = -3; m.u8 = 200; m.i16 = -300; m.u16 = 60000; m.i32 = 7; m.u32 = 0x80000000; m.i64 = -5; m.u64 = 1ull << 40; m.f = 1.5f; m.d = -2.25; m.e = Kind::Far;
  m.fl = 5; m.fw = 0x8001; uint32 r = 0xabcdef01; memcpy((void *)&m.bf, &r, 4); m.s = "pq";
}
static void blank(Many &m) { m.s = "other text"; m.b = false; m.i8 = 0; m.u8 = 1; m.i16 = 2; m.u16 = 3; m.i32 = -4; m.u32 = 5; m.i64 = 6; m.u64 = 7; m.f = 0; m.d = 0; m.e = Kind::One; m.fl = 0; m.fw = 0; memset((void *)&m.bf, 0, 4); }
static bool same(const Many &a, const Many &b) {
  return (a.b == b.b) & eq(a.i8, b.i8) & eq(a.u8, b.u8) & eq(a.i16, b.i16) & eq(a.u16, b.u16) & eq(a.i32, b.i32) & eq(a.u32, b.u32) & eq(a.i64, b.i64) & eq(a.u64, b.u64) &
         eq(a.f, b.f) & eq(a.d, b.d) & eq(a.e, b.e) & eq(a.fl, b.fl) & eq(a.fw, b.fw) & eq(a.bf, b.bf) & (a.s == b.s);
}
template <class V> static void anyOf(V &v, const char *n) { symBytes((void *)&v, sizeof v, n); }
// one member is any value
static void scalar(size_t m, bool swapped) {
  reg<void>();
  Many a, b; fill(a); blank(b);
  switch (m) {
  case 0: a.b = sym<bool>("value"); break;
  case 1: anyOf(a.i8, "value"); anyOf(a.u8, "value"); break;
  case 2: anyOf(a.i16, "value"); break;
  case 3: anyOf(a.u16, "value"); break;
  case 4: anyOf(a.i32, "value"); break;
  case 5: anyOf(a.u32, "value"); break;
  case 6: anyOf(a.i64, "value"); break;
  case 7: anyOf(a.u64, "value"); break;
  case 8: anyOf(a.f, "value"); anyOf(a.d, "value"); break;
  case 9: anyOf(a.e, "value"); break;
  case 10: anyOf(a.fl, "value"); break;
  case 11: anyOf(a.fw, "value"); break;
  case 12: anyOf(a.bf, "value"); break;
  default: a.s = text("text", 3); break;
  }
  const Many was = a;
  through(a, b, swapped);
  CHECK(same(a, b), "a loaded object equals the saved one");
  CHECK(same(a, was), "saving leaves the object alone");
}
ENTRY(scalars) { scalar(pick("member", 14), false); }
ENTRY(scalars_swapped) { scalar(pick("member", 14), true); }
ENTRY(two_scalars) {
  reg<void>();
  Many a, b; fill(a); blank(b);
  anyOf(a.i16, "value"); anyOf(a.u32, "value"); a.s = text("text", 2);
  through(a, b);
  CHECK(same(a, b), "a loaded object equals the saved one");
}
static void fill(Groups &g) {
  for (int i = 0; i < 3; i++) g.ai[i] = (int16)(i * 1000 - 900);
  g.ab[0] = 1, g.ab[1] = 255; g.abo[0] = true, g.abo[1] = false; g.ad[0] = 0.5, g.ad[1] = -8;
  g.v = SVector(1, -2, 300); g.cv = CVector2(-1, 2); g.v4 = Vector4(1, 2, 3, 4); g.va[0] = SVector(4, 5, 6); g.va[1] = SVector(-4, -5, -6000);
  g.ae[0] = Kind::Two, g.ae[1] = Kind::Far; g.af[0] = 1; g.af[1] = 2; g.as[0] = "a"; g.as[1] = ""; g.su[0] = 1, g.su[1] = 1u << 30;
}
static bool same(const Groups &a, const Groups &b) {
  return eq(a.ai, b.ai) & eq(a.ab, b.ab) & eq(a.abo, b.abo) & eq(a.ad, b.ad) & eq(a.v, b.v) & eq(a.cv, b.cv) & eq(a.v4, b.v4) & eq(a.va, b.va) & eq(a.ae, b.ae) & eq(a.af, b.af) &
         (a.as[0] == b.as[0]) & (a.as[1] == b.as[1]) & eq(a.su, b.su);
}
ENTRY(groups) {
  reg<void>();
  Groups a, b; fill(a);
  b.as[0] = "zz"; b.as[1] = "yyyy";
  memset(b.ai, 7, sizeof b.ai); memset(b.ab, 7, sizeof b.ab); memset(b.abo, 0, sizeof b.abo); memset(b.ad, 0, sizeof b.ad); b.v = SVector(9, 9, 9); b.cv = CVector2(9, 9); b.v4 = Vector4(9, 9, 9, 9);
  b.va[0] = b.va[1] = b.v; b.ae[0] = b.ae[1] = Kind::One; b.af[0] = 0; b.af[1] = 0; b.su[0] = b.su[1] = 9;
  switch (pick("member", 12)) {
  case 0: anyOf(a.ai[0], "value"); anyOf(a.ai[2], "value"); break;
  case 1: anyOf(a.ab, "value"); break;
  case 2: a.abo[0] = sym<bool>("value"); a.abo[1] = sym<bool>("value"); break;
  case 3: anyOf(a.ad, "value"); break;
  case 4: anyOf(a.v.x, "value"); anyOf(a.v.z, "value"); break;
  case 5: anyOf(a.cv, "value"); break;
  case 6: anyOf(a.v4.x, "value"); anyOf(a.v4.w, "value"); break;
  case 7: anyOf(a.va[0].y, "value"); anyOf(a.va[1].z, "value"); break;
  case 8: anyOf(a.ae[0], "value"); anyOf(a.ae[1], "value"); break;
  case 9: anyOf(a.af, "value"); break;
  case 10: a.as[0] = text("text", 2); a.as[1] = text("text", 2); break;
  default: anyOf(a.su[1], "value"); break;
  }
  through(a, b);
  CHECK(same(a, b), "a loaded object equals the saved one");
}
// long members: fixed content with arbitrary elements at the front, in the middle and at the end
struct Long { uint8 head; uint8 bytes[200]; uint16 words[100]; uint32 tail; std::string text; void ReflectorTag(); };
REFLECTOR_CREATE(Long, 1, VARNAMES, head, bytes, words, tail, text);
struct Outer { Long one; uint64 last; void ReflectorTag(); };
REFLECTOR_CREATE(Outer, 1, VARNAMES, one, last);
ENTRY(long_members) {
  RegisterReflectedTypes<Long>();
  Outer a, b; memset(b.one.bytes, 7, sizeof b.one.bytes); memset(b.one.words, 7, sizeof b.one.words); b.one.tail = b.last = 9; b.one.text = "old";
  a.one.head = 1; b.one.head = 3; a.last = 1ull << 60; a.one.tail = 5;
  fillBytes(a.one.bytes, sizeof a.one.bytes, "bytes"); fillBytes(a.one.words, sizeof a.one.words, "none", 0); a.one.words[99] = sym<uint16>("word");
  const size_t n = pick("long", 2) ? bigSize("length") : pick("length", 2) ? 65535 : 65537; a.one.text.assign(n, 'x');
  for (size_t i = 0; i < n; i += 7) a.one.text[i] = (char)('a' + i % 26);
  a.one.text[n / 2] = sym<char>("c"); a.one.text[n - 1] = sym<char>("c");
  const Outer was = a;
  through(a, b, pick("swapped", 2));
  CHECK(eq(a.one.head, b.one.head) & eq(a.one.bytes, b.one.bytes) & eq(a.one.words, b.one.words) & eq(a.one.tail, b.one.tail) & eq(a.last, b.last), "a loaded object with long members equals the saved one");
  CHECK(a.one.text == b.one.text, "a long text is loaded as it was saved");
  CHECK(eq(a.one.bytes, was.one.bytes) & eq(a.one.words, was.one.words) & (a.one.text == was.one.text), "saving leaves the object alone");
}
// a list of more classes than a byte can count
struct Parts { Leaf parts[258]; uint8 after; void ReflectorTag(); };
REFLECTOR_CREATE(Parts, 1, VARNAMES, parts, after);
ENTRY(many_parts) {
  RegisterReflectedTypes<Leaf>();
  static Parts a, b; const size_t at[]{0, 1, 2, 256, 257};
  for (size_t i = 0; i < 258; i++) { a.parts[i].p = (int16)i; a.parts[i].q = (uint8)(i / 2); a.parts[i].f = 0.5f; b.parts[i].p = b.parts[i].q = 0; }
  for (size_t i : at) a.parts[i].q = sym<uint8>("q");
  a.parts[257].p = sym<int16>("p"); a.after = 7;
  through(a, b, pick("swapped", 2));
  bool r = b.after == 7; for (size_t i = 0; i < 258; i++) r &= eq(a.parts[i].p, b.parts[i].p) & eq(a.parts[i].q, b.parts[i].q) & (fbits(b.parts[i].f) == fbits(0.5f));
  CHECK(r, "every class of a long list is loaded as it was saved");
}
static void fill(Leaf &l, int k) { l.p = (int16)(k * 3000 - 200); l.q = (uint8)(k * 50); l.f = k * 0.5f; }
static void fill(Tree &t) {
  fill(t.first, 1); t.branch.head = 17; t.branch.twig.head = 3; fill(t.branch.twig.leaf, 2); fill(t.branch.twig.leaves[0], 3); fill(t.branch.twig.leaves[1], 4); t.branch.twig.name = "n";
  fill(t.branch.other, 5); t.tail = 0x12345678;
}
static bool same(const Leaf &a, const Leaf &b) { return eq(a.p, b.p) & eq(a.q, b.q) & eq(a.f, b.f); }
static bool same(const Tree &a, const Tree &b) {
  return same(a.first, b.first) & eq(a.branch.head, b.branch.head) & eq(a.branch.twig.head, b.branch.twig.head) & same(a.branch.twig.leaf, b.branch.twig.leaf) &
         same(a.branch.twig.leaves[0], b.branch.twig.leaves[0]) & same(a.branch.twig.leaves[1], b.branch.twig.leaves[1]) & (a.branch.twig.name == b.branch.twig.name) &
         same(a.branch.other, b.branch.other) & eq(a.tail, b.tail);
}
static void zero(Tree &t) { t.branch.twig.name = "gone"; Leaf *l[] = {&t.first, &t.branch.twig.leaf, t.branch.twig.leaves, t.branch.twig.leaves + 1, &t.branch.other}; for (auto p : l) p->p = 99, p->q = 99, p->f = 99; t.branch.head = 99; t.branch.twig.head = 99; t.tail = 99; }
static void nest(bool swapped) {
  reg<void>();
  Tree a, b; fill(a); zero(b);
  Leaf *l[] = {&a.first, &a.branch.twig.leaf, a.branch.twig.leaves, a.branch.twig.leaves + 1, &a.branch.other};
  const size_t m = pick("member", 9);
  if (m < 5) { anyOf(l[m]->p, "value"); anyOf(l[m]->q, "value"); anyOf(l[m]->f, "value"); }
  else if (m == 5) anyOf(a.branch.head, "value");
  else if (m == 6) anyOf(a.branch.twig.head, "value");
  else if (m == 7) a.branch.twig.name = text("text", 3);
  else anyOf(a.tail, "value");
  through(a, b, swapped);
  CHECK(same(a, b), "a loaded object with objects inside equals the saved one");
}
ENTRY(nested) { nest(false); }
ENTRY(nested_swapped) { nest(true); }
ENTRY(twice) { // two records behind each other
  reg<void>();
  Leaf a, b, c, d; fill(a, 1); fill(b, 2); fill(c, 7); fill(d, 7); anyOf(a.p, "value"); anyOf(b.p, "value");
  std::stringstream str; ReflectorWrap<Leaf> ra(a), rb(b), rc(c), rd_(d); BinWritterRef wr(str);
  CHECK(!ReflectorBinUtil::Save(ra, wr) && !ReflectorBinUtil::Save(rb, wr), "objects are saved");
  BinReaderRef rd(str);
  CHECK(!ReflectorBinUtil::Load(rc, rd) && !ReflectorBinUtil::Load(rd_, rd), "objects are loaded");
  CHECK(same(a, c) && same(b, d), "records are read one after the other");
}

// ---- other versions of a class
struct Cell { int16 p; uint8 q; uint32 r; std::string s; float f; void ReflectorTag(); };
REFLECTOR_CREATE(Cell, 1, VARNAMES, p, q, r, s, f);
static const size_t CELLS = 5;
static void fill(Cell &c) { c.p = -7; c.q = 3; c.r = 100000; c.s = "tx"; c.f = 0.25f; }
static void blank(Cell &c) { c.p = 55; c.q = 55; c.r = 55; c.s = "old"; c.f = 55; }
// a description of the class as another version has it
struct Version {
  alignas(reflectorStatic) char mem[sizeof(reflectorStatic)];
  reflType types[8];
  size_t n;
  Version(const reflectorStatic *base) { memcpy(mem, base, sizeof mem); n = base->nTypes; memcpy((void *)types, base->types, n * sizeof *types); }
  const reflectorStatic *get() {
    const reflType *t = types; const uint32 c = (uint32)n; const void *none = nullptr;
    memcpy(mem + offsetof(reflectorStatic, types), &t, sizeof t);
    memcpy(mem + offsetof(reflectorStatic, nTypes), &c, sizeof c);
    memcpy(mem + offsetof(reflectorStatic, typeAliasHashes), &none, sizeof none);
    return (const reflectorStatic *)mem;
  }
  void swap(size_t a, size_t b) { reflType t; memcpy((void *)&t, &types[a], sizeof t); memcpy((void *)&types[a], &types[b], sizeof t); memcpy((void *)&types[b], &t, sizeof t); types[a].ID = (uint8)a; types[b].ID = (uint8)b; }
};
struct Stored {
  std::stringstream str; size_t end;
  template <class T> void save(T &o, const reflectorStatic *as) {
    ReflectedInstance inst(as, &o); ReflectorPureWrap r(inst); BinWritterRef wr(str);
    CHECK(ReflectorBinUtil::Save(r, wr) == 0, "an object is saved");
    end = wr.Tell(); str.write(TRAIL, 5);
  }
};
template <class T> static int load(Stored &s, T &o, const reflectorStatic *as, size_t *at = nullptr) {
  ReflectedInstance inst(as, &o); ReflectorPureWrap r(inst); BinReaderRef rd(s.str);
  const int e = ReflectorBinUtil::Load(r, rd);
  if (at) *at = rd.Tell();
  return e;
}
// members renamed and reordered since: the others are still right
ENTRY(renamed) {
  Cell a, b; fill(a); blank(b); anyOf(a.p, "value"); anyOf(a.f, "value");
  const size_t gone = pick("renamed", CELLS + 1), x = pick("first", CELLS), y = pick("second", CELLS); assume(x <= y);
  Version v(GetReflectedClass<Cell>());
  if (gone < CELLS) v.types[gone].valueNameHash = JenHash("something else");
  v.swap(x, y);
  Stored s; s.save(a, v.get());
  size_t at; const int e = load(s, b, GetReflectedClass<Cell>(), &at);
  Cell c; blank(c);
  CHECK(e == 0, "members of another version are no error");
  CHECK(at == s.end, "the stream is behind the record of another version");
  CHECK(b.p == (gone == 0 ? c.p : a.p) && b.q == (gone == 1 ? c.q : a.q) && b.r == (gone == 2 ? c.r : a.r) && b.s == (gone == 3 ? c.s : a.s) && eq(b.f, gone == 4 ? c.f : a.f),
        "matched members are loaded, others keep their value");
}
// a member that had another type: the others are still right
ENTRY(retyped) {
  struct Other { int16 p; uint64 wide; uint32 r; std::string s; float f; } ;
  Cell a, b; fill(a); blank(b);
  const size_t m = pick("member", CELLS), kind = pick("as", 5);
  Version v(GetReflectedClass<Cell>());
  uint64 wide[2] = {0, 0}; anyOf(wide[0], "value");
  struct Both { Cell c; double d; uint64 u; std::string t; uint8 o; Leaf l; } both{a, 0.5, 0, "long text", 1, {}};
  anyOf(both.u, "value"); fill(both.l, 3);
  reflType &t = v.types[m];
  t.numItems = 0;
  switch (kind) {
  case 0: t.type = REFType::FloatingPoint; t.subSize = 8; t.offset = offsetof(Both, d); break;
  case 1: t.type = REFType::UnsignedInteger; t.subSize = 8; t.offset = offsetof(Both, u); break;
  case 2: t.type = REFType::Bool; t.subSize = 1; t.offset = offsetof(Both, o); break;
  case 3: t.type = REFType::Integer; t.subSize = 1; t.offset = offsetof(Both, o); break;
  default: t.type = REFType::FloatingPoint; t.subSize = 4; t.offset = offsetof(Both, c) + offsetof(Cell, f); break;
  }
  assume(m != 3); // a number is no text: its bytes are not a length
  Stored s; s.save(both, v.get());
  size_t at; load(s, b, GetReflectedClass<Cell>(), &at);
  CHECK(at == s.end, "the stream is behind the record of another version");
  CHECK((m == 0 || b.p == a.p) && (m == 1 || b.q == a.q) && (m == 2 || b.r == a.r) && b.s == a.s && (m == 4 || eq(b.f, a.f)), "members behind one of another type are loaded");
}
// a whole number that grew keeps its value
ENTRY(widened) {
  struct Small { int16 a; uint16 b; uint32 c; int32 d; void *e; }; 
  struct Now { int64 a; uint32 b; uint64 c; int64 d; } ;
  Version was(GetReflectedClass<Cell>()), now(GetReflectedClass<Cell>());
  Small o{}; anyOf(o.a, "value"); anyOf(o.b, "value"); o.c = 0x90000000; o.d = -5;
  Now n{1, 2, 3, 4};
  was.n = now.n = 4;
  const uint8 from[] = {2, 2, 4, 4}, to[] = {8, 4, 8, 8};
  const size_t fo[] = {offsetof(Small, a), offsetof(Small, b), offsetof(Small, c), offsetof(Small, d)}, tt[] = {offsetof(Now, a), offsetof(Now, b), offsetof(Now, c), offsetof(Now, d)};
  for (size_t i = 0; i < 4; i++) {
    was.types[i].type = now.types[i].type = i == 0 || i == 3 ? REFType::Integer : REFType::UnsignedInteger;
    was.types[i].subSize = from[i]; now.types[i].subSize = to[i]; was.types[i].offset = (uint16)fo[i]; now.types[i].offset = (uint16)tt[i];
  }
  Stored s; s.save(o, was.get());
  CHECK(load(s, n, now.get()) == 0, "members of another version are no error");
  CHECK(n.a == o.a && n.b == o.b && n.c == o.c && n.d == o.d, "a whole number that grew keeps its value");
}
// a version with another number of members is refused
ENTRY(counted) {
  Cell a, b; fill(a); blank(b); anyOf(a.r, "value");
  Version v(GetReflectedClass<Cell>());
  v.n = pick("members", CELLS + 3);
  for (size_t i = CELLS; i < v.n; i++) { memcpy((void *)&v.types[i], &v.types[0], sizeof v.types[0]); v.types[i].valueNameHash = JenHash((uint32)(i + 1)); v.types[i].ID = (uint8)i; }
  assume(v.n != CELLS);
  Stored s; s.save(a, v.get());
  size_t at; const int e = load(s, b, GetReflectedClass<Cell>(), &at);
  CHECK(e != 0, "a version with another number of members is refused");
  CHECK(at == s.end, "the stream is behind the refused record");
  CHECK(b.p == 55 && b.q == 55 && b.r == 55 && b.s == "old" && b.f == 55, "a refused record changes nothing");
}
// a nested object of another version is refused, the rest is loaded
ENTRY(counted_inside) {
  reg<void>();
  struct Holder { Leaf first; Leaf second; uint16 tail; };
  Version v(GetReflectedClass<Leaf>());
  const size_t n = pick("members", 3);
  Tree a, b; fill(a); zero(b); anyOf(a.tail, "value");
  v.n = n;
  const reflectorStatic *now = GetReflectedClass<Leaf>();
  REFSubClassStorage[now->classHash] = v.get();
  Stored s; s.save(a, GetReflectedClass<Tree>());
  REFSubClassStorage[now->classHash] = now;
  size_t at; const int e = load(s, b, GetReflectedClass<Tree>(), &at);
  CHECK(at == s.end, "the stream is behind the record");
  CHECK(b.tail == a.tail && b.branch.head == a.branch.head && b.branch.twig.name == a.branch.twig.name && b.branch.twig.head == a.branch.twig.head, "the members around a refused object are loaded");
  CHECK(b.first.p == 99 && b.branch.other.q == 99 && b.branch.twig.leaf.p == 99, "a refused object keeps its value");
  CHECK(e != 0, "that an object inside was refused is reported");
}
// data of another class
ENTRY(foreign) {
  Cell a, b; fill(a); blank(b);
  std::stringstream str; ReflectorWrap<Cell> ra(a), rb(b); BinWritterRef wr(str);
  wr.Write(sym<uint32>("front")); const size_t start = 4;
  ReflectorBinUtil::Save(ra, wr);
  const uint32 h = sym<uint32>("class");
  const bool own = JenHash(h) == GetReflectedClass<Cell>()->classHash;
  wr.Seek(start); wr.Write(h);
  BinReaderRef rd(str); rd.Seek(start);
  const int e = ReflectorBinUtil::Load(rb, rd);
  CHECK((e == 0) == own, "only data of the class is loaded");
  CHECK(own || (b.p == 55 && b.q == 55 && b.r == 55 && b.s == "old" && b.f == 55), "data of another class changes nothing");
  CHECK(own || rd.Tell() == start, "data of another class is left in the stream");
}
// data cut off
ENTRY(cut) {
  Cell a, b; fill(a); blank(b);
  a.s = "t";
  std::stringstream str; ReflectorWrap<Cell> ra(a), rb(b); BinWritterRef wr(str);
  ReflectorBinUtil::Save(ra, wr);
  const std::string all = str.str();
  const size_t n = below("length", 64); assume(n < all.size());
  std::stringstream part(all.substr(0, __sx_concretize(n)));
  BinReaderRef rd(part);
  CHECK(ReflectorBinUtil::Load(rb, rd) != 0, "data cut off is refused");
  CHECK(b.p == 55 && b.q == 55 && b.r == 55 && b.s == "old" && b.f == 55, "data cut off changes nothing");
}
// a member that cannot be saved is reported
struct Plain { int32 a; const char *c; void ReflectorTag(); };
REFLECTOR_CREATE(Plain, 1, VARNAMES, a, c);
ENTRY(unsaved) {
  Plain p{3, "text"}; std::stringstream str; ReflectorWrap<Plain> r(p); BinWritterRef wr(str);
  CHECK(ReflectorBinUtil::Save(r, wr) != 0, "a member that cannot be saved is reported");
}
