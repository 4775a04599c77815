//! bounds enumerations of 8 to 64 bits with values given in decimal, hexadecimal, octal, negative, repeated, implicit; every text of up to 5 bytes (thorough 6) and every text made of a name with other bytes around; every raw value of up to 32 bits, windows of 1024 values of 64 bits
//! outside enumerators given by an expression or another enumerator (the library reads the literal only)
#include "refl.h"

REFLECTOR_CREATE(Small, ENUM, 2, CLASS, 8, A, BB, Bc, D_1 = 0x10, E, F = 9, Gg = 9, Last = 0xff);
REFLECTOR_CREATE(Mid, ENUM, 2, CLASS, 16, A = 300, BB = 16586, Q = 0x8bcd, R);
REFLECTOR_CREATE(Big, ENUM, 2, CLASS, 32, A = 0x80000000, BB, Bcd = 4294967295);
REFLECTOR_CREATE(Huge, ENUM, 2, CLASS, 64, A = 0x8000000000000000, BB, C = 0xffffffff, D, Z = 18446744073709551615);
REFLECTOR_CREATE(Plain, ENUM, 0, P_A, P_B = -2, P_C, P_D, P_E = 7);
REFLECTOR_CREATE(Bases, ENUM, 2, CLASS, 16, O = 010, H = 0X1f, C =0x2a, D= 7, E=9, F = 0xfFu, G = 5l, H2, Z = 0, Y);
REFLECTOR_CREATE(Stray, ENUM, 2, CLASS, 8, A, BB);
struct Holds { uint8 g0; Small a; uint16 g1; Mid b; uint16 g2; Big c; Huge d; Plain e; Stray f; uint8 g3; Small arr[3]; uint8 g4; void ReflectorTag(); };
REFLECTOR_CREATE(Holds, 1, VARNAMES, a, b, c, d, e, f, arr);
struct One { const char *name; uint64 value; };
static const One smalls[]{{"A", 0}, {"BB", 1}, {"Bc", 2}, {"D_1", 16}, {"E", 17}, {"F", 9}, {"Gg", 9}, {"Last", 255}}, mids[]{{"A", 300}, {"BB", 16586}, {"Q", 0x8bcd}, {"R", 0x8bce}},
  bigs[]{{"A", 0x80000000}, {"BB", 0x80000001}, {"Bcd", 0xffffffff}}, huges[]{{"A", 1ull << 63}, {"BB", (1ull << 63) + 1}, {"C", 0xffffffff}, {"D", 0x100000000}, {"Z", ~0ull}},
  plains[]{{"P_A", 0}, {"P_B", 0xfffffffe}, {"P_C", 0xffffffff}, {"P_D", 0}, {"P_E", 7}};
struct Desc { const One *l; size_t n, at, size; };
static const Desc descs[]{{smalls, 8, offsetof(Holds, a), 1}, {mids, 4, offsetof(Holds, b), 2}, {bigs, 3, offsetof(Holds, c), 4}, {huges, 5, offsetof(Holds, d), 8}, {plains, 5, offsetof(Holds, e), 4}};
static const char *const names = "abcde";
struct Obj {
  Holds o, x; ReflectorWrap<Holds> r;
  Obj() : r(x) { symBytes(&o, sizeof o, "before"); memcpy(&x, &o, sizeof x); RegisterReflectedTypes<Mid, Small, Huge, Plain, Big>(); }
  void only(size_t at, size_t n) { uint8 d = 0; const uint8 *a = (uint8 *)&o, *b = (uint8 *)&x; for (size_t i = 0; i < sizeof o; i++) if (i < at || i >= at + n) d |= a[i] ^ b[i]; CHECK(!d, "nothing else changes"); }
  uint64 raw(const Holds &h, const Desc &d) { uint64 v = 0; memcpy(&v, (const char *)&h + d.at, d.size); return v; }
};
static bool same(const char *n, const char *t, size_t l) { if (strlen(n) != l) return false; bool r = true; for (size_t i = 0; i < l; i++) r &= n[i] == t[i]; return r; }
static void judge(Obj &b, const Desc &d, const char *t, size_t n, Err e) {
  while (n && (*t == ' ' || *t == 9)) t++, n--;
  while (n && (t[n - 1] == ' ' || t[n - 1] == 9)) n--;
  uint64 v = 0; bool known = false;
  for (size_t i = d.n; i--;) { const bool s = same(d.l[i].name, t, n); known |= s; v = s ? d.l[i].value : v; }
  CHECK(known == (e == Err::None), "names of the enumeration are accepted, others refused");
  CHECK(b.raw(b.x, d) == (known ? v : b.raw(b.o, d)), "the value of the name is stored, or nothing"); b.only(d.at, d.size);
}
static void any(size_t m) {
  Obj b; char t[6]; const size_t n = pick("length", TIER(6, 7)); symBytes(t, n, "text");
  const Err e = b.r.SetReflectedValue(m, es::string_view(t, n)); judge(b, descs[m], t, n, e);
}
ENTRY(any_small) { any(0); }
ENTRY(any_mid) { any(1); }
ENTRY(any_big) { any(2); }
ENTRY(any_huge) { any(3); }
ENTRY(any_plain) { any(4); }
// a name among other bytes
ENTRY(around) {
  Obj b; const size_t m = pick("member", 5); const Desc &d = descs[m]; char t[12]; size_t n = 0; const size_t pre = pick("before", 3), post = pick("after", 3);
  for (size_t i = 0; i < pre; i++) t[n++] = sym<char>("char");
  for (const char *s = d.l[pick("name", d.n)].name; *s; s++) t[n++] = *s;
  for (size_t i = 0; i < post; i++) t[n++] = sym<char>("char");
  const Err e = pick("by name", 2) ? b.r.SetReflectedValue(JenHash(es::string_view(names + m, 1)), es::string_view(t, n)) : b.r.SetReflectedValue(m, es::string_view(t, n));
  judge(b, d, t, n, e);
}
static void reads(size_t m) {
  Obj b; const Desc &d = descs[m];
  if (d.size == 8) { // windows around the values: writing 64 bit numbers into messages is hard to reason about
    static const uint64 from[]{0, (1ull << 63) - 512, 0xffffffff - 512, ~0ull - 1023, 0x1234567812340000};
    const uint64 w = from[pick("window", 5)] + below("value", 1024); memcpy((char *)&b.x + d.at, &w, 8); memcpy((char *)&b.o + d.at, &w, 8);
  }
  const uint64 v = b.raw(b.o, d);
  const std::string t = b.r.GetReflectedValue(m); b.only(0, 0);
  // the first name of the value
  const char *want = ""; for (size_t i = d.n; i--;) if (d.l[i].value == v) want = d.l[i].name;
  CHECK(t == want, "a value reads as its name, one without a name as nothing");
  if (t.empty()) return;
  const uint64 junk = sym<uint64>("junk"); memcpy((char *)&b.x + d.at, &junk, d.size);
  CHECK(b.r.SetReflectedValue(m, t) == Err::None, "what was read is accepted"); b.only(0, 0);
}
ENTRY(read_small) { reads(0); }
ENTRY(read_mid) { reads(1); }
ENTRY(read_big) { reads(2); }
ENTRY(read_huge) { reads(3); }
ENTRY(read_plain) { reads(4); }
ENTRY(unregistered) {
  Obj b; CHECK(b.r.SetReflectedValue(5, "A") == Err::InvalidDestination, "enumerations without registration are refused"); CHECK(b.r.GetReflectedValue(5).empty(), "and read as nothing"); b.only(0, 0);
}
ENTRY(array) {
  Obj b; const size_t i = pick("element", 5), k = pick("name", 8); const Err e = b.r.SetReflectedValue(6, smalls[k].name, i);
  CHECK((e == Err::None) == (i < 3), "elements out of range are refused");
  if (i < 3) { CHECK((uint8)b.x.arr[i] == smalls[k].value, "the value of the name is stored"); b.only(offsetof(Holds, arr) + i, 1); CHECK(b.r.GetReflectedValue(6, i) == smalls[k == 6 ? 5 : k].name, "and reads as the name"); } else b.only(0, 0);
}
template <class E> static void table(const One *l, size_t n, const char *name, const E *real) {
  ReflectedEnum e = GetReflectedEnum<E>(); ReflectedEnum again = GetReflectedEnum<E>();
  CHECK(e.size() == n & again.size() == n, "every enumerator is there"); CHECK(e.name == name, "with the name of the enumeration"); CHECK(e.hash == JenHash(name) & again.values == e.values, "and its hash");
  for (size_t i = 0; i < n; i++) { CHECK(e[i] == l[i].name, "names in order"); uint64 r = 0; memcpy(&r, real + i, sizeof(E)); CHECK(e.values[i] == r, "values as the compiler has them"); CHECK(e.values[i] == l[i].value, "values in order"); }
  const uint64 v = sym<uint64>("value"); const es::string_view f = e.find(v); const char *want = nullptr; for (size_t i = n; i--;) if (l[i].value == v) want = l[i].name;
  CHECK(want ? f == want : f.empty(), "find gives the first name of a value");
}
ENTRY(tables) {
  static const Small s[]{Small::A, Small::BB, Small::Bc, Small::D_1, Small::E, Small::F, Small::Gg, Small::Last}; static const Mid m[]{Mid::A, Mid::BB, Mid::Q, Mid::R}; static const Big g[]{Big::A, Big::BB, Big::Bcd};
  static const Huge h[]{Huge::A, Huge::BB, Huge::C, Huge::D, Huge::Z}; static const Plain p[]{P_A, P_B, P_C, P_D, P_E};
  switch (pick("enum", 5)) { case 0: table(smalls, 8, "Small", s); break; case 1: table(mids, 4, "Mid", m); break; case 2: table(bigs, 3, "Big", g); break; case 3: table(huges, 5, "Huge", h); break; default: table(plains, 5, "Plain", p); }
}

// the ways to write a literal
ENTRY(literals) {
  static const One want[]{{"O", 8}, {"H", 31}, {"C", 42}, {"D", 7}, {"E", 9}, {"F", 255}, {"G", 5}, {"H2", 6}, {"Z", 0}, {"Y", 1}};
  static_assert(int(Bases::O) == 8 && int(Bases::H) == 31 && int(Bases::Y) == 1, "");
  RegisterReflectedTypes<Bases>(); const ReflectedEnum e = GetReflectedEnum<Bases>();
  CHECK(e.size() == 10, "every enumerator is known");
  for (size_t i = 0; i < 10; i++) { CHECK(e[i] == want[i].name, "an enumerator has its name"); CHECK(e.values[i] == want[i].value, "an enumerator has the value the language gives it"); }
  const size_t k = pick("enumerator", 10); CHECK(e.find(want[k].value) == es::string_view(want[k].name), "a value finds its enumerator");
}
