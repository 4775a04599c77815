//! bounds classes and enumerations of 1 to 89 members (22 of these sizes, the smallest and largest and those around powers of two); every enumerator by name and by value, every text of the form m and two digits; every member with arbitrary values
//! outside more than 89 members (the library does not count further), other kinds of members (see C22 to C26)
#include "refl.h"
#define M1 m01
#define M2 M1, m02
#define M3 M2, m03
#define M4 M3, m04
#define M5 M4, m05
#define M6 M5, m06
#define M7 M6, m07
#define M8 M7, m08
#define M9 M8, m09
#define M10 M9, m10
#define M11 M10, m11
#define M12 M11, m12
#define M13 M12, m13
#define M14 M13, m14
#define M15 M14, m15
#define M16 M15, m16
#define M17 M16, m17
#define M18 M17, m18
#define M19 M18, m19
#define M20 M19, m20
#define M21 M20, m21
#define M22 M21, m22
#define M23 M22, m23
#define M24 M23, m24
#define M25 M24, m25
#define M26 M25, m26
#define M27 M26, m27
#define M28 M27, m28
#define M29 M28, m29
#define M30 M29, m30
#define M31 M30, m31
#define M32 M31, m32
#define M33 M32, m33
#define M34 M33, m34
#define M35 M34, m35
#define M36 M35, m36
#define M37 M36, m37
#define M38 M37, m38
#define M39 M38, m39
#define M40 M39, m40
#define M41 M40, m41
#define M42 M41, m42
#define M43 M42, m43
#define M44 M43, m44
#define M45 M44, m45
#define M46 M45, m46
#define M47 M46, m47
#define M48 M47, m48
#define M49 M48, m49
#define M50 M49, m50
#define M51 M50, m51
#define M52 M51, m52
#define M53 M52, m53
#define M54 M53, m54
#define M55 M54, m55
#define M56 M55, m56
#define M57 M56, m57
#define M58 M57, m58
#define M59 M58, m59
#define M60 M59, m60
#define M61 M60, m61
#define M62 M61, m62
#define M63 M62, m63
#define M64 M63, m64
#define M65 M64, m65
#define M66 M65, m66
#define M67 M66, m67
#define M68 M67, m68
#define M69 M68, m69
#define M70 M69, m70
#define M71 M70, m71
#define M72 M71, m72
#define M73 M72, m73
#define M74 M73, m74
#define M75 M74, m75
#define M76 M75, m76
#define M77 M76, m77
#define M78 M77, m78
#define M79 M78, m79
#define M80 M79, m80
#define M81 M80, m81
#define M82 M81, m82
#define M83 M82, m83
#define M84 M83, m84
#define M85 M84, m85
#define M86 M85, m86
#define M87 M86, m87
#define M88 M87, m88
#define M89 M88, m89
#define X1 (A, m01, "am01")
#define X2 X1, (A, m02, "am02")
#define X3 X2, (A, m03, "am03")
#define X4 X3, (A, m04, "am04")
#define X5 X4, (A, m05, "am05")
#define X6 X5, (A, m06, "am06")
#define X7 X6, (A, m07, "am07")
#define X8 X7, (A, m08, "am08")
#define X9 X8, (A, m09, "am09")
#define X10 X9, (A, m10, "am10")
#define X11 X10, (A, m11, "am11")
#define X12 X11, (A, m12, "am12")
#define X13 X12, (A, m13, "am13")
#define X14 X13, (A, m14, "am14")
#define X15 X14, (A, m15, "am15")
#define X16 X15, (A, m16, "am16")
#define X17 X16, (A, m17, "am17")
#define X18 X17, (A, m18, "am18")
#define X19 X18, (A, m19, "am19")
#define X20 X19, (A, m20, "am20")
#define X21 X20, (A, m21, "am21")
#define X22 X21, (A, m22, "am22")
#define X23 X22, (A, m23, "am23")
#define X24 X23, (A, m24, "am24")
#define X25 X24, (A, m25, "am25")
#define X26 X25, (A, m26, "am26")
#define X27 X26, (A, m27, "am27")
#define X28 X27, (A, m28, "am28")
#define X29 X28, (A, m29, "am29")
#define X30 X29, (A, m30, "am30")
#define X31 X30, (A, m31, "am31")
#define X32 X31, (A, m32, "am32")
#define X33 X32, (A, m33, "am33")
#define X34 X33, (A, m34, "am34")
#define X35 X34, (A, m35, "am35")
#define X36 X35, (A, m36, "am36")
#define X37 X36, (A, m37, "am37")
#define X38 X37, (A, m38, "am38")
#define X39 X38, (A, m39, "am39")
#define X40 X39, (A, m40, "am40")
#define X41 X40, (A, m41, "am41")
#define X42 X41, (A, m42, "am42")
#define X43 X42, (A, m43, "am43")
#define X44 X43, (A, m44, "am44")
#define X45 X44, (A, m45, "am45")
#define X46 X45, (A, m46, "am46")
#define X47 X46, (A, m47, "am47")
#define X48 X47, (A, m48, "am48")
#define X49 X48, (A, m49, "am49")
#define X50 X49, (A, m50, "am50")
#define X51 X50, (A, m51, "am51")
#define X52 X51, (A, m52, "am52")
#define X53 X52, (A, m53, "am53")
#define X54 X53, (A, m54, "am54")
#define X55 X54, (A, m55, "am55")
#define X56 X55, (A, m56, "am56")
#define X57 X56, (A, m57, "am57")
#define X58 X57, (A, m58, "am58")
#define X59 X58, (A, m59, "am59")
#define X60 X59, (A, m60, "am60")
#define X61 X60, (A, m61, "am61")
#define X62 X61, (A, m62, "am62")
#define X63 X62, (A, m63, "am63")
#define X64 X63, (A, m64, "am64")
#define X65 X64, (A, m65, "am65")
#define X66 X65, (A, m66, "am66")
#define X67 X66, (A, m67, "am67")
#define X68 X67, (A, m68, "am68")
#define X69 X68, (A, m69, "am69")
#define X70 X69, (A, m70, "am70")
#define X71 X70, (A, m71, "am71")
#define X72 X71, (A, m72, "am72")
#define X73 X72, (A, m73, "am73")
#define X74 X73, (A, m74, "am74")
#define X75 X74, (A, m75, "am75")
#define X76 X75, (A, m76, "am76")
#define X77 X76, (A, m77, "am77")
#define X78 X77, (A, m78, "am78")
#define X79 X78, (A, m79, "am79")
#define X80 X79, (A, m80, "am80")
#define X81 X80, (A, m81, "am81")
#define X82 X81, (A, m82, "am82")
#define X83 X82, (A, m83, "am83")
#define X84 X83, (A, m84, "am84")
#define X85 X84, (A, m85, "am85")
#define X86 X85, (A, m86, "am86")
#define X87 X86, (A, m87, "am87")
#define X88 X87, (A, m88, "am88")
#define X89 X88, (A, m89, "am89")
template <size_t n> struct Of;
#define DECLARE(n) \
  REFLECTOR_CREATE(E##n, ENUM, 2, CLASS, 8, M##n); \
  struct H##n { uint8 before; E##n e; uint8 after; void ReflectorTag(); }; REFLECTOR_CREATE(H##n, 1, VARNAMES, e); \
  struct C##n { int8 before; int8 M##n; int8 after; void ReflectorTag(); }; REFLECTOR_CREATE(C##n, 1, VARNAMES, M##n); \
  struct D##n { int8 before; int8 M##n; int8 after; void ReflectorTag(); }; REFLECTOR_CREATE(D##n, 1, EXTENDED, X##n); \
  template <> struct Of<n> { typedef E##n E; typedef H##n H; typedef C##n C; typedef D##n D; };
#if VA_NARGS(M1) == 1
DECLARE(1)
#endif
#if VA_NARGS(M2) == 2
DECLARE(2)
#endif
#if VA_NARGS(M3) == 3
DECLARE(3)
#endif
#if VA_NARGS(M4) == 4
DECLARE(4)
#endif
#if VA_NARGS(M7) == 7
DECLARE(7)
#endif
#if VA_NARGS(M8) == 8
DECLARE(8)
#endif
#if VA_NARGS(M9) == 9
DECLARE(9)
#endif
#if VA_NARGS(M15) == 15
DECLARE(15)
#endif
#if VA_NARGS(M16) == 16
DECLARE(16)
#endif
#if VA_NARGS(M17) == 17
DECLARE(17)
#endif
#if VA_NARGS(M31) == 31
DECLARE(31)
#endif
#if VA_NARGS(M32) == 32
DECLARE(32)
#endif
#if VA_NARGS(M33) == 33
DECLARE(33)
#endif
#if VA_NARGS(M47) == 47
DECLARE(47)
#endif
#if VA_NARGS(M63) == 63
DECLARE(63)
#endif
#if VA_NARGS(M64) == 64
DECLARE(64)
#endif
#if VA_NARGS(M65) == 65
DECLARE(65)
#endif
#if VA_NARGS(M72) == 72
DECLARE(72)
#endif
#if VA_NARGS(M86) == 86
DECLARE(86)
#endif
#if VA_NARGS(M87) == 87
DECLARE(87)
#endif
#if VA_NARGS(M88) == 88
DECLARE(88)
#endif
#if VA_NARGS(M89) == 89
DECLARE(89)
#endif
static void nameOf(char *t, size_t k) { t[0] = 'm'; t[1] = (char)('0' + (k + 1) / 10); t[2] = (char)('0' + (k + 1) % 10); t[3] = 0; }
template <size_t n> static void enumeration() {
  typedef typename Of<n>::H H; typedef typename Of<n>::E E;
  RegisterReflectedTypes<E>(); const ReflectedEnum e = GetReflectedEnum<E>();
  CHECK(e.size() == n, "an enumeration has all of its enumerators");
  for (size_t i = 0; i < e.size(); i++) { char t[4]; nameOf(t, i); CHECK(e.at(i) == es::string_view(t) && e.values[i] == i, "enumerators are in order"); }
  H o; symBytes(&o, sizeof o, "before"); H x; memcpy(&x, &o, sizeof x); ReflectorWrap<H> r(x);
  char t[4] = "m"; const uint8 a = (uint8)below("tens", 10), b = (uint8)below("ones", 10); t[1] = (char)('0' + a); t[2] = (char)('0' + b);
  const unsigned k = a * 10 + b; const Err err = r.SetReflectedValue(size_t(0), es::string_view(t, 3));
  const bool known = k >= 1 && k <= n; uint8 was, is; memcpy(&was, &o.e, 1); memcpy(&is, &x.e, 1);
  CHECK(known == (err == Err::None) && is == (known ? k - 1 : was) && x.before == o.before && x.after == o.after, "every enumerator can be set by name");
  const uint8 v = (uint8)below("value", n); memcpy(&x.e, &v, 1); const std::string g = r.GetReflectedValue(size_t(0));
  CHECK(g.size() == 3 && g[0] == 'm' && (g[1] - '0') * 10 + (g[2] - '0') == v + 1, "every value has the name of its enumerator");
}
template <size_t n, class C> static void members(bool aliased) {
  C o, x; symBytes(&o, sizeof o, "before"); memcpy(&x, &o, sizeof x); ReflectorWrap<C> r(x);
  CHECK(sizeof(C) == n + 2 && r.GetNumReflectedValues() == n, "a class has all of its members reflected");
  const size_t k = pick("member", n); char t[5] = "a"; nameOf(t + 1, k);
  const size_t how = pick("by", aliased ? 3 : 2); const int8 v = sym<int8>("value");
  const Err err = how == 0 ? r.SetReflectedValueInt(k, v) : r.SetReflectedValueInt(how == 1 ? JenHash(es::string_view(t + 1, 3)) : JenHash(es::string_view(t, 4)), v);
  CHECK(err == Err::None, "a member is found by its place, its name and its alias");
  uint8 d = 0; const uint8 *p = (uint8 *)&o, *q = (uint8 *)&x; for (size_t i = 0; i < n + 2; i++) d |= i == k + 1 ? q[i] ^ (uint8)v : p[i] ^ q[i];
  CHECK(!d, "setting a member changes it alone");
  memset(&x, 0, sizeof x); const auto pair = r.GetReflectedPair(k), named = r.GetReflectedPair(JenHash(es::string_view(t + 1, 3)));
  CHECK(pair.name == es::string_view(t + 1) && named.name == es::string_view(t + 1) && pair.value == "0", "a member has its name");
}
#define ENTRIES(n) ENTRY(enum_##n) { enumeration<n>(); } ENTRY(class_##n) { members<n, Of<n>::C>(false); } ENTRY(extended_##n) { members<n, Of<n>::D>(true); }
#if VA_NARGS(M1) == 1
ENTRIES(1)
#endif
#if VA_NARGS(M2) == 2
ENTRIES(2)
#endif
#if VA_NARGS(M3) == 3
ENTRIES(3)
#endif
#if VA_NARGS(M4) == 4
ENTRIES(4)
#endif
#if VA_NARGS(M7) == 7
ENTRIES(7)
#endif
#if VA_NARGS(M8) == 8
ENTRIES(8)
#endif
#if VA_NARGS(M9) == 9
ENTRIES(9)
#endif
#if VA_NARGS(M15) == 15
ENTRIES(15)
#endif
#if VA_NARGS(M16) == 16
ENTRIES(16)
#endif
#if VA_NARGS(M17) == 17
ENTRIES(17)
#endif
#if VA_NARGS(M31) == 31
ENTRIES(31)
#endif
#if VA_NARGS(M32) == 32
ENTRIES(32)
#endif
#if VA_NARGS(M33) == 33
ENTRIES(33)
#endif
#if VA_NARGS(M47) == 47
ENTRIES(47)
#endif
#if VA_NARGS(M63) == 63
ENTRIES(63)
#endif
#if VA_NARGS(M64) == 64
ENTRIES(64)
#endif
#if VA_NARGS(M65) == 65
ENTRIES(65)
#endif
#if VA_NARGS(M72) == 72
ENTRIES(72)
#endif
#if VA_NARGS(M86) == 86
ENTRIES(86)
#endif
#if VA_NARGS(M87) == 87
ENTRIES(87)
#endif
#if VA_NARGS(M88) == 88
ENTRIES(88)
#endif
#if VA_NARGS(M89) == 89
ENTRIES(89)
#endif
// what cannot be declared because it is miscounted is noticed here
ENTRY(counts) {
  const size_t n[]{VA_NARGS(M1), VA_NARGS(M2), VA_NARGS(M3), VA_NARGS(M4), VA_NARGS(M5), VA_NARGS(M6), VA_NARGS(M7), VA_NARGS(M8), VA_NARGS(M9), VA_NARGS(M10), VA_NARGS(M11), VA_NARGS(M12), VA_NARGS(M13), VA_NARGS(M14), VA_NARGS(M15), VA_NARGS(M16), VA_NARGS(M17), VA_NARGS(M18), VA_NARGS(M19), VA_NARGS(M20), VA_NARGS(M21), VA_NARGS(M22), VA_NARGS(M23), VA_NARGS(M24), VA_NARGS(M25), VA_NARGS(M26), VA_NARGS(M27), VA_NARGS(M28), VA_NARGS(M29), VA_NARGS(M30), VA_NARGS(M31), VA_NARGS(M32), VA_NARGS(M33), VA_NARGS(M34), VA_NARGS(M35), VA_NARGS(M36), VA_NARGS(M37), VA_NARGS(M38), VA_NARGS(M39), VA_NARGS(M40), VA_NARGS(M41), VA_NARGS(M42), VA_NARGS(M43), VA_NARGS(M44), VA_NARGS(M45), VA_NARGS(M46), VA_NARGS(M47), VA_NARGS(M48), VA_NARGS(M49), VA_NARGS(M50), VA_NARGS(M51), VA_NARGS(M52), VA_NARGS(M53), VA_NARGS(M54), VA_NARGS(M55), VA_NARGS(M56), VA_NARGS(M57), VA_NARGS(M58), VA_NARGS(M59), VA_NARGS(M60), VA_NARGS(M61), VA_NARGS(M62), VA_NARGS(M63), VA_NARGS(M64), VA_NARGS(M65), VA_NARGS(M66), VA_NARGS(M67), VA_NARGS(M68), VA_NARGS(M69), VA_NARGS(M70), VA_NARGS(M71), VA_NARGS(M72), VA_NARGS(M73), VA_NARGS(M74), VA_NARGS(M75), VA_NARGS(M76), VA_NARGS(M77), VA_NARGS(M78), VA_NARGS(M79), VA_NARGS(M80), VA_NARGS(M81), VA_NARGS(M82), VA_NARGS(M83), VA_NARGS(M84), VA_NARGS(M85), VA_NARGS(M86), VA_NARGS(M87), VA_NARGS(M88), VA_NARGS(M89)};
  const uint8 i = (uint8)below("members", 89); CHECK(n[i] == i + 1u, "members are counted right");
}
#define ONE(x) + 1
ENTRY(visits) {
  const size_t n[]{(0 StaticFor(ONE, M1)), (0 StaticFor(ONE, M2)), (0 StaticFor(ONE, M3)), (0 StaticFor(ONE, M4)), (0 StaticFor(ONE, M5)), (0 StaticFor(ONE, M6)), (0 StaticFor(ONE, M7)), (0 StaticFor(ONE, M8)), (0 StaticFor(ONE, M9)), (0 StaticFor(ONE, M10)), (0 StaticFor(ONE, M11)), (0 StaticFor(ONE, M12)), (0 StaticFor(ONE, M13)), (0 StaticFor(ONE, M14)), (0 StaticFor(ONE, M15)), (0 StaticFor(ONE, M16)), (0 StaticFor(ONE, M17)), (0 StaticFor(ONE, M18)), (0 StaticFor(ONE, M19)), (0 StaticFor(ONE, M20)), (0 StaticFor(ONE, M21)), (0 StaticFor(ONE, M22)), (0 StaticFor(ONE, M23)), (0 StaticFor(ONE, M24)), (0 StaticFor(ONE, M25)), (0 StaticFor(ONE, M26)), (0 StaticFor(ONE, M27)), (0 StaticFor(ONE, M28)), (0 StaticFor(ONE, M29)), (0 StaticFor(ONE, M30)), (0 StaticFor(ONE, M31)), (0 StaticFor(ONE, M32)), (0 StaticFor(ONE, M33)), (0 StaticFor(ONE, M34)), (0 StaticFor(ONE, M35)), (0 StaticFor(ONE, M36)), (0 StaticFor(ONE, M37)), (0 StaticFor(ONE, M38)), (0 StaticFor(ONE, M39)), (0 StaticFor(ONE, M40)), (0 StaticFor(ONE, M41)), (0 StaticFor(ONE, M42)), (0 StaticFor(ONE, M43)), (0 StaticFor(ONE, M44)), (0 StaticFor(ONE, M45)), (0 StaticFor(ONE, M46)), (0 StaticFor(ONE, M47)), (0 StaticFor(ONE, M48)), (0 StaticFor(ONE, M49)), (0 StaticFor(ONE, M50)), (0 StaticFor(ONE, M51)), (0 StaticFor(ONE, M52)), (0 StaticFor(ONE, M53)), (0 StaticFor(ONE, M54)), (0 StaticFor(ONE, M55)), (0 StaticFor(ONE, M56)), (0 StaticFor(ONE, M57)), (0 StaticFor(ONE, M58)), (0 StaticFor(ONE, M59)), (0 StaticFor(ONE, M60)), (0 StaticFor(ONE, M61)), (0 StaticFor(ONE, M62)), (0 StaticFor(ONE, M63)), (0 StaticFor(ONE, M64)), (0 StaticFor(ONE, M65)), (0 StaticFor(ONE, M66)), (0 StaticFor(ONE, M67)), (0 StaticFor(ONE, M68)), (0 StaticFor(ONE, M69)), (0 StaticFor(ONE, M70)), (0 StaticFor(ONE, M71)), (0 StaticFor(ONE, M72)), (0 StaticFor(ONE, M73)), (0 StaticFor(ONE, M74)), (0 StaticFor(ONE, M75)), (0 StaticFor(ONE, M76)), (0 StaticFor(ONE, M77)), (0 StaticFor(ONE, M78)), (0 StaticFor(ONE, M79)), (0 StaticFor(ONE, M80)), (0 StaticFor(ONE, M81)), (0 StaticFor(ONE, M82)), (0 StaticFor(ONE, M83)), (0 StaticFor(ONE, M84)), (0 StaticFor(ONE, M85)), (0 StaticFor(ONE, M86)), (0 StaticFor(ONE, M87)), (0 StaticFor(ONE, M88)), (0 StaticFor(ONE, M89))};
  const uint8 i = (uint8)below("members", 89); CHECK(n[i] == i + 1u, "every member is visited");
}
