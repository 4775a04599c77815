//! bounds bit fields of 8, 16, 32 and 64 bits, signed and unsigned, with members of 1 to 63 bits at every boundary; decimal texts of up to 4 digits, of 4 free digits around the limits and of any 3 bytes, every prior content; flags in 8, 16, 32 and 64 bits, every index up to two behind the last, texts of up to 3 flag names, every content of 8 bit flags and of up to 8 bits of wider ones
//! outside flag names other than those declared, longer texts
#include "refl.h"

template <class T, class... S> struct FieldOf;
typedef BitMemberDecl<0, 2> A0; typedef BitMemberDecl<1, 5> A1; typedef BitMemberDecl<2, 1> A2;
typedef BitFieldType<uint8, A0, A1, A2> F8;
REFLECTOR_CREATE(F8, BITFIELD, 1, VARNAMES, A0, A1, A2);
typedef BitMemberDecl<0, 3> B0; typedef BitMemberDecl<1, 9> B1; typedef BitMemberDecl<2, 4> B2;
typedef BitFieldType<uint16, B0, B1, B2> F16;
REFLECTOR_CREATE(F16, BITFIELD, 1, VARNAMES, B0, B1, B2);
typedef BitMemberDecl<0, 31> C0; typedef BitMemberDecl<1, 1> C1;
typedef BitFieldType<uint32, C0, C1> F32;
REFLECTOR_CREATE(F32, BITFIELD, 1, VARNAMES, C0, C1);
typedef BitMemberDecl<0, 4> D0; typedef BitMemberDecl<1, 33> D1; typedef BitMemberDecl<2, 27> D2;
typedef BitFieldType<uint64, D0, D1, D2> F64;
REFLECTOR_CREATE(F64, BITFIELD, 1, VARNAMES, D0, D1, D2);
typedef BitMemberDecl<0, 1> E0; typedef BitMemberDecl<1, 63> E1;
typedef BitFieldType<uint64, E0, E1> W64;
REFLECTOR_CREATE(W64, BITFIELD, 1, VARNAMES, E0, E1);
typedef BitMemberDecl<0, 5> G0; typedef BitMemberDecl<1, 11> G1;
typedef BitFieldType<int16, G0, G1> S16;
REFLECTOR_CREATE(S16, BITFIELD, 1, VARNAMES, G0, G1);
typedef BitMemberDecl<0, 31> H0; typedef BitMemberDecl<1, 32> H1; typedef BitMemberDecl<2, 1> H2;
typedef BitFieldType<int64, H0, H1, H2> S64;
REFLECTOR_CREATE(S64, BITFIELD, 1, VARNAMES, H0, H1, H2);
typedef BitMemberDecl<0, 63> I0; typedef BitMemberDecl<1, 1> I1;
typedef BitFieldType<int64, I0, I1> SW64;
REFLECTOR_CREATE(SW64, BITFIELD, 1, VARNAMES, I0, I1);
typedef BitMemberDecl<0, 17> J0; typedef BitMemberDecl<1, 15> J1;
typedef BitFieldType<int32, J0, J1> S32;
REFLECTOR_CREATE(S32, BITFIELD, 1, VARNAMES, J0, J1);

typedef __int128 Big;
struct At { unsigned pos, size; };
template <class F> struct Run {
  typedef typename F::value_type V; typedef typename std::make_unsigned<V>::type U;
  static constexpr bool sgn = std::is_signed<V>::value;
  F *f; U before; ReflectorWrap<F> r; At m; size_t id;
  Run(size_t id_, unsigned pos, unsigned size) : f((F *)malloc(sizeof(F))), r(f), m{pos, size}, id(id_) { before = sym<U>("before"); memcpy(f, &before, sizeof(U)); }
  ~Run() { free(f); }
  U now() { U v; memcpy(&v, f, sizeof v); return v; }
  U ones() const { return (U)(~0ull >> (64 - m.size)); }
  U mask() const { return (U)(ones() << m.pos); }
  U part() { return (U)(now() >> m.pos) & ones(); }
  void others() { CHECK(!((now() ^ before) & (U)~mask()), "the other members keep their bits"); }
  void set(const std::string &t, bool neg, Big mag) {
    const Err e = r.SetReflectedValue(id, t); others();
    const Big v = neg ? -mag : mag;
    if (sgn) {
      const Big hi = ((Big)1 << (m.size - 1)) - 1, lo = -hi - 1;
      const bool fits = v <= hi & v >= lo;
      CHECK(!fits | (part() == (U)((U)v & ones()) & e == Err::None), "a number in range is stored");
      CHECK(fits | (part() == (U)((U)(neg ? lo : hi) & ones()) & e == Err::OutOfRange), "a number out of range saturates");
    } else if (!neg) {
      const bool fits = v <= (Big)ones();
      CHECK(!fits | (part() == (U)v & e == Err::None), "a number in range is stored");
      CHECK(fits | (part() == ones() & e == Err::OutOfRange), "a number out of range saturates");
    } else CHECK(e != Err::None, "a sign on an unsigned member is reported");
  }
};
template <class F> static void fields(size_t id, unsigned pos, unsigned size) {
  Run<F> r(id, pos, size); const size_t how = pick("text", 4);
  const bool neg = pick("neg", 2); std::string t(neg ? "-" : ""); Big v = 0;
  auto dig = [&](size_t k) { for (size_t i = 0; i < k; i++) { const unsigned d = below("digit", 10); v = v * 10 + d; t += (char)('0' + d); } };
  if (how == 0) { dig(1 + pick("digits", 3)); r.set(t, neg, v); }
  else if (how == 1) { // around the limits, the last digits free
    char b[24]; int n = 0; Big lim = ((Big)1 << (Run<F>::sgn ? size - 1 : size)); for (Big x = lim; x; x /= 10) b[n++] = '0' + (int)(x % 10);
    for (int i = n - 1; i >= (n < 4 ? 0 : n - 1 > 3 ? 3 : n); i--) { t += b[i]; v = v * 10 + (b[i] - '0'); if (n < 4) { t.pop_back(); v /= 10; } }
    dig(n < 4 ? n : 3); r.set(t, neg, v);
  } else if (how == 2) { const char *s = pick("huge", 2) ? "99999999999999999999999" : "18446744073709551616"; for (; *s; s++) { t += *s; v = v * 10 + (*s - '0'); } r.set(t, neg, v); }
  else { // not a number
    char c[3]; symBytes(c, 3, "chars"); bool any = false; for (char x : c) any |= (x >= '0' & x <= '9') | (x > 8 & x < 14); assume(!any);
    const Err e = r.r.SetReflectedValue(id, es::string_view(c, neg ? 3 : 0)); CHECK(e == Err::InvalidFormat, "a text without a number is refused"); CHECK(r.now() == r.before, "and changes nothing");
  }
}
ENTRY(set_u8) { static const At m[]{{0, 2}, {2, 5}, {7, 1}}; const size_t i = pick("member", 3); fields<F8>(i, m[i].pos, m[i].size); }
ENTRY(set_u16) { static const At m[]{{0, 3}, {3, 9}, {12, 4}}; const size_t i = pick("member", 3); fields<F16>(i, m[i].pos, m[i].size); }
ENTRY(set_u32) { static const At m[]{{0, 31}, {31, 1}}; const size_t i = pick("member", 2); fields<F32>(i, m[i].pos, m[i].size); }
ENTRY(set_u64) { static const At m[]{{0, 4}, {4, 33}, {37, 27}}; const size_t i = pick("member", 3); fields<F64>(i, m[i].pos, m[i].size); }
ENTRY(set_most64) { fields<W64>(1, 1, 63); }
ENTRY(set_s16) { static const At m[]{{0, 5}, {5, 11}}; const size_t i = pick("member", 2); fields<S16>(i, m[i].pos, m[i].size); }
ENTRY(set_s32) { static const At m[]{{0, 17}, {17, 15}}; const size_t i = pick("member", 2); fields<S32>(i, m[i].pos, m[i].size); }
ENTRY(set_s64) { static const At m[]{{0, 31}, {31, 32}, {63, 1}}; const size_t i = pick("member", 3); fields<S64>(i, m[i].pos, m[i].size); }
ENTRY(set_mosts64) { fields<SW64>(0, 0, 63); }

// reading gives the stored value with its sign
template <class F> static void reads(size_t id, unsigned pos, unsigned size) {
  Run<F> r(id, pos, size);
  static const uint64 from[]{0, ~0ull, 1ull << 63, 999999};
  typedef typename Run<F>::U U;
  // the member: all values of small ones, windows of large ones
  const uint64 w = size <= 12 ? 0 : pick("window", 3); const U v = (U)((w == 0 ? 0 : w == 1 ? ~0ull - 2047 : (1ull << (size - 1)) - 2048) + below("value", size <= 12 ? 1u << size : 4096)) & r.ones();
  const U all = (U)((r.before & (U)~r.mask()) | (U)(v << pos)); memcpy(r.f, &all, sizeof all);
  const std::string t = r.r.GetReflectedValue(id); CHECK(r.now() == all, "reading changes nothing");
  bool neg = t[0] == '-'; Big got = 0; bool clean = t.size() > neg;
  for (size_t i = neg; i < t.size(); i++) { clean &= t[i] >= '0' & t[i] <= '9'; got = got * 10 + (t[i] - '0'); }
  Big want = (Big)v; if (Run<F>::sgn) { const bool n = v >> (size - 1) & 1; want -= n ? (Big)1 << size : 0; }
  CHECK(clean & (neg ? -got : got) == want, "the text is the stored value with its sign");
}
ENTRY(get_u8) { static const At m[]{{0, 2}, {2, 5}, {7, 1}}; const size_t i = pick("member", 3); reads<F8>(i, m[i].pos, m[i].size); }
ENTRY(get_u16) { static const At m[]{{0, 3}, {3, 9}, {12, 4}}; const size_t i = pick("member", 3); reads<F16>(i, m[i].pos, m[i].size); }
ENTRY(get_u32) { static const At m[]{{0, 31}, {31, 1}}; const size_t i = pick("member", 2); reads<F32>(i, m[i].pos, m[i].size); }
ENTRY(get_u64) { static const At m[]{{0, 4}, {4, 33}, {37, 27}}; const size_t i = pick("member", 3); reads<F64>(i, m[i].pos, m[i].size); }
ENTRY(get_most64) { reads<W64>(1, 1, 63); }
ENTRY(get_s16) { static const At m[]{{0, 5}, {5, 11}}; const size_t i = pick("member", 2); reads<S16>(i, m[i].pos, m[i].size); }
ENTRY(get_s32) { static const At m[]{{0, 17}, {17, 15}}; const size_t i = pick("member", 2); reads<S32>(i, m[i].pos, m[i].size); }
ENTRY(get_s64) { static const At m[]{{0, 31}, {31, 32}, {63, 1}}; const size_t i = pick("member", 3); reads<S64>(i, m[i].pos, m[i].size); }
ENTRY(get_mosts64) { reads<SW64>(0, 0, 63); }

// ---- flags
REFLECTOR_CREATE(Low, ENUM, 2, CLASS, 8, L0, L1, L2, L3, L4, L5, L6, L7);
REFLECTOR_CREATE(Wide, ENUM, 2, CLASS, 8, W0, W5 = 5, W8 = 8, W15 = 15, W31 = 31, W32, W40 = 40, W63 = 63, W70 = 70);
struct Flagged { uint16 g0; es::Flags<Low, uint8> a; es::Flags<Wide, uint8> b; es::Flags<Wide, uint16> c; uint16 g1; es::Flags<Wide, uint32> d; uint32 g2; es::Flags<Wide, uint64> e; es::Flags<Wide, uint64> f[2]; void ReflectorTag(); };
REFLECTOR_CREATE(Flagged, 1, VARNAMES, a, b, c, d, e, f);
static const size_t where[]{offsetof(Flagged, a), offsetof(Flagged, b), offsetof(Flagged, c), offsetof(Flagged, d), offsetof(Flagged, e)}, width[]{1, 1, 2, 4, 8};
static const char *const wides[]{"W0", "W5", "W8", "W15", "W31", "W32", "W40", "W63", "W70"}; static const unsigned wbit[]{0, 5, 8, 15, 31, 32, 40, 63, 70};
struct Flg {
  Flagged o, x; ReflectorWrap<Flagged> r;
  Flg() : r(x) { symBytes(&o, sizeof o, "before"); memcpy(&x, &o, sizeof x); RegisterReflectedTypes<Low, Wide>(); }
  void only(size_t at, size_t n) { uint8 d = 0; const uint8 *a = (uint8 *)&o, *b = (uint8 *)&x; for (size_t i = 0; i < sizeof o; i++) if (i < at || i >= at + n) d |= a[i] ^ b[i]; CHECK(!d, "nothing else changes"); }
  uint64 val(const Flagged &f, size_t m) { uint64 v = 0; memcpy(&v, (const char *)&f + where[m], width[m]); return v; }
};
ENTRY(flag_by_index) {
  Flg g; const size_t m = pick("member", 5), i = pick("flag", width[m] * 8 + 2); const bool on = pick("on", 2);
  const Err e = pick("by name", 2) ? g.r.SetReflectedValue(JenHash(es::string_view("abcde" + m, 1)), on ? " True" : "false", i) : g.r.SetReflectedValue(m, on ? "true" : "false", i);
  const bool in = i < width[m] * 8; const uint64 bit = in ? 1ull << i : 0, was = g.val(g.o, m);
  CHECK((e == Err::None) == in, "flags out of range are refused"); CHECK(g.val(g.x, m) == (on ? was | bit : was & ~bit), "exactly that flag is set"); g.only(where[m], width[m]);
}
ENTRY(flag_not_boolean) {
  Flg g; const size_t m = pick("member", 5); char c[2]; symBytes(c, 2, "text"); assume(c[0] != ' ' & c[0] != 9);
  CHECK(g.r.SetReflectedValue(m, es::string_view(c, pick("length", 3)), 0) != Err::None, "a text that is no boolean is refused"); g.only(0, 0);
}
ENTRY(read_by_index) {
  Flg g; const size_t m = pick("member", 5), i = pick("flag", width[m] * 8 + 2); const bool in = i < width[m] * 8;
  const std::string t = g.r.GetReflectedValue(m, i);
  if (!in) CHECK(t.empty(), "flags out of range read as nothing"); else CHECK(t == ((g.val(g.o, m) >> i & 1) ? "true" : "false"), "a flag reads as what it is"); g.only(0, 0);
}
ENTRY(read_array_by_index) {
  Flg g; const size_t s = pick("element", 3), i = pick("flag", 66);
  const std::string t = g.r.GetReflectedValue(5, s, i);
  if (s > 1 || i > 63) CHECK(t.empty(), "flags out of range read as nothing"); else { uint64 v; memcpy(&v, (char *)&g.o + offsetof(Flagged, f) + 8 * s, 8); CHECK(t == ((v >> i & 1) ? "true" : "false"), "a flag reads as what it is"); } g.only(0, 0);
}
ENTRY(flags_by_name) {
  Flg g; const size_t m = 1 + pick("member", 4), n = 1 + pick("names", TIER(2, 3)); uint64 want = 0; bool bad = false, out = false; std::string t;
  for (size_t i = 0; i < n; i++) {
    const size_t k = pick("name", i ? 11 : 10);
    if (i) t += k & 1 ? " | " : "|";
    if (k < 9) { t += wides[k]; if (wbit[k] >= width[m] * 8) out = true; else want |= 1ull << wbit[k]; }
    else if (k == 9) { t += "W1"; bad = true; } else t += "NULL";
  }
  const Err e = g.r.SetReflectedValue(m, t);
  CHECK(g.val(g.x, m) == want, "exactly the flags named are set"); g.only(where[m], width[m]);
  CHECK((e == Err::None) == (!bad & !out), "what cannot be set is reported");
}
ENTRY(flags_text_again) {
  Flg g; const uint8 v = (uint8)pick("value", 256); memcpy((char *)&g.x + where[0], &v, 1); memcpy(&g.o, &g.x, sizeof g.o);
  const std::string t = g.r.GetReflectedValue(0); g.only(0, 0);
  std::string want; for (unsigned i = 0; i < 8; i++) if (v >> i & 1) { if (want.size()) want += " | "; want += 'L'; want += (char)('0' + i); }
  CHECK(t == (want.empty() ? "NULL" : want), "flags read as the names of those set");
  *((char *)&g.x + where[0]) = (char)~v;
  CHECK(g.r.SetReflectedValue(0, t) == Err::None, "what was read is accepted"); g.only(0, 0);
}
ENTRY(wide_flags_text_again) { // bits without a name among them
  Flg g; const size_t m = 1 + pick("member", 4); static const unsigned at[]{0, 3, 5, 15, 31, 33, 40, 63}; uint64 v = 0, named = 0; std::string want;
  const unsigned bits = pick("bits", 256);
  for (unsigned i = 0; i < 8; i++) if (bits >> i & 1 && at[i] < width[m] * 8) { v |= 1ull << at[i]; for (unsigned k = 0; k < 9; k++) if (wbit[k] == at[i]) { named |= 1ull << at[i]; if (want.size()) want += " | "; want += wides[k]; } }
  memcpy((char *)&g.x + where[m], &v, width[m]); memcpy(&g.o, &g.x, sizeof g.o);
  const std::string t = g.r.GetReflectedValue(m); g.only(0, 0);
  CHECK(t == (want.empty() ? "NULL" : want), "flags read as the names of those set, unnamed ones are left out");
  const uint64 n = ~0ull; memcpy((char *)&g.x + where[m], &n, width[m]);
  CHECK(g.r.SetReflectedValue(m, t) == Err::None, "what was read is accepted"); CHECK(g.val(g.x, m) == named, "and sets the named flags");
}
