//! bounds descriptions of up to 3 (thorough 4) settings in every combination of kinds (number, text, vector, class, array of classes, bit field, enumeration), with and without descriptions, classes within classes to depth 3; names and descriptions of any bytes, up to 2 (thorough 3) each; arguments of up to 8 bytes
//! outside creation of the log (see C42); settings of types that were not registered; flags and arrays of enumerations (their values are not listed)
//! assume settings are registered as the documentation asks
#include "refl.h"
#include <sstream>
#include "datas/refl_array.hpp"
#include "datas/settings_manager.hpp"

REFLECTOR_CREATE(Mode, ENUM, 2, CLASS, 8, Off, Slow, Fast = 9);
REFLECTOR_CREATE(Single, ENUM, 2, CLASS, 16, Only);
struct Leaf { uint8 l0; float l1; void ReflectorTag(); };
REFLECTOR_CREATE(Leaf, 1, EXTENDED, (D, l0, "first"), (, l1));
struct Bare { uint8 b0; Mode b1; void ReflectorTag(); };
REFLECTOR_CREATE(Bare, 1, VARNAMES, b0, b1);
struct Twig { Leaf t0; Bare t1[2]; void ReflectorTag(); };
REFLECTOR_CREATE(Twig, 1, EXTENDED, (AD, t0, "tt", "leaf of twig"), (A, t1, "bb"));
typedef BitMemberDecl<0, 3> M0; typedef BitMemberDecl<1, 5> M1;
typedef BitFieldType<uint8, M0, M1> Bits_;
struct Bits : Bits_ { using Bits_::BitFieldType; void ReflectorTag(); };
REFLECTOR_CREATE(Bits, BITFIELD, 1, VARNAMES, M0, M1);
struct Kinds { int32 i; std::string s; Vector v; Leaf leaf; Bare bare; Twig twig; Leaf leaves[2]; std::array<Bare, 2> bares; Mode mode; Single single; Bits bits; Bits bitArr[2]; void ReflectorTag(); };
REFLECTOR_CREATE(Kinds, 1, VARNAMES, i, s, v, leaf, bare, twig, leaves, bares, mode, single, bits, bitArr);
struct Settings : SettingsManager<Settings> { Kinds k; Mode m; int32 n; };
REFLECTOR_CREATE(Settings, 1, EXTENDED, (D, k, "all kinds"), (AD, m, "mm", "a mode"), (, n));

// what the help of the classes above consists of
static const char *const kindHelp[]{"", "", "",
  "\tl0\n\t\tfirst\n\tl1\n", "\tb0\n\tb1\n\t\tValues: Off, Slow, Fast, \n",
  "\tt0\n\t\tleaf of twig\n\t\tl0\n\t\t\tfirst\n\t\tl1\n\tt1\n\t\tb0\n\t\tb1\n\t\t\tValues: Off, Slow, Fast, \n",
  "\tl0\n\t\tfirst\n\tl1\n", "\tb0\n\tb1\n\t\tValues: Off, Slow, Fast, \n", "\tValues: Off, Slow, Fast, \n", "\tValues: Only, \n", "\tM0\n\tM1\n", "\tM0\n\tM1\n",
  "\tl0\n\t\tfirst\n\tl1\n", "\tM0\n\tM1\n"}; // the last two are lists of classes, no member of ours is one
static const size_t NKINDS = sizeof kindHelp / sizeof *kindHelp;
static void indented(std::string &to, const char *lines, size_t by) {
  bool start = true;
  for (; *lines; lines++) { if (start) to.append(by, '\t'); to += *lines; start = *lines == '\n'; }
}
static void reg() { RegisterReflectedTypes<Mode, Single, Leaf, Bare, Twig, Kinds, Bits>(); }
ENTRY(described) {
  reg();
  const reflectorStatic *real = GetReflectedClass<Kinds>();
  reflectorStatic r = *real;
  static const size_t MAXN = TIER(3, 4), MAXT = TIER(2, 3);
  const size_t n = pick("n", MAXN + 1), level = pick("level", 3), length = pick("length", MAXT) + 1;
  const bool descs = pick("descs", 2);
  std::vector<reflType> types; char names[MAXN][MAXT + 1]; const char *nameps[MAXN]; char texts[MAXN][MAXT + 1]; _ReflDesc d[MAXN];
  std::string want;
  const size_t odd = pick("odd", n + 1); // the one of another kind than a number
  for (size_t i = 0; i < n; i++) {
    const size_t kind = i == odd ? pick("kind", NKINDS) : 0;
    reflType ty = real->types[kind < NKINDS - 2 ? kind : kind == NKINDS - 2 ? 6 : 11];
    if (kind >= NKINDS - 2) ty.type = REFType::ArrayClass;
    types.push_back(ty);
    symBytes(names[i], length, "name"); names[i][length] = 0;
    for (size_t k = 0; k < length; k++) assume(names[i][k] != 0);
    nameps[i] = names[i];
    const bool has = i == odd ? pick("described", 2) : i & 1;
    symBytes(texts[i], length, "description");
    d[i].part1 = es::string_view(texts[i], has ? length : 0);
    d[i].part2 = "units";
    want.append(level, '\t'); want.append(names[i], length); want += '\n';
    if (descs && has) { want.append(level + 1, '\t'); want.append(texts[i], length); want += '\n'; }
    indented(want, kindHelp[kind], level);
  }
  *(uint32 *)&r.nTypes = n;
  r.types = types.data(); r.typeNames = nameps; r.typeDescs = descs ? d : nullptr;
  Settings s;
  std::stringstream out;
  s.GetHelp(out, &r, level);
  const std::string got = out.str();
  CHECK(got.size() == want.size(), "the help has the lines of every setting");
  if (got.size() == want.size()) CHECK(!memcmp(got.data(), want.data(), want.size()), "the help has every setting in order: name, description, members, values");
  CHECK(out.good(), "the stream stays good");
}
ENTRY(settings) {
  reg();
  Settings s;
  std::stringstream out;
  out << "before ";
  s.GetHelp(out);
  std::string want = "before Settings settings.\n\tk\n\t\tall kinds\n";
  static const char *const names[]{"i", "s", "v", "leaf", "bare", "twig", "leaves", "bares", "mode", "single", "bits", "bitArr"};
  for (size_t i = 0; i < NKINDS - 2; i++) { want += "\t\t"; want += names[i]; want += "\n"; indented(want, kindHelp[i], 2); }
  want += "\tm\n\t\ta mode\n\t\tValues: Off, Slow, Fast, \n\tn\n";
  CHECK(out.str() == want, "the help of settings lists them all under the name of the settings");
}
// what is given as text reaches the setting; see C21 for the texts of each type
ENTRY(given) {
  reg();
  Settings s; s.m = Mode::Slow;
  const int32 n = sym<int32>("n"); s.n = n;
  char text[3]; symBytes(text, 3, "text");
  const size_t which = pick("which", 3);
  static const char *const names[]{"m", "mm", "n"};
  const bool digits = text[0] >= '1' && text[0] <= '9' && text[1] >= '0' && text[1] <= '9' && text[2] >= '0' && text[2] <= '9';
  assume(digits);
  if (which == 2) {
    CHECK(s.SetReflectedValue("n", es::string_view(text, 3)) == Err::None, "a number is taken");
    CHECK(s.n == (text[0] - '0') * 100 + (text[1] - '0') * 10 + (text[2] - '0') && s.m == Mode::Slow, "a setting given as text has the value, others keep theirs");
  } else {
    CHECK(s.SetReflectedValue(JenHash(es::string_view(names[which])), "Fast") == Err::None, "a value of an enumeration is taken under the name and the alias");
    CHECK(s.m == Mode::Fast && s.n == n, "a setting given as text has the value, others keep theirs");
  }
}
// what asks for the help
ENTRY(asked) {
  char t[8]; const size_t n = pick("length", 9); symBytes(t, n, "argument");
  static const char *const known[]{"-h", "-?", "/?", "--help"}; bool want = false;
  for (auto k : known) { const size_t l = strlen(k); bool same = l == n; for (size_t i = 0; i < l && i < n; i++) same &= k[i] == t[i]; want |= same; }
  CHECK(IsHelp(es::string_view(t, n)) == want, "exactly the four known arguments ask for help");
}
