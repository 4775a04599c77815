//! bounds sets of up to 2 classes and 2 enumerations with up to 2 (thorough 3) members or enumerators each, every combination of names, class name, aliases, alias hashes and descriptions being there or not per class and per member, all bytes of the type records, values and hashes, texts of up to 2 bytes; sets with up to 129 (thorough 300) members and enumerators, or texts of up to 300 bytes, most of them fixed; the classes a user declares with the macros; data cut off at every byte
//! outside sets saved through a stream with swapped byte order (the block is loaded in place), damaged contents of whole records
//! flags * --timeout 200
#include "refl.h"
#include <sstream>
#include <deque>
#include "datas/reflector_io.cpp"

static const char TRAIL[] = "\x11\x22\x33\x44\x55";
static std::deque<std::string> &pool() { static std::deque<std::string> p; return p; }
// a text of the given length, any bytes but 0
static const char *text(size_t l, const char *n) {
  char t[4]; symBytes(t, l, n);
  bool ok = true; for (size_t i = 0; i < l; i++) ok &= t[i] != 0;
  assume(ok); pool().emplace_back(t, l);
  return pool().back().c_str();
}
// a class description put together by hand
struct Class {
  alignas(reflectorStatic) char mem[sizeof(reflectorStatic)];
  reflType types[3]; const char *names[3]; const char *aliases[3]; JenHash hashes[3]; _ReflDesc descs[3];
  uint32 n; bool hasNames, hasName, hasAliases, hasHashes, hasDescs; const char *name;
  Class(uint32 n_, unsigned has, unsigned each, size_t len) : n(n_) {
    hasNames = has & 1; hasName = has & 2; hasAliases = has & 4; hasHashes = has & 8; hasDescs = has & 16;
    for (uint32 i = 0; i < n; i++) {
      symBytes((void *)&types[i], sizeof types[i], "type"); symBytes((void *)&hashes[i], 4, "alias hash");
      names[i] = text(len, "name"); aliases[i] = each >> i & 1 ? text(1, "alias") : nullptr;
      const bool some = each >> i & 2; const char *d = some ? text(2, "description") : ""; const size_t cut = some ? each & 1 : 0;
      descs[i].part1 = {d, cut}; descs[i].part2 = {d + cut, some ? 2 - cut : 0};
    }
    name = text(len, "class name");
    JenHash h; symBytes((void *)&h, 4, "class");
    const void *none = nullptr;
    auto put = [&](size_t at, const void *p, bool there) { memcpy(mem + at, there ? &p : &none, sizeof p); };
    memcpy(mem, &h, 4); memcpy(mem + 4, &n, 4);
    put(offsetof(reflectorStatic, types), types, true); put(offsetof(reflectorStatic, typeNames), names, hasNames); put(offsetof(reflectorStatic, className), name, hasName);
    put(offsetof(reflectorStatic, typeAliases), aliases, hasAliases); put(offsetof(reflectorStatic, typeAliasHashes), hashes, hasHashes); put(offsetof(reflectorStatic, typeDescs), descs, hasDescs);
  }
  const reflectorStatic *get() const { return (const reflectorStatic *)mem; }
};
struct Enumeration : ReflectedEnum {
  void add(const char *n) { parent::push_back(n); }
  std::vector<uint64> v;
  Enumeration(size_t n, size_t len) {
    for (size_t i = 0; i < n; i++) { parent::push_back(text(len, "enumerator")); v.push_back(sym<uint64>("value")); }
    values = v.data(); name = text(len, "enumeration"); symBytes((void *)&hash, 4, "hash");
  }
};
static bool eq(const char *a, const char *b) { return !a || !b ? a == b : es::string_view(a) == es::string_view(b); }
static bool eq(es::string_view a, es::string_view b) { return a.size() == b.size() && (!a.size() || !memcmp(a.data(), b.data(), a.size())); }
static void compare(const reflectorStatic *a, const reflectorStatic *b) {
  CHECK(!memcmp((void *)&a->classHash, (void *)&b->classHash, 4) && a->nTypes == b->nTypes, "a class keeps its identity and number of members");
  CHECK(!a->nTypes || !memcmp((void *)a->types, (void *)b->types, a->nTypes * sizeof(reflType)), "members keep their types and places");
  CHECK(eq(a->className, b->className), "a class keeps its name");
  CHECK(!a->typeNames == !b->typeNames && !a->typeAliases == !b->typeAliases && !a->typeDescs == !b->typeDescs, "a class has what it had of names, aliases and descriptions");
  CHECK(!a->typeAliasHashes == !b->typeAliasHashes, "a class has its alias hashes if it had them");
  bool names = true, aliases = true, hashes = true, descs = true;
  for (uint32 i = 0; i < a->nTypes; i++) {
    if (a->typeNames) names &= eq(a->typeNames[i], b->typeNames[i]);
    if (a->typeAliases) aliases &= eq(a->typeAliases[i], b->typeAliases[i]);
    if (a->typeAliasHashes && b->typeAliasHashes) hashes &= !memcmp((void *)&a->typeAliasHashes[i], (void *)&b->typeAliasHashes[i], 4);
    if (a->typeDescs) descs &= eq(a->typeDescs[i].part1, b->typeDescs[i].part1) & eq(a->typeDescs[i].part2, b->typeDescs[i].part2);
  }
  CHECK(names, "members keep their names"); CHECK(aliases, "members keep their aliases"); CHECK(hashes, "members keep the hashes of their aliases"); CHECK(descs, "members keep their descriptions");
}
static void compare(const ReflectedEnum &a, const ReflectedEnum &b) {
  CHECK(!memcmp((void *)&a.hash, (void *)&b.hash, 4) && a.size() == b.size() && eq(a.name, b.name), "an enumeration keeps its identity");
  if (a.size() != b.size()) return;
  bool names = true, values = true;
  for (size_t i = 0; i < a.size(); i++) { names &= eq(a[i], b[i]); values &= a.values[i] == b.values[i]; }
  CHECK(names, "enumerators keep their names"); CHECK(values, "enumerators keep their values");
}
static void through(const std::vector<const reflectorStatic *> &cs, const std::vector<const ReflectedEnum *> &es, size_t front = 0) {
  std::stringstream str;
  str.write(TRAIL, front);
  ReflectorIO out, in;
  for (auto c : cs) out.AddClass(c);
  for (auto e : es) out.AddEnum(*e);
  CHECK(!out.Save(str), "a set is saved");
  str.write(TRAIL, 5);
  const size_t end = (size_t)str.tellp();
  CHECK(str.good(), "saving leaves the stream usable");
  str.seekg(front);
  CHECK(!in.Load(str), "a saved set is loaded");
  CHECK((size_t)str.tellg() == end - 5, "the stream is behind the set");
  CHECK(!front || !memcmp(str.str().data(), TRAIL, front), "what is in front of the set is left alone");
  CHECK(in.Classes().size() == cs.size() && in.Enums().size() == es.size(), "a set keeps its classes and enumerations");
  if (in.Classes().size() != cs.size() || in.Enums().size() != es.size()) return;
  for (size_t i = 0; i < cs.size(); i++) compare(cs[i], in.Classes()[i]);
  for (size_t i = 0; i < es.size(); i++) compare(*es[i], in.Enums()[i]);
}
// one class with everything there or not
ENTRY(one_class) {
  const uint32 n = (uint32)pick("members", TIER(3, 4));
  const unsigned has = (unsigned)pick("has", 32), each = (unsigned)pick("each", 4);
  Class c(n, has, each, 1);
  through({c.get()}, {});
}
ENTRY(lengths) {
  const uint32 members = (uint32)pick("members", 3); const size_t l0 = pick("length", 3), count = pick("enumerators", 3), l1 = pick("length", 3);
  Class c(members, 31, 7, l0); Enumeration e(count, l1);
  through({c.get()}, {&e});
}
// two classes, neither disturbing the other
ENTRY(two_classes) {
  const unsigned ha = (unsigned)pick("has", 32), hb = (unsigned)pick("has", 32);
  Class a(2, ha, 1, 1), b(1, hb, 3, 2);
  through({a.get(), b.get()}, {});
}
ENTRY(enums) {
  const size_t na = pick("enumerators", TIER(3, 4)), nb = pick("enumerators", TIER(3, 4));
  Enumeration a(na, 1), b(nb, 2);
  through({}, {&a, &b});
}
ENTRY(mixed) {
  Class a(2, (unsigned)pick("has", 32), 3, 1); Enumeration e(2, 1), f(1, 2);
  through({a.get()}, {&e, &f}, pick("front", 5));
}
// many members and enumerators, long names
struct Large {
  alignas(reflectorStatic) char mem[sizeof(reflectorStatic)];
  std::vector<reflType> types; std::vector<const char *> names, aliases; std::vector<JenHash> hashes; std::vector<_ReflDesc> descs; std::string name;
  Large(uint32 n, size_t len) : types(n), names(n), aliases(n), hashes(n), descs(n), name(len, 'N') {
    fillBytes((void *)types.data(), n * sizeof(reflType), "types", sizeof(reflType)); fillBytes((void *)hashes.data(), n * 4, "hashes", 4);
    for (uint32 i = 0; i < n; i++) {
      pool().emplace_back(1 + (i * 5) % len, (char)('a' + i % 26)); names[i] = pool().back().c_str();
      pool().emplace_back(1 + (i * 3) % len, (char)('A' + i % 26)); aliases[i] = i % 3 ? pool().back().c_str() : nullptr;
      pool().emplace_back(2 + (i * 7) % len, (char)('0' + i % 10)); descs[i].part1 = {pool().back().c_str(), pool().back().size() - 1}; descs[i].part2 = {pool().back().c_str(), i % 2};
    }
    if (n < 10) {
      auto all = [&](char c) { pool().emplace_back(len, c); return pool().back().c_str(); };
      names[0] = all('n'); aliases[0] = all('a'); descs[0].part1 = {all('d'), len}; descs[1].part2 = {all('e'), len}; descs[1].part1 = {all('f'), len};
    }
    names[n / 2] = text(3, "name"); aliases[n - 1] = text(3, "alias");
    const char *cn = name.c_str(); const JenHash h("large"); const void *p[] = {types.data(), names.data(), aliases.data(), hashes.data(), descs.data()};
    memcpy(mem, &h, 4); memcpy(mem + 4, &n, 4); memcpy(mem + offsetof(reflectorStatic, className), &cn, sizeof cn);
    const size_t at[] = {offsetof(reflectorStatic, types), offsetof(reflectorStatic, typeNames), offsetof(reflectorStatic, typeAliases), offsetof(reflectorStatic, typeAliasHashes), offsetof(reflectorStatic, typeDescs)};
    for (size_t i = 0; i < 5; i++) memcpy(mem + at[i], &p[i], sizeof p[i]);
  }
};
ENTRY(large) {
  const size_t which = pick("kind", 2), len = which ? bigSize("length", 300) : bigSize("length", TIER(129, 300));
  Large a(which ? 3 : (uint32)len, which ? len : 9); Class small(2, 31, 3, 1);
  Enumeration e(0, 1); std::vector<uint64> v(len);
  for (size_t i = 0; i < len; i++) { pool().emplace_back(1 + i % (which ? len : 5), (char)('a' + i % 26)); e.add(pool().back().c_str()); v[i] = i * 0x100000001ull; }
  v[len - 1] = sym<uint64>("value"); v[len / 2] = sym<uint64>("value"); e.values = v.data();
  Enumeration f(1, 2);
  through({(const reflectorStatic *)a.mem, small.get()}, {&e, &f}, pick("front", 2));
}
ENTRY(empty) { through({}, {}, pick("front", 3)); }
// loading again replaces what was loaded
ENTRY(again) {
  Class a(2, 31, 3, 1), b(1, 31, 3, 2); Enumeration e(1, 1), f(2, 2);
  std::stringstream sa, sb; ReflectorIO oa, ob, in;
  oa.AddClass(a.get()); oa.AddEnum(e); ob.AddClass(b.get()); ob.AddEnum(f);
  CHECK(!oa.Save(sa) && !ob.Save(sb), "a set is saved");
  CHECK(!in.Load(sa) && !in.Load(sb), "a saved set is loaded");
  CHECK(in.Classes().size() == 1 && in.Enums().size() == 1, "loading again replaces what was loaded");
  if (in.Classes().size() != 1 || in.Enums().size() != 1) return;
  compare(b.get(), in.Classes()[0]); compare(f, in.Enums()[0]);
}
// a set that is not one, or cut off
ENTRY(foreign) {
  Class a(1, 31, 3, 1);
  std::stringstream str; ReflectorIO out, in; out.AddClass(a.get()); out.Save(str);
  std::string s = str.str();
  uint32 id = sym<uint32>("id"), version = sym<uint32>("version");
  memcpy(&s[0], &id, 4); memcpy(&s[4], &version, 4);
  const bool good = id == ('R' | 'F' << 8 | 'D' << 16 | 'B' << 24) && version <= 1000;
  std::stringstream from(s);
  const int e = in.Load(from);
  CHECK((e == 0) == good, "only a set of a known version is loaded");
  CHECK(good || (in.Classes().empty() && in.Enums().empty()), "of another file nothing is loaded");
}
ENTRY(cut) {
  Class a(1, 31, 3, 1); Enumeration e(1, 1);
  std::stringstream str; ReflectorIO out, in; out.AddClass(a.get()); out.AddEnum(e); out.Save(str);
  const std::string s = str.str();
  const size_t n = __sx_concretize(below("length", 512)); assume(n < s.size());
  std::stringstream from(s.substr(0, n));
  CHECK(in.Load(from) != 0, "a set cut off is refused");
  CHECK(in.Classes().empty() && in.Enums().empty(), "of a set cut off nothing is loaded");
}
// what a user declares
REFLECTOR_CREATE(Kind, ENUM, 2, CLASS, 16, One = 1, Two, Far = 0x8000);
REFLECTOR_CREATE(Small, ENUM, 2, CLASS, 8, A, B, C = 0xff);
struct Bare { int16 p; uint8 q; void ReflectorTag(); };
REFLECTOR_CREATE(Bare, 0, p, q);
struct Named { float f; Kind k; std::string s; void ReflectorTag(); };
REFLECTOR_CREATE(Named, 1, VARNAMES, f, k, s);
struct Full { int32 a; uint32 b; double c; Bare d; void ReflectorTag(); };
REFLECTOR_CREATE(Full, 1, EXTENDED, (A, a, "first"), (D, b, "of all%kg"), (AD, c, "third", "what is left"), (, d));
struct Aliased { int16 x; int16 y; void ReflectorTag(); };
REFLECTOR_CREATE(Aliased, 1, EXTENDED, (A, x, "ex"), (A, y, "why"));
struct Described { int16 x; int16 y; void ReflectorTag(); };
REFLECTOR_CREATE(Described, 1, EXTENDED, (D, x, "%unit"), (D, y, "text%"));
ENTRY(declared) {
  ReflectedEnum k = GetReflectedEnum<Kind>(), s = GetReflectedEnum<Small>();
  through({GetReflectedClass<Bare>(), GetReflectedClass<Named>(), GetReflectedClass<Full>(), GetReflectedClass<Aliased>(), GetReflectedClass<Described>()}, {&k, &s}, pick("front", 2));
}
// a loaded description serves as one
ENTRY(used) {
  std::stringstream str; ReflectorIO out, in; out.AddClass<Bare>(); out.AddClass<Full>(); out.AddClass<Aliased>(); out.Save(str); in.Load(str);
  Aliased o, was; symBytes((void *)&o, sizeof o, "object"); memcpy((void *)&was, (void *)&o, sizeof o);
  ReflectedInstance inst(in.Classes()[2], &o); ReflectorPureWrap r(inst);
  const char *names[] = {"x", "y", "ex", "why"}; const size_t i = pick("name", 4);
  CHECK(r.SetReflectedValue(JenHash(es::string_view(names[i])), "-77") == Err::None, "a member is found by its name and alias in a loaded description");
  CHECK(o.x == (i % 2 ? was.x : -77) && o.y == (i % 2 ? -77 : was.y), "the member the name stands for is set");
}
