//! bounds objects with numbers, booleans, floating point, enumerations, flags, bit fields, texts, arrays of each, vectors, arrays of vectors and of flags, nested classes and arrays of classes, under names and under hashes, by every writer and reader (one node per member, members as attributes, texts as attributes) with and without a node of the class; every boolean, flag set, enumerator and number below 100; texts of up to 3 arbitrary characters other than zero; documents with nodes, attributes, indices and axes the class has not, anywhere, and with members left out
//! outside the text of an XML document (pugixml), texts that start with blanks (the text of a member begins behind them), texts inside arrays, texts given to members that are no texts other than those written (C21 to C24), flags whose enumeration is not registered
//! assume pugixml's tree behaves as modelled (harness/pugi); solved paths are replayed on the installed pugixml
//! bccxx -I/verif/harness/pugi
//! cxx -Wl,--no-as-needed -lpugixml
//! flags * --timeout 300 --max-steps 400000000
#include "refl.h"
#include "datas/reflector_xml.cpp"

REFLECTOR_CREATE(Kind, ENUM, 2, CLASS, 16, One = 1, Two, Far = 0x8000);
REFLECTOR_CREATE(Bits, ENUM, 2, CLASS, 8, B0, B1, B2, B3);
typedef es::Flags<Bits, uint8> Flags8;
typedef BitMemberDecl<0, 5> F0; typedef BitMemberDecl<1, 27> F1;
typedef BitFieldType<uint32, F0, F1> Field;
REFLECTOR_CREATE(Field, BITFIELD, 1, VARNAMES, F0, F1);

struct Leaf { int16 p; uint8 q; bool b; std::string s; SVector v; void ReflectorTag(); };
REFLECTOR_CREATE(Leaf, 1, VARNAMES, p, q, b, s, v);
struct HLeaf : Leaf { void ReflectorTag(); };
REFLECTOR_CREATE(HLeaf, 0, p, q, b, s, v);
template <class L> struct All {
  bool b; int32 i; uint8 u; int64 w; Kind e; Flags8 fl; Field bf; float f; std::string s; int16 ai[3]; bool abo[2]; Kind ae[2]; float ad[2]; SVector v; Vector4 v4; SVector va[2]; Flags8 af[2]; L leaf; L leaves[3]; uint16 last;
};
struct Tree : All<Leaf> { void ReflectorTag(); };
REFLECTOR_CREATE(Tree, 1, VARNAMES, b, i, u, w, e, fl, bf, f, s, ai, abo, ae, ad, v, v4, va, af, leaf, leaves, last);
struct HTree : All<HLeaf> { void ReflectorTag(); };
REFLECTOR_CREATE(HTree, 0, b, i, u, w, e, fl, bf, f, s, ai, abo, ae, ad, v, v4, va, af, leaf, leaves, last);

template <class V> static bool eq(const V &a, const V &b) { return memcmp((const void *)&a, (const void *)&b, sizeof a) == 0; }
static bool eq(const std::string &a, const std::string &b) { return a == b; }
static bool same(const Leaf &a, const Leaf &b) { return (a.p == b.p) & (a.q == b.q) & (a.b == b.b) & (a.s == b.s) & eq(a.v, b.v); }
template <class L> static bool same(const All<L> &a, const All<L> &b) {
  bool r = (a.b == b.b) & (a.i == b.i) & (a.u == b.u) & (a.w == b.w) & (a.e == b.e) & eq(a.fl, b.fl) & eq(a.bf, b.bf) & eq(a.f, b.f) & (a.s == b.s) & eq(a.ai, b.ai) & eq(a.abo, b.abo) & eq(a.ae, b.ae) & eq(a.ad, b.ad) &
           eq(a.v, b.v) & eq(a.v4, b.v4) & eq(a.va, b.va) & eq(a.af, b.af) & same(a.leaf, b.leaf) & (a.last == b.last);
  for (auto k : {0, 1, 2}) r &= same(a.leaves[k], b.leaves[k]);
  return r;
}
// an object whose members are all told apart
static void fill(Leaf &l, int n) { l.p = -7 - n; l.q = 11 + n; l.b = n & 1; l.s = std::string("leaf") + char('0' + n); l.v = SVector(n + 1, n + 2, n + 3); }
template <class L> static void fill(All<L> &a, int n) {
  a.b = n & 1; a.i = -70000 - n; a.u = 200 + n; a.w = -5000000000ll - n; a.e = n & 1 ? Kind::Far : Kind::Two; a.fl = 5 + n; uint32 r = 0xabcdef01 + n * 3; memcpy((void *)&a.bf, &r, 4); a.f = 1.5f + n; a.s = n ? "other" : "pq r";
  for (int k = 0; k < 3; k++) a.ai[k] = k * 3 - 4 + n;
  for (int k = 0; k < 2; k++) {
    a.abo[k] = (k + n) & 1; a.ae[k] = (k + n) & 1 ? Kind::One : Kind::Far; a.ad[k] = k + .25f + n; a.va[k] = SVector(k * 3 + 20 + n, k * 3 + 21 + n, k * 3 + 22 + n); a.af[k] = 6 + k * 3 + n;
  }
  a.v = SVector(1 + n, 2.5f + n, -3 - n); a.v4 = Vector4(9 + n, 8 + n, 7 + n, 6 + n);
  fill(a.leaf, 3 + n);
  for (int k = 0; k < 3; k++) fill(a.leaves[k], 4 + k + n);
  a.last = 60000 + n;
}

template <class T> static void through(T &from, T &into, size_t how, bool classNode) {
  ReflectorWrap<T> rf(from), ri(into);
  pugi::xml_document doc;
  doc.append_child("before").append_child("b").text().set("no");
  pugi::xml_node at = classNode ? pugi::xml_node(doc) : doc.append_child("here");
  pugi::xml_node made;
  if (how == 0) made = ReflectorXMLUtil::Save(rf, at, classNode);
  else if (how == 1) made = ReflectorXMLUtil::SaveV2(rf, at, classNode);
  else {
    ReflectorXMLUtil::flag_type f;
    f.Set(ReflectorXMLUtil::Flags_ClassNode, classNode);
    f.Set(ReflectorXMLUtil::Flags_StringAsAttribute, how == 3);
    made = ReflectorXMLUtil::SaveV2a(rf, at, f);
  }
  doc.append_child("after").append_child("b").text().set("no");
  CHECK(classNode ? made.parent() == at : made == at, "the node of the object is given back");
  pugi::xml_node got = how == 0 ? ReflectorXMLUtil::Load(ri, at, classNode) : ReflectorXMLUtil::LoadV2(ri, at, classNode);
  CHECK(got == made, "the node of the object is found");
  CHECK(same(from, into), "an object read back is the object written");
}
static void reg() { RegisterReflectedTypes<Kind, Bits, Field, Leaf, HLeaf>(); }

// every writer, names and hashes
template <class T> static void plain() {
  reg();
  T a, b; fill(a, 0); fill(b, 1);
  const size_t how = pick("writer", 4); const bool node = pick("class_node", 2);
  through(a, b, how, node);
}
ENTRY(named) { plain<Tree>(); }
ENTRY(hashed) { plain<HTree>(); }

// one member has any value
template <class T> static void member(size_t m, size_t how, bool node) {
  reg();
  T a, b; fill(a, 0); fill(b, 1);
  char t[4];
  switch (m) {
  case 0: a.b = sym<bool>("value"); a.abo[0] = sym<bool>("value1"); a.abo[1] = sym<bool>("value2"); a.leaf.b = sym<bool>("value3"); break;
  case 1: a.u = below("value", 100); a.ai[1] = below("value1", 10); break;
  case 2: a.fl = sym<uint8>("value") & 15; break;
  case 3: a.af[pick("index", 2)] = sym<uint8>("value") & 15; break;
  case 4: { const size_t k = pick("value", 3); a.e = k == 0 ? Kind::One : k == 1 ? Kind::Two : Kind::Far; a.ae[1] = a.e; break; }
  case 5: {
    const size_t n = pick("length", 4);
    symBytes(t, n, "text");
    for (size_t i = 0; i < n; i++) assume(t[i] != 0);
    if (n) assume(!((t[0] == ' ') | ((t[0] >= '\t') & (t[0] <= '\r')))); // texts of members lose blanks in front
    std::string *at[]{&a.s, &a.leaf.s, &a.leaves[2].s};
    *at[pick("where", 3)] = std::string(t, n);
    break;
  }
  }
  through(a, b, how, node);
}
#define MEMBER(name, m) \
  ENTRY(name) { const size_t how = pick("writer", 4); const bool node = pick("class_node", 2); member<Tree>(m, how, node); } \
  ENTRY(name##_hashed) { const size_t how = pick("writer", 4); member<HTree>(m, how, true); }
MEMBER(booleans, 0)
MEMBER(numbers, 1)
MEMBER(flags, 2)
MEMBER(flag_arrays, 3)
MEMBER(kinds, 4)
MEMBER(texts, 5)

// what the class has not is passed over, what the document has not is kept
static void strange(pugi::xml_node n, size_t what, bool late) {
  if (what == 0) n.append_child("unknown").text().set("1");
  if (what == 1) { auto c = n.append_child("unknown"); c.append_attribute("x").set_value("1"); c.append_child("p").text().set("3"); }
  if (what == 2) n.append_attribute("unknown").set_value("1");
  if (what == 3) { auto c = n.append_child("leaves-3"); c.append_attribute("p").set_value("1"); }
  if (what == 4) { auto c = n.append_child("leaf-1"); c.append_attribute("p").set_value("1"); }
  if (what == 5) { auto c = n.append_child("va-2"); c.append_attribute("x").set_value("1"); }
  if (what == 6) { auto c = n.append_child("v"); c.append_attribute("a").set_value("1"); }
  if (what == 7) { auto c = n.append_child("af-2"); c.append_attribute("B0").set_value("true"); }
  if (what == 8) n.append_attribute("ai-3").set_value("1");
  if (what == 9) n.append_child("leaf").append_child("unknown").append_attribute("x").set_value("1");
  if (what == 10) n.append_attribute("unknown-1").set_value("1");
  if (what == 11) { auto c = n.append_child("v4"); c.append_attribute("u").set_value("1"); }
}
ENTRY(strangers) {
  reg();
  const bool late = pick("late", 2); const size_t what = pick("what", 12);
  Tree a, b; fill(a, 0); fill(b, 1);
  ReflectorWrap<Tree> rf(a), ri(b);
  pugi::xml_document doc;
  auto at = doc.append_child("Tree");
  if (!late) strange(at, what, late);
  ReflectorXMLUtil::SaveV2(rf, at);
  if (late) strange(at, what, late);
  CHECK(ReflectorXMLUtil::LoadV2(ri, doc, true) == at, "the node of the object is found");
  CHECK(same(a, b), "what the class has not is passed over");
}
ENTRY(strangers_nodes) {
  reg();
  const bool late = pick("late", 2); const size_t what = pick("what", 6);
  Tree a, b; fill(a, 0); fill(b, 1);
  ReflectorWrap<Tree> rf(a), ri(b);
  pugi::xml_document doc;
  auto at = doc.append_child("Tree");
  auto add = [&] {
    if (what == 0) at.append_child("unknown").text().set("1");
    if (what == 1) at.append_child("unknown").append_child("i:0").append_child("p").text().set("1");
    if (what == 2) at.append_child("leaves").append_child("i:3").append_child("p").text().set("1");
    if (what == 3) at.append_child("leaf").append_child("unknown").text().set("1");
    if (what == 4) at.append_child("leaves").append_child("i:1").append_child("unknown").append_child("p").text().set("1");
    if (what == 5) at.append_attribute("i").set_value("1");
  };
  if (!late) add();
  ReflectorXMLUtil::Save(rf, at);
  if (late) add();
  CHECK(ReflectorXMLUtil::Load(ri, doc, true) == at, "the node of the object is found");
  CHECK(same(a, b), "what the class has not is passed over");
}
// a document with one member leaves the others alone
ENTRY(part) {
  reg();
  const size_t how = pick("how", 6); const uint8_t v = below("value", 100);
  Tree a, was; fill(a, 1); fill(was, 1);
  ReflectorWrap<Tree> ri(a);
  pugi::xml_document doc;
  auto at = doc.append_child("Tree");
  const std::string t = std::to_string((unsigned)v);
  switch (how) {
  case 0: at.append_attribute("u").set_value(t.c_str()); was.u = v; break;
  case 1: at.append_attribute("ai-2").set_value(t.c_str()); was.ai[2] = v; break;
  case 2: at.append_child("leaves-1").append_attribute("q").set_value(t.c_str()); was.leaves[1].q = v; break;
  case 3: at.append_child("u").text().set(t.c_str()); was.u = v; break;
  case 4: at.append_child("leaves").append_child("i:2").append_child("q").text().set(t.c_str()); was.leaves[2].q = v; break;
  case 5: at.append_child("leaf").append_child("p").text().set(t.c_str()); was.leaf.p = v; break;
  }
  auto got = how < 3 ? ReflectorXMLUtil::LoadV2(ri, doc, true) : ReflectorXMLUtil::Load(ri, doc, true);
  CHECK(got == at, "the node of the object is found");
  CHECK(same(a, was), "members the document has not are kept");
  // a document without the class
  pugi::xml_document other;
  other.append_child("tree").append_attribute("u").set_value("5");
  CHECK((how < 3 ? ReflectorXMLUtil::LoadV2(ri, other, true) : ReflectorXMLUtil::Load(ri, other, true)).empty(), "no node is found where none is");
  CHECK(same(a, was), "and nothing is read");
}
