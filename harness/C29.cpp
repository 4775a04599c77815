//! bounds lists of up to 4 elements of every kind (kept by value, by unique and by shared pointer, made on request, kept by value and handed out by value), lists of 20 sizes from 7 to 300 with three arbitrary elements; every sequence of up to 6 iterator steps; every index; every element value; owned and borrowed elements; skeletons and motions of up to 3 parts; every pair of transforms
//! outside longer lists in general; iterators of different lists compared with each other; motions and skeletons that hand out an owned list for the range loop
//! flags * --timeout 600
#include "sx.h"
#include <limits>
#include <stdexcept>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <vector>
#include <memory>
#include <string>
#include "datas/matrix44.hpp"
#include "uni/list_vector.hpp"
#include "uni/skeleton.hpp"
#include "uni/motion.hpp"
#include "uni/rts.hpp"

static int alive, born;
struct Item : uni::Base {
  virtual uint32_t Value() const = 0;
  Item() { alive++; born++; }
  Item(const Item &) { alive++; born++; }
  ~Item() { alive--; }
};
struct Thing : Item {
  uint32_t v;
  explicit Thing(uint32_t v = 0) : v(v) {}
  uint32_t Value() const override { return v; }
  operator uni::Element<const Item>() const { return {static_cast<const Item *>(this), false}; }
};
static const size_t MAXN = 4;
struct Values {
  size_t n;
  uint32_t v[MAXN];
  Values() : n(pick("size", MAXN + 1)) { symBytes(v, sizeof v, "values"); }
};

typedef uni::List<Item> Items;
// hands out elements it makes on the spot
struct Maker : Items {
  const Values &src;
  Maker(const Values &s) : src(s) {}
  size_t Size() const override { return src.n; }
  const_type At(size_t id) const override { return const_type(new Thing(src.v[id])); }
};

template <class L> static void visit(const L &l, const Values &x) {
  CHECK(l.Size() == x.n, "a list has the elements put into it");
  size_t at = 0;
  for (auto e : l) {
    CHECK(at < x.n, "iteration ends with the last element");
    CHECK(e->Value() == x.v[at], "iteration visits the elements in order");
    at++;
  }
  CHECK(at == x.n, "iteration visits every element");
  const size_t i = pick("index", MAXN);
  if (i < x.n) {
    CHECK(l[i]->Value() == x.v[i], "an element is found by its index");
    CHECK(l.At(i)->Value() == x.v[i], "an element is found by its index");
  }
  CHECK((size_t)std::distance(l.begin(), l.end()) == x.n, "the distance of the ends is the size");
  const uint32_t key = sym<uint32_t>("key");
  auto f = std::find_if(l.begin(), l.end(), [&](const typename L::const_type &e) { return e->Value() == key; });
  size_t want = 0;
  while (want < x.n && x.v[want] != key) want++;
  auto w = l.begin();
  for (size_t k = 0; k < want; k++) ++w;
  CHECK(f == w, "searching finds the first match");
}
// any sequence of steps of one iterator
template <class L> static void steps(const L &l, const Values &x) {
  auto it = l.begin();
  size_t pos = 0;
  for (size_t s = 0, n = pick("steps", 7); s < n && pos < x.n; s++) {
    const size_t op = pick("op", 3);
    if (op == 0) {
      auto &r = ++it;
      pos++;
      CHECK(&r == &it, "a step hands back its iterator");
    }
    if (op == 1) {
      auto old = it++;
      if (pos < x.n) CHECK((*old)->Value() == x.v[pos], "a step hands back the place it left");
      CHECK(old != it, "places differ after a step");
      CHECK(!(old == it), "places differ after a step");
      pos++;
    }
    if (op == 2) {
      auto c = it;
      CHECK(c == it && !(c != it), "a copy is at the same place");
      ++c;
      CHECK(c != it, "a copy moves on its own");
    }
    CHECK((it == l.end()) == (pos == x.n), "the end is reached after the last element and not before");
    CHECK((it != l.begin()) == (pos != 0), "the beginning is left with the first step");
    if (pos < x.n) CHECK((*it)->Value() == x.v[pos], "an iterator shows the element of its place");
  }
}
template <class F> static void kinds(F f) {
  alive = born = 0;
  {
    Values x;
    switch (pick("kind", 6)) {
    case 0: { // elements by value
      uni::VectorList<Item, Thing> l;
      for (size_t i = 0; i < x.n; i++) l.storage.emplace_back(x.v[i]);
      f(l, x);
      CHECK(alive == (int)x.n, "elements of a list are borrowed");
      break;
    }
    case 1: { // the same by its interface
      uni::VectorList<Item, Thing> l;
      for (size_t i = 0; i < x.n; i++) l.storage.emplace_back(x.v[i]);
      f(static_cast<const Items &>(l), x);
      CHECK(alive == (int)x.n, "elements of a list are borrowed");
      break;
    }
    case 2: {
      uni::PolyVectorList<Item, Item> l;
      for (size_t i = 0; i < x.n; i++) l.storage.emplace_back(new Thing(x.v[i]));
      f(l, x);
      CHECK(alive == (int)x.n && born == (int)x.n, "elements of a list are borrowed");
      break;
    }
    case 3: {
      uni::PolyVectorList<Item, Thing, std::shared_ptr> l;
      for (size_t i = 0; i < x.n; i++) l.storage.emplace_back(new Thing(x.v[i]));
      f(static_cast<const Items &>(l), x);
      CHECK(alive == (int)x.n && born == (int)x.n, "elements of a list are borrowed");
      break;
    }
    case 4: {
      Maker l(x);
      f(l, x);
      CHECK(alive == 0, "elements made on request are destroyed by who asked");
      break;
    }
    case 5: { // the list itself is handed on by its interface
      auto *own = new uni::PolyVectorList<Item, Item>;
      for (size_t i = 0; i < x.n; i++) own->storage.emplace_back(new Thing(x.v[i]));
      uni::Element<const Items> view(own, false);
      uni::Element<const Items> l(own);
      f(*view, x);
      view.reset();
      CHECK(l->Size() == x.n && alive == (int)x.n, "a view does not destroy what it shows");
      break;
    }
    }
  }
  CHECK(alive == 0, "every element is destroyed once, with its list");
}
struct Visit { template <class L> void operator()(const L &l, const Values &x) const { visit(l, x); } };
struct Steps { template <class L> void operator()(const L &l, const Values &x) const { steps(l, x); } };
ENTRY(lists_visit) { kinds(Visit()); }
ENTRY(lists_steps) { kinds(Steps()); }

// Lists whose elements are numbers.
struct Number { uint32_t v; };
struct Numbers : uni::Vector<Number> {
  const Values &src;
  Numbers(const Values &s) : src(s) {}
  size_t Size() const override { return src.n; }
  const Number At(size_t id) const override { return Number{src.v[id]}; }
};
ENTRY(numbers) {
  Values x;
  Numbers l(x);
  size_t at = 0;
  for (auto n : l) { CHECK(at < x.n && n.v == x.v[at], "iteration visits the values in order"); at++; }
  CHECK(at == x.n, "iteration visits every value");
  uni::VectorList<Number, Number, uni::Vector> k;
  for (size_t i = 0; i < x.n; i++) k.storage.push_back({x.v[i]});
  at = 0;
  for (auto n : k) { CHECK(at < x.n && n.v == x.v[at], "iteration visits the values in order"); at++; }
  CHECK(at == x.n, "iteration visits every value");
  const size_t i = below("index", 8);
  bool refused = false;
  try { CHECK(k[i].v == x.v[i < MAXN ? i : 0], "a value is found by its index"); } catch (const std::out_of_range &) { refused = true; }
  CHECK(refused == (i >= x.n), "an index past the end is refused");
}
// long lists
ENTRY(long_lists) {
  alive = born = 0;
  {
    const size_t n = bigSize("size"); std::vector<uint32_t> x(n);
    for (size_t i = 0; i < n; i++) x[i] = (uint32_t)(i * 2654435761u);
    x[0] = sym<uint32_t>("first"); x[n / 2] = sym<uint32_t>("middle"); x[n - 1] = sym<uint32_t>("last");
    uni::VectorList<Item, Thing> a; uni::PolyVectorList<Item, Item> b;
    for (auto v : x) { a.storage.emplace_back(v); b.storage.emplace_back(new Thing(v)); }
    const Items &l = pick("kind", 2) ? static_cast<const Items &>(a) : b;
    CHECK(l.Size() == n, "a list has the elements put into it");
    size_t at = 0; bool ok = true;
    for (auto e : l) { ok &= at < n && e->Value() == x[at]; at++; }
    CHECK(ok && at == n, "iteration visits every element in order");
    ok = true; for (size_t i = 0; i < n; i++) ok &= l[i]->Value() == x[i];
    CHECK(ok, "an element is found by its index");
    CHECK((size_t)std::distance(l.begin(), l.end()) == n, "the distance of the ends is the size");
  }
  CHECK(alive == 0, "every element is destroyed once, with its list");
}
ENTRY(index_refused) {
  Values x;
  uni::VectorList<Item, Thing> a;
  uni::PolyVectorList<Item, Item> b;
  for (size_t i = 0; i < x.n; i++) { a.storage.emplace_back(x.v[i]); b.storage.emplace_back(new Thing(x.v[i])); }
  const size_t i = sym<size_t>("index");
  int refused = 0;
  try { a.At(i); } catch (const std::out_of_range &) { refused |= 1; }
  try { b[i]; } catch (const std::out_of_range &) { refused |= 2; }
  CHECK(refused == (i >= x.n ? 3 : 0), "an index past the end is refused");
}

// Iteration over a pair of plain members.
struct Bag {
  uint32_t v[MAXN];
  size_t n;
  size_t Count() const { return n; }
  uint32_t Get(size_t i) const { return v[i]; }
};
ENTRY(proxy) {
  Values x;
  Bag b;
  memcpy(b.v, x.v, sizeof b.v);
  b.n = x.n;
  typedef uni::VirtualIteratorProxy<Bag, &Bag::Count, uint32_t, &Bag::Get> P;
  size_t at = 0;
  for (auto v : P(&b)) { CHECK(at < x.n && v == x.v[at], "iteration visits the values in order"); at++; }
  CHECK(at == x.n, "iteration visits every value");
  typedef uni::VirtualIterator<Bag, &Bag::Count, uint32_t, &Bag::Get> I;
  const size_t from = pick("from", MAXN + 1);
  if (from > x.n) return;
  at = from;
  for (I i(&b, from), e(&b); i != e; i++) { CHECK(*i == x.v[at], "iteration starts where it was asked to"); at++; }
  CHECK(at == x.n, "iteration visits the rest");
}

// Ownership that moves from a plain pointer.
ENTRY(to_element) {
  alive = born = 0;
  const uint32_t v = sym<uint32_t>("value");
  {
    std::unique_ptr<Thing> p(new Thing(v));
    const Thing *raw = p.get();
    const size_t way = pick("way", 4);
    if (way == 0) {
      auto e = uni::ToElement(p);
      CHECK(!p && e.get() == raw && e->Value() == v && alive == 1, "an element takes over what the pointer owned");
    } else if (way == 1) {
      auto e = uni::ToElement(std::move(p));
      CHECK(!p && e.get() == raw && alive == 1, "an element takes over what the pointer owned");
      uni::Element<const Item> c(std::move(e));
      CHECK(!e && c.get() == raw && alive == 1, "an element moves on as what it is");
    } else if (way == 2) {
      uni::Element<Thing> view(p.get(), false);
      uni::Element<const Item> c(std::move(view));
      c.reset();
      CHECK(alive == 1 && p->Value() == v, "a moved view stays a view");
    } else {
      std::vector<uni::Element<Thing>> many;
      many.emplace_back(p.get(), false);
      many.emplace_back(new Thing(v));
      many.emplace_back(uni::ToElement(std::unique_ptr<Thing>(new Thing(v))));
      CHECK(alive == 3, "elements live in a container");
      many.erase(many.begin());
      CHECK(alive == 3 && p->Value() == v, "removing a view destroys nothing");
      many.pop_back();
      CHECK(alive == 2, "removing an owner destroys its own");
    }
  }
  CHECK(alive == 0 && born >= 1, "everything owned is destroyed once");
}

struct B : uni::Bone {
  uint32_t id = 0;
  uni::TransformType TMType() const override { return uni::TMTYPE_RTS; }
  const Bone *Parent() const override { return nullptr; }
  size_t Index() const override { return id; }
  std::string Name() const override { return {}; }
  operator uni::Element<const uni::Bone>() const { return {static_cast<const uni::Bone *>(this), false}; }
};
struct S : uni::Skeleton {
  uni::VectorList<uni::Bone, B> bones;
  uni::SkeletonBonesConst Bones() const override { return uni::SkeletonBonesConst(&bones, false); }
  std::string Name() const override { return {}; }
};
struct T : uni::MotionTrack {
  uint32_t id = 0;
  TrackType_e TrackType() const override { return Position; }
  size_t BoneIndex() const override { return id; }
};
struct M : uni::Motion {
  uni::PolyVectorList<uni::MotionTrack, T> tracks;
  std::string Name() const override { return {}; }
  uint32 FrameRate() const override { return 30; }
  float Duration() const override { return 1; }
  uni::MotionTracksConst Tracks() const override { return uni::MotionTracksConst(&tracks, false); }
  MotionType_e MotionType() const override { return Absolute; }
};
ENTRY(parts) {
  Values x;
  S s; M m;
  for (size_t i = 0; i < x.n; i++) {
    s.bones.storage.emplace_back();
    s.bones.storage.back().id = x.v[i];
    m.tracks.storage.emplace_back(new T);
    m.tracks.storage.back()->id = x.v[i];
  }
  size_t at = 0;
  for (auto b : s) { CHECK(at < x.n && b->Index() == x.v[at], "a skeleton lists its bones in order"); at++; }
  CHECK(at == x.n, "a skeleton lists all of its bones");
  at = 0;
  for (auto t : m) { CHECK(at < x.n && t->BoneIndex() == x.v[at], "a motion lists its tracks in order"); at++; }
  CHECK(at == x.n, "a motion lists all of its tracks");
}

static Vector4A16 vec(const float *f) { return Vector4A16(f[0], f[1], f[2], f[3]); }
ENTRY(transforms) {
  float a[12], b[12];
  symBytes(a, sizeof a, "a");
  memcpy(b, a, sizeof b);
  for (auto &f : a) assume(f == f && std::fabs(f) < 1e30f);
  const size_t i = pick("changed", 13);
  if (i < 12) { b[i] = sym<float>("other"); assume(b[i] == b[i] && std::fabs(b[i]) < 1e30f); }
  const uni::RTSValue x(vec(a), vec(a + 4), vec(a + 8)), y(vec(b), vec(b + 4), vec(b + 8));
  CHECK((x == y) == !(x != y), "different is the opposite of equal");
  if (i == 12) CHECK(x == y, "a transform equals its copy");
  else if (std::fabs(a[i]) < 1e6f && std::fabs(b[i]) < 1e6f && std::fabs(a[i] - b[i]) > 1.f)
    CHECK(x != y, "transforms that differ in a component are different");
  float d[12];
  const uni::RTSValue n;
  memcpy(d, &n, sizeof d);
  static const float want[12] = {0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0};
  CHECK(!memcmp(d, want, sizeof d), "a transform starts as the one that changes nothing");
}
