//! bounds a block of 64 bytes with the pointer at each of its slots and every target inside of it, both pointer forms, origin at every slot; up to 3 pointers fixed in every order of 4 (thorough 6) steps, clearing of the fixup history included; every 32 bit offset and every pair of addresses up to 2 GB apart for the self relative form
//! outside a self relative pointer whose target is the pointer itself (offset 0 means null by design), the 32 bit build
#include "sx.h"
#include <limits>
#include <stdexcept>
#include "datas/pointer.hpp"

thread_local std::vector<void *> es::usedPts;

struct Blk { alignas(16) char b[64]; };
// one pointer, one fixup
template <class P, class Off> static void single() {
  ClearESPointers();
  static Blk blk;
  symBytes(blk.b, sizeof blk.b, "b");
  const size_t at = pick("slot", TIER(8, 64 / sizeof(P))) * TIER(8, sizeof(P)), origin = pick("origin", TIER(2, 4)) * TIER(32, 16);
  Off off = sym<Off>("off");
  // the target lies inside the block
  assume((int64_t)off >= -(int64_t)origin && (int64_t)off < (int64_t)(64 - origin));
  memcpy(blk.b + at, &off, sizeof off);
  Blk before = blk;
  P &p = *reinterpret_cast<P *>(blk.b + at);
  char *target = blk.b + origin + (int64_t)off;
  if (sizeof(P) == 4) assume(off == 0 || target != (char *)&p);
  const bool nul = off == 0;
  CHECK(!p.Fixed(), "a fresh pointer is not fixed");
  const bool r = p.Fixup(blk.b + origin);
  observe("r", r);
  CHECK(r == !nul, "fixing reports whether there was an offset");
  CHECK((char *)(char *)p == (nul ? nullptr : target), "a stored offset becomes the address it denotes, none stays null");
  CHECK((const char *)(const P &)p == (nul ? nullptr : target), "the constant view agrees");
  if (!nul) { CHECK(&*p == target && p.operator->() == target, "access goes to the target"); CHECK(&*p >= blk.b && &*p < blk.b + 64 && *p == *target, "access goes to the target"); }
  CHECK(p.Fixed(), "the pointer is known as fixed");
  Blk after = blk;
  const size_t o2 = pick("origin", 4) * 16;
  CHECK(!p.Fixup(blk.b + o2), "a second fixup is refused");
  CHECK(!memcmp(&after, &blk, sizeof blk), "a second fixup changes nothing");
  CHECK(!memcmp(before.b, blk.b, at) && !memcmp(before.b + at + sizeof(P), blk.b + at + sizeof(P), 64 - at - sizeof(P)), "nothing but the pointer changes");
}
ENTRY(single_x64) { single<esPointerX64<char>, uint64_t>(); }
ENTRY(single_rel) { single<es::PointerX86<char>, int32_t>(); }
static_assert(std::is_same<esPointerX86<char>, es::PointerX86<char>>::value, "the 64 bit build uses self relative pointers for 32 bit offsets");

// Any order of fixups over several neighbours.
template <class P, class Off> static void history() {
  ClearESPointers();
  static struct { P p[3]; char data[16]; } v;
  char *root = v.data;
  Off off[3];
  bool fixed[3] = {};
  for (int i = 0; i < 3; i++) { off[i] = below("off", 16); memcpy((void *)&v.p[i], &off[i], sizeof(Off)); }
  for (int s = 0; s < TIER(4, 6); s++) {
    const size_t i = pick("which", 3);
    CHECK(v.p[i].Fixup(root) == (!fixed[i] && off[i] != 0), "a pointer is fixed once");
    fixed[i] = true;
    for (int k = 0; k < 3; k++) {
      CHECK(v.p[k].Fixed() == fixed[k], "a pointer counts as fixed when it was");
      if (fixed[k]) CHECK((char *)v.p[k] == (off[k] ? root + off[k] : nullptr), "a fixed pointer keeps its target");
      else { Off raw; memcpy(&raw, (void *)&v.p[k], sizeof raw); CHECK(raw == off[k], "a pointer not fixed yet keeps its offset"); }
    }
  }
  ClearESPointers();
  for (auto &p : v.p) CHECK(!p.Fixed(), "clearing forgets the history");
}
ENTRY(history_x64) { history<esPointerX64<char>, uint64_t>(); }
ENTRY(history_rel) { history<es::PointerX86<char>, int32_t>(); }

// Without the check a pointer can be moved on, as the caller asks.
ENTRY(nocheck) {
  ClearESPointers();
  static char data[32];
  esPointerX64<char> p; uint64_t o = below("off", 16); memcpy((void *)&p, &o, 8);
  CHECK(p.Fixup(data, true) == (o != 0), "unchecked fixups happen");
  CHECK((char *)p == (o ? data + o : nullptr), "unchecked fixups happen");
  CHECK(!p.Fixup(data), "an unchecked fixup is remembered");
}
// Assignment of any near address, and any offset.
ENTRY(assign) {
  ClearESPointers();
  static struct { char lead[64]; es::PointerX86<char> p; char tail[60]; esPointerX64<char> q; } v;
  size_t at = below("at", sizeof v);
  char *t = (char *)&v + at;
  assume(t != (char *)&v.p);
  v.p = t; v.q = t;
  CHECK((char *)v.p == t && (char *)v.q == t, "an assigned address reads back");
  CHECK(v.p.Fixed() == false && v.q.Fixed() == false, "assignment does not count as a fixup");
}
ENTRY(anyoffset) {
  ClearESPointers();
  static es::PointerX86<char> p;
  const int32_t o = sym<int32_t>("o"), d = sym<int32_t>("root distance");
  memcpy((void *)&p, &o, 4);
  const uintptr_t self = (uintptr_t)&p, root = self + (int64_t)d, target = root + (int64_t)o;
  const int64_t dist = (int64_t)d + o;
  assume(dist >= INT32_MIN && dist <= INT32_MAX && dist != 0);
  const bool r = p.Fixup((char *)root);
  CHECK(r == (o != 0), "fixing reports whether there was an offset");
  CHECK((uintptr_t)(char *)p == (o ? target : 0), "any offset within reach becomes the address it denotes");
}
