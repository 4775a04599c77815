//! bounds vectors of up to 4 borrowed elements with arbitrary contents; every sequence of 4 (quick) / 5 (thorough) operations out of append, remove, resize, clear, copy, move (assigned or constructed), relink, unlink; smart pointers with either ownership through moves and resets
//! outside longer sequences, element types with constructors
//! flags * --timeout 400
#include "sx.h"
#include <memory>
#include <vector>
#include <limits>
#include <cstdlib>
#include "datas/allocator_hybrid.hpp"
#include "datas/deleter_hybrid.hpp"
using HVec = std::vector<uint32_t, es::allocator_hybrid<uint32_t>>;
static void agree(const HVec &v, const std::vector<uint32_t> &m, const char *why) {
  CHECK(v.size() == m.size(), why);
  for (size_t i = 0; i < m.size(); i++) CHECK(v[i] == m[i], why);
}
ENTRY(linking) {
  const size_t n = pick("n", 5);
  uint32_t *mem = (uint32_t *)malloc((n + 1) * 4), *keep = (uint32_t *)malloc((n + 1) * 4);
  symBytes(mem, (n + 1) * 4, "mem"); memcpy(keep, mem, (n + 1) * 4);
  {
    HVec v;
    const size_t own = pick("own", 3);
    for (size_t i = 0; i < own; i++) v.push_back(i);
    if (pick("form", 2)) es::allocator_hybrid_base::LinkStorage(v, mem, n); else es::allocator_hybrid_base::LinkStorage(v, mem, mem + n);
    CHECK(v.size() == n, "a linked container has the elements of the storage");
    if (n) CHECK(v.data() == mem, "a linked container works in place");
    for (size_t i = 0; i < n; i++) { CHECK(v[i] == keep[i], "linking copies nothing"); v[i] = i + 1000; CHECK(mem[i] == i + 1000, "writes go to the linked storage"); v[i] = keep[i]; }
    if (pick("dispose", 2)) {
      es::allocator_hybrid_base::DisposeStorage(v);
      CHECK(v.empty(), "an unlinked container is empty");
      v.push_back(7); CHECK(v.size() == 1 && v[0] == 7, "an unlinked container is an ordinary one");
    }
  }
  CHECK(__sx_live(mem), "linked storage is never freed");
  CHECK(!memcmp(mem, keep, (n + 1) * 4), "linked storage keeps its contents");
  free(mem); free(keep);
}
ENTRY(operations) {
  const size_t n = 1 + pick("n", 2);
  uint32_t *mem[2]; uint32_t guard[2];
  for (int i = 0; i < 2; i++) { mem[i] = (uint32_t *)malloc((n + 1) * 4); symBytes(mem[i], (n + 1) * 4, "mem"); guard[i] = mem[i][n]; }
  {
    HVec v, other; std::vector<uint32_t> m, om;
    es::allocator_hybrid_base::LinkStorage(v, mem[0], n); m.assign(mem[0], mem[0] + n);
    for (int i = 0; i < TIER(4, 5); i++) {
      uint32_t x = 100 + i;
      switch (pick("op", 10)) {
      case 0: v.push_back(x); m.push_back(x); break;
      case 1: if (!m.empty()) { v.pop_back(); m.pop_back(); } break;
      case 2: { size_t k = pick("size", 5); v.resize(k); m.resize(k); break; }
      case 3: v.clear(); m.clear(); break;
      case 4: other = v; om = m; break;
      case 5: other = std::move(v); v = HVec(); om = m; m.clear(); break;
      case 6: { if (other.data() == mem[1]) break; // relink
        es::allocator_hybrid_base::DisposeStorage(v); es::allocator_hybrid_base::LinkStorage(v, mem[1], n); m.assign(mem[1], mem[1] + n); break; }
      case 8: { HVec c(v); agree(c, m, "a copy keeps the elements"); if (m.size()) CHECK(c.data() != v.data(), "two containers never share storage by accident"); c.push_back(1); if (m.size()) c[0] = 2; break; }
      case 9: { HVec c(std::move(v)); agree(c, m, "a moved-to container keeps the elements"); v = std::move(c); break; }
      case 7: if (!m.empty()) { v[0] = x; m[0] = x; } break;
      }
      agree(v, m, "a container on linked storage behaves like any other");
    }
    if (!(om.size() && v.data() == other.data())) agree(other, om, "a copy or a moved-to container keeps its elements");
    if (om.size() && m.size()) CHECK(v.data() != other.data() , "two containers never share storage by accident");
  }
  for (int i = 0; i < 2; i++) {
    CHECK(__sx_live(mem[i]), "linked storage is never freed");
    CHECK(mem[i][n] == guard[i], "nothing is written behind linked storage");
    free(mem[i]);
  }
}
ENTRY(allocator_alone) {
  uint32_t buf[4]; es::allocator_hybrid<uint32_t> a(buf), e; const es::allocator_hybrid<uint16_t> o;
  CHECK(a != e && e == o, "allocators compare by the storage they are linked to");
  uint32_t *p = e.allocate(3); CHECK(p && p != buf, "an unlinked allocator takes memory from the heap"); p[2] = 5; e.deallocate(p, 3);
  uint32_t *q = a.allocate(4); CHECK(q == buf, "a linked allocator hands out its storage"); a.deallocate(q, 4);
  p = a.allocate(2); CHECK(p != buf, "storage given back is not handed out again"); p[1] = 1; a.deallocate(p, 2);
}
static int destroyed;
struct Obj { uint32_t v; ~Obj() { destroyed++; } };
ENTRY(deleters) {
  destroyed = 0;
  Obj *o = new Obj{sym<uint32_t>("v")};
  const bool own = sym<bool>("own"); const uint32_t val = o->v;
  const int way = (int)pick("way", 3);
  {
    std::unique_ptr<Obj, es::deleter_hybrid> p(o, es::deleter_hybrid(own));
    if (way == 1) { std::unique_ptr<Obj, es::deleter_hybrid> q(std::move(p)); CHECK(q->v == val, "a moved pointer"); }
    if (way == 2) { std::unique_ptr<Obj, es::deleter_hybrid> q; q = std::move(p); q.reset(); }
  }
  CHECK(destroyed == (own ? 1 : 0), "an owned object is destroyed once, a borrowed one never");
  if (!own) { CHECK(o->v == val, "a borrowed object stays"); delete o; }
  { std::unique_ptr<Obj, es::deleter_hybrid> d(new Obj{1}); destroyed = 0; }
  CHECK(destroyed == 1, "pointers own by default");
}
ENTRY(cdeleters) {
  char *o = (char *)malloc(4); const bool own = sym<bool>("own"); o[0] = 5;
  { std::unique_ptr<char, es::deleter_hybrid_c> p(o, es::deleter_hybrid_c(own)); std::unique_ptr<char, es::deleter_hybrid_c> q(std::move(p)); }
  if (__sx_engine()) CHECK(__sx_live(o) == !own, "owned memory is freed, borrowed memory is not");
  if (!own) { CHECK(o[0] == 5, "borrowed memory stays"); free(o); }
  { std::unique_ptr<char, es::deleter_hybrid_c> d((char *)malloc(2)); o = d.get(); }
  if (__sx_engine()) CHECK(!__sx_live(o), "pointers own by default");
}
