#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

// A first-class value: one leaf per scalar (vectors and aggregates are flattened).
struct Val {
  E one;
  std::unique_ptr<std::vector<E>> many;
  Val() {}
  Val(E e) : one(e) {}
  Val(std::vector<E> v) { if (v.size() == 1) one = v[0]; else many = std::make_unique<std::vector<E>>(std::move(v)); }
  Val(const Val &o) : one(o.one) { if (o.many) many = std::make_unique<std::vector<E>>(*o.many); }
  Val(Val &&) = default;
  Val &operator=(const Val &o) { one = o.one; if (o.many) many = std::make_unique<std::vector<E>>(*o.many); else many.reset(); return *this; }
  Val &operator=(Val &&) = default;
  unsigned n() const { return many ? many->size() : (one.w ? 1 : 0); }
  E at(unsigned i) const { return many ? (*many)[i] : one; }
  std::vector<E> vec() const { if (many) return *many; if (!one.w) return {}; return {one}; }
};

enum ObjKind : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FUNC };
struct SymByte { const Node *n = nullptr; uint32_t k = 0; };
struct Obj {
  uint64_t base = 0, size = 0;
  ObjKind kind = OK_HEAP;
  bool freed = false, ro = false, external = false;
  const void *tag = nullptr; // Function* or GlobalVariable* or allocation site
  std::vector<uint8_t> b;
  std::vector<uint8_t> st;   // empty: all concrete; 0 concrete 1 symbolic 2 uninitialised
  std::vector<SymByte> sy;
};
using ObjP = std::shared_ptr<Obj>;
struct Mem {
  static const unsigned CH = 64;
  struct Chunk { ObjP o[CH]; };
  std::vector<std::shared_ptr<Chunk>> ch;
  uint64_t n = 1; // next object number
  Obj *get(uint64_t id) const { if (id == 0 || id >= n) return nullptr; auto &c = ch[id / CH]; return c ? c->o[id % CH].get() : nullptr; }
  Obj *wr(uint64_t id) {
    auto &c = ch[id / CH];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto &o = c->o[id % CH];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
  }
  Obj *alloc(uint64_t size, ObjKind k, unsigned align);
};
static const unsigned OBJ_SHIFT = 26;

struct KInst { llvm::Instruction *I; int dst; std::vector<int> ops; };
struct KFunc {
  llvm::Function *F;
  unsigned nregs = 0;
  std::vector<KInst> code;
  std::map<const llvm::BasicBlock *, unsigned> bbStart;
  std::vector<Val> consts;
  std::vector<llvm::Constant *> constSrc;
};
struct Frame {
  KFunc *kf;
  unsigned pc = 0;
  const llvm::BasicBlock *prev = nullptr;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> va;
  std::vector<llvm::Type *> vaTy;
};
struct ExcInfo { uint64_t tinfo = 0, dtor = 0, adj = 0; int refs = 0; };
struct Thread {
  std::vector<Frame> stack;
  bool done = false;
  uint64_t waitAddr = 0;
  std::vector<uint64_t> caught;
  uint64_t excObj = 0;
};
struct Input { std::string name; std::vector<E> bytes; bool internal = false; };
struct Obs { std::string name; E v; };
struct State {
  std::vector<Thread> th;
  unsigned cur = 0;
  Mem mem;
  std::vector<E> cs;
  std::vector<Input> inputs;
  std::vector<Obs> obs;
  std::map<uint64_t, ExcInfo> exc;
  std::map<const llvm::GlobalVariable *, uint64_t> tls;
  uint64_t steps = 0;
  unsigned depth = 0;      // forks on this path
  unsigned preempt = 0;
  bool dead = false, finished = false;
  std::vector<std::pair<std::string, unsigned>> nameCount;
  std::shared_ptr<Model> hint; // a model known to satisfy cs (may be null)
  Frame &fr() { return th[cur].stack.back(); }
};
