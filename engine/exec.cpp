#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <random>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

static Module *M;
static const DataLayout *DL;
static LLVMContext LC;

struct Cfg {
  double timeout = 600, grace = 0; // seconds; grace: how long to go on after a violation
  uint64_t maxSteps = 30000000; // per path
  unsigned maxDepthStack = 600;
  unsigned maxViol = 12, perKey = 3;
  unsigned samples = 6;
  unsigned maxPreempt = 4;
  uint64_t maxPaths = 10000000;
  bool symUninit = true;
  bool verbose = false;
  unsigned seed = 1;
  uint64_t memMB = 6000;
} G;

struct Violation {
  std::string kind, label, where, sched;
  std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs;
  bool uninit = false;
};
struct Sample {
  std::vector<std::pair<std::string, std::vector<uint8_t>>> inputs;
  std::vector<std::pair<std::string, std::string>> obs;
  bool uninit = false;
};
static std::vector<Violation> viols;
static std::map<std::string, unsigned> violKeys;
static std::vector<Sample> samples;
static std::map<std::string, uint64_t> incomplete;
static std::map<std::string, uint64_t> assertHits, reachHits;
static uint64_t pathsDone = 0, pathsKilled = 0, forks = 0, totSteps = 0, assertsChecked = 0, assertsSolver = 0;
static std::set<Function *> executed;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ------------------------------------------------------------------ memory
Obj *Mem::alloc(uint64_t size, ObjKind k, unsigned align) {
  uint64_t id = n++;
  if (id / CH >= ch.size()) ch.resize(id / CH + 1);
  auto &c = ch[id / CH];
  if (!c) c = std::make_shared<Chunk>();
  else if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  auto o = std::make_shared<Obj>();
  o->base = (id << OBJ_SHIFT) + std::max<uint64_t>(align, 16) * (align > 16 ? 1 : 1) + 4096 - (4096 % std::max<uint64_t>(align, 16));
  if (align <= 16) o->base = (id << OBJ_SHIFT) + 4096 + 16;
  o->size = size; o->kind = k;
  o->b.resize(size);
  c->o[id % CH] = o;
  return o.get();
}

static std::string demangled(Function *F) { return demangle(F->getName().str()); }
static std::string where(State &s) {
  std::string r; raw_string_ostream os(r);
  auto &t = s.th[s.cur];
  int shown = 0;
  for (int i = (int)t.stack.size() - 1; i >= 0 && shown < 6; i--, shown++) {
    auto &f = t.stack[i];
    if (shown) os << " <- ";
    std::string d = demangled(f.kf->F);
    if (d.size() > 90) d = d.substr(0, 90) + "...";
    os << d;
    if (f.pc < f.kf->code.size()) if (auto &dl = f.kf->code[f.pc].I->getDebugLoc()) {
      std::string fn = dl->getFilename().str(); auto p = fn.rfind('/'); if (p != std::string::npos) fn = fn.substr(p + 1);
      os << "@" << fn << ":" << dl.getLine();
    }
  }
  return r;
}

// ------------------------------------------------------------------ worklist
static std::deque<std::unique_ptr<State>> work;
static std::unique_ptr<State> cloneState(State &s) { forks++; auto n = std::make_unique<State>(s); n->depth++; return n; }

static void addC(State &s, E c) {
  if (c.k()) { if (c.isZero()) s.dead = true; return; }
  if (c.n->op == O_AND && c.w == 1) { addC(s, c.n->kids[0]); addC(s, c.n->kids[1]); return; }
  s.cs.push_back(c);
}
static std::shared_ptr<Model> mergeModel(const std::shared_ptr<Model> &base, const std::shared_ptr<Model> &upd) {
  auto m = base ? std::make_shared<Model>(*base) : std::make_shared<Model>();
  if (upd) for (auto &p : upd->v) m->v[p.first] = p.second;
  return m;
}
// Feasibility of c and !c. Ensures s.hint satisfies the constraints when non-null.
enum class TV { T, F, BOTH, UNK };
static void ensureHint(State &s) {
  if (s.hint) return;
  std::shared_ptr<Model> m;
  if (s.cs.empty()) { s.hint = std::make_shared<Model>(); return; }
  if (solve(s.cs, E(), &m) == SR::SAT) s.hint = mergeModel(nullptr, m);
}
static bool unknownHappened = false;
static TV query(State &s, E c, std::shared_ptr<Model> *other = nullptr, bool *hintSide = nullptr) {
  if (c.k()) return c.isZero() ? TV::F : TV::T;
  // does the path already contain it?
  for (auto &e : s.cs) { if (e == c) return TV::T; }
  E nc = bnot(c);
  for (auto &e : s.cs) { if (e == nc) return TV::F; }
  if (!X.realFp) ensureHint(s);
  if (s.hint && !X.realFp) {
    Evaluator ev(*s.hint);
    bool v = ev.evalBool(c);
    if (hintSide) *hintSide = v;
    std::shared_ptr<Model> m;
    SR r = solve(s.cs, v ? nc : c, &m);
    if (r == SR::UNSAT) return v ? TV::T : TV::F;
    if (r == SR::UNKNOWN) { unknownHappened = true; if (other) *other = nullptr; return TV::UNK; }
    if (other) *other = mergeModel(s.hint, m);
    return TV::BOTH;
  }
  SR a = solve(s.cs, c, nullptr), b = solve(s.cs, nc, nullptr);
  if (hintSide) *hintSide = true;
  if (a == SR::UNKNOWN || b == SR::UNKNOWN) { unknownHappened = true; return TV::UNK; }
  if (a == SR::SAT && b == SR::SAT) return TV::BOTH;
  if (a == SR::UNSAT && b == SR::UNSAT) { s.dead = true; return TV::T; }
  return a == SR::SAT ? TV::T : TV::F;
}
static void killIncomplete(State &s, const std::string &why) { incomplete[why]++; if (G.verbose) fprintf(stderr, "incomplete: %s at %s\n", why.c_str(), where(s).c_str()); s.dead = true; pathsKilled++; }

static std::string hexOf(const APInt &a) { SmallString<64> s; a.toStringUnsigned(s, 16); return std::string(s.str()); }
static void fillInputs(State &s, const Model &m, std::vector<std::pair<std::string, std::vector<uint8_t>>> &out, bool &uninit) {
  Evaluator ev(m);
  for (auto &in : s.inputs) {
    if (in.internal) continue;
    std::vector<uint8_t> v;
    for (auto &b : in.bytes) v.push_back(ev.eval(b).getZExtValue());
    out.push_back({in.name, v});
  }
  (void)uninit;
}
static bool usesUninit(const std::vector<E> &cs) {
  for (auto &c : cs) for (auto i : symsOf(c)) if (X.syms[i].name.compare(0, 7, "uninit:") == 0) return true;
  return false;
}
static void report(State &s, const std::string &kind, const std::string &label, E cond) {
  std::string w = where(s);
  std::string key = kind + "|" + label;
  if (kind != "assert") key += "|" + w.substr(0, w.find(" <- "));
  if (violKeys[key] >= G.perKey || viols.size() >= G.maxViol) return;
  std::vector<E> all = s.cs;
  if (cond.w && !cond.k()) all.push_back(cond);
  std::shared_ptr<Model> m;
  SR r = SR::SAT;
  bool known = s.hint && !all.empty() && !X.realFp;
  if (known) { Evaluator ev(*s.hint); for (auto &e : all) if (!ev.evalBool(e)) { known = false; break; } }
  if (known) m = s.hint;
  else if (!all.empty()) r = solve(all, E(), &m);
  if (r == SR::UNSAT) return;
  if (r == SR::UNKNOWN) { incomplete["solver gave no model for a candidate violation (" + key + ")"]++; return; }
  if (!m) m = std::make_shared<Model>();
  violKeys[key]++;
  Violation v; v.kind = kind; v.label = label; v.where = w;
  fillInputs(s, *m, v.inputs, v.uninit);
  v.uninit = usesUninit(all);
  viols.push_back(v);
  if (G.grace > 0) G.timeout = std::min(G.timeout, elapsed() + G.grace);
  if (G.verbose) fprintf(stderr, "violation %s %s at %s\n", kind.c_str(), label.c_str(), w.c_str());
}
// memory-safety style failure: the path cannot go on
static void fail(State &s, const std::string &kind, const std::string &label) { report(s, kind, label, E()); s.dead = true; pathsKilled++; }

// Concretise: forks the remaining values off (re-executing the current instruction).
static bool concretize(State &s, E e, uint64_t &out) {
  if (e.k()) { out = e.u64(); return true; }
  ensureHint(s);
  uint64_t v;
  if (s.hint) { Evaluator ev(*s.hint); v = ev.eval(e).extractBitsAsZExtValue(std::min(64u, e.w), 0); }
  else { killIncomplete(s, "no model while concretising"); return false; }
  E c = eq(e, C(e.w, v));
  std::shared_ptr<Model> om;
  TV t = query(s, c, &om);
  if (t == TV::UNK) { killIncomplete(s, "solver timeout while concretising"); return false; }
  if (t == TV::BOTH) {
    auto o = cloneState(s);
    addC(*o, bnot(c)); o->hint = om;
    work.push_back(std::move(o));
  }
  addC(s, c);
  out = v;
  return true;
}

// Resolve an n-byte access. Returns object; offset expression relative to it.
static bool resolve(State &s, E addr, uint64_t n, bool write, Obj *&o, uint64_t &id, E &off, bool &offConst) {
  uint64_t a;
  if (addr.k()) a = addr.u64();
  else {
    ensureHint(s);
    if (!s.hint) { killIncomplete(s, "no model while resolving a pointer"); return false; }
    Evaluator ev(*s.hint);
    a = ev.eval(addr).getZExtValue();
  }
  auto desc = [&](const char *what) { return std::string(what) + (write ? " write of " : " read of ") + std::to_string(n) + " byte(s)"; };
  id = a >> OBJ_SHIFT;
  o = s.mem.get(id);
  bool in = o && a >= o->base && a + n <= o->base + o->size;
  if (addr.k()) {
    if (!in) {
      if (!o || a < 4096) { fail(s, "memory", desc(a < 4096 ? "null pointer" : "wild pointer")); return false; }
      fail(s, "memory", desc(o->freed ? "use after free" : "out of bounds") + " (object of " + std::to_string(o->size) + ")"); return false;
    }
  } else {
    if (o && o->size >= n) {
      E rel = sub(addr, C(64, o->base));
      E inb = ule(rel, C(64, o->size - n));
      std::shared_ptr<Model> om;
      TV t = query(s, inb, &om);
      if (t == TV::UNK) { killIncomplete(s, "solver timeout while resolving a pointer"); return false; }
      if (t == TV::F) { fail(s, "memory", desc("out of bounds") + " (object of " + std::to_string(o->size) + ")"); return false; }
      if (t == TV::BOTH) {
        if (in) {
          auto f = cloneState(s); addC(*f, bnot(inb)); f->hint = om; work.push_back(std::move(f));
          addC(s, inb);
        } else { // the hint is the out-of-bounds side: it may be another object or a violation
          auto f = cloneState(s); addC(*f, inb); f->hint = om; work.push_back(std::move(f));
          addC(s, bnot(inb));
          fail(s, "memory", desc("out of bounds") + " (object of " + std::to_string(o->size) + ")"); return false;
        }
      }
      in = true;
    } else {
      if (!o || a < 4096) fail(s, "memory", desc(a < 4096 ? "null pointer" : "wild pointer"));
      else fail(s, "memory", desc(o->freed ? "use after free" : "out of bounds") + " (object of " + std::to_string(o->size) + ")");
      return false;
    }
  }
  if (o->freed) { fail(s, "memory", desc("use after free")); return false; }
  if (o->kind == OK_FUNC) { fail(s, "memory", desc("function memory")); return false; }
  if (o->external) { killIncomplete(s, "access to external object " + std::string(o->tag ? ((const GlobalVariable *)o->tag)->getName().str() : "")); return false; }
  if (write && o->ro) { fail(s, "memory", "write to constant object"); return false; }
  off = sub(addr, C(64, o->base));
  offConst = off.k();
  return true;
}
static uint64_t uninitCount = 0;
static E readByte(State &s, uint64_t id, Obj *&o, uint64_t i) {
  if (o->st.empty() || o->st[i] == 0) return C(8, o->b[i]);
  if (o->st[i] == 1) {
    E e; e.n = o->sy[i].n; e.w = e.n->w;
    return extract(e, o->sy[i].k * 8, 8);
  }
  Obj *w = s.mem.wr(id); o = w;
  if (!G.symUninit) { w->st[i] = 0; return C(8, w->b[i]); }
  E sy = mkSym("uninit:" + std::to_string(uninitCount++), 8);
  if (w->sy.empty()) w->sy.resize(w->size);
  w->st[i] = 1; w->sy[i] = {sy.n, 0};
  return sy;
}
static E readConc(State &s, uint64_t id, Obj *o, uint64_t off, unsigned n) {
  if (n <= 8) {
    bool conc = o->st.empty();
    if (!conc) { conc = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; } }
    if (conc) { uint64_t v = 0; memcpy(&v, &o->b[off], n); return C(n * 8, v); }
  }
  // one whole node?
  if (!o->st.empty() && o->st[off] == 1 && o->sy[off].k == 0 && o->sy[off].n->w == n * 8) {
    bool ok = true; const Node *nd = o->sy[off].n;
    for (unsigned i = 1; i < n; i++) if (o->st[off + i] != 1 || o->sy[off + i].n != nd || o->sy[off + i].k != i) { ok = false; break; }
    if (ok) { E e; e.n = nd; e.w = nd->w; return e; }
  }
  std::vector<E> p;
  for (int i = (int)n - 1; i >= 0; i--) p.push_back(readByte(s, id, o, off + i));
  return concatN(p);
}
static void writeConc(State &s, uint64_t id, uint64_t off, E v) {
  Obj *o = s.mem.wr(id);
  unsigned n = (v.w + 7) / 8;
  if (v.w % 8) v = zext(v, n * 8);
  if (v.kk()) {
    memcpy(&o->b[off], &v.c, n);
    if (!o->st.empty()) memset(&o->st[off], 0, n);
    return;
  }
  if (o->st.empty()) o->st.resize(o->size);
  if (o->sy.empty()) o->sy.resize(o->size);
  if (v.n->op == O_CONCAT || v.k()) { // keep concrete bytes concrete
    bool byteAligned = true; 
    for (unsigned i = 0; i < n; i++) {
      E b = extract(v, i * 8, 8);
      if (b.kk()) { o->st[off + i] = 0; o->b[off + i] = b.c; }
      else { o->st[off + i] = 1; o->sy[off + i] = {v.n, i}; }
    }
    (void)byteAligned;
    if (v.k()) for (unsigned i = 0; i < n; i++) { o->st[off + i] = 0; o->b[off + i] = v.ap().extractBitsAsZExtValue(8, i * 8); }
    return;
  }
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = 1; o->sy[off + i] = {v.n, i}; }
}
static bool splitIdx(State &s, Obj *o, E off, unsigned n, uint64_t &lo, uint64_t &hi, unsigned &stride, unsigned &phase) {
  // candidate offsets lo, lo+stride, ... <= hi
  urange(off, lo, hi);
  hi = std::min(hi, o->size - n);
  // alignment: known low bits
  stride = 1; phase = lo;
  E base = off; uint64_t kadd = 0;
  if (off.n->op == O_ADD && off.n->kids[1].k()) { base = off.n->kids[0]; kadd = off.n->kids[1].u64(); }
  if (base.n->op == O_CONCAT && base.n->kids[base.n->nk - 1].isZero()) {
    unsigned z = std::min(base.n->kids[base.n->nk - 1].w, 12u);
    stride = 1u << z;
  } else if (base.n->op == O_MUL && base.n->kids[1].k()) {
    uint64_t k = base.n->kids[1].u64(); uint64_t l2, h2; urange(base, l2, h2);
    (void)h2;
    if (k < 4096) { unsigned z = __builtin_ctzll(k); stride = 1u << z; }
  }
  uint64_t ph = kadd & (stride - 1);
  uint64_t first = (lo & ~(uint64_t)(stride - 1)) | ph;
  if (first < lo) first += stride;
  lo = first;
  return lo <= hi;
}
static const uint64_t MAXTAB = 4096;
static bool loadMem(State &s, E addr, unsigned n, E &out) {
  Obj *o; uint64_t id; E off; bool oc;
  if (!resolve(s, addr, n, false, o, id, off, oc)) return false;
  if (oc) { out = readConc(s, id, o, off.u64(), n); return true; }
  uint64_t lo, hi; unsigned stride, ph;
  if (!splitIdx(s, o, off, n, lo, hi, stride, ph)) { killIncomplete(s, "empty index range"); return false; }
  uint64_t cnt = (hi - lo) / stride + 1;
  if (cnt > MAXTAB) {
    uint64_t v; if (!concretize(s, off, v)) return false;
    out = readConc(s, id, s.mem.get(id), v, n); return true;
  }
  std::vector<E> el;
  for (uint64_t p = lo; p <= hi; p += stride) { el.push_back(readConc(s, id, s.mem.get(id), p, n)); }
  E idx = sub(off, C(64, lo));
  unsigned sh = __builtin_ctz(stride);
  if (sh) idx = mk(O_LSHR, idx, C(64, sh));
  unsigned bits = 1; while ((1ull << bits) < el.size()) bits++;
  idx = extract(idx, 0, bits);
  if (idx.k()) out = el[idx.u64() % el.size()];
  else out = tableRead(el, idx);
  return true;
}
static bool storeMem(State &s, E addr, E v) {
  unsigned n = (v.w + 7) / 8;
  Obj *o; uint64_t id; E off; bool oc;
  if (!resolve(s, addr, n, true, o, id, off, oc)) return false;
  if (oc) { writeConc(s, id, off.u64(), v); return true; }
  uint64_t lo, hi; unsigned stride, ph;
  if (!splitIdx(s, o, off, n, lo, hi, stride, ph)) { killIncomplete(s, "empty index range"); return false; }
  uint64_t cnt = (hi - lo) / stride + 1;
  if (cnt > 600) {
    uint64_t c; if (!concretize(s, off, c)) return false;
    writeConc(s, id, c, v); return true;
  }
  if (v.w % 8) v = zext(v, n * 8);
  if (stride >= n) {
    for (uint64_t p = lo; p <= hi; p += stride) {
      E old = readConc(s, id, s.mem.get(id), p, n);
      writeConc(s, id, p, ite(eq(off, C(64, p)), v, old));
    }
  } else {
    for (uint64_t p = lo; p < hi + n; p++) {
      Obj *cur = s.mem.get(id);
      E old = readByte(s, id, cur, p), nv = old;
      for (unsigned k = 0; k < n; k++) if (p >= k && p - k >= lo && p - k <= hi) nv = ite(eq(off, C(64, p - k)), extract(v, k * 8, 8), nv);
      writeConc(s, id, p, nv);
    }
  }
  return true;
}

// ------------------------------------------------------------------ types / constants
static unsigned leafW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isHalfTy()) return 16;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static void leaves(Type *t, std::vector<Type *> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) leaves(e, out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { for (uint64_t i = 0; i < vt->getNumElements(); i++) out.push_back(vt->getElementType()); }
  else out.push_back(t);
}
static unsigned nLeaves(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { unsigned r = 0; for (auto *e : st->elements()) r += nLeaves(e); return r; }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nLeaves(at->getElementType());
  if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
  return 1;
}
static void leafOffsets(Type *t, uint64_t base, std::vector<std::pair<uint64_t, Type *>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leafOffsets(st->getElementType(i), base + sl->getElementOffset(i), out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leafOffsets(at->getElementType(), base + i * sz, out); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t bits = DL->getTypeSizeInBits(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) out.push_back({base + i * bits / 8, vt->getElementType()}); }
  else out.push_back({base, t});
}
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
  unsigned r = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += nLeaves(st->getElementType(k)); t = st->getElementType(i); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { r += i * nLeaves(at->getElementType()); t = at->getElementType(); }
  }
  return r;
}
static std::map<const GlobalValue *, uint64_t> gaddr;
static uint64_t undefCount = 0;
static Val evalConst(Constant *c);
static Val undefOf(Type *t) {
  std::vector<Type *> ls; leaves(t, ls); std::vector<E> r;
  for (auto *l : ls) r.push_back(C(APInt(leafW(l), 0)));
  return Val(r);
}
static Val evalConst(Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) return C(ci->getValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) return C(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return C(64, 0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return undefOf(t);
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) { fprintf(stderr, "no address for global %s\n", gv->getName().str().c_str()); exit(3); }
    return C(64, it->second);
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<E> r;
    for (unsigned i = 0; i < cd->getNumElements(); i++) { Val v = evalConst(cd->getElementAsConstant(i)); r.push_back(v.one); }
    return Val(r);
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<E> r;
    for (auto &op : ca->operands()) { auto v = evalConst(cast<Constant>(op)).vec(); r.insert(r.end(), v.begin(), v.end()); }
    return Val(r);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "gep constexpr\n"); exit(3); }
      return add(evalConst(ce->getOperand(0)).one, C(off));
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: {
      return evalConst(ce->getOperand(0));
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: return zextOrTrunc(evalConst(ce->getOperand(0)).one, leafW(t));
    case Instruction::Trunc: return extract(evalConst(ce->getOperand(0)).one, 0, leafW(t));
    case Instruction::Add: return add(evalConst(ce->getOperand(0)).one, evalConst(ce->getOperand(1)).one);
    case Instruction::Sub: return sub(evalConst(ce->getOperand(0)).one, evalConst(ce->getOperand(1)).one);
    case Instruction::ICmp: {
      E a = evalConst(ce->getOperand(0)).one, b = evalConst(ce->getOperand(1)).one;
      switch (ce->getPredicate()) {
      case CmpInst::ICMP_EQ: return eq(a, b);
      case CmpInst::ICMP_NE: return bnot(eq(a, b));
      default: break;
      }
      break;
    }
    case Instruction::Select: { E a = evalConst(ce->getOperand(0)).one; return a.isZero() ? evalConst(ce->getOperand(2)) : evalConst(ce->getOperand(1)); }
    default: break;
    }
  }
  std::string str; raw_string_ostream os(str); c->print(os);
  fprintf(stderr, "unsupported constant: %s\n", str.c_str());
  return undefOf(t);
}
static void initGlobal(State &s, GlobalVariable *gv) {
  uint64_t id = gaddr[gv] >> OBJ_SHIFT;
  std::function<void(Constant *, uint64_t)> put = [&](Constant *c, uint64_t off) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cs = dyn_cast<ConstantDataSequential>(c)) {
      Obj *o = s.mem.wr(id);
      StringRef raw = cs->getRawDataValues();
      memcpy(&o->b[off], raw.data(), raw.size());
      return;
    }
    if (auto *st = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) put(st->getOperand(i), off + sl->getElementOffset(i)); return; }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) put(ca->getOperand(i), off + i * sz); return; }
    Val v = evalConst(c);
    if (c->getType()->isVectorTy()) { std::vector<E> h = v.vec(); std::reverse(h.begin(), h.end()); writeConc(s, id, off, concatN(h)); return; }
    unsigned n = DL->getTypeStoreSize(c->getType());
    writeConc(s, id, off, zext(v.one, n * 8));
  };
  put(gv->getInitializer(), 0);
}

// ------------------------------------------------------------------ functions
static std::map<Function *, std::unique_ptr<KFunc>> kfs;
static KFunc *getKF(Function *F) {
  auto &p = kfs[F];
  if (p) return p.get();
  p = std::make_unique<KFunc>();
  KFunc *k = p.get(); k->F = F;
  std::map<const Value *, int> reg;
  for (auto &a : F->args()) reg[&a] = k->nregs++;
  for (auto &bb : *F) for (auto &I : bb) if (!I.getType()->isVoidTy()) reg[&I] = k->nregs++;
  std::map<Constant *, int> cidx;
  for (auto &bb : *F) {
    k->bbStart[&bb] = k->code.size();
    for (auto &I : bb) {
      KInst ki; ki.I = &I; ki.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
      for (auto &op : I.operands()) {
        Value *v = op.get();
        if (reg.count(v)) ki.ops.push_back(reg[v]);
        else if (auto *c = dyn_cast<Constant>(v)) {
          auto it = cidx.find(c);
          if (it == cidx.end()) { it = cidx.emplace(c, k->constSrc.size()).first; k->constSrc.push_back(c); k->consts.push_back(evalConst(c)); }
          ki.ops.push_back(-1 - it->second);
        } else ki.ops.push_back(0x40000000); // bb, metadata, asm
      }
      k->code.push_back(std::move(ki));
    }
  }
  executed.insert(F);
  return k;
}
static const Val &opv(Frame &f, const KInst &ki, unsigned i) {
  int o = ki.ops[i];
  return o >= 0 ? f.regs[o] : f.kf->consts[-1 - o];
}

// ------------------------------------------------------------------ builtins
typedef std::function<bool(State &, CallBase *, std::vector<Val> &, Val &)> Builtin; // false: path dead / must re-execute
static std::map<std::string, Builtin> builtins;
static Obj *mkHeap(State &s, uint64_t n) { Obj *o = s.mem.alloc(n, OK_HEAP, 16); o->st.assign(n, 2); return o; }
static std::string cstr(State &s, E p) {
  std::string r; if (!p.k()) return "?";
  uint64_t a = p.u64(); Obj *o = s.mem.get(a >> OBJ_SHIFT);
  if (!o) return "?";
  for (uint64_t i = a - o->base; i < o->size; i++) { if (!o->st.empty() && o->st[i]) { r += '?'; continue; } if (!o->b[i]) break; r += (char)o->b[i]; }
  return r;
}
static bool copyMem(State &s, E d, E sr, uint64_t n) {
  if (!n) return true;
  Obj *o; uint64_t ids, idd; E offs, offd; bool cs, cd;
  if (!resolve(s, sr, n, false, o, ids, offs, cs)) return false;
  if (!resolve(s, d, n, true, o, idd, offd, cd)) return false;
  if ((!cs || !cd) && n <= 64) { // small copies with an index stay symbolic
    std::vector<E> by(n);
    for (uint64_t i = 0; i < n; i++) if (!loadMem(s, add(sr, C(64, i)), 1, by[i])) return false;
    for (uint64_t i = 0; i < n; i++) if (!storeMem(s, add(d, C(64, i)), by[i])) return false;
    return true;
  }
  if (!cs) { uint64_t v; if (!concretize(s, offs, v)) return false; offs = C(64, v); }
  if (!cd) { uint64_t v; if (!concretize(s, offd, v)) return false; offd = C(64, v); }
  Obj *w = s.mem.wr(idd); Obj *so = s.mem.get(ids);
  uint64_t a = offs.u64(), b = offd.u64();
  memmove(&w->b[b], &so->b[a], n);
  if (so->st.empty()) { if (!w->st.empty()) memset(&w->st[b], 0, n); }
  else {
    if (w->st.empty()) w->st.resize(w->size);
    memmove(&w->st[b], &so->st[a], n);
    if (!so->sy.empty()) {
      if (w->sy.empty()) w->sy.resize(w->size);
      memmove((void *)&w->sy[b], (void *)&so->sy[a], n * sizeof(SymByte));
    }
  }
  // Uninitialised bytes become named on first read only; copying keeps them unnamed,
  // which over-approximates (two reads through two copies may differ).
  return true;
}
static bool setMem(State &s, E d, E v, uint64_t n) {
  if (!n) return true;
  Obj *o; uint64_t id; E off; bool oc;
  if (!resolve(s, d, n, true, o, id, off, oc)) return false;
  if (!oc) { uint64_t c; if (!concretize(s, off, c)) return false; off = C(64, c); }
  uint64_t a = off.u64();
  Obj *w = s.mem.wr(id);
  if (v.kk()) { memset(&w->b[a], (int)v.c, n); if (!w->st.empty()) memset(&w->st[a], 0, n); }
  else for (uint64_t i = 0; i < n; i++) writeConc(s, id, a + i, v);
  return true;
}
static bool doFree(State &s, E p, uint64_t a) {
  if (!a) return true;
  uint64_t id = a >> OBJ_SHIFT; Obj *o = s.mem.get(id);
  if (!o || o->base != a || o->kind != OK_HEAP) { fail(s, "memory", "free of a pointer that is not a heap block"); return false; }
  if (o->freed) { fail(s, "memory", "double free"); return false; }
  o = s.mem.wr(id); o->freed = true; 
  std::vector<uint8_t>().swap(o->st); std::vector<SymByte>().swap(o->sy);
  return true;
}

static void freeFrame(State &s, Frame &f) {
  for (auto id : f.allocas) { Obj *o = s.mem.wr(id); o->freed = true; std::vector<uint8_t>().swap(o->b); std::vector<uint8_t>().swap(o->st); std::vector<SymByte>().swap(o->sy); }
}
static void gotoBB(State &s, const BasicBlock *bb) {
  Frame &f = s.fr();
  const BasicBlock *from = f.kf->code[f.pc].I->getParent();
  f.prev = from;
  unsigned start = f.kf->bbStart[bb];
  unsigned p = start; std::vector<std::pair<int, Val>> pv;
  while (auto *phi = dyn_cast<PHINode>(f.kf->code[p].I)) {
    int i = phi->getBasicBlockIndex(from);
    pv.push_back({f.kf->code[p].dst, opv(f, f.kf->code[p], i)});
    p++;
  }
  for (auto &x : pv) f.regs[x.first] = std::move(x.second);
  f.pc = p;
}
static bool pushCall(State &s, Function *F, std::vector<Val> &args, CallBase *cb) {
  auto &t = s.th[s.cur];
  if (t.stack.size() > G.maxDepthStack) { fail(s, "stack", "recursion deeper than " + std::to_string(G.maxDepthStack)); return false; }
  KFunc *k = getKF(F);
  t.stack.emplace_back();
  Frame &f = t.stack.back();
  f.kf = k; f.regs.resize(k->nregs);
  unsigned na = F->arg_size();
  if (args.size() < na) { killIncomplete(s, "call with too few arguments"); return false; }
  for (unsigned i = 0; i < na; i++) f.regs[i] = std::move(args[i]);
  for (unsigned i = na; i < args.size(); i++) { f.va.push_back(std::move(args[i])); f.vaTy.push_back(cb->getArgOperand(i)->getType()); }
  // byval arguments
  if (cb) for (unsigned i = 0; i < na; i++) if (cb->isByValArgument(i)) {
    Type *bt = cb->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(bt);
    Obj *o = s.mem.alloc(sz, OK_STACK, 16); o->st.assign(sz, 2); uint64_t base = o->base;
    f.allocas.push_back(base >> OBJ_SHIFT);
    if (!copyMem(s, C(64, base), f.regs[i].one, sz)) return false;
    s.fr().regs[i] = Val(C(64, base));
  }
  return true;
}
static bool retInto(State &s, Val v, bool hasV) {
  // pop the current frame and continue the caller
  auto &t = s.th[s.cur];
  freeFrame(s, t.stack.back());
  t.stack.pop_back();
  if (t.stack.empty()) { t.done = true; return true; }
  Frame &f = t.stack.back();
  KInst &ki = f.kf->code[f.pc];
  if (ki.dst >= 0 && hasV) f.regs[ki.dst] = std::move(v);
  if (auto *inv = dyn_cast<InvokeInst>(ki.I)) gotoBB(s, inv->getNormalDest());
  else f.pc++;
  return true;
}

// ---- exceptions
static std::map<uint64_t, unsigned> tid; 
static unsigned typeId(uint64_t a) { auto it = tid.find(a); if (it != tid.end()) return it->second; unsigned n = tid.size() + 1; return tid[a] = n; }
static uint64_t rd64(State &s, uint64_t a) { Obj *o = s.mem.get(a >> OBJ_SHIFT); if (!o || a < o->base || a + 8 > o->base + o->size) return 0; uint64_t v; memcpy(&v, &o->b[a - o->base], 8); return v; }
static std::string globalAt(State &s, uint64_t a) { Obj *o = s.mem.get(a >> OBJ_SHIFT); if (!o || !o->tag || o->kind != OK_GLOBAL) return ""; return ((const GlobalVariable *)o->tag)->getName().str(); }
static bool tiMatch(State &s, uint64_t thrown, uint64_t want, uint64_t &off) {
  if (thrown == want) return true;
  std::string a = globalAt(s, thrown), b = globalAt(s, want);
  if (a.size() && a == b) return true;
  std::string vt = globalAt(s, rd64(s, thrown));
  if (vt.find("__si_class_type_info") != std::string::npos) return tiMatch(s, rd64(s, thrown + 16), want, off);
  if (vt.find("__vmi_class_type_info") != std::string::npos) {
    uint64_t fc = rd64(s, thrown + 16); unsigned cnt = fc >> 32;
    for (unsigned i = 0; i < cnt; i++) {
      uint64_t bt = rd64(s, thrown + 24 + 16 * i); int64_t of = (int64_t)rd64(s, thrown + 32 + 16 * i);
      if (!(of & 2)) continue; // non-public base
      uint64_t o2 = 0;
      if (!(of & 1) && tiMatch(s, bt, want, o2)) { off += (of >> 8) + o2; return true; }
    }
  }
  return false;
}
static bool unwind(State &s) {
  auto &t = s.th[s.cur];
  ExcInfo ei = s.exc[t.excObj];
  // is there a handler at all?
  bool first = true;
  bool any = false;
  auto inspect = [&](Frame &f, bool &cleanup, unsigned &sel, uint64_t &adj) -> bool { // true: enters the pad
    auto *inv = dyn_cast<InvokeInst>(f.kf->code[f.pc].I);
    if (!inv) return false;
    auto *lp = inv->getLandingPadInst();
    cleanup = lp->isCleanup(); sel = 0; adj = 0;
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      Constant *c = lp->getClause(i);
      if (lp->isCatch(i)) {
        uint64_t ti = isa<ConstantPointerNull>(c) ? 0 : evalConst(c).one.u64();
        uint64_t off = 0;
        if (!ti || tiMatch(s, ei.tinfo, ti, off)) { sel = typeId(ti); adj = off; return true; }
      } else { // filter: treat as violated unless one matches
        bool m = false;
        if (auto *ca = dyn_cast<ConstantArray>(c)) for (auto &op : ca->operands()) { uint64_t off = 0, ti = evalConst(cast<Constant>(op)).one.u64(); if (!ti || tiMatch(s, ei.tinfo, ti, off)) m = true; }
        if (!m) { sel = (unsigned)-1; return true; }
      }
    }
    return cleanup;
  };
  for (int i = (int)t.stack.size() - 1; i >= 0; i--) {
    bool cl; unsigned sel; uint64_t adj;
    if (inspect(t.stack[i], cl, sel, adj) && sel) { any = true; break; }
  }
  (void)first;
  if (!any) {
    std::string nm = globalAt(s, ei.tinfo);
    fail(s, "exception", "uncaught exception of type " + demangle(nm.size() > 4 ? "_Z" + nm.substr(4) : nm));
    return false;
  }
  while (!t.stack.empty()) {
    Frame &f = t.stack.back();
    bool cl; unsigned sel; uint64_t adj;
    if (inspect(f, cl, sel, adj)) {
      auto *inv = cast<InvokeInst>(f.kf->code[f.pc].I);
      s.exc[t.excObj].adj = t.excObj + adj;
      auto *lp = inv->getLandingPadInst();
      gotoBB(s, inv->getUnwindDest());
      Frame &g = s.fr();
      while (g.kf->code[g.pc].I != lp) g.pc++;
      std::vector<E> v{C(64, t.excObj), C(32, sel)};
      g.regs[g.kf->code[g.pc].dst] = Val(v);
      g.pc++;
      return true;
    }
    freeFrame(s, f); t.stack.pop_back();
  }
  return false;
}

// ------------------------------------------------------------------ FP helpers
static E fneg(E a) { if (X.realFp && !a.k()) return fop(O_FMUL, a.w, {a, a.w == 32 ? C(32, 0xbf800000u) : C(64, 0xbff0000000000000ull)}); return bxor(a, C(APInt::getSignMask(a.w))); }
static E fabsE(E a) { if (X.realFp && !a.k()) return ite(fop(O_FLT, 1, {a, C(a.w, 0)}), fneg(a), a); return band(a, C(APInt::getSignedMaxValue(a.w))); }
static E fisnan(E a) { // pure bit test
  if (X.realFp && !a.k()) return B(false);
  unsigned m = a.w == 32 ? 23 : a.w == 64 ? 52 : 10;
  E ex = extract(a, m, a.w - 1 - m), fr = extract(a, 0, m);
  return band(eq(ex, C(APInt::getAllOnes(ex.w))), bnot(eq(fr, C(APInt(m, 0)))));
}
static E fcmpE(CmpInst::Predicate p, E a, E b) {
  auto uno = [&] { return bor(fisnan(a), fisnan(b)); };
  auto EQ = [&] { return fop(O_FEQ, 1, {a, b}); };
  auto LT = [&](E x, E y) { return fop(O_FLT, 1, {x, y}); };
  auto LE = [&](E x, E y) { return fop(O_FLE, 1, {x, y}); };
  switch (p) {
  case CmpInst::FCMP_FALSE: return B(false);
  case CmpInst::FCMP_TRUE: return B(true);
  case CmpInst::FCMP_OEQ: return EQ();
  case CmpInst::FCMP_OGT: return LT(b, a);
  case CmpInst::FCMP_OGE: return LE(b, a);
  case CmpInst::FCMP_OLT: return LT(a, b);
  case CmpInst::FCMP_OLE: return LE(a, b);
  case CmpInst::FCMP_ONE: return band(bnot(EQ()), bnot(uno()));
  case CmpInst::FCMP_ORD: return bnot(uno());
  case CmpInst::FCMP_UNO: return uno();
  case CmpInst::FCMP_UEQ: return bor(EQ(), uno());
  case CmpInst::FCMP_UGT: return bnot(LE(a, b));
  case CmpInst::FCMP_UGE: return bnot(LT(a, b));
  case CmpInst::FCMP_ULT: return bnot(LE(b, a));
  case CmpInst::FCMP_ULE: return bnot(LT(b, a));
  case CmpInst::FCMP_UNE: return bnot(EQ());
  default: return B(false);
  }
}
static E icmpE(CmpInst::Predicate p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return eq(a, b);
  case CmpInst::ICMP_NE: return bnot(eq(a, b));
  case CmpInst::ICMP_UGT: return ult(b, a);
  case CmpInst::ICMP_UGE: return ule(b, a);
  case CmpInst::ICMP_ULT: return ult(a, b);
  case CmpInst::ICMP_ULE: return ule(a, b);
  case CmpInst::ICMP_SGT: return slt(b, a);
  case CmpInst::ICMP_SGE: return sle(b, a);
  case CmpInst::ICMP_SLT: return slt(a, b);
  case CmpInst::ICMP_SLE: return sle(a, b);
  default: return B(false);
  }
}
// shift amounts wrap like the x86 instructions do
static E shAmt(E b) {
  if (b.k()) { if (b.ap().ult(b.w) || b.w > 64) return b; return C(b.w, b.u64() & (b.w > 32 ? 63 : 31)); }
  if (b.w == 32) return band(b, C(32, 31));
  if (b.w == 64) return band(b, C(64, 63));
  if (b.w == 16 || b.w == 8) return band(b, C(b.w, 31));
  return b;
}
static E satE(E v, unsigned w, bool sgnOut) { // v signed wide -> saturated to w
  APInt lo = sgnOut ? APInt::getSignedMinValue(w).sext(v.w) : APInt(v.w, 0);
  APInt hi = sgnOut ? APInt::getSignedMaxValue(w).sext(v.w) : APInt::getMaxValue(w).zext(v.w);
  E t = extract(v, 0, w);
  return ite(slt(v, C(lo)), C(lo.trunc(w)), ite(slt(C(hi), v), C(hi.trunc(w)), t));
}
static E vcat(const std::vector<E> &v) { std::vector<E> h(v.rbegin(), v.rend()); return concatN(h); }
static std::vector<E> vsplit(E e, unsigned w) { std::vector<E> r; for (unsigned i = 0; i < e.w; i += w) r.push_back(extract(e, i, w)); return r; }
static E popcnt(E a) {
  unsigned w = a.w; E r = C(w, 0);
  if (w > 1) { // tree sum on narrow words
    std::vector<E> l; unsigned bw = 8;
    for (unsigned i = 0; i < w; i++) l.push_back(zext(extract(a, i, 1), bw));
    while (l.size() > 1) { std::vector<E> n; for (size_t i = 0; i + 1 < l.size(); i += 2) n.push_back(add(l[i], l[i + 1])); if (l.size() & 1) n.push_back(l.back()); l = n; }
    return zextOrTrunc(l[0], w);
  }
  return bor(r, a);
}
static E cntz(E a, bool lead) {
  unsigned w = a.w; E r = C(w, w);
  for (unsigned i = 0; i < w; i++) {
    unsigned bit = lead ? i : w - 1 - i;
    r = ite(extract(a, bit, 1), C(w, lead ? w - 1 - bit : bit), r);
  }
  return r;
}
static bool isFPTy(Type *t) { t = t->getScalarType(); return t->isFloatingPointTy(); }

// ------------------------------------------------------------------ intrinsics
static std::string unsupported;
static bool doIntrinsic(State &s, IntrinsicInst *I, std::vector<Val> &a, Val &r, bool &jumped) {
  auto map1 = [&](std::function<E(E)> f) { std::vector<E> o; for (unsigned i = 0; i < a[0].n(); i++) o.push_back(f(a[0].at(i))); r = Val(o); };
  auto map2 = [&](std::function<E(E, E)> f) { std::vector<E> o; for (unsigned i = 0; i < a[0].n(); i++) o.push_back(f(a[0].at(i), a[1].at(i))); r = Val(o); };
  auto map3 = [&](std::function<E(E, E, E)> f) { std::vector<E> o; for (unsigned i = 0; i < a[0].n(); i++) o.push_back(f(a[0].at(i), a[1].at(i), a[2].at(i))); r = Val(o); };
  auto mathf = [&](const char *nm, std::function<double(double)> f) {
    map1([&](E x) {
      if (x.k()) { if (x.w == 32) { float q; uint32_t b = x.u64(); memcpy(&q, &b, 4); float y = (float)f(q); memcpy(&b, &y, 4); return C(32, b); } double q; uint64_t b = x.u64(); memcpy(&q, &b, 8); q = f(q); memcpy(&b, &q, 8); return C(64, b); }
      return uf(std::string(nm) + std::to_string(x.w), x.w, {x});
    });
  };
  switch (I->getIntrinsicID()) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing:
  case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::x86_sse_sfence: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse2_pause: return true;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: r = Val(C(64, 0)); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    uint64_t n; if (!concretize(s, a[2].one, n)) return false;
    return copyMem(s, a[0].one, a[1].one, n);
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    uint64_t n; if (!concretize(s, a[2].one, n)) return false;
    return setMem(s, a[0].one, a[1].one, n);
  }
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: r = a[0]; return true;
  case Intrinsic::is_constant: r = Val(B(false)); return true;
  case Intrinsic::objectsize: r = Val(C(leafW(I->getType()), a[1].one.isZero() ? ~0ull : 0)); return true;
  case Intrinsic::threadlocal_address: r = a[0]; return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "abort", "trap executed"); return false;
  case Intrinsic::eh_typeid_for: r = Val(C(32, typeId(a[0].one.u64()))); return true;
  case Intrinsic::bswap: map1([](E x) { std::vector<E> p; for (unsigned i = 0; i < x.w; i += 8) p.push_back(extract(x, i, 8)); return concatN(p); }); return true;
  case Intrinsic::bitreverse: map1([](E x) { std::vector<E> p; for (unsigned i = 0; i < x.w; i++) p.push_back(extract(x, i, 1)); return concatN(p); }); return true;
  case Intrinsic::ctpop: map1(popcnt); return true;
  case Intrinsic::ctlz: map1([](E x) { return cntz(x, true); }); return true;
  case Intrinsic::cttz: map1([](E x) { return cntz(x, false); }); return true;
  case Intrinsic::abs: map1([](E x) { return ite(slt(x, C(APInt(x.w, 0))), sub(C(APInt(x.w, 0)), x), x); }); return true;
  case Intrinsic::smax: map2([](E x, E y) { return ite(slt(x, y), y, x); }); return true;
  case Intrinsic::smin: map2([](E x, E y) { return ite(slt(y, x), y, x); }); return true;
  case Intrinsic::umax: map2([](E x, E y) { return ite(ult(x, y), y, x); }); return true;
  case Intrinsic::umin: map2([](E x, E y) { return ite(ult(y, x), y, x); }); return true;
  case Intrinsic::fshl: case Intrinsic::fshr: {
    bool l = I->getIntrinsicID() == Intrinsic::fshl;
    map3([&](E x, E y, E z) {
      unsigned w = x.w;
      E m = mk(O_UREM, z, C(w, w));
      if (m.k()) {
        unsigned k = m.u64();
        if (!k) return l ? x : y;
        E cc = concat(x, y);
        return l ? extract(cc, w - k, w) : extract(cc, k, w);
      }
      E cc = concat(x, y); E amt = zext(m, 2 * w);
      return l ? extract(mk(O_SHL, cc, amt), w, w) : extract(mk(O_LSHR, cc, amt), 0, w);
    });
    return true;
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    E x = a[0].one, y = a[1].one; unsigned w = x.w; E v, ov;
    switch (I->getIntrinsicID()) {
    case Intrinsic::uadd_with_overflow: v = add(x, y); ov = ult(v, x); break;
    case Intrinsic::usub_with_overflow: v = sub(x, y); ov = ult(x, y); break;
    case Intrinsic::umul_with_overflow: { E f = mul(zext(x, 2 * w), zext(y, 2 * w)); v = mul(x, y); ov = bnot(eq(extract(f, w, w), C(APInt(w, 0)))); break; }
    case Intrinsic::sadd_with_overflow: { E f = add(sext(x, w + 1), sext(y, w + 1)); v = add(x, y); ov = bnot(eq(sext(v, w + 1), f)); break; }
    case Intrinsic::ssub_with_overflow: { E f = sub(sext(x, w + 1), sext(y, w + 1)); v = sub(x, y); ov = bnot(eq(sext(v, w + 1), f)); break; }
    default: { E f = mul(sext(x, 2 * w), sext(y, 2 * w)); v = mul(x, y); ov = bnot(eq(sext(v, 2 * w), f)); break; }
    }
    r = Val(std::vector<E>{v, ov}); return true;
  }
  case Intrinsic::usub_sat: map2([](E x, E y) { return ite(ult(x, y), C(APInt(x.w, 0)), sub(x, y)); }); return true;
  case Intrinsic::uadd_sat: map2([](E x, E y) { E v = add(x, y); return ite(ult(v, x), C(APInt::getAllOnes(x.w)), v); }); return true;
  case Intrinsic::sadd_sat: map2([](E x, E y) { return satE(add(sext(x, x.w + 1), sext(y, x.w + 1)), x.w, true); }); return true;
  case Intrinsic::ssub_sat: map2([](E x, E y) { return satE(sub(sext(x, x.w + 1), sext(y, x.w + 1)), x.w, true); }); return true;
  case Intrinsic::fabs: map1(fabsE); return true;
  case Intrinsic::sqrt: map1([](E x) { return fop(O_FSQRT, x.w, {x}); }); return true;
  case Intrinsic::floor: map1([](E x) { return fop(O_FRINT, x.w, {x}, 1); }); return true;
  case Intrinsic::ceil: map1([](E x) { return fop(O_FRINT, x.w, {x}, 2); }); return true;
  case Intrinsic::trunc: map1([](E x) { return fop(O_FRINT, x.w, {x}, 3); }); return true;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: map1([](E x) { return fop(O_FRINT, x.w, {x}, 0); }); return true;
  case Intrinsic::round: map1([](E x) { return fop(O_FRINT, x.w, {x}, 4); }); return true;
  case Intrinsic::fmuladd: map3([](E x, E y, E z) { return fop(O_FADD, x.w, {fop(O_FMUL, x.w, {x, y}), z}); }); return true;
  case Intrinsic::fma: map3([](E x, E y, E z) { return fop(O_FMA, x.w, {x, y, z}); }); return true;
  case Intrinsic::copysign: map2([](E x, E y) { return concat(extract(y, y.w - 1, 1), extract(x, 0, x.w - 1)); }); return true;
  case Intrinsic::minnum: map2([](E x, E y) { return ite(fisnan(x), y, ite(fisnan(y), x, ite(fop(O_FLT, 1, {y, x}), y, x))); }); return true;
  case Intrinsic::maxnum: map2([](E x, E y) { return ite(fisnan(x), y, ite(fisnan(y), x, ite(fop(O_FLT, 1, {x, y}), y, x))); }); return true;
  case Intrinsic::lround: case Intrinsic::llround: map1([&](E x) { return fop(O_FPTOSI, leafW(I->getType()), {fop(O_FRINT, x.w, {x}, 4)}, 0); }); return true;
  case Intrinsic::lrint: case Intrinsic::llrint: map1([&](E x) { return fop(O_FPTOSI, leafW(I->getType()), {x}, 1); }); return true;
  case Intrinsic::sin: mathf("sin", [](double x) { return sin(x); }); return true;
  case Intrinsic::cos: mathf("cos", [](double x) { return cos(x); }); return true;
  case Intrinsic::exp: mathf("exp", [](double x) { return exp(x); }); return true;
  case Intrinsic::exp2: mathf("exp2", [](double x) { return exp2(x); }); return true;
  case Intrinsic::log: mathf("log", [](double x) { return log(x); }); return true;
  case Intrinsic::log2: mathf("log2", [](double x) { return log2(x); }); return true;
  case Intrinsic::log10: mathf("log10", [](double x) { return log10(x); }); return true;
  case Intrinsic::pow: map2([](E x, E y) {
      if (x.k() && y.k()) { if (x.w == 64) { double p, q; uint64_t b = x.u64(), c = y.u64(); memcpy(&p, &b, 8); memcpy(&q, &c, 8); p = pow(p, q); memcpy(&b, &p, 8); return C(64, b); } float p, q; uint32_t b = x.u64(), c = y.u64(); memcpy(&p, &b, 4); memcpy(&q, &c, 4); p = powf(p, q); memcpy(&b, &p, 4); return C(32, b); }
      if (y.k() && ((y.w == 64 && y.u64() == 0x4000000000000000ull) || (y.w == 32 && y.u64() == 0x40000000))) return fop(O_FMUL, x.w, {x, x}); // pow(x, 2) is exact up to the one rounding in glibc
      return uf("pow" + std::to_string(x.w), x.w, {x, y}); }); return true;
  case Intrinsic::is_fpclass: {
    unsigned mask = a[1].one.u64();
    map1([&](E x) {
      unsigned m = x.w == 32 ? 23 : 52;
      E nan = fisnan(x), q = extract(x, m - 1, 1), sg = extract(x, x.w - 1, 1);
      E ex = extract(x, m, x.w - 1 - m), fr = extract(x, 0, m);
      E exOnes = eq(ex, C(APInt::getAllOnes(ex.w))), exZ = eq(ex, C(APInt(ex.w, 0))), frZ = eq(fr, C(APInt(m, 0)));
      E inf = band(exOnes, frZ), zero = band(exZ, frZ), sub_ = band(exZ, bnot(frZ)), norm = band(bnot(exOnes), bnot(exZ));
      E res = B(false);
      auto orIf = [&](unsigned bit, E c) { if (mask & bit) res = bor(res, c); };
      orIf(1, band(nan, bnot(q))); orIf(2, band(nan, q)); orIf(4, band(inf, sg)); orIf(8, band(norm, sg)); orIf(16, band(sub_, sg)); orIf(32, band(zero, sg));
      orIf(64, band(zero, bnot(sg))); orIf(128, band(sub_, bnot(sg))); orIf(256, band(norm, bnot(sg))); orIf(512, band(inf, bnot(sg)));
      return res;
    });
    return true;
  }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor:
  case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
    E x = a[0].at(0);
    for (unsigned i = 1; i < a[0].n(); i++) {
      E y = a[0].at(i);
      switch (I->getIntrinsicID()) {
      case Intrinsic::vector_reduce_add: x = add(x, y); break;
      case Intrinsic::vector_reduce_mul: x = mul(x, y); break;
      case Intrinsic::vector_reduce_and: x = band(x, y); break;
      case Intrinsic::vector_reduce_or: x = bor(x, y); break;
      case Intrinsic::vector_reduce_xor: x = bxor(x, y); break;
      case Intrinsic::vector_reduce_smax: x = ite(slt(x, y), y, x); break;
      case Intrinsic::vector_reduce_smin: x = ite(slt(y, x), y, x); break;
      case Intrinsic::vector_reduce_umax: x = ite(ult(x, y), y, x); break;
      default: x = ite(ult(y, x), y, x); break;
      }
    }
    r = Val(x); return true;
  }
  case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: {
    E x = a[0].one; Op o = I->getIntrinsicID() == Intrinsic::vector_reduce_fadd ? O_FADD : O_FMUL;
    for (unsigned i = 0; i < a[1].n(); i++) x = fop(o, x.w, {x, a[1].at(i)});
    r = Val(x); return true;
  }
  case Intrinsic::vastart: {
    Frame &f = s.fr(); std::vector<Val> va = f.va;
    uint64_t total = 0; for (auto *t : f.vaTy) total += (DL->getTypeAllocSize(t) + 7) / 8 * 8;
    Obj *o = s.mem.alloc(std::max<uint64_t>(total, 8), OK_STACK, 16); uint64_t base = o->base;
    s.fr().allocas.push_back(base >> OBJ_SHIFT);
    uint64_t off = 0;
    for (unsigned i = 0; i < va.size(); i++) { writeConc(s, base >> OBJ_SHIFT, off, zext(va[i].one, (va[i].one.w + 7) / 8 * 8)); off += (DL->getTypeAllocSize(s.fr().vaTy[i]) + 7) / 8 * 8; }
    E p = a[0].one;
    if (!storeMem(s, p, C(32, 48)) || !storeMem(s, add(p, C(64, 4)), C(32, 176)) || !storeMem(s, add(p, C(64, 8)), C(64, base)) || !storeMem(s, add(p, C(64, 16)), C(64, 0))) return false;
    return true;
  }
  case Intrinsic::vaend: return true;
  case Intrinsic::vacopy: return copyMem(s, a[0].one, a[1].one, 24);
  // ---- x86 SSE
  case Intrinsic::x86_sse_min_ps: case Intrinsic::x86_sse2_min_pd: map2([](E x, E y) { return ite(fop(O_FLT, 1, {x, y}), x, y); }); return true;
  case Intrinsic::x86_sse_max_ps: case Intrinsic::x86_sse2_max_pd: map2([](E x, E y) { return ite(fop(O_FLT, 1, {y, x}), x, y); }); return true;
  case Intrinsic::x86_sse_min_ss: case Intrinsic::x86_sse_max_ss: {
    bool mn = I->getIntrinsicID() == Intrinsic::x86_sse_min_ss; auto v = a[0].vec(); E x = v[0], y = a[1].at(0);
    v[0] = mn ? ite(fop(O_FLT, 1, {x, y}), x, y) : ite(fop(O_FLT, 1, {y, x}), x, y); r = Val(v); return true;
  }
  case Intrinsic::x86_sse_cmp_ps: case Intrinsic::x86_sse_cmp_ss: {
    static const CmpInst::Predicate pr[] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD};
    unsigned p = a[2].one.u64() & 7; auto v = a[0].vec(); unsigned n = I->getIntrinsicID() == Intrinsic::x86_sse_cmp_ss ? 1 : v.size();
    for (unsigned i = 0; i < n; i++) v[i] = sext(fcmpE(pr[p], v[i], a[1].at(i)), 32);
    r = Val(v); return true;
  }
  case Intrinsic::x86_sse_movmsk_ps: case Intrinsic::x86_sse2_movmsk_pd: case Intrinsic::x86_sse2_pmovmskb_128: {
    std::vector<E> b; for (unsigned i = 0; i < a[0].n(); i++) b.push_back(extract(a[0].at(i), a[0].at(i).w - 1, 1));
    r = Val(zext(vcat(b), 32)); return true;
  }
  case Intrinsic::x86_sse3_hadd_ps: case Intrinsic::x86_sse3_hsub_ps: {
    Op o = I->getIntrinsicID() == Intrinsic::x86_sse3_hadd_ps ? O_FADD : O_FSUB; std::vector<E> v;
    for (int q = 0; q < 2; q++) for (int i = 0; i < 4; i += 2) v.push_back(fop(o, 32, {a[q].at(i), a[q].at(i + 1)}));
    r = Val(v); return true;
  }
  case Intrinsic::x86_sse41_dpps: {
    unsigned im = a[2].one.u64(); E p[4];
    for (int i = 0; i < 4; i++) p[i] = (im >> (4 + i)) & 1 ? fop(O_FMUL, 32, {a[0].at(i), a[1].at(i)}) : C(32, 0);
    E t = fop(O_FADD, 32, {fop(O_FADD, 32, {p[0], p[1]}), fop(O_FADD, 32, {p[2], p[3]})});
    std::vector<E> v; for (int i = 0; i < 4; i++) v.push_back((im >> i) & 1 ? t : C(32, 0));
    r = Val(v); return true;
  }
  case Intrinsic::x86_ssse3_phadd_d_128: case Intrinsic::x86_ssse3_phsub_d_128: {
    Op o = I->getIntrinsicID() == Intrinsic::x86_ssse3_phadd_d_128 ? O_ADD : O_SUB; std::vector<E> v;
    for (int q = 0; q < 2; q++) for (int i = 0; i < 4; i += 2) v.push_back(mk(o, a[q].at(i), a[q].at(i + 1)));
    r = Val(v); return true;
  }
  case Intrinsic::x86_ssse3_pshuf_b_128: {
    std::vector<E> el = a[0].vec(), v;
    for (int i = 0; i < 16; i++) { E c = a[1].at(i); v.push_back(ite(extract(c, 7, 1), C(8, 0), tableRead(el, extract(c, 0, 4)))); }
    r = Val(v); return true;
  }
  case Intrinsic::x86_sse41_blendvps: case Intrinsic::x86_sse41_pblendvb: case Intrinsic::x86_sse41_blendvpd: {
    std::vector<E> v; for (unsigned i = 0; i < a[0].n(); i++) { E m = a[2].at(i); v.push_back(ite(extract(m, m.w - 1, 1), a[1].at(i), a[0].at(i))); }
    r = Val(v); return true;
  }
  case Intrinsic::x86_sse41_ptestz: { E t = band(vcat(a[0].vec()), vcat(a[1].vec())); r = Val(zext(eq(t, C(APInt(128, 0))), 32)); return true; }
  case Intrinsic::x86_sse41_ptestc: { E t = band(bnot(vcat(a[0].vec())), vcat(a[1].vec())); r = Val(zext(eq(t, C(APInt(128, 0))), 32)); return true; }
  case Intrinsic::x86_sse41_ptestnzc: { E x = vcat(a[0].vec()), y = vcat(a[1].vec()); E z1 = eq(band(x, y), C(APInt(128, 0))), c1 = eq(band(bnot(x), y), C(APInt(128, 0))); r = Val(zext(band(bnot(z1), bnot(c1)), 32)); return true; }
  case Intrinsic::x86_sse2_packssdw_128: case Intrinsic::x86_sse2_packsswb_128: case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_sse41_packusdw: {
    bool sg = I->getIntrinsicID() == Intrinsic::x86_sse2_packssdw_128 || I->getIntrinsicID() == Intrinsic::x86_sse2_packsswb_128;
    std::vector<E> v; for (int q = 0; q < 2; q++) for (unsigned i = 0; i < a[q].n(); i++) v.push_back(satE(sext(a[q].at(i), a[q].at(i).w + 1), a[q].at(i).w / 2, sg));
    r = Val(v); return true;
  }
  case Intrinsic::x86_sse2_pmadd_wd: {
    std::vector<E> v; for (int i = 0; i < 8; i += 2) v.push_back(add(mul(sext(a[0].at(i), 32), sext(a[1].at(i), 32)), mul(sext(a[0].at(i + 1), 32), sext(a[1].at(i + 1), 32))));
    r = Val(v); return true;
  }
  case Intrinsic::x86_sse2_cvtps2dq: map1([](E x) { return fop(O_FPTOSI, 32, {x}, 1); }); return true;
  case Intrinsic::x86_sse2_cvttps2dq: map1([](E x) { return fop(O_FPTOSI, 32, {x}, 0); }); return true;
  case Intrinsic::x86_sse_cvtss2si: r = Val(fop(O_FPTOSI, 32, {a[0].at(0)}, 1)); return true;
  case Intrinsic::x86_sse_cvttss2si: r = Val(fop(O_FPTOSI, 32, {a[0].at(0)}, 0)); return true;
  case Intrinsic::x86_sse_cvttss2si64: r = Val(fop(O_FPTOSI, 64, {a[0].at(0)}, 0)); return true;
  case Intrinsic::x86_sse2_cvttsd2si: r = Val(fop(O_FPTOSI, 32, {a[0].at(0)}, 0)); return true;
  case Intrinsic::x86_sse2_cvtsd2si: r = Val(fop(O_FPTOSI, 32, {a[0].at(0)}, 1)); return true;
  case Intrinsic::x86_sse41_round_ps: { static const int m[] = {0, 1, 2, 3}; unsigned im = a[1].one.u64(); map1([&](E x) { return fop(O_FRINT, 32, {x}, (im & 4) ? 0 : m[im & 3]); }); return true; }
  case Intrinsic::x86_sse_rcp_ps: map1([](E x) { return uf("rcpps", 32, {x}); }); return true;
  case Intrinsic::x86_sse_rsqrt_ps: map1([](E x) { return uf("rsqrtps", 32, {x}); }); return true;
  case Intrinsic::x86_sse_rcp_ss: { auto v = a[0].vec(); v[0] = uf("rcpps", 32, {v[0]}); r = Val(v); return true; }
  case Intrinsic::x86_sse_rsqrt_ss: { auto v = a[0].vec(); v[0] = uf("rsqrtps", 32, {v[0]}); r = Val(v); return true; }
  case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_psrai_d:
  case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_sse2_psrai_w:
  case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_psrli_q:
  case Intrinsic::x86_sse2_psll_d: case Intrinsic::x86_sse2_psrl_d: case Intrinsic::x86_sse2_psra_d:
  case Intrinsic::x86_sse2_psll_w: case Intrinsic::x86_sse2_psrl_w: case Intrinsic::x86_sse2_psra_w:
  case Intrinsic::x86_sse2_psll_q: case Intrinsic::x86_sse2_psrl_q: {
    auto id = I->getIntrinsicID();
    E amt = a[1].n() > 1 ? extract(vcat(a[1].vec()), 0, 64) : zext(a[1].one, 64);
    Op o = O_SHL;
    if (id == Intrinsic::x86_sse2_psrli_d || id == Intrinsic::x86_sse2_psrli_w || id == Intrinsic::x86_sse2_psrli_q || id == Intrinsic::x86_sse2_psrl_d || id == Intrinsic::x86_sse2_psrl_w || id == Intrinsic::x86_sse2_psrl_q) o = O_LSHR;
    if (id == Intrinsic::x86_sse2_psrai_d || id == Intrinsic::x86_sse2_psrai_w || id == Intrinsic::x86_sse2_psra_d || id == Intrinsic::x86_sse2_psra_w) o = O_ASHR;
    std::vector<E> v;
    for (unsigned i = 0; i < a[0].n(); i++) { E x = a[0].at(i); E big = ule(C(64, x.w), amt); E am = zextOrTrunc(amt, x.w); v.push_back(ite(big, o == O_ASHR ? mk(O_ASHR, x, C(x.w, x.w - 1)) : C(x.w, 0), mk(o, x, am))); }
    r = Val(v); return true;
  }
  default: break;
  }
  unsupported = I->getCalledFunction()->getName().str();
  killIncomplete(s, "unsupported intrinsic " + unsupported);
  return false;
}

// ------------------------------------------------------------------ scheduling
static bool runnable(State &s, unsigned i) {
  auto &t = s.th[i];
  if (t.done) return false;
  if (!t.waitAddr) return true;
  Obj *o = s.mem.get(t.waitAddr >> OBJ_SHIFT);
  if (!o || o->freed) return false;
  E v = readConc(s, t.waitAddr >> OBJ_SHIFT, o, t.waitAddr - o->base, 4);
  return !(v.k() && v.isZero());
}
// Called when the current thread finished, blocked, or offers a switch point.
static void schedule(State &s, bool voluntary) {
  std::vector<unsigned> rs;
  for (unsigned i = 0; i < s.th.size(); i++) if (runnable(s, i)) rs.push_back(i);
  bool curRun = std::find(rs.begin(), rs.end(), s.cur) != rs.end();
  if (rs.empty()) {
    for (auto &t : s.th) if (!t.done) { fail(s, "deadlock", "no thread can run"); return; }
    s.finished = true; return;
  }
  if (voluntary && curRun && s.preempt >= G.maxPreempt) { s.th[s.cur].waitAddr = 0; return; }
  unsigned pick = curRun ? s.cur : rs[0];
  for (auto i : rs) if (i != pick) {
    auto o = cloneState(s);
    o->cur = i; o->th[i].waitAddr = 0;
    if (curRun && voluntary) o->preempt++;
    // record the choice as an input so that a replay could follow it
    o->inputs.push_back({"sched", {C(8, i)}, true});
    work.push_back(std::move(o));
  }
  s.cur = pick; s.th[pick].waitAddr = 0;
  if (rs.size() > 1) s.inputs.push_back({"sched", {C(8, pick)}, true});
}

static void finishPath(State &s) {
  s.finished = true;
  pathsDone++;
  // leaks etc. are not checked
  bool take = samples.size() < G.samples;
  if (!take && G.samples) { // reservoir-like: replace occasionally so that samples spread over the run
    static std::mt19937 rng(G.seed);
    if (rng() % pathsDone < G.samples) { take = true; samples.erase(samples.begin() + rng() % samples.size()); }
  }
  if (take) {
    std::shared_ptr<Model> m;
    if (s.cs.empty()) m = std::make_shared<Model>();
    else if (s.hint && !X.realFp) m = s.hint;
    else { unsigned slow = SO.slowMs; if (X.realFp) SO.slowMs = 3000; SR r = solve(s.cs, E(), &m); SO.slowMs = slow; if (r != SR::SAT) return; }
    // diversify: random values for inputs, kept when they satisfy the path
    {
      static std::mt19937_64 rng(G.seed * 77 + 5);
      for (int tries = 0; tries < (X.realFp ? 0 : 4); tries++) {
        auto m2 = std::make_shared<Model>(*m);
        for (auto &in : s.inputs) for (auto &b : in.bytes) for (auto id : symsOf(b)) { unsigned w = X.syms[id].w; APInt v(w, 0); for (unsigned k = 0; k < w; k += 64) v.insertBits(APInt(std::min(64u, w - k), rng() & mask64(std::min(64u, w - k))), k); if (rng() % 3) m2->v[id] = v; }
        Evaluator ev(*m2); bool ok = true;
        for (auto &c : s.cs) if (!ev.evalBool(c)) { ok = false; break; }
        if (ok) { m = m2; break; }
      }
    }
    if (X.realFp && s.cs.empty()) { // modest numbers
      static std::mt19937 rng(G.seed);
      auto m2 = std::make_shared<Model>(*m);
      for (auto &in : s.inputs) for (auto &b : in.bytes) for (auto id : symsOf(b)) { unsigned w = X.syms[id].w; APInt v(w, 0); for (unsigned k = 0; k + 32 <= w; k += 32) { float f = (int(rng() % 65) - 32) / 8.f; uint32_t u; memcpy(&u, &f, 4); v.insertBits(APInt(32, u), k); } m2->v[id] = v; }
      m = m2;
    }
    Sample sp; Evaluator ev(*m);
    if (!X.realFp) { Evaluator e2(*m); for (auto &c : s.cs) if (!e2.evalBool(c)) return; }
    fillInputs(s, *m, sp.inputs, sp.uninit);
    sp.uninit = usesUninit(s.cs);
    for (auto &o : s.obs) {
      bool un = usesUninit({o.v});
      for (auto i : symsOf(o.v)) if (X.syms[i].name.compare(0, 3, "uf:") == 0) un = true;
      sp.obs.push_back({o.name, un ? "?" : hexOf(ev.eval(o.v))});
    }
    samples.push_back(sp);
  }
}

// ------------------------------------------------------------------ calls
static bool doCall(State &s, CallBase *cb, const KInst &ki) {
  Frame &f0 = s.fr();
  unsigned na = cb->arg_size();
  Function *F = cb->getCalledFunction();
  if (cb->isInlineAsm()) {
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty()) { if (ki.dst >= 0) { // launder-style barrier
        f0.regs[ki.dst] = na ? opv(f0, ki, 0) : undefOf(cb->getType()); }
      f0.pc++; return true; }
    killIncomplete(s, "inline assembly"); return false;
  }
  if (!F) {
    E t = opv(f0, ki, cb->arg_size() + (isa<InvokeInst>(cb) ? 2 : 0)).one;
    uint64_t a;
    if (!concretize(s, t, a)) return false;
    Obj *o = s.mem.get(a >> OBJ_SHIFT);
    if (!o || o->kind != OK_FUNC || o->base != a) {
      if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(al->getAliaseeObject());
      if (!F) { fail(s, "memory", "call through an invalid function pointer"); return false; }
    } else F = (Function *)o->tag;
  }
  std::vector<Val> args; args.reserve(na);
  for (unsigned i = 0; i < na; i++) args.push_back(cb->getArgOperand(i)->getType()->isMetadataTy() ? Val() : opv(s.fr(), ki, i));
  Val r; bool hasR = false;
  if (auto *II = dyn_cast<IntrinsicInst>(cb)) {
    bool j = false;
    if (!doIntrinsic(s, II, args, r, j)) return false;
    hasR = true;
  } else {
    auto b = builtins.find(F->getName().str());
    // text to number conversions are replaced by the stand-in of a harness that defines one
    if (b != builtins.end() && (F->isDeclaration() || !(F->getName() == "strtod" || F->getName() == "strtof"))) {
      size_t depth = s.th[s.cur].stack.size(); unsigned cur = s.cur; unsigned pc0 = s.fr().pc; const BasicBlock *pv = s.fr().prev;
      if (!b->second(s, cb, args, r)) return false;
      if (s.dead || s.finished) return false;
      if (s.cur != cur || s.th[s.cur].stack.size() != depth || s.fr().pc != pc0 || s.fr().prev != pv) return true; // control moved
      hasR = true;
    } else if (F->isDeclaration()) {
      killIncomplete(s, "unmodelled external function " + demangled(F));
      return false;
    } else {
      return pushCall(s, F, args, cb);
    }
  }
  Frame &f = s.fr();
  if (ki.dst >= 0) {
    if (hasR && r.n()) f.regs[ki.dst] = std::move(r);
    else f.regs[ki.dst] = undefOf(cb->getType());
  }
  if (auto *inv = dyn_cast<InvokeInst>(cb)) gotoBB(s, inv->getNormalDest()); else f.pc++;
  return true;
}

// ------------------------------------------------------------------ one instruction
static bool branchOn(State &s, E c, const BasicBlock *bt, const BasicBlock *bf) {
  std::shared_ptr<Model> om; bool side = true;
  unsigned slow = SO.slowMs; if (X.realFp) SO.slowMs = 2000;
  TV t = query(s, c, &om, &side);
  SO.slowMs = slow;
  if (s.dead) return false;
  if (t == TV::UNK && X.realFp) { t = TV::BOTH; unknownHappened = false; } // both sides are followed, whether they can be reached or not
  if (t == TV::UNK) { killIncomplete(s, "solver timeout on a branch"); return false; }
  if (t == TV::BOTH) {
    auto o = cloneState(s);
    // the current state follows the hint's side
    addC(*o, side ? bnot(c) : c); o->hint = om;
    gotoBB(*o, side ? bf : bt);
    work.push_back(std::move(o));
    addC(s, side ? c : bnot(c));
    gotoBB(s, side ? bt : bf);
    return true;
  }
  gotoBB(s, t == TV::T ? bt : bf);
  return true;
}
#include <csignal>
static volatile sig_atomic_t askWhere = 0; // SIGUSR1: print where the current path is
static bool step(State &s) {
  if (askWhere) { askWhere = 0; fprintf(stderr, "at %s, %zu constraints, %zu waiting\n", where(s).c_str(), s.cs.size(), work.size()); }
  Frame &f = s.fr();
  KInst &ki = f.kf->code[f.pc];
  Instruction *I = ki.I;
  s.steps++; totSteps++;
  auto op = [&](unsigned i) -> const Val & { return opv(f, ki, i); };
  auto setR = [&](Val v) { f.regs[ki.dst] = std::move(v); f.pc++; };
  unsigned opc = I->getOpcode();
  switch (opc) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    const Val &a = op(0), &b = op(1);
    Op o;
    switch (opc) {
    case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
    case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break;
    case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
    case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; default: o = O_SREM; break;
    }
    bool sh = o == O_SHL || o == O_LSHR || o == O_ASHR, dv = o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM;
    if (dv) for (unsigned i = 0; i < b.n(); i++) {
      E z = eq(b.at(i), C(APInt(b.at(i).w, 0)));
      if (z.k() && z.isZero()) continue;
      std::shared_ptr<Model> om; TV t = query(s, z, &om);
      if (t == TV::UNK) { killIncomplete(s, "solver timeout on a division"); return false; }
      if (t == TV::T) { fail(s, "arith", "division by zero"); return false; }
      if (t == TV::BOTH) { report(s, "arith", "division by zero", z); addC(s, bnot(z)); s.hint.reset(); }
    }
    if (!a.many) { setR(Val(mk(o, a.one, sh ? shAmt(b.one) : b.one))); return true; }
    std::vector<E> r; r.reserve(a.n());
    for (unsigned i = 0; i < a.n(); i++) r.push_back(mk(o, a.at(i), b.at(i)));
    setR(Val(std::move(r))); return true;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    Op o = opc == Instruction::FAdd ? O_FADD : opc == Instruction::FSub ? O_FSUB : opc == Instruction::FMul ? O_FMUL : opc == Instruction::FDiv ? O_FDIV : O_FREM;
    const Val &a = op(0), &b = op(1); std::vector<E> r;
    for (unsigned i = 0; i < a.n(); i++) {
      if (o == O_FREM && !(a.at(i).k() && b.at(i).k())) r.push_back(uf("frem", a.at(i).w, {a.at(i), b.at(i)}));
      else r.push_back(fop(o, a.at(i).w, {a.at(i), b.at(i)}));
    }
    setR(Val(std::move(r))); return true;
  }
  case Instruction::FNeg: { const Val &a = op(0); std::vector<E> r; for (unsigned i = 0; i < a.n(); i++) r.push_back(fneg(a.at(i))); setR(Val(std::move(r))); return true; }
  case Instruction::ICmp: case Instruction::FCmp: {
    auto p = cast<CmpInst>(I)->getPredicate(); const Val &a = op(0), &b = op(1);
    if (!a.many) { setR(Val(opc == Instruction::ICmp ? icmpE(p, a.one, b.one) : fcmpE(p, a.one, b.one))); return true; }
    std::vector<E> r; for (unsigned i = 0; i < a.n(); i++) r.push_back(opc == Instruction::ICmp ? icmpE(p, a.at(i), b.at(i)) : fcmpE(p, a.at(i), b.at(i)));
    setR(Val(std::move(r))); return true;
  }
  case Instruction::Select: {
    const Val &c = op(0), &a = op(1), &b = op(2);
    if (!c.many && c.one.k()) { setR(c.one.isZero() ? b : a); return true; }
    // A choice between two objects: decide it here rather than at every access behind it.
    if (I->getType()->isPointerTy() && a.one.k() && b.one.k() && a.one.u64() >> OBJ_SHIFT != b.one.u64() >> OBJ_SHIFT) {
      std::shared_ptr<Model> om;
      TV t = query(s, c.one, &om);
      if (t == TV::UNK) { killIncomplete(s, "solver timeout while choosing a pointer"); return false; }
      if (t == TV::BOTH) {
        ensureHint(s);
        if (!s.hint) { killIncomplete(s, "no model while choosing a pointer"); return false; }
        Evaluator ev(*s.hint);
        const bool now = ev.evalBool(c.one);
        auto f = cloneState(s); addC(*f, now ? bnot(c.one) : c.one); f->hint = om; work.push_back(std::move(f));
        addC(s, now ? c.one : bnot(c.one));
        t = now ? TV::T : TV::F;
      }
      setR(t == TV::T ? a : b); return true;
    }
    if (!a.many) { setR(Val(ite(c.one, a.one, b.one))); return true; }
    std::vector<E> r; for (unsigned i = 0; i < a.n(); i++) r.push_back(ite(c.many ? c.at(i) : c.one, a.at(i), b.at(i)));
    setR(Val(std::move(r))); return true;
  }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
    unsigned w = leafW(I->getType()->getScalarType()); const Val &a = op(0);
    auto cv = [&](E x) { return opc == Instruction::SExt ? sext(x, w) : zextOrTrunc(x, w); };
    if (!a.many) { setR(Val(cv(a.one))); return true; }
    std::vector<E> r; for (unsigned i = 0; i < a.n(); i++) r.push_back(cv(a.at(i)));
    setR(Val(std::move(r))); return true;
  }
  case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
    unsigned w = leafW(I->getType()->getScalarType()); const Val &a = op(0); std::vector<E> r;
    for (unsigned i = 0; i < a.n(); i++) {
      E x = a.at(i), y;
      switch (opc) {
      case Instruction::FPExt: y = fop(O_FPEXT, w, {x}); break;
      case Instruction::FPTrunc: y = fop(O_FPTRUNC, w, {x}); break;
      case Instruction::SIToFP: y = fop(O_SITOFP, w, {x}); break;
      case Instruction::UIToFP: y = fop(O_UITOFP, w, {x}); break;
      case Instruction::FPToSI: y = w < 32 ? extract(fop(O_FPTOSI, 32, {x}), 0, w) : fop(O_FPTOSI, w, {x}); break;
      default: // x86: narrow unsigned conversions go through the next wider signed one
        if (w < 32) y = extract(fop(O_FPTOSI, 32, {x}), 0, w); else if (w == 32) y = extract(fop(O_FPTOSI, 64, {x}), 0, 32); else y = fop(O_FPTOUI, w, {x});
      }
      r.push_back(y);
    }
    setR(Val(std::move(r))); return true;
  }
  case Instruction::BitCast: {
    Type *st = I->getOperand(0)->getType(), *dt = I->getType(); const Val &a = op(0);
    if (!st->isVectorTy() && !dt->isVectorTy()) { setR(a); return true; }
    E all = a.many ? vcat(a.vec()) : a.one;
    if (dt->isVectorTy()) setR(Val(vsplit(all, leafW(dt->getScalarType())))); else setR(Val(all));
    return true;
  }
  case Instruction::Freeze: setR(op(0)); return true;
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(I);
    if (g->getType()->isVectorTy()) { killIncomplete(s, "vector gep"); return false; }
    E p = op(0).one; uint64_t k = 0; unsigned oi = 1;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++oi) {
      E idx = op(oi).one;
      if (StructType *st = it.getStructTypeOrNull()) { k += DL->getStructLayout(st)->getElementOffset(idx.u64()); continue; }
      uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      E si = idx.w < 64 ? sext(idx, 64) : idx;
      if (si.kk()) k += si.c * sz; else p = add(p, mul(si, C(64, sz)));
    }
    setR(Val(add(p, C(64, k)))); return true;
  }
  case Instruction::Alloca: {
    auto *al = cast<AllocaInst>(I); uint64_t n = 1;
    if (al->isArrayAllocation()) { if (!concretize(s, op(0).one, n)) return false; }
    uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()) * n;
    Obj *o = s.mem.alloc(sz, OK_STACK, al->getAlign().value()); o->st.assign(sz, 2); o->tag = I;
    s.fr().allocas.push_back(o->base >> OBJ_SHIFT);
    setR(Val(C(64, o->base))); return true;
  }
  case Instruction::Load: {
    Type *t = I->getType(); E p = op(0).one;
    if (!t->isVectorTy() && !t->isAggregateType()) {
      unsigned w = leafW(t), n = DL->getTypeStoreSize(t); E v;
      // Which pointer is read decides which object is used from here on: one path for each.
      if (t->isPointerTy() && !p.k()) {
        ensureHint(s);
        if (!s.hint) { killIncomplete(s, "no model while choosing a pointer"); return false; }
        Evaluator ev(*s.hint);
        E is = eq(p, C(64, ev.eval(p).getZExtValue())); std::shared_ptr<Model> om;
        const E now = C(64, ev.eval(p).getZExtValue());
        TV q = query(s, is, &om);
        if (q == TV::UNK) { killIncomplete(s, "solver timeout while choosing a pointer"); return false; }
        if (q == TV::BOTH) {
          auto f = cloneState(s); addC(*f, bnot(is)); f->hint = om; work.push_back(std::move(f));
          addC(s, is);
        }
        p = now;
      }
      if (!loadMem(s, p, n, v)) return false;
      s.fr().regs[ki.dst] = Val(v.w == w ? v : extract(v, 0, w)); s.fr().pc++; return true;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      unsigned n = DL->getTypeStoreSize(t), ew = leafW(vt->getElementType()); E v;
      if (!loadMem(s, p, n, v)) return false;
      if (v.w != ew * vt->getNumElements()) v = extract(v, 0, ew * vt->getNumElements());
      s.fr().regs[ki.dst] = Val(vsplit(v, ew)); s.fr().pc++; return true;
    }
    std::vector<std::pair<uint64_t, Type *>> lo; leafOffsets(t, 0, lo); std::vector<E> r;
    for (auto &l : lo) { E v; unsigned w = leafW(l.second); if (!loadMem(s, add(p, C(64, l.first)), DL->getTypeStoreSize(l.second), v)) return false; r.push_back(v.w == w ? v : extract(v, 0, w)); }
    s.fr().regs[ki.dst] = Val(std::move(r)); s.fr().pc++; return true;
  }
  case Instruction::Store: {
    Type *t = I->getOperand(0)->getType(); Val v = op(0); E p = op(1).one;
    if (!t->isVectorTy() && !t->isAggregateType()) {
      unsigned n = DL->getTypeStoreSize(t);
      if (!storeMem(s, p, zext(v.one, n * 8))) return false;
    } else if (t->isVectorTy()) {
      E e = vcat(v.vec()); unsigned n = DL->getTypeStoreSize(t);
      if (!storeMem(s, p, zext(e, n * 8))) return false;
    } else {
      std::vector<std::pair<uint64_t, Type *>> lo; leafOffsets(t, 0, lo);
      for (unsigned i = 0; i < lo.size(); i++) if (!storeMem(s, add(p, C(64, lo[i].first)), zext(v.at(i), DL->getTypeStoreSize(lo[i].second) * 8))) return false;
    }
    s.fr().pc++; return true;
  }
  case Instruction::ExtractValue: {
    auto *ev = cast<ExtractValueInst>(I); unsigned b = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices()), n = nLeaves(ev->getType());
    const Val &a = op(0); std::vector<E> r; for (unsigned i = 0; i < n; i++) r.push_back(a.at(b + i));
    setR(Val(std::move(r))); return true;
  }
  case Instruction::InsertValue: {
    auto *iv = cast<InsertValueInst>(I); unsigned b = leafIndex(iv->getType(), iv->getIndices());
    auto r = op(0).vec(); auto n = op(1).vec(); for (unsigned i = 0; i < n.size(); i++) r[b + i] = n[i];
    setR(Val(std::move(r))); return true;
  }
  case Instruction::ExtractElement: {
    const Val &a = op(0); E i = op(1).one;
    if (i.k()) setR(Val(a.at(i.u64() % a.n()))); else { auto v = a.vec(); unsigned bits = 1; while ((1u << bits) < v.size()) bits++; setR(Val(v.size() == 1 ? v[0] : tableRead(v, extract(i, 0, bits)))); }
    return true;
  }
  case Instruction::InsertElement: {
    auto v = op(0).vec(); E x = op(1).one, i = op(2).one;
    if (i.k()) v[i.u64() % v.size()] = x; else for (unsigned k = 0; k < v.size(); k++) v[k] = ite(eq(i, C(i.w, k)), x, v[k]);
    setR(Val(std::move(v))); return true;
  }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(I); const Val &a = op(0), &b = op(1); std::vector<E> r; unsigned n = a.n();
    for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? C(APInt(a.at(0).w, 0)) : (unsigned)m < n ? a.at(m) : b.at(m - n));
    setR(Val(std::move(r))); return true;
  }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I);
    if (b->isUnconditional()) { gotoBB(s, b->getSuccessor(0)); return true; }
    E c = op(0).one;
    if (c.k()) { gotoBB(s, b->getSuccessor(c.isZero() ? 1 : 0)); return true; }
    return branchOn(s, c, b->getSuccessor(0), b->getSuccessor(1));
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I); E v = op(0).one;
    if (v.k()) {
      for (auto &c : sw->cases()) if (c.getCaseValue()->getValue() == v.ap()) { gotoBB(s, c.getCaseSuccessor()); return true; }
      gotoBB(s, sw->getDefaultDest()); return true;
    }
    // group by destination
    std::vector<std::pair<const BasicBlock *, E>> g; E def = B(true);
    for (auto &c : sw->cases()) {
      E e = eq(v, C(c.getCaseValue()->getValue())); def = band(def, bnot(e));
      bool f2 = false; for (auto &p : g) if (p.first == c.getCaseSuccessor()) { p.second = bor(p.second, e); f2 = true; break; }
      if (!f2) g.push_back({c.getCaseSuccessor(), e});
    }
    bool dm = false; for (auto &p : g) if (p.first == sw->getDefaultDest()) { p.second = bor(p.second, def); dm = true; }
    if (!dm) g.push_back({sw->getDefaultDest(), def});
    std::vector<std::pair<const BasicBlock *, E>> ok; std::vector<std::shared_ptr<Model>> ms;
    for (auto &p : g) {
      if (p.second.k() && p.second.isZero()) continue;
      std::shared_ptr<Model> m; SR r = solve(s.cs, p.second, &m);
      if (r == SR::UNKNOWN) { killIncomplete(s, "solver timeout on a switch"); return false; }
      if (r == SR::SAT) { ok.push_back(p); ms.push_back(m); }
    }
    if (ok.empty()) { s.dead = true; return false; }
    ensureHint(s);
    for (unsigned i = 1; i < ok.size(); i++) { auto o = cloneState(s); addC(*o, ok[i].second); o->hint = s.hint ? mergeModel(s.hint, ms[i]) : nullptr; gotoBB(*o, ok[i].first); work.push_back(std::move(o)); }
    addC(s, ok[0].second); s.hint = s.hint ? mergeModel(s.hint, ms[0]) : nullptr; gotoBB(s, ok[0].first);
    return true;
  }
  case Instruction::Ret: {
    auto *r = cast<ReturnInst>(I);
    Val v; bool h = r->getReturnValue() != nullptr;
    if (h) v = op(0);
    retInto(s, std::move(v), h);
    if (s.th[s.cur].done) { if (s.cur == 0) return true; schedule(s, false); }
    return true;
  }
  case Instruction::Call: case Instruction::Invoke: return doCall(s, cast<CallBase>(I), ki);
  case Instruction::Resume: {
    auto &t = s.th[s.cur]; t.excObj = op(0).at(0).u64();
    freeFrame(s, t.stack.back()); t.stack.pop_back();
    return unwind(s);
  }
  case Instruction::Unreachable: fail(s, "unreachable", "unreachable code reached (undefined behaviour)"); return false;
  case Instruction::Fence: f.pc++; return true;
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(I); E p = op(0).one, v = op(1).one, o;
    if (!loadMem(s, p, v.w / 8, o)) return false;
    E n;
    switch (rm->getOperation()) {
    case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = add(o, v); break; case AtomicRMWInst::Sub: n = sub(o, v); break;
    case AtomicRMWInst::And: n = band(o, v); break; case AtomicRMWInst::Or: n = bor(o, v); break; case AtomicRMWInst::Xor: n = bxor(o, v); break;
    default: killIncomplete(s, "atomicrmw kind"); return false;
    }
    if (!storeMem(s, p, n)) return false;
    s.fr().regs[ki.dst] = Val(o); s.fr().pc++;
    if (s.th.size() > 1) schedule(s, true);
    return true;
  }
  case Instruction::AtomicCmpXchg: {
    E p = op(0).one, c = op(1).one, n = op(2).one, o;
    if (!loadMem(s, p, c.w / 8, o)) return false;
    E okE = eq(o, c);
    if (!storeMem(s, p, ite(okE, n, o))) return false;
    s.fr().regs[ki.dst] = Val(std::vector<E>{o, okE}); s.fr().pc++;
    if (s.th.size() > 1) schedule(s, true);
    return true;
  }
  default: {
    std::string str; raw_string_ostream os(str); I->print(os);
    killIncomplete(s, "unsupported instruction " + str); return false;
  }
  }
}

#include "builtins.inc"

// ------------------------------------------------------------------ main
static void checkHint(State &s, const char *at) {
  if (!s.hint || X.realFp) return;
  Evaluator ev(*s.hint);
  for (size_t i = 0; i < s.cs.size(); i++) if (!ev.evalBool(s.cs[i])) { fprintf(stderr, "HINT wrong (%s) constraint %zu of %zu at %s\n", at, i, s.cs.size(), where(s).c_str()); return; }
}
static void runState(State &s) {
  if (getenv("SYMX_CHECK")) checkHint(s, "start");
  while (!s.dead && !s.finished) {
    if (s.th[0].done) { finishPath(s); return; }
    if (!step(s) && (s.dead || s.finished)) return;
    if ((s.steps & 0xfff) == 0) {
      if (s.steps > G.maxSteps) { // maybe a hang: keep the input for a native replay
        report(s, "hang", "more than " + std::to_string(G.maxSteps) + " steps on one path", E());
        killIncomplete(s, "step limit per path"); return;
      }
      if (elapsed() > G.timeout) { killIncomplete(s, "time limit"); return; }
    }
  }
}
int main(int argc, char **argv) {
  std::string bc, entry, out, rt;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--where") signal(SIGUSR1, [](int) { askWhere = 1; }); else if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--grace") G.grace = std::stod(nx()); else if (a == "--timeout") G.timeout = std::stod(nx());
    else if (a == "--max-steps") G.maxSteps = std::stoull(nx()); else if (a == "--samples") G.samples = std::stoul(nx());
    else if (a == "--slow-ms") SO.slowMs = std::stoul(nx()); else if (a == "--fast-ms") SO.fastMs = std::stoul(nx());
    else if (a == "--preempt") G.maxPreempt = std::stoul(nx()); else if (a == "--seed") G.seed = std::stoul(nx());
    else if (a == "--real") X.realFp = true;
    else if (a == "--dump") { SO.dumpDir = nx(); SO.dumpMax = 20; } else if (a == "--dump-max") SO.dumpMax = std::stoul(nx());
    else if (a == "--real") X.realFp = true; else if (a == "--rt") rt = nx(); else if (a == "-v") G.verbose = true; else if (a == "--no-uninit") G.symUninit = false;
    else if (a == "--mem-mb") G.memMB = std::stoull(nx()); else bc = a;
  }
  struct rlimit rl { G.memMB << 20, G.memMB << 20 }; setrlimit(RLIMIT_AS, &rl);
  rl = {(rlim_t)512 << 20, (rlim_t)512 << 20}; setrlimit(RLIMIT_STACK, &rl);
  T0 = std::chrono::steady_clock::now();
  SMDiagnostic err;
  auto mod = parseIRFile(bc, err, LC);
  if (!mod) { err.print("symx", errs()); return 3; }
  if (rt.size()) {
    auto m2 = parseIRFile(rt, err, LC);
    if (!m2) { err.print("symx", errs()); return 3; }
    // bodies in the runtime replace weak template instances (stream formatting and the like)
    for (auto &F : *mod) if (!F.isDeclaration() && F.isWeakForLinker()) if (auto *G2 = m2->getFunction(F.getName())) if (!G2->isDeclaration() && !G2->isWeakForLinker()) F.deleteBody();
    if (Linker::linkModules(*mod, std::move(m2), Linker::LinkOnlyNeeded)) { fprintf(stderr, "link failed\n"); return 3; }
  }
  M = mod.get(); DL = &M->getDataLayout();
  initBuiltins();
  auto st = std::make_unique<State>(); State &s = *st;
  for (auto &F : *M) { Obj *o = s.mem.alloc(1, OK_FUNC, 16); o->tag = &F; gaddr[&F] = o->base; }
  for (auto &gv : M->globals()) {
    uint64_t sz = gv.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(gv.getValueType()) : 64;
    if (gv.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
    Obj *o = s.mem.alloc(sz, OK_GLOBAL, std::max<unsigned>(16, gv.getAlign().valueOrOne().value()));
    o->tag = &gv; o->external = gv.isDeclaration();
    gaddr[&gv] = o->base;
  }
  for (auto &gv : M->globals()) if (gv.hasInitializer()) { initGlobal(s, &gv); }
  for (auto &gv : M->globals()) if (gv.hasInitializer() && gv.isConstant()) s.mem.wr(gaddr[&gv] >> OBJ_SHIFT)->ro = true;
  Function *E0 = M->getFunction(entry);
  if (!E0 || E0->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  // static constructors, then the entry
  std::vector<std::pair<uint64_t, Function *>> ctors;
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  s.th.resize(1);
  std::string ctorProblem;
  for (auto &c : ctors) {
    std::vector<Val> none; 
    s.th[0].done = false; s.finished = false;
    pushCall(s, c.second, none, nullptr);
    while (!s.dead && !s.th[0].done) step(s);
    if (s.dead) { ctorProblem = "static constructor " + demangled(c.second) + " did not finish"; break; }
  }
  executed.clear(); for (auto &p : kfs) p.second.reset(); kfs.clear();
  if (ctorProblem.empty()) {
    s.steps = 0; s.th[0].done = false; s.finished = false; s.inputs.clear();
    std::vector<Val> none; pushCall(s, E0, none, nullptr);
    work.push_back(std::move(st));
  } else incomplete[ctorProblem]++;
  while (!work.empty()) {
    if (elapsed() > G.timeout) { incomplete["time limit"] += work.size(); break; }
    if (pathsDone + pathsKilled > G.maxPaths) { incomplete["path limit"] += work.size(); break; }
    if (viols.size() >= G.maxViol) { incomplete["stopped after enough violations"]++; break; }
    auto cur = std::move(work.back()); work.pop_back();
    runState(*cur);
  }
  if (unknownHappened && incomplete.empty()) incomplete["solver timeout"]++;
  // ---- report
  json::Object J;
  J["entry"] = entry; J["paths"] = (int64_t)pathsDone; J["paths_killed"] = (int64_t)pathsKilled; J["forks"] = (int64_t)forks; J["steps"] = (int64_t)totSteps;
  J["asserts_evaluated"] = (int64_t)assertsChecked; J["asserts_by_solver"] = (int64_t)assertsSolver;
  J["queries"] = (int64_t)SS.queries; J["z3_calls"] = (int64_t)SS.z3Calls; J["folded"] = (int64_t)SS.folded; J["cache_hits"] = (int64_t)SS.cacheHits; J["model_hits"] = (int64_t)SS.modelHits;
  J["unknown"] = (int64_t)SS.unknown; J["solver_s"] = SS.time; J["max_query_s"] = SS.maxTime; J["wall_s"] = elapsed(); J["nodes"] = (int64_t)X.nodes; J["symbols"] = (int64_t)X.syms.size();
  json::Object ah, rh, inc;
  for (auto &p : assertHits) ah[p.first] = (int64_t)p.second;
  for (auto &p : reachHits) rh[p.first] = (int64_t)p.second;
  for (auto &p : incomplete) inc[p.first] = (int64_t)p.second;
  J["assert_hits"] = std::move(ah); J["reach"] = std::move(rh); J["incomplete"] = std::move(inc);
  json::Array fs;
  for (auto *F : executed) {
    if (auto *sp = F->getSubprogram()) { json::Object o; o["name"] = demangled(F); o["file"] = sp->getFilename().str(); fs.push_back(std::move(o)); }
  }
  // inlined functions count as encoded as well
  std::set<std::pair<std::string, std::string>> inl;
  for (auto *F : executed) for (auto &I : instructions(F)) if (auto &dl = I.getDebugLoc()) for (auto *ia = dl->getInlinedAt(); ia; ia = nullptr) { if (auto *sc = dl->getScope()) if (auto *sp = sc->getSubprogram()) inl.insert({demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()), sp->getFilename().str()}); }
  for (auto &p : inl) { json::Object o; o["name"] = p.first; o["file"] = p.second; fs.push_back(std::move(o)); }
  J["functions"] = std::move(fs);
  auto insJ = [](const std::vector<std::pair<std::string, std::vector<uint8_t>>> &v) {
    json::Array a; for (auto &p : v) { std::string h; for (auto b : p.second) { char t[3]; snprintf(t, 3, "%02x", b); h += t; } a.push_back(json::Array{json::fixUTF8(p.first), h}); } return a; };
  json::Array va;
  for (auto &v : viols) { json::Object o; o["kind"] = v.kind; o["label"] = v.label; o["where"] = v.where; o["inputs"] = insJ(v.inputs); o["uninit"] = v.uninit; va.push_back(std::move(o)); }
  J["violations"] = std::move(va);
  json::Array sa;
  for (auto &v : samples) { json::Object o; o["inputs"] = insJ(v.inputs); json::Array ob; for (auto &p : v.obs) ob.push_back(json::Array{p.first, p.second}); o["obs"] = std::move(ob); o["uninit"] = v.uninit; sa.push_back(std::move(o)); }
  J["samples"] = std::move(sa);
  std::string js; raw_string_ostream os(js); os << json::Value(std::move(J));
  if (out.size()) { if (FILE *f = fopen(out.c_str(), "w")) { fwrite(js.data(), 1, js.size(), f); fclose(f); } } else puts(js.c_str());
  fflush(stdout); fflush(stderr);
  _exit(0);
}
