// Hash-consed bit-vector / IEEE-754 expression DAG with rewriting.
#pragma once
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>

enum Op : uint8_t {
  O_CONST, O_SYM,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_SEXT, O_READ,
  // floating point: operands and results are bit patterns
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FRINT /*aux: mode*/, O_FMA,
  O_FEQ, O_FLT, O_FLE, O_FISNAN,
  O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI /*aux 1: round to nearest*/, O_FPTOUI,
  O_UF /* aux: function id */
};
const char *opName(Op);

struct Node;
struct E {
  const Node *n = nullptr;
  uint64_t c = 0;
  uint32_t w = 0;
  bool operator==(const E &o) const { return n == o.n && c == o.c && w == o.w; }
  bool operator!=(const E &o) const { return !(*this == o); }
  inline bool k() const;      // is a constant
  bool kk() const { return !n; } // small constant
  llvm::APInt ap() const;
  inline bool isZero() const;
  inline bool isOnes() const;
  uint64_t u64() const; // low 64 bits of a constant
};
using SymSet = std::vector<uint32_t>;
struct Node {
  Op op;
  uint16_t nk;
  uint32_t w;
  uint32_t id;
  uint64_t aux;
  const E *kids;
  const llvm::APInt *cv = nullptr;
  const SymSet *syms = nullptr;
  bool hasFP = false;
  mutable void *zbv = nullptr, *zbool = nullptr;
  mutable uint64_t evEpoch = 0;
  mutable uint64_t evVal = 0;
  mutable llvm::APInt *evWide = nullptr;
};
inline bool E::k() const { return !n || n->op == O_CONST; }
inline bool E::isZero() const { return n ? (n->op == O_CONST && n->cv->isZero()) : c == 0; }
inline bool E::isOnes() const {
  return n ? (n->op == O_CONST && n->cv->isAllOnes())
           : c == (w == 64 ? ~0ull : ((1ull << w) - 1));
}
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct Table { std::vector<E> el; unsigned ew; const SymSet *syms; bool hasFP; };
struct SymInfo { std::string name; unsigned w; };

struct Ctx {
  std::vector<SymInfo> syms;
  std::vector<Table *> tables;
  std::vector<std::string> ufs;
  uint64_t nodes = 0;
  bool realFp = false; // floating point operations stand for exact real arithmetic
};
extern Ctx X;

E C(unsigned w, uint64_t v);
E C(const llvm::APInt &);
inline E B(bool b) { E e; e.w = 1; e.c = b; return e; }
E mkSym(const std::string &name, unsigned w);
E mk(Op op, E a, E b);
inline E add(E a, E b) { return mk(O_ADD, a, b); }
inline E sub(E a, E b) { return mk(O_SUB, a, b); }
inline E mul(E a, E b) { return mk(O_MUL, a, b); }
inline E band(E a, E b) { return mk(O_AND, a, b); }
inline E bor(E a, E b) { return mk(O_OR, a, b); }
inline E bxor(E a, E b) { return mk(O_XOR, a, b); }
inline E eq(E a, E b) { return mk(O_EQ, a, b); }
inline E ult(E a, E b) { return mk(O_ULT, a, b); }
inline E ule(E a, E b) { return mk(O_ULE, a, b); }
inline E slt(E a, E b) { return mk(O_SLT, a, b); }
inline E sle(E a, E b) { return mk(O_SLE, a, b); }
E bnot(E a);
E ite(E c, E a, E b);
E concat(E hi, E lo);
E concatN(const std::vector<E> &hiToLo);
E extract(E a, unsigned lo, unsigned w);
E zext(E a, unsigned w);
E sext(E a, unsigned w);
E zextOrTrunc(E a, unsigned w);
E tableRead(const std::vector<E> &el, E idx); // idx must be < el.size()
E fop(Op op, unsigned w, std::vector<E> kids, uint64_t aux = 0);
E uf(const std::string &name, unsigned w, std::vector<E> kids);
// unsigned range by structure
void urange(E a, uint64_t &lo, uint64_t &hi);

const SymSet &symsOf(E);
bool hasFP(E);
std::string show(E, int depth = 6);

// models / evaluation
struct Model { std::unordered_map<uint32_t, llvm::APInt> v; };
struct Evaluator {
  const Model &m;
  uint64_t epoch;
  Evaluator(const Model &m);
  llvm::APInt eval(E);
  bool evalBool(E e) { return !eval(e).isZero(); }
};
llvm::APInt foldOp(Op op, unsigned w, uint64_t aux, const std::vector<llvm::APInt> &a, bool &ok);
const llvm::fltSemantics &fsem(unsigned w);
