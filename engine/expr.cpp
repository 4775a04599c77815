#include "expr.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <unordered_set>
using llvm::APFloat;
using llvm::APInt;
using llvm::APSInt;

Ctx X;
static const char *names[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
"eq","ult","ule","slt","sle","ite","concat","extract","sext","read","fadd","fsub","fmul","fdiv","frem","fsqrt","frint","fma",
"feq","flt","fle","fisnan","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","uf"};
const char *opName(Op o) { return names[o]; }

APInt E::ap() const { return n ? *n->cv : APInt(w, c); }
uint64_t E::u64() const { return n ? n->cv->extractBitsAsZExtValue(std::min(64u, w), 0) : c; }

// ---------------------------------------------------------------- arena
struct NKey { const Node *n; };
static size_t hashE(const E &e) {
  uint64_t h = e.n ? (uint64_t)e.n->id * 0x9E3779B97F4A7C15ull : (e.c ^ ((uint64_t)e.w << 56)) * 0xC2B2AE3D27D4EB4Full;
  return h ^ (h >> 29);
}
static size_t hashNode(const Node &n) {
  size_t h = n.op * 1000003u + n.w * 7919u + n.aux * 0x9E3779B97F4A7C15ull;
  for (unsigned i = 0; i < n.nk; i++) h = (h ^ hashE(n.kids[i])) * 0x100000001B3ull;
  if (n.cv) h ^= llvm::hash_value(*n.cv);
  return h;
}
struct NH { size_t operator()(const Node *n) const { return hashNode(*n); } };
struct NE {
  bool operator()(const Node *a, const Node *b) const {
    if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->nk != b->nk) return false;
    for (unsigned i = 0; i < a->nk; i++) if (a->kids[i] != b->kids[i]) return false;
    if (a->cv || b->cv) return a->cv && b->cv && *a->cv == *b->cv;
    return true;
  }
};
static std::unordered_set<const Node *, NH, NE> uniq;
static std::deque<Node> arena;
struct SSH { size_t operator()(const SymSet &s) const { size_t h = 7; for (auto v : s) h = (h ^ v) * 0x100000001B3ull; return h; } };
static std::unordered_set<SymSet, SSH> symSets;
static const SymSet *internSyms(SymSet s) { return &*symSets.insert(std::move(s)).first; }
static const SymSet *emptySyms() { static const SymSet *e = internSyms({}); return e; }
static const SymSet *unionSyms(const SymSet *a, const SymSet *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  SymSet r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  if (r.size() == a->size()) return a;
  if (r.size() == b->size()) return b;
  return internSyms(std::move(r));
}
const SymSet &symsOf(E e) { return e.n ? *e.n->syms : *emptySyms(); }
bool hasFP(E e) { return e.n && e.n->hasFP; }

static E intern(Op op, unsigned w, const E *kids, unsigned nk, uint64_t aux = 0, const APInt *cv = nullptr) {
  auto bad = [&](const char *why) { fprintf(stderr, "internal: malformed node %s w=%u: %s\n", opName(op), w, why); abort(); };
  switch (op) {
  case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR:
    if (nk != 2 || kids[0].w != w || kids[1].w != w) bad("binary operand widths"); break;
  case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: if (w != 1 || kids[0].w != kids[1].w) bad("comparison widths"); break;
  case O_ITE: if (kids[0].w != 1 || kids[1].w != w || kids[2].w != w) bad("ite widths"); break;
  case O_CONCAT: { unsigned t = 0; for (unsigned q = 0; q < nk; q++) t += kids[q].w; if (t != w) bad("concat width"); break; }
  case O_EXTRACT: if (aux + w > kids[0].w || !w) bad("extract range"); break;
  case O_SEXT: if (kids[0].w >= w) bad("sext width"); break;
  default: break;
  }
  Node t; t.op = op; t.nk = nk; t.w = w; t.aux = aux; t.kids = kids; t.cv = cv;
  auto it = uniq.find(&t);
  E r; r.w = w;
  if (it != uniq.end()) { r.n = *it; return r; }
  E *kk = nk ? new E[nk] : nullptr;
  for (unsigned i = 0; i < nk; i++) kk[i] = kids[i];
  t.kids = kk; t.id = arena.size() + 1;
  if (cv) t.cv = new APInt(*cv);
  const SymSet *ss = emptySyms();
  t.hasFP = op >= O_FADD && op <= O_FPTOUI;
  for (unsigned i = 0; i < nk; i++) if (kids[i].n) { ss = unionSyms(ss, kids[i].n->syms); t.hasFP |= kids[i].n->hasFP; }
  if (op == O_SYM) ss = internSyms({(uint32_t)aux});
  if (op == O_READ) { ss = unionSyms(ss, X.tables[aux]->syms); t.hasFP |= X.tables[aux]->hasFP; }
  t.syms = ss;
  arena.push_back(t);
  r.n = &arena.back();
  uniq.insert(r.n);
  X.nodes++;
  return r;
}
E C(unsigned w, uint64_t v) {
  if (w <= 64) { E e; e.w = w; e.c = v & mask64(w); return e; }
  return C(APInt(w, v));
}
E C(const APInt &a) {
  if (a.getBitWidth() <= 64) { E e; e.w = a.getBitWidth(); e.c = a.getZExtValue(); return e; }
  return intern(O_CONST, a.getBitWidth(), nullptr, 0, 0, &a);
}
E mkSym(const std::string &name, unsigned w) {
  X.syms.push_back({name, w});
  return intern(O_SYM, w, nullptr, 0, X.syms.size() - 1);
}
const llvm::fltSemantics &fsem(unsigned w) {
  return w == 16 ? APFloat::IEEEhalf() : w == 32 ? APFloat::IEEEsingle() : w == 80 ? APFloat::x87DoubleExtended() : APFloat::IEEEdouble();
}
// x86 result for an operation with NaN operands: the first NaN operand, quieted;
// an invalid operation yields the default (negative quiet) NaN.
static APInt fbits(const APFloat &f) { return f.bitcastToAPInt(); }
static APInt quietN(APInt a) { unsigned w = a.getBitWidth(); a.setBit(w == 32 ? 22 : w == 64 ? 51 : 9); return a; }
static APInt defNaN(unsigned w) { APInt r(w, 0); unsigned m = w == 32 ? 23 : w == 64 ? 52 : 10; for (unsigned i = m - 1; i < w; i++) r.setBit(i); return r; }

APInt foldOp(Op op, unsigned w, uint64_t aux, const std::vector<APInt> &a, bool &ok) {
  ok = true;
  auto bb = [](bool b) { return APInt(1, b); };
  switch (op) {
  case O_ADD: return a[0] + a[1];
  case O_SUB: return a[0] - a[1];
  case O_MUL: return a[0] * a[1];
  case O_UDIV: return a[1].isZero() ? APInt::getAllOnes(w) : a[0].udiv(a[1]);
  case O_SDIV: return a[1].isZero() ? (a[0].isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a[0].sdiv(a[1]);
  case O_UREM: return a[1].isZero() ? a[0] : a[0].urem(a[1]);
  case O_SREM: return a[1].isZero() ? a[0] : a[0].srem(a[1]);
  case O_AND: return a[0] & a[1];
  case O_OR: return a[0] | a[1];
  case O_XOR: return a[0] ^ a[1];
  case O_SHL: return a[1].uge(w) ? APInt(w, 0) : a[0].shl(a[1]);
  case O_LSHR: return a[1].uge(w) ? APInt(w, 0) : a[0].lshr(a[1]);
  case O_ASHR: return a[1].uge(w) ? a[0].ashr(w - 1) : a[0].ashr(a[1]);
  case O_EQ: return bb(a[0] == a[1]);
  case O_ULT: return bb(a[0].ult(a[1]));
  case O_ULE: return bb(a[0].ule(a[1]));
  case O_SLT: return bb(a[0].slt(a[1]));
  case O_SLE: return bb(a[0].sle(a[1]));
  case O_ITE: return a[0].isZero() ? a[2] : a[1];
  case O_CONCAT: {
    APInt r(w, 0); unsigned pos = w;
    for (auto &p : a) { pos -= p.getBitWidth(); r.insertBits(p, pos); }
    return r;
  }
  case O_EXTRACT: return a[0].extractBits(w, aux);
  case O_SEXT: return a[0].sext(w);
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
    APFloat x(fsem(w), a[0]), y(fsem(w), a[1]);
    if (x.isNaN()) return quietN(a[0]);
    if (y.isNaN()) return quietN(a[1]);
    if (op == O_FADD) x.add(y, APFloat::rmNearestTiesToEven);
    else if (op == O_FSUB) x.subtract(y, APFloat::rmNearestTiesToEven);
    else if (op == O_FMUL) x.multiply(y, APFloat::rmNearestTiesToEven);
    else if (op == O_FDIV) x.divide(y, APFloat::rmNearestTiesToEven);
    else x.mod(y);
    if (x.isNaN()) return defNaN(w);
    return fbits(x);
  }
  case O_FMA: {
    APFloat x(fsem(w), a[0]), y(fsem(w), a[1]), z(fsem(w), a[2]);
    x.fusedMultiplyAdd(y, z, APFloat::rmNearestTiesToEven);
    return fbits(x);
  }
  case O_FSQRT: {
    APFloat x(fsem(w), a[0]);
    if (x.isNaN()) return quietN(a[0]);
    if (x.isNegative() && !x.isZero()) return defNaN(w);
    if (w == 32) { float f = x.convertToFloat(); return fbits(APFloat(__builtin_sqrtf(f))); }
    return fbits(APFloat(__builtin_sqrt(x.convertToDouble())));
  }
  case O_FRINT: {
    APFloat x(fsem(w), a[0]);
    if (x.isNaN()) return quietN(a[0]);
    static const APFloat::roundingMode rm[] = {APFloat::rmNearestTiesToEven, APFloat::rmTowardNegative, APFloat::rmTowardPositive, APFloat::rmTowardZero, APFloat::rmNearestTiesToAway};
    x.roundToIntegral(rm[aux]);
    return fbits(x);
  }
  case O_FEQ: case O_FLT: case O_FLE: {
    APFloat x(fsem(a[0].getBitWidth()), a[0]), y(fsem(a[0].getBitWidth()), a[1]);
    auto c = x.compare(y);
    if (op == O_FEQ) return bb(c == APFloat::cmpEqual);
    if (op == O_FLT) return bb(c == APFloat::cmpLessThan);
    return bb(c == APFloat::cmpLessThan || c == APFloat::cmpEqual);
  }
  case O_FISNAN: return bb(APFloat(fsem(a[0].getBitWidth()), a[0]).isNaN());
  case O_FPEXT: case O_FPTRUNC: {
    APFloat x(fsem(a[0].getBitWidth()), a[0]); bool li;
    x.convert(fsem(w), APFloat::rmNearestTiesToEven, &li);
    return fbits(x);
  }
  case O_SITOFP: case O_UITOFP: {
    APFloat x(fsem(w));
    x.convertFromAPInt(a[0], op == O_SITOFP, APFloat::rmNearestTiesToEven);
    return fbits(x);
  }
  case O_FPTOSI: case O_FPTOUI: {
    APFloat x(fsem(a[0].getBitWidth()), a[0]);
    APSInt r(w, op == O_FPTOUI); bool ex;
    auto st = x.convertToInteger(r, aux ? APFloat::rmNearestTiesToEven : APFloat::rmTowardZero, &ex);
    if (st == APFloat::opInvalidOp) return APInt::getSignedMinValue(w); // x86 "integer indefinite"
    return r;
  }
  default: ok = false; return APInt(w, 0);
  }
}

static bool allK(const E *k, unsigned n) { for (unsigned i = 0; i < n; i++) if (!k[i].k()) return false; return true; }
static E foldE(Op op, unsigned w, uint64_t aux, const E *k, unsigned n) {
  std::vector<APInt> a;
  for (unsigned i = 0; i < n; i++) a.push_back(k[i].ap());
  bool ok; APInt r = foldOp(op, w, aux, a, ok);
  return C(r);
}
static bool isOp(E e, Op o) { return e.n && e.n->op == o; }
static bool less(const E &a, const E &b) { // canonical order: nodes by id, constants last
  if (!a.n != !b.n) return a.n != nullptr;
  if (!a.n) return a.c < b.c;
  return a.n->id < b.n->id;
}

E bnot(E a) { return mk(O_XOR, a, C(APInt::getAllOnes(a.w))); }
static bool isNot(E a, E &x) {
  if (isOp(a, O_XOR) && a.n->nk == 2 && a.n->kids[1].isOnes()) { x = a.n->kids[0]; return true; }
  return false;
}

// ---- segments
static void segs(E e, std::vector<E> &out) { // hi to lo
  if (isOp(e, O_CONCAT)) for (unsigned i = 0; i < e.n->nk; i++) out.push_back(e.n->kids[i]);
  else out.push_back(e);
}
E concatN(const std::vector<E> &in) {
  std::vector<E> p;
  for (auto &e0 : in) {
    if (e0.w == 0) continue;
    std::vector<E> s; segs(e0, s);
    for (auto &e : s) {
      if (!p.empty()) {
        E &b = p.back();
        if (b.k() && e.k()) {
          unsigned w = b.w + e.w;
          if (w <= 64) { b = C(w, (b.c << e.w) | e.c); }
          else { APInt r = b.ap().zext(w).shl(e.w); r |= e.ap().zext(w); b = C(r); }
          continue;
        }
        // adjacent extracts of the same node
        auto base = [](E x, E &src, unsigned &lo) { if (isOp(x, O_EXTRACT)) { src = x.n->kids[0]; lo = x.n->aux; } else { src = x; lo = 0; } };
        if (b.n && e.n) {
          E sb, se; unsigned lb, le; base(b, sb, lb); base(e, se, le);
          if (sb == se && lb == le + e.w) { b = extract(sb, le, b.w + e.w); continue; }
        }
      }
      p.push_back(e);
    }
  }
  if (p.size() == 1) return p[0];
  unsigned w = 0; for (auto &e : p) w += e.w;
  return intern(O_CONCAT, w, p.data(), p.size());
}
E concat(E hi, E lo) { return concatN({hi, lo}); }
E zext(E a, unsigned w) {
  if (a.w == w) return a;
  if (!a.n && w <= 64) { a.w = w; return a; }
  return concatN({C(w - a.w, 0), a});
}
E sext(E a, unsigned w) {
  if (a.w == w) return a;
  if (a.k()) return C(a.ap().sext(w));
  if (isOp(a, O_CONCAT) && a.n->kids[0].k()) { // known sign
    return concatN({C(a.n->kids[0].ap().sext(w - a.w + a.n->kids[0].w)), extract(a, 0, a.w - a.n->kids[0].w)});
  }
  if (isOp(a, O_SEXT)) return sext(a.n->kids[0], w);
  if (isOp(a, O_ITE) && a.n->kids[1].k() && a.n->kids[2].k()) return ite(a.n->kids[0], sext(a.n->kids[1], w), sext(a.n->kids[2], w));
  return intern(O_SEXT, w, &a, 1);
}
E zextOrTrunc(E a, unsigned w) { return w >= a.w ? zext(a, w) : extract(a, 0, w); }
E extract(E a, unsigned lo, unsigned w) {
  if (w == a.w) return a;
  if (a.kk()) return C(w, a.c >> lo);
  if (a.k()) return C(a.ap().extractBits(w, lo));
  const Node *n = a.n;
  switch (n->op) {
  case O_EXTRACT: return extract(n->kids[0], lo + n->aux, w);
  case O_UREM: case O_UDIV: if (a.w <= 64 && n->kids[1].k()) { uint64_t l, h; urange(a, l, h); if (!(h >> lo)) return C(w, 0); } break;
  case O_CONCAT: {
    std::vector<E> out; unsigned pos = a.w;
    for (unsigned i = 0; i < n->nk; i++) {
      E p = n->kids[i]; pos -= p.w;
      unsigned plo = pos, phi = pos + p.w; // [plo,phi)
      unsigned l = std::max(plo, lo), h = std::min(phi, lo + w);
      if (l < h) out.push_back(extract(p, l - plo, h - l));
    }
    return concatN(out);
  }
  case O_SEXT: {
    E s = n->kids[0];
    if (lo + w <= s.w) return extract(s, lo, w);
    if (lo < s.w) return sext(extract(s, lo, s.w - lo), w);
    return sext(extract(s, s.w - 1, 1), w);
  }
  case O_ITE:
    if (X.realFp || n->kids[1].k() || n->kids[2].k()) return ite(n->kids[0], extract(n->kids[1], lo, w), extract(n->kids[2], lo, w));
    break;
  case O_AND: case O_OR: case O_XOR:
    if (n->kids[0].k() || n->kids[1].k() || isOp(n->kids[0], O_CONCAT) || isOp(n->kids[1], O_CONCAT) || n->op == O_XOR)
      return mk(n->op, extract(n->kids[0], lo, w), extract(n->kids[1], lo, w));
    break;
  case O_ADD: case O_SUB: case O_MUL:
    if (lo == 0 && n->op == O_MUL) return mk(n->op, extract(n->kids[0], 0, w), extract(n->kids[1], 0, w));
    if (lo == 0 && (n->kids[1].k() || (isOp(n->kids[0], O_CONCAT) && isOp(n->kids[1], O_CONCAT)))) return mk(n->op, extract(n->kids[0], 0, w), extract(n->kids[1], 0, w));
    break;
  default: break;
  }
  return intern(O_EXTRACT, w, &a, 1, lo);
}

E ite(E c, E a, E b) {
  if (c.k()) return c.isZero() ? b : a;
  if (a == b) return a;
  E x;
  if (isNot(c, x)) return ite(x, b, a);
  if (a.w == 1) {
    if (a.isOnes()) return bor(c, b);
    if (a.isZero()) return band(bnot(c), b);
    if (b.isZero()) return band(c, a);
    if (b.isOnes()) return bor(bnot(c), a);
  }
  if (isOp(a, O_ITE) && a.n->kids[0] == c) return ite(c, a.n->kids[1], b);
  if (isOp(b, O_ITE) && b.n->kids[0] == c) return ite(c, a, b.n->kids[2]);
  if (isOp(b, O_ITE) && b.n->kids[1] == a) return ite(bor(c, b.n->kids[0]), a, b.n->kids[2]);
  // common segments
  if ((isOp(a, O_CONCAT) || isOp(b, O_CONCAT)) && (isOp(a, O_CONCAT) || a.k()) && (isOp(b, O_CONCAT) || b.k())) {
    std::vector<E> sa, sb; segs(a, sa); segs(b, sb);
    // shared constant high part / low part
    std::vector<unsigned> cuts; unsigned p = 0;
    auto addCuts = [&](std::vector<E> &s) { unsigned pos = 0; for (int i = (int)s.size() - 1; i >= 0; i--) { pos += s[i].w; cuts.push_back(pos); } };
    (void)p; addCuts(sa); addCuts(sb);
    std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    bool shared = false; unsigned pos = 0; std::vector<std::pair<E, E>> ps;
    for (auto q : cuts) { E ea = extract(a, pos, q - pos), eb = extract(b, pos, q - pos); if (ea == eb) shared = true; ps.push_back({ea, eb}); pos = q; }
    if (shared) {
      std::vector<E> out;
      size_t i = ps.size();
      while (i > 0) { // group maximal non-shared runs
        if (ps[i - 1].first == ps[i - 1].second) { out.push_back(ps[i - 1].first); i--; continue; }
        std::vector<E> ga, gb;
        while (i > 0 && ps[i - 1].first != ps[i - 1].second) { ga.push_back(ps[i - 1].first); gb.push_back(ps[i - 1].second); i--; }
        out.push_back(ite(c, concatN(ga), concatN(gb)));
      }
      return concatN(out);
    }
  }
  E k[3] = {c, a, b};
  return intern(O_ITE, a.w, k, 3);
}

static E mkBitwise(Op op, E a, E b) {
  // distribute over concatenations when it removes work
  bool ca = isOp(a, O_CONCAT), cb = isOp(b, O_CONCAT);
  if (ca || cb) {
    std::vector<unsigned> cuts;
    auto addCuts = [&](E e) { std::vector<E> s; segs(e, s); unsigned pos = 0; for (int i = (int)s.size() - 1; i >= 0; i--) { pos += s[i].w; cuts.push_back(pos); } };
    addCuts(a); addCuts(b);
    // constant masks: split at run boundaries of all-zero / all-one so that segments vanish
    bool hasConstSeg = a.k() || b.k();
    if (ca) for (unsigned i = 0; i < a.n->nk; i++) hasConstSeg |= a.n->kids[i].k();
    if (cb) for (unsigned i = 0; i < b.n->nk; i++) hasConstSeg |= b.n->kids[i].k();
    if (hasConstSeg || (ca && cb)) {
      std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
      std::vector<E> lo; unsigned pos = 0;
      for (auto q : cuts) { lo.push_back(mk(op, extract(a, pos, q - pos), extract(b, pos, q - pos))); pos = q; }
      std::reverse(lo.begin(), lo.end());
      return concatN(lo);
    }
  }
  return {};
}
static void xorLeaves(E e, std::vector<E> &out, int depth) {
  if (depth && isOp(e, O_XOR)) { xorLeaves(e.n->kids[0], out, depth - 1); xorLeaves(e.n->kids[1], out, depth - 1); }
  else out.push_back(e);
}
static E rawXor(E a, E b) { if (less(b, a)) std::swap(a, b); E k[2] = {a, b}; return intern(O_XOR, a.w, k, 2); }

void urange(E a, uint64_t &lo, uint64_t &hi) {
  uint64_t m = mask64(a.w);
  if (a.k()) { if (a.w <= 64) { lo = hi = a.u64(); return; } }
  lo = 0; hi = m;
  if (a.w > 64 || !a.n) return;
  const Node *n = a.n;
  switch (n->op) {
  case O_CONCAT: {
    uint64_t l = 0, h = 0;
    for (unsigned i = 0; i < n->nk; i++) { uint64_t x, y; urange(n->kids[i], x, y); l = (l << n->kids[i].w) | x; h = (h << n->kids[i].w) | y; }
    lo = l; hi = h; return;
  }
  case O_ADD: {
    uint64_t a0, a1, b0, b1; urange(n->kids[0], a0, a1); urange(n->kids[1], b0, b1);
    unsigned __int128 L = (unsigned __int128)a0 + b0, H = (unsigned __int128)a1 + b1;
    if (H <= m) { lo = L; hi = H; }
    else if (L > m) { lo = (uint64_t)L & m; hi = (uint64_t)H & m; }
    return;
  }
  case O_EXTRACT: {
    uint64_t a0, a1; if (n->kids[0].w > 64) return;
    urange(n->kids[0], a0, a1); a0 >>= n->aux; a1 >>= n->aux;
    if (a1 <= m) { lo = a0; hi = a1; }
    return;
  }
  case O_MUL: {
    uint64_t a0, a1, b0, b1; urange(n->kids[0], a0, a1); urange(n->kids[1], b0, b1);
    if ((unsigned __int128)a1 * b1 <= m) { lo = a0 * b0; hi = a1 * b1; }
    return;
  }
  case O_ITE: {
    uint64_t a0, a1, b0, b1; urange(n->kids[1], a0, a1); urange(n->kids[2], b0, b1);
    lo = std::min(a0, b0); hi = std::max(a1, b1); return;
  }
  case O_AND: { uint64_t a0, a1, b0, b1; urange(n->kids[0], a0, a1); urange(n->kids[1], b0, b1); hi = std::min(a1, b1); return; }
  case O_UREM: if (n->kids[1].k() && !n->kids[1].isZero()) hi = n->kids[1].u64() - 1; return;
  case O_UDIV: if (n->kids[1].k() && !n->kids[1].isZero()) { uint64_t a0, a1; urange(n->kids[0], a0, a1); lo = a0 / n->kids[1].u64(); hi = a1 / n->kids[1].u64(); } return;
  case O_READ: {
    Table *t = X.tables[n->aux]; uint64_t l = ~0ull, h = 0;
    if (t->el.size() > 300) return;
    for (auto &e : t->el) { if (!e.k()) return; l = std::min(l, e.c); h = std::max(h, e.c); }
    lo = l; hi = h; return;
  }
  default: return;
  }
}

E mk(Op op, E a, E b) {
  unsigned w = a.w;
  bool cmp = op >= O_EQ && op <= O_SLE;
  if (!a.n && !b.n) { // fast folding
    uint64_t x = a.c, y = b.c, m = mask64(w);
    switch (op) {
    case O_ADD: return C(w, x + y);
    case O_SUB: return C(w, x - y);
    case O_MUL: return C(w, x * y);
    case O_AND: return C(w, x & y);
    case O_OR: return C(w, x | y);
    case O_XOR: return C(w, x ^ y);
    case O_EQ: return B(x == y);
    case O_ULT: return B(x < y);
    case O_ULE: return B(x <= y);
    case O_SHL: return C(w, y >= w ? 0 : x << y);
    case O_LSHR: return C(w, y >= w ? 0 : x >> y);
    case O_SLT: case O_SLE: {
      int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
      return B(op == O_SLT ? sx < sy : sx <= sy);
    }
    default: break;
    }
    (void)m;
  }
  E k[2] = {a, b};
  if (allK(k, 2)) return foldE(op, cmp ? 1 : w, 0, k, 2);
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
  if (comm) { if (a.k() || (!b.k() && less(b, a))) std::swap(a, b); }
  k[0] = a; k[1] = b;
  // ITE with constant arms against a constant
  if (op != O_READ) {
    auto iteK = [](E e) { return isOp(e, O_ITE) && e.n->kids[1].k() && e.n->kids[2].k(); };
    if (iteK(a) && b.k()) return ite(a.n->kids[0], mk(op, a.n->kids[1], b), mk(op, a.n->kids[2], b));
    if (iteK(b) && a.k()) return ite(b.n->kids[0], mk(op, a, b.n->kids[1]), mk(op, a, b.n->kids[2]));
    // nested ITE chain whose leaves are constants, compared with a constant
    if (cmp && b.k() && isOp(a, O_ITE) && (a.n->kids[1].k() || a.n->kids[2].k()))
      return ite(a.n->kids[0], mk(op, a.n->kids[1], b), mk(op, a.n->kids[2], b));
    if (cmp && a.k() && isOp(b, O_ITE) && (b.n->kids[1].k() || b.n->kids[2].k()))
      return ite(b.n->kids[0], mk(op, a, b.n->kids[1]), mk(op, a, b.n->kids[2]));
  }
  switch (op) {
  case O_ADD:
    if (w == 1) return bxor(a, b);
    if (b.isZero()) return a;
    if (b.k() && isOp(a, O_ADD) && a.n->kids[1].k()) return add(a.n->kids[0], add(a.n->kids[1], b));
    if (isOp(a, O_ADD) && a.n->kids[1].k()) return add(add(a.n->kids[0], b), a.n->kids[1]);
    if (isOp(b, O_ADD) && b.n->kids[1].k()) return add(add(a, b.n->kids[0]), b.n->kids[1]);
    if (isOp(a, O_SUB) && a.n->kids[1] == b) return a.n->kids[0];
    if (isOp(b, O_SUB) && b.n->kids[1] == a) return b.n->kids[0];
    // disjoint concat pieces: (x:000) + (000:k)
    if (b.k() && isOp(a, O_CONCAT) && a.n->kids[a.n->nk - 1].isZero()) {
      unsigned zw = a.n->kids[a.n->nk - 1].w;
      if (b.ap().getActiveBits() <= zw) return concat(extract(a, zw, w - zw), extract(b, 0, zw));
    }
    break;
  case O_SUB:
    if (w == 1) return bxor(a, b);
    if (b.isZero()) return a;
    if (a == b) return C(APInt(w, 0));
    if (b.k()) return add(a, C(-b.ap()));
    if (isOp(a, O_ADD)) { if (a.n->kids[0] == b) return a.n->kids[1]; if (a.n->kids[1] == b) return a.n->kids[0]; }
    if (isOp(b, O_ADD)) { if (b.n->kids[0] == a) return sub(C(APInt(w, 0)), b.n->kids[1]); if (b.n->kids[1] == a) return sub(C(APInt(w, 0)), b.n->kids[0]); }
    if (isOp(a, O_ADD) && a.n->kids[1].k()) return add(sub(a.n->kids[0], b), a.n->kids[1]);
    if (isOp(b, O_ADD) && b.n->kids[1].k()) return add(sub(a, b.n->kids[0]), C(-b.n->kids[1].ap()));
    if (isOp(b, O_SUB) && b.n->kids[0] == a) return b.n->kids[1];
    break;
  case O_MUL:
    if (w == 1) return band(a, b);
    if (b.isZero()) return b;
    if (b.k() && b.ap().isOne()) return a;
    if (b.k() && b.ap().isPowerOf2()) return mk(O_SHL, a, C(w, b.ap().logBase2()));
    for (int i = 0; i < 2; i++) { // trailing zeroes of a factor are trailing zeroes of the product
      E x = i ? b : a, y = i ? a : b;
      if (!isOp(x, O_CONCAT)) continue;
      E l = x.n->kids[x.n->nk - 1];
      if (l.k() && l.isZero()) { unsigned z = l.w; return concat(mk(O_MUL, extract(x, z, w - z), extract(y, 0, w - z)), l); }
    }
    break;
  case O_UDIV:
    if (b.k() && b.ap().isOne()) return a;
    if (b.k() && b.ap().isPowerOf2()) return mk(O_LSHR, a, C(w, b.ap().logBase2()));
    if (w <= 64 && b.k() && !b.isZero()) {
      uint64_t lo, hi; urange(a, lo, hi);
      if (hi < b.c) return C(w, 0);
      if (isOp(a, O_UDIV) && a.n->kids[1].k() && !a.n->kids[1].isZero()) {
        unsigned __int128 p = (unsigned __int128)a.n->kids[1].c * b.c;
        return p > mask64(w) ? C(w, 0) : mk(O_UDIV, a.n->kids[0], C(w, (uint64_t)p));
      }
    }
    break;
  case O_UREM:
    if (b.k() && b.ap().isOne()) return C(APInt(w, 0));
    if (b.k() && b.ap().isPowerOf2()) { unsigned l = b.ap().logBase2(); return zext(extract(a, 0, l), w); }
    if (w <= 64 && b.k() && !b.isZero()) { uint64_t lo, hi; urange(a, lo, hi); if (hi < b.c) return a; }
    break;
  case O_SDIV: case O_SREM:
    if (b.k() && b.ap().isOne()) return op == O_SDIV ? a : C(APInt(w, 0));
    if (w <= 64 && b.k() && !b.isZero() && !b.ap().isNegative()) { // neither is negative
      uint64_t lo, hi; urange(a, lo, hi);
      if (hi < 1ull << (w - 1)) return mk(op == O_SDIV ? O_UDIV : O_UREM, a, b);
    }
    break;
  case O_AND: {
    if (b.isZero()) return b;
    if (b.isOnes() || a == b) return a;
    if (X.realFp && w > 1) for (int i = 0; i < 2; i++) { E m = i ? b : a, v = i ? a : b; if (isOp(m, O_SEXT) && m.n->kids[0].w == 1) return ite(m.n->kids[0], v, C(APInt(w, 0))); }
    E x;
    if ((isNot(a, x) && x == b) || (isNot(b, x) && x == a)) return C(APInt(w, 0));
    if (b.k()) {
      APInt m = b.ap();
      // split the mask into runs when it has few of them
      unsigned runs = 0; { APInt t = m ^ m.lshr(1); runs = t.popcount(); }
      if (runs <= 6) {
        std::vector<E> out; unsigned pos = w;
        while (pos > 0) {
          bool bit = m[pos - 1]; unsigned q = pos;
          while (q > 0 && m[q - 1] == bit) q--;
          out.push_back(bit ? extract(a, q, pos - q) : C(APInt(pos - q, 0)));
          pos = q;
        }
        return concatN(out);
      }
    }
    if (w == 1 && isOp(a, O_AND) && (a.n->kids[0] == b || a.n->kids[1] == b)) return a;
    if (w == 1 && isOp(b, O_AND) && (b.n->kids[0] == a || b.n->kids[1] == a)) return b;
    E r = mkBitwise(op, a, b); if (r.w) return r;
    break;
  }
  case O_OR: {
    if (b.isZero() || a == b) return a;
    if (b.isOnes()) return b;
    if (X.realFp && w > 1 && isOp(a, O_ITE) && isOp(b, O_ITE)) {
      auto part = [](E e, E &c, E &v) { c = e.n->kids[0]; if (e.n->kids[2].isZero()) { v = e.n->kids[1]; return true; } if (e.n->kids[1].isZero()) { v = e.n->kids[2]; c = bnot(c); return true; } return false; };
      E c1, v1, c2, v2;
      if (part(a, c1, v1) && part(b, c2, v2) && c1 == bnot(c2)) return ite(c1, v1, v2);
    }
    E x;
    if ((isNot(a, x) && x == b) || (isNot(b, x) && x == a)) return C(APInt::getAllOnes(w));
    if (b.k() && w > 1) {
      APInt m = b.ap(); APInt t = m ^ m.lshr(1);
      if (t.popcount() <= 6) {
        std::vector<E> out; unsigned pos = w;
        while (pos > 0) {
          bool bit = m[pos - 1]; unsigned q = pos;
          while (q > 0 && m[q - 1] == bit) q--;
          out.push_back(bit ? C(APInt::getAllOnes(pos - q)) : extract(a, q, pos - q));
          pos = q;
        }
        return concatN(out);
      }
    }
    E r = mkBitwise(op, a, b); if (r.w) return r;
    break;
  }
  case O_XOR: {
    if (b.isZero()) return a;
    if (b.isOnes() && w > 1 && isOp(a, O_SEXT) && a.n->kids[0].w == 1) return sext(bnot(a.n->kids[0]), w);
    if (a == b) return C(APInt(w, 0));
    E r = mkBitwise(op, a, b); if (r.w) return r;
    if (w == 1 && b.isOnes()) {
      // negated comparisons
      if (isOp(a, O_ULT)) return mk(O_ULE, a.n->kids[1], a.n->kids[0]);
      if (isOp(a, O_ULE)) return mk(O_ULT, a.n->kids[1], a.n->kids[0]);
      if (isOp(a, O_SLT)) return mk(O_SLE, a.n->kids[1], a.n->kids[0]);
      if (isOp(a, O_SLE)) return mk(O_SLT, a.n->kids[1], a.n->kids[0]);
    }
    std::vector<E> lv; xorLeaves(a, lv, 96); xorLeaves(b, lv, 96);
    if (lv.size() == 2) return rawXor(a, b);
    APInt kc(w, 0); std::vector<E> rest;
    std::sort(lv.begin(), lv.end(), less);
    for (size_t i = 0; i < lv.size();) {
      if (lv[i].k()) { kc ^= lv[i].ap(); i++; continue; }
      if (i + 1 < lv.size() && lv[i] == lv[i + 1]) { i += 2; continue; }
      rest.push_back(lv[i++]);
    }
    if (rest.empty()) return C(kc);
    E acc = rest[0];
    for (size_t i = 1; i < rest.size(); i++) { E kk[2] = {acc, rest[i]}; acc = intern(O_XOR, w, kk, 2); }
    if (!kc.isZero()) { E kk[2] = {acc, C(kc)}; acc = intern(O_XOR, w, kk, 2); }
    return acc;
  }
  case O_SHL:
    if (b.k()) {
      if (b.ap().uge(w)) return C(APInt(w, 0));
      unsigned s = b.u64();
      if (!s) return a;
      return concat(extract(a, 0, w - s), C(APInt(s, 0)));
    }
    if (a.isZero()) return a;
    break;
  case O_LSHR:
    if (b.k()) {
      if (b.ap().uge(w)) return C(APInt(w, 0));
      unsigned s = b.u64();
      if (!s) return a;
      return zext(extract(a, s, w - s), w);
    }
    if (a.isZero()) return a;
    break;
  case O_ASHR:
    if (b.k()) {
      unsigned s = b.ap().uge(w) ? w - 1 : b.u64();
      if (!s) return a;
      return sext(extract(a, s, w - s), w);
    }
    if (a.isZero()) return a;
    break;
  case O_EQ: {
    if (a == b) return B(true);
    if (w == 1) { if (b.isOnes()) return a; if (b.isZero()) return bnot(a); return bnot(bxor(a, b)); }
    if (b.k()) {
      if (isOp(a, O_ADD) && a.n->kids[1].k()) return eq(a.n->kids[0], sub(b, a.n->kids[1]));
      if (isOp(a, O_XOR) && a.n->kids[1].k()) return eq(a.n->kids[0], bxor(b, a.n->kids[1]));
      if (isOp(a, O_XOR) && b.isZero()) return eq(a.n->kids[0], a.n->kids[1]);
      if (isOp(a, O_SUB) && b.isZero()) return eq(a.n->kids[0], a.n->kids[1]);
      if (isOp(a, O_SEXT)) {
        E s = a.n->kids[0]; APInt kb = b.ap();
        if (kb.trunc(s.w).sext(w) != kb) return B(false);
        return eq(s, C(kb.trunc(s.w)));
      }
      uint64_t lo, hi; urange(a, lo, hi);
      if (w <= 64 && (b.c < lo || b.c > hi)) return B(false);
      if (w <= 64 && isOp(a, O_UDIV) && a.n->kids[1].k() && !a.n->kids[1].isZero()) { // a range of the dividend
        unsigned __int128 c = a.n->kids[1].c, l = c * b.c, h = l + c - 1, m = mask64(w); E x = a.n->kids[0];
        if (l > m) return B(false);
        E r = h >= m ? B(true) : mk(O_ULE, x, C(w, (uint64_t)h));
        return b.c ? band(mk(O_ULE, C(w, (uint64_t)l), x), r) : r;
      }
    }
    if (isOp(a, O_XOR) && isOp(b, O_XOR)) { // common terms cancel
      std::vector<E> la, lb, ra, rb; xorLeaves(a, la, 96); xorLeaves(b, lb, 96);
      std::sort(la.begin(), la.end(), less); std::sort(lb.begin(), lb.end(), less);
      size_t i = 0, j = 0; bool hit = false;
      while (i < la.size() || j < lb.size()) {
        if (i < la.size() && j < lb.size() && la[i] == lb[j]) { hit = true; i++; j++; }
        else if (j >= lb.size() || (i < la.size() && less(la[i], lb[j]))) ra.push_back(la[i++]);
        else rb.push_back(lb[j++]);
      }
      if (hit) {
        E x = C(APInt(w, 0)), y = C(APInt(w, 0));
        for (auto &e : ra) x = bxor(x, e); for (auto &e : rb) y = bxor(y, e);
        return eq(x, y);
      }
    }
    if (isOp(a, O_SEXT) && isOp(b, O_SEXT) && a.n->kids[0].w == b.n->kids[0].w) return eq(a.n->kids[0], b.n->kids[0]);
    if (isOp(a, O_CONCAT) || isOp(b, O_CONCAT)) {
      std::vector<unsigned> cuts; unsigned pos;
      auto addCuts = [&](E e) { std::vector<E> s; segs(e, s); unsigned p = 0; for (int i = (int)s.size() - 1; i >= 0; i--) { p += s[i].w; cuts.push_back(p); } };
      bool split = b.k() || (isOp(a, O_CONCAT) && isOp(b, O_CONCAT));
      if (split) {
        addCuts(a); addCuts(b);
        std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
        E r = B(true); pos = 0;
        std::vector<E> parts;
        for (auto q : cuts) { E p = eq(extract(a, pos, q - pos), extract(b, pos, q - pos)); if (p.isZero()) return B(false); parts.push_back(p); pos = q; }
        for (auto &p : parts) r = band(r, p);
        return r;
      }
    }
    break;
  }
  case O_ULT: case O_ULE: {
    if (a == b) return B(op == O_ULE);
    if (w <= 64) {
      uint64_t al, ah, bl, bh; urange(a, al, ah); urange(b, bl, bh);
      if (op == O_ULT) { if (ah < bl) return B(true); if (al >= bh) return B(false); }
      else { if (ah <= bl) return B(true); if (al > bh) return B(false); }
    }
    if (w == 1) { return op == O_ULT ? band(bnot(a), b) : bor(bnot(a), b); }
    // strip common zero high part
    auto hz = [](E e) -> unsigned { if (e.k()) return e.ap().countl_zero(); if (isOp(e, O_CONCAT) && e.n->kids[0].isZero()) return e.n->kids[0].w; return 0; };
    unsigned z = std::min(hz(a), hz(b));
    if (z && z < w) return mk(op, extract(a, 0, w - z), extract(b, 0, w - z));
    if (w <= 64) for (int i = 0; i < 2; i++) { // a quotient against a constant is the dividend against a multiple
      E q = i ? b : a, kk = i ? a : b;
      if (!kk.k() || !isOp(q, O_UDIV) || !q.n->kids[1].k() || q.n->kids[1].isZero()) continue;
      unsigned __int128 c = q.n->kids[1].c, m = mask64(w), n = (unsigned __int128)kk.c; E x = q.n->kids[0];
      if (!i) { // x / c < n: x < n c;  x / c <= n: x < (n + 1) c
        unsigned __int128 l = (op == O_ULT ? n : n + 1) * c;
        return l > m ? B(true) : mk(O_ULT, x, C(w, (uint64_t)l));
      }
      unsigned __int128 l = (op == O_ULT ? n + 1 : n) * c; // n < x / c: x >= (n + 1) c
      return l > m ? B(false) : mk(O_ULE, C(w, (uint64_t)l), x);
    }
    if (op == O_ULT && b.k() && b.ap().isOne()) return eq(a, C(w, 0));
    if (op == O_ULE && b.isZero()) return eq(a, b);
    if (op == O_ULT && a.isZero()) return bnot(eq(b, a));
    if (op == O_ULE && b.k() && !b.isOnes()) return mk(O_ULT, a, C(b.ap() + 1));
    if (op == O_ULE && a.k() && !a.isZero()) return mk(O_ULT, C(a.ap() - 1), b);
    k[0] = a; k[1] = b;
    break;
  }
  case O_SLT: case O_SLE: {
    if (a == b) return B(op == O_SLE);
    auto nonneg = [](E e) { if (e.k()) return !e.ap().isNegative(); if (isOp(e, O_CONCAT) && e.n->kids[0].k()) return !e.n->kids[0].ap().isNegative(); return false; };
    if (nonneg(a) && nonneg(b)) return mk(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (b.isZero() && op == O_SLT) return extract(a, w - 1, 1);
    if (a.isZero() && op == O_SLE) return bnot(extract(b, w - 1, 1));
    if (b.isOnes() && op == O_SLE) return extract(a, w - 1, 1);
    if (a.isOnes() && op == O_SLT) return bnot(extract(b, w - 1, 1));
    if (isOp(a, O_SEXT) && isOp(b, O_SEXT)) { unsigned m = std::max(a.n->kids[0].w, b.n->kids[0].w); if (m < w) return mk(op, sext(a.n->kids[0], m), sext(b.n->kids[0], m)); }
    if (isOp(a, O_SEXT) && b.k()) { unsigned m = a.n->kids[0].w; if (b.ap().isSignedIntN(m)) return mk(op, a.n->kids[0], C(b.ap().trunc(m))); return B(!b.ap().isNegative()); }
    if (isOp(b, O_SEXT) && a.k()) { unsigned m = b.n->kids[0].w; if (a.ap().isSignedIntN(m)) return mk(op, C(a.ap().trunc(m)), b.n->kids[0]); return B(a.ap().isNegative()); }
    break;
  }
  default: break;
  }
  k[0] = a; k[1] = b;
  return intern(op, cmp ? 1 : w, k, 2);
}

static std::unordered_map<size_t, std::vector<uint32_t>> tableIdx;
E tableRead(const std::vector<E> &el, E idx) {
  if (idx.k()) return el[idx.u64()];
  if (isOp(idx, O_ITE) && idx.n->kids[1].k() && idx.n->kids[2].k())
    return ite(idx.n->kids[0], el[idx.n->kids[1].u64() % el.size()], el[idx.n->kids[2].u64() % el.size()]);
  bool same = true;
  for (auto &e : el) if (e != el[0]) { same = false; break; }
  if (same) return el[0];
  size_t h = 1469598103934665603ull;
  for (auto &e : el) h = (h ^ hashE(e)) * 0x100000001B3ull;
  auto &bucket = tableIdx[h];
  uint32_t id = ~0u;
  for (auto t : bucket) if (X.tables[t]->el == el) { id = t; break; }
  if (id == ~0u) {
    Table *t = new Table; t->el = el; t->ew = el[0].w;
    const SymSet *ss = emptySyms(); t->hasFP = false;
    for (auto &e : el) if (e.n) { ss = unionSyms(ss, e.n->syms); t->hasFP |= e.n->hasFP; }
    t->syms = ss;
    id = X.tables.size(); X.tables.push_back(t); bucket.push_back(id);
  }
  return intern(O_READ, el[0].w, &idx, 1, id);
}

E fop(Op op, unsigned w, std::vector<E> k, uint64_t aux) {
  if (allK(k.data(), k.size())) return foldE(op, w, aux, k.data(), k.size());
  if (op == O_FADD || op == O_FMUL) {
    // commutative (NaN payload aside): canonical order
    if (k[0].k() || (!k[1].k() && less(k[1], k[0]))) std::swap(k[0], k[1]);
    if (X.realFp && k[1].k() && APFloat(fsem(w), k[1].ap()).isZero()) return op == O_FADD ? k[0] : C(APInt(w, 0));
    if (op == O_FMUL && k[1].k()) { // x*1.0 = x (payload aside)
      APFloat one(fsem(w), k[1].ap());
      if (one.isExactlyValue(1.0)) return k[0];
    }
  }
  if (op == O_FSUB && k[1].isZero()) return k[0]; // x - (+0) = x
  if (op == O_FDIV && k[1].k() && APFloat(fsem(w), k[1].ap()).isExactlyValue(1.0)) return k[0];
  if (op == O_FEQ && less(k[1], k[0])) std::swap(k[0], k[1]);
  if (op == O_FPTRUNC && isOp(k[0], O_FPEXT) && k[0].n->kids[0].w == w) return k[0].n->kids[0];
  // exactly representable integers survive widening conversions
  if ((op == O_SITOFP || op == O_UITOFP)) {
    unsigned mant = w == 32 ? 24 : w == 64 ? 53 : 11;
    if (op == O_UITOFP && isOp(k[0], O_CONCAT) && k[0].n->kids[0].isZero()) {
      // canonical: convert from the narrow value (value preserved)
      E nr = extract(k[0], 0, k[0].w - k[0].n->kids[0].w);
      E kk[1] = {nr}; (void)mant;
      return intern(O_UITOFP, w, kk, 1, 0);
    }
    if (op == O_SITOFP && isOp(k[0], O_CONCAT) && k[0].n->kids[0].isZero()) return fop(O_UITOFP, w, {k[0]});
    if (op == O_SITOFP && isOp(k[0], O_SEXT)) { E kk[1] = {k[0].n->kids[0]}; return intern(O_SITOFP, w, kk, 1, 0); }
  }
  if ((op == O_FPTOSI || op == O_FPTOUI) && k[0].n && (k[0].n->op == O_UITOFP || k[0].n->op == O_SITOFP)) {
    E s = k[0].n->kids[0]; unsigned mant = k[0].w == 32 ? 24 : k[0].w == 64 ? 53 : 11;
    if (k[0].n->op == O_UITOFP && s.w <= mant && s.w < w) return zext(s, w);
    if (k[0].n->op == O_SITOFP && op == O_FPTOSI && s.w <= mant && s.w <= w) return sext(s, w);
  }
  return intern(op, w, k.data(), k.size(), aux);
}
static std::unordered_map<std::string, E> ufMemo;
E uf(const std::string &name, unsigned w, std::vector<E> k) {
  std::string key = name;
  for (auto &e : k) { key += ':'; key += e.n ? "n" + std::to_string(e.n->id) : "c" + std::to_string(e.c) + "/" + std::to_string(e.w); }
  auto it = ufMemo.find(key);
  if (it != ufMemo.end()) return it->second;
  E r = mkSym("uf:" + name, w);
  ufMemo[key] = r;
  return r;
}

std::string show(E e, int d) {
  if (!e.n) return std::to_string(e.c) + "/" + std::to_string(e.w);
  if (e.n->op == O_CONST) { llvm::SmallString<64> s; e.n->cv->toStringUnsigned(s, 16); return "0x" + std::string(s.str()) + "/" + std::to_string(e.w); }
  if (e.n->op == O_SYM) return X.syms[e.n->aux].name;
  if (d <= 0) return "#" + std::to_string(e.n->id);
  std::string r = "(" + std::string(opName(e.n->op));
  if (e.n->op == O_EXTRACT || e.n->op == O_READ) r += "@" + std::to_string(e.n->aux);
  r += "/" + std::to_string(e.w);
  for (unsigned i = 0; i < e.n->nk; i++) r += " " + show(e.n->kids[i], d - 1);
  return r + ")";
}

// ---------------------------------------------------------------- evaluation
static uint64_t g_epoch = 0;
Evaluator::Evaluator(const Model &mm) : m(mm), epoch(++g_epoch) {}
APInt Evaluator::eval(E root) {
  if (root.k()) return root.ap();
  auto get = [&](const E &e, APInt &out) -> bool {
    if (e.k()) { out = e.ap(); return true; }
    if (e.n->evEpoch != epoch) return false;
    out = e.w <= 64 ? APInt(e.w, e.n->evVal) : *e.n->evWide;
    return true;
  };
  auto set = [&](const Node *n, const APInt &v) {
    n->evEpoch = epoch;
    if (n->w <= 64) n->evVal = v.getZExtValue();
    else { if (!n->evWide) n->evWide = new APInt(v); else *n->evWide = v; }
  };
  std::vector<const Node *> st{root.n};
  std::vector<APInt> args; APInt t(1, 0);
  while (!st.empty()) {
    const Node *n = st.back();
    if (n->evEpoch == epoch) { st.pop_back(); continue; }
    if (n->op == O_SYM) {
      auto it = m.v.find(n->aux);
      set(n, it == m.v.end() ? APInt(n->w, 0) : it->second);
      st.pop_back(); continue;
    }
    if (n->op == O_ITE) {
      if (!get(n->kids[0], t)) { st.push_back(n->kids[0].n); continue; }
      const E &arm = t.isZero() ? n->kids[2] : n->kids[1];
      if (!get(arm, t)) { st.push_back(arm.n); continue; }
      set(n, t); st.pop_back(); continue;
    }
    if (n->op == O_READ) {
      if (!get(n->kids[0], t)) { st.push_back(n->kids[0].n); continue; }
      Table *tb = X.tables[n->aux];
      uint64_t i = t.getZExtValue();
      const E &el = tb->el[i < tb->el.size() ? i : 0];
      if (!get(el, t)) { st.push_back(el.n); continue; }
      set(n, t); st.pop_back(); continue;
    }
    args.clear(); bool ready = true;
    for (unsigned i = 0; i < n->nk; i++) {
      if (get(n->kids[i], t)) args.push_back(t);
      else { st.push_back(n->kids[i].n); ready = false; }
    }
    if (!ready) continue;
    bool ok; APInt r = foldOp(n->op, n->w, n->aux, args, ok);
    set(n, r); st.pop_back();
  }
  get(root, t);
  return t;
}
