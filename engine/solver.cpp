#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <cmath>
#include <cstring>
#include <unordered_set>
using llvm::APInt;
SolverStats SS;
SolverOpts SO;

static Z3_context z;
static Z3_ast zTrue, zFalse;
static Z3_sort sort32, sort64, sort16;
static Z3_ast RNE, RTZ, RTN, RTP, RNA;
static Z3_solver inc; static unsigned incAsserted = 0;
static std::unordered_map<uint32_t, Z3_ast> incLit; // node id -> literal

static void err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
static void newInc() {
  if (inc) Z3_solver_dec_ref(z, inc);
  inc = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
  Z3_solver_inc_ref(z, inc); incLit.clear(); incAsserted = 0;
}
static void init() {
  if (z) return;
  Z3_config c = Z3_mk_config();
  z = Z3_mk_context(c);
  Z3_set_error_handler(z, err);
  zTrue = keep(Z3_mk_true(z)); zFalse = keep(Z3_mk_false(z));
  auto ks = [](Z3_sort s) { Z3_inc_ref(z, Z3_sort_to_ast(z, s)); return s; };
  sort32 = ks(Z3_mk_fpa_sort_32(z)); sort64 = ks(Z3_mk_fpa_sort_64(z)); sort16 = ks(Z3_mk_fpa_sort_16(z));
  RNE = keep(Z3_mk_fpa_rne(z)); RTZ = keep(Z3_mk_fpa_rtz(z)); RTN = keep(Z3_mk_fpa_rtn(z)); RTP = keep(Z3_mk_fpa_rtp(z)); RNA = keep(Z3_mk_fpa_rna(z));
  newInc();
}
static Z3_sort fs(unsigned w) { return w == 16 ? sort16 : w == 32 ? sort32 : sort64; }
static Z3_ast zconst(const APInt &a) {
  Z3_sort s = Z3_mk_bv_sort(z, a.getBitWidth());
  if (a.getBitWidth() <= 64) return Z3_mk_unsigned_int64(z, a.getZExtValue(), s);
  llvm::SmallString<64> str; a.toStringUnsigned(str, 10);
  return Z3_mk_numeral(z, str.c_str(), s);
}
static Z3_ast toFp(Z3_ast bv, unsigned w) { return Z3_mk_fpa_to_fp_bv(z, bv, fs(w)); }
static Z3_ast bvGet(E e);
static Z3_ast boolGet(E e);
static Z3_ast fromBool(Z3_ast b) { return Z3_mk_ite(z, b, zconst(APInt(1, 1)), zconst(APInt(1, 0))); }
static Z3_ast fpToBv(Z3_ast f, unsigned w) {
  // the default NaN of x86 stands for every NaN result
  unsigned m = w == 32 ? 23 : w == 64 ? 52 : 10;
  APInt nan(w, 0); for (unsigned i = m - 1; i < w; i++) nan.setBit(i);
  return Z3_mk_ite(z, Z3_mk_fpa_is_nan(z, f), zconst(nan), Z3_mk_fpa_to_ieee_bv(z, f));
}
static Z3_ast mux(const std::vector<Z3_ast> &el, Z3_ast idx, unsigned iw, unsigned bit, size_t base) {
  // el[base .. base + 2^(bit))
  if (bit == 0) return el[std::min(base, el.size() - 1)];
  size_t half = (size_t)1 << (bit - 1);
  if (base + half >= el.size()) return mux(el, idx, iw, bit - 1, base);
  Z3_ast lo = mux(el, idx, iw, bit - 1, base), hi = mux(el, idx, iw, bit - 1, base + half);
  if (lo == hi) return lo;
  Z3_ast b = Z3_mk_eq(z, Z3_mk_extract(z, bit - 1, bit - 1, idx), zconst(APInt(1, 1)));
  return Z3_mk_ite(z, b, hi, lo);
}
// ---- exact arithmetic: floating point terms as reals
static std::unordered_map<uint32_t, Z3_ast> realOf;               // by node id
static std::unordered_map<uint32_t, std::vector<Z3_ast>> realSide; // definitions of roots and quotients
static std::vector<std::pair<E, Z3_ast>> realLeaf;
static std::vector<Z3_ast> realDefs;
static Z3_ast realGet(E e);
static Z3_ast realConst(const APInt &a) {
  llvm::APFloat f(fsem(a.getBitWidth()), a);
  if (!f.isFinite()) { static unsigned k = 0; return keep(Z3_mk_const(z, Z3_mk_string_symbol(z, ("inf" + std::to_string(k++)).c_str()), Z3_mk_real_sort(z))); }
  bool li; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
  double d = f.convertToDouble(); int ex; double m = std::frexp(d, &ex); // d = m * 2^ex, m has 53 bits
  long long mi = (long long)std::ldexp(m, 53); ex -= 53;
  APInt num(2200, std::llabs(mi)), den(2200, 1);
  if (ex > 0) num = num.shl(ex); else den = den.shl(-ex);
  llvm::SmallString<64> sn, sd; num.toStringUnsigned(sn, 10); den.toStringUnsigned(sd, 10);
  std::string t = std::string(mi < 0 ? "-" : "") + sn.c_str() + "/" + sd.c_str();
  return keep(Z3_mk_numeral(z, t.c_str(), Z3_mk_real_sort(z)));
}
static Z3_ast realVar(const std::string &n) { return keep(Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), Z3_mk_real_sort(z))); }
static Z3_ast real2(Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[]), Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return keep(f(z, 2, t)); }
static Z3_ast realGet(E e) {
  if (e.k()) return realConst(e.ap());
  const Node *n = e.n;
  auto it = realOf.find(n->id);
  if (it != realOf.end()) return it->second;
  Z3_ast r, zero = keep(Z3_mk_numeral(z, "0", Z3_mk_real_sort(z)));
  switch (n->op) {
  case O_FADD: r = real2(Z3_mk_add, realGet(n->kids[0]), realGet(n->kids[1])); break;
  case O_FSUB: r = real2(Z3_mk_sub, realGet(n->kids[0]), realGet(n->kids[1])); break;
  case O_FMUL: r = real2(Z3_mk_mul, realGet(n->kids[0]), realGet(n->kids[1])); break;
  case O_FMA: r = real2(Z3_mk_add, real2(Z3_mk_mul, realGet(n->kids[0]), realGet(n->kids[1])), realGet(n->kids[2])); break;
  case O_FPEXT: case O_FPTRUNC: r = realGet(n->kids[0]); break;
  case O_ITE: r = keep(Z3_mk_ite(z, boolGet(n->kids[0]), realGet(n->kids[1]), realGet(n->kids[2]))); break;
  case O_FDIV: { // q * y = x unless y = 0
    Z3_ast x = realGet(n->kids[0]), y = realGet(n->kids[1]); r = realVar("q" + std::to_string(n->id));
    Z3_ast o[2] = {Z3_mk_eq(z, y, zero), Z3_mk_eq(z, real2(Z3_mk_mul, r, y), x)};
    realDefs.push_back(keep(Z3_mk_or(z, 2, o))); break; }
  case O_FSQRT: { // s >= 0 and s * s = x unless x < 0
    Z3_ast x = realGet(n->kids[0]); r = realVar("r" + std::to_string(n->id));
    Z3_ast a[2] = {Z3_mk_ge(z, r, zero), Z3_mk_eq(z, real2(Z3_mk_mul, r, r), x)};
    Z3_ast o[2] = {Z3_mk_lt(z, x, zero), Z3_mk_and(z, 2, a)};
    realDefs.push_back(keep(Z3_mk_or(z, 2, o))); break; }
  default: r = realVar("v" + std::to_string(n->id)); realLeaf.push_back({e, r}); break;
  }
  realOf[n->id] = r;
  return r;
}
// A small number over a constant, by a multiplication the bits of which are few.
static Z3_ast smallDiv(const Node *n, Z3_ast x) {
  E b = n->kids[1];
  unsigned w = n->w;
  if (w > 64 || !b.k() || b.u64() < 3 || b.u64() > 4096) return nullptr;
  uint64_t lo, hi, c = b.u64();
  urange(n->kids[0], lo, hi);
  if (hi >= 1u << 20) return nullptr;
  unsigned N = 1, l = 0;
  while (hi >> N) N++;
  while ((1ull << l) < c) l++;
  unsigned sh = N + l;
  uint64_t M = ((1ull << sh) + c - 1) / c;
  unsigned mb = 1;
  while (M >> mb) mb++;
  unsigned W = N + mb;
  if (N >= w || W <= sh) return nullptr;
  Z3_ast low = Z3_mk_zero_ext(z, W - N, Z3_mk_extract(z, N - 1, 0, x));
  Z3_ast q = Z3_mk_extract(z, W - 1, sh, Z3_mk_bvmul(z, low, zconst(APInt(W, M))));
  unsigned qw = W - sh;
  if (qw > w) return Z3_mk_extract(z, w - 1, 0, q);
  return qw < w ? Z3_mk_zero_ext(z, w - qw, q) : q;
}
static Z3_ast build(const Node *n) {
  if (X.realFp && n->op >= O_FADD && n->op <= O_FPTOUI && n->op != O_FPTOSI && n->op != O_FPTOUI) // bits of a number: unknown
    return Z3_mk_const(z, Z3_mk_string_symbol(z, ("b" + std::to_string(n->id)).c_str()), Z3_mk_bv_sort(z, n->w)); // width>1 or width-1 as BV not used: booleans below
  auto k = [&](unsigned i) { return bvGet(n->kids[i]); };
  unsigned kw = n->nk ? n->kids[0].w : 0;
  switch (n->op) {
  case O_CONST: return zconst(*n->cv);
  case O_SYM: return Z3_mk_const(z, Z3_mk_string_symbol(z, ("s" + std::to_string(n->aux)).c_str()), Z3_mk_bv_sort(z, n->w));
  case O_ADD: return Z3_mk_bvadd(z, k(0), k(1));
  case O_SUB: return Z3_mk_bvsub(z, k(0), k(1));
  case O_MUL: return Z3_mk_bvmul(z, k(0), k(1));
  case O_UDIV: { Z3_ast q = smallDiv(n, k(0)); return q ? q : Z3_mk_bvudiv(z, k(0), k(1)); }
  case O_SDIV: return Z3_mk_bvsdiv(z, k(0), k(1));
  case O_UREM: {
    Z3_ast q = smallDiv(n, k(0));
    return q ? Z3_mk_bvsub(z, k(0), Z3_mk_bvmul(z, q, k(1))) : Z3_mk_bvurem(z, k(0), k(1));
  }
  case O_SREM: return Z3_mk_bvsrem(z, k(0), k(1));
  case O_AND: return Z3_mk_bvand(z, k(0), k(1));
  case O_OR: return Z3_mk_bvor(z, k(0), k(1));
  case O_XOR: if (n->kids[1].isOnes()) return Z3_mk_bvnot(z, k(0)); return Z3_mk_bvxor(z, k(0), k(1));
  case O_SHL: return Z3_mk_bvshl(z, k(0), k(1));
  case O_LSHR: return Z3_mk_bvlshr(z, k(0), k(1));
  case O_ASHR: return Z3_mk_bvashr(z, k(0), k(1));
  case O_ITE: return Z3_mk_ite(z, boolGet(n->kids[0]), k(1), k(2));
  case O_CONCAT: { Z3_ast r = k(0); for (unsigned i = 1; i < n->nk; i++) r = Z3_mk_concat(z, r, k(i)); return r; }
  case O_EXTRACT: return Z3_mk_extract(z, n->aux + n->w - 1, n->aux, k(0));
  case O_SEXT: return Z3_mk_sign_ext(z, n->w - kw, k(0));
  case O_READ: {
    Table *t = X.tables[n->aux]; std::vector<Z3_ast> el;
    for (auto &e : t->el) el.push_back(bvGet(e));
    unsigned bits = 0; while (((size_t)1 << bits) < el.size()) bits++;
    Z3_ast idx = k(0);
    if (bits > kw) bits = kw;
    return mux(el, idx, kw, bits, 0);
  }
  case O_FADD: return fpToBv(Z3_mk_fpa_add(z, RNE, toFp(k(0), n->w), toFp(k(1), n->w)), n->w);
  case O_FSUB: return fpToBv(Z3_mk_fpa_sub(z, RNE, toFp(k(0), n->w), toFp(k(1), n->w)), n->w);
  case O_FMUL: return fpToBv(Z3_mk_fpa_mul(z, RNE, toFp(k(0), n->w), toFp(k(1), n->w)), n->w);
  case O_FDIV: return fpToBv(Z3_mk_fpa_div(z, RNE, toFp(k(0), n->w), toFp(k(1), n->w)), n->w);
  case O_FREM: return fpToBv(Z3_mk_fpa_rem(z, toFp(k(0), n->w), toFp(k(1), n->w)), n->w);
  case O_FMA: return fpToBv(Z3_mk_fpa_fma(z, RNE, toFp(k(0), n->w), toFp(k(1), n->w), toFp(k(2), n->w)), n->w);
  case O_FSQRT: return fpToBv(Z3_mk_fpa_sqrt(z, RNE, toFp(k(0), n->w)), n->w);
  case O_FRINT: { Z3_ast m[] = {RNE, RTN, RTP, RTZ, RNA}; return fpToBv(Z3_mk_fpa_round_to_integral(z, m[n->aux], toFp(k(0), n->w)), n->w); }
  case O_FPEXT: case O_FPTRUNC: return fpToBv(Z3_mk_fpa_to_fp_float(z, RNE, toFp(k(0), kw), fs(n->w)), n->w);
  case O_SITOFP: return fpToBv(Z3_mk_fpa_to_fp_signed(z, RNE, k(0), fs(n->w)), n->w);
  case O_UITOFP: return fpToBv(Z3_mk_fpa_to_fp_unsigned(z, RNE, k(0), fs(n->w)), n->w);
  case O_FPTOSI: case O_FPTOUI: {
    Z3_ast f = toFp(k(0), kw), rm = n->aux ? RNE : RTZ;
    Z3_ast ri = Z3_mk_fpa_round_to_integral(z, rm, f);
    APInt lo(n->w + 1, 0), hi(n->w + 1, 0); // inclusive bound lo, exclusive bound hi, as reals
    bool sg = n->op == O_FPTOSI;
    Z3_sort s = fs(kw);
    auto pow2 = [&](unsigned p, bool neg) { double d = 1; for (unsigned i = 0; i < p; i++) d *= 2; return Z3_mk_fpa_numeral_double(z, neg ? -d : d, s); };
    Z3_ast inr;
    Z3_ast geLo = sg ? Z3_mk_fpa_geq(z, ri, pow2(n->w - 1, true)) : Z3_mk_fpa_geq(z, ri, Z3_mk_fpa_numeral_double(z, 0.0, s));
    Z3_ast ltHi = Z3_mk_fpa_lt(z, ri, pow2(sg ? n->w - 1 : n->w, false));
    Z3_ast args[2] = {geLo, ltHi};
    inr = Z3_mk_and(z, 2, args);
    Z3_ast v = sg ? Z3_mk_fpa_to_sbv(z, rm, f, n->w) : Z3_mk_fpa_to_ubv(z, rm, f, n->w);
    return Z3_mk_ite(z, inr, v, zconst(APInt::getSignedMinValue(n->w)));
  }
  default: fprintf(stderr, "z3: op %s\n", opName(n->op)); abort();
  }
}
static Z3_ast buildBool(const Node *n) {
  auto kb = [&](unsigned i) { return bvGet(n->kids[i]); };
  auto kB = [&](unsigned i) { return boolGet(n->kids[i]); };
  unsigned kw = n->nk ? n->kids[0].w : 0;
  switch (n->op) {
  case O_SYM: case O_EXTRACT: case O_READ: return Z3_mk_eq(z, build(n), zconst(APInt(1, 1)));
  case O_AND: { Z3_ast a[2] = {kB(0), kB(1)}; return Z3_mk_and(z, 2, a); }
  case O_OR: { Z3_ast a[2] = {kB(0), kB(1)}; return Z3_mk_or(z, 2, a); }
  case O_XOR: if (n->kids[1].isOnes()) return Z3_mk_not(z, kB(0)); return Z3_mk_xor(z, kB(0), kB(1));
  case O_ITE: return Z3_mk_ite(z, kB(0), kB(1), kB(2));
  case O_EQ: if (kw == 1) return Z3_mk_iff(z, kB(0), kB(1)); return Z3_mk_eq(z, kb(0), kb(1));
  case O_ULT: return Z3_mk_bvult(z, kb(0), kb(1));
  case O_ULE: return Z3_mk_bvule(z, kb(0), kb(1));
  case O_SLT: return Z3_mk_bvslt(z, kb(0), kb(1));
  case O_SLE: return Z3_mk_bvsle(z, kb(0), kb(1));
  case O_FEQ: if (X.realFp) return Z3_mk_eq(z, realGet(n->kids[0]), realGet(n->kids[1])); return Z3_mk_fpa_eq(z, toFp(kb(0), kw), toFp(kb(1), kw));
  case O_FLT: if (X.realFp) return Z3_mk_lt(z, realGet(n->kids[0]), realGet(n->kids[1])); return Z3_mk_fpa_lt(z, toFp(kb(0), kw), toFp(kb(1), kw));
  case O_FLE: if (X.realFp) return Z3_mk_le(z, realGet(n->kids[0]), realGet(n->kids[1])); return Z3_mk_fpa_leq(z, toFp(kb(0), kw), toFp(kb(1), kw));
  case O_FISNAN: if (X.realFp) return zFalse; return Z3_mk_fpa_is_nan(z, toFp(kb(0), kw));
  default: return Z3_mk_eq(z, build(n), zconst(APInt(1, 1)));
  }
}
static void prepare(const Node *root, bool wantBool) {
  // post-order without recursion; each node built in the form its users need
  std::vector<std::pair<const Node *, int>> st{{root, 0}};
  while (!st.empty()) {
    auto &[n, stage] = st.back();
    if ((n->w == 1 && n->zbool) || (n->w > 1 && n->zbv)) { st.pop_back(); continue; }
    if (stage == 0) {
      stage = 1; const Node *m = n;
      if (X.realFp && m->op >= O_FADD && m->op <= O_FPTOUI) continue; // operands are wanted as reals
      for (unsigned i = 0; i < m->nk; i++) if (m->kids[i].n) st.push_back({m->kids[i].n, 0});
      if (m->op == O_READ) for (auto &e : X.tables[m->aux]->el) if (e.n) st.push_back({e.n, 0});
      continue;
    }
    if (n->w == 1) n->zbool = keep(buildBool(n)); else n->zbv = keep(build(n));
    st.pop_back();
  }
  (void)wantBool;
}
static Z3_ast bvGet(E e) {
  if (e.k()) return zconst(e.ap());
  const Node *n = e.n;
  if (n->w == 1) {
    if (!n->zbool) prepare(n, true);
    if (!n->zbv) n->zbv = keep(fromBool((Z3_ast)n->zbool));
    return (Z3_ast)n->zbv;
  }
  if (!n->zbv) prepare(n, false);
  return (Z3_ast)n->zbv;
}
static Z3_ast boolGet(E e) {
  if (e.k()) return e.isZero() ? zFalse : zTrue;
  if (!e.n->zbool) prepare(e.n, true);
  return (Z3_ast)e.n->zbool;
}

static std::shared_ptr<Model> getModel(Z3_solver s, const std::vector<E> &cs) {
  auto m = std::make_shared<Model>();
  Z3_model zm = Z3_solver_get_model(z, s);
  if (!zm) return m;
  Z3_model_inc_ref(z, zm);
  std::unordered_set<uint32_t> ids;
  for (auto &c : cs) for (auto i : symsOf(c)) ids.insert(i);
  for (auto i : ids) {
    Z3_ast a = Z3_mk_const(z, Z3_mk_string_symbol(z, ("s" + std::to_string(i)).c_str()), Z3_mk_bv_sort(z, X.syms[i].w)), r;
    Z3_inc_ref(z, a);
    if (Z3_model_eval(z, zm, a, true, &r)) {
      Z3_inc_ref(z, r);
      m->v[i] = APInt(X.syms[i].w, Z3_get_numeral_string(z, r), 10);
      Z3_dec_ref(z, r);
    }
    Z3_dec_ref(z, a);
  }
  for (auto &[e, v] : realLeaf) { // put the numbers into the bits of the inputs they came from
    const Node *n = e.n; unsigned lo = 0;
    if (n->op == O_EXTRACT) { lo = n->aux; n = n->kids[0].n; }
    if (!n || n->op != O_SYM || !m->v.count(n->aux)) continue;
    Z3_ast r;
    if (!Z3_model_eval(z, zm, v, true, &r)) continue;
    Z3_inc_ref(z, r);
    double d = strtod(Z3_get_numeral_decimal_string(z, r, 30), nullptr);
    Z3_dec_ref(z, r);
    uint64_t b = 0; if (e.w == 32) { float f = d; memcpy(&b, &f, 4); } else memcpy(&b, &d, 8);
    APInt &t = m->v[n->aux];
    if (t.getBitWidth() == e.w) t = APInt(e.w, b); else t.insertBits(APInt(e.w, b), lo);
  }
  Z3_model_dec_ref(z, zm);
  return m;
}

struct CacheEnt { SR r; std::shared_ptr<Model> m; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 1469598103934665603ull; for (auto x : v) h = (h ^ x) * 0x100000001B3ull; return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;
static std::deque<std::shared_ptr<Model>> recent;

std::string toSmt2(const std::vector<E> &cs) {
  init();
  Z3_solver s = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, s);
  for (auto &c : cs) Z3_solver_assert(z, s, boolGet(c));
  std::string r = Z3_solver_to_string(z, s);
  Z3_solver_dec_ref(z, s);
  return r + "(check-sat)\n";
}
// Cheap candidate models for hard satisfiable queries; a candidate counts only when the
// evaluator confirms every conjunct, so "unsatisfiable" is never concluded here.
static uint64_t rngState = 88172645463325252ull;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static APInt randomValue(unsigned w) {
  static const uint32_t fl[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0x7fc00000u, 1, 0x007fffffu, 0x40490fdbu, 0x7f7fffffu, 0x3f000000u, 0x42c80000u};
  switch (rng() % 6) {
  case 0: return APInt(w, 0);
  case 1: return APInt::getAllOnes(w);
  case 2: { APInt a(w, 0); a.setBit(rng() % w); return a; }
  case 3: if (w == 32) return APInt(32, fl[rng() % 12]); return APInt(w, w <= 64 ? (rng() % 100) & mask64(w) : rng() % 100);
  default: { APInt a(w, 0); for (unsigned i = 0; i < w; i += 64) { APInt part(64, rng()); a |= part.zextOrTrunc(w).shl(i); } return a; }
  }
}
static std::shared_ptr<Model> guess(const std::vector<E> &cs, unsigned tries, double budget) {
  std::unordered_set<uint32_t> ids;
  for (auto &c : cs) for (auto i : symsOf(c)) ids.insert(i);
  std::vector<uint32_t> v(ids.begin(), ids.end()); std::sort(v.begin(), v.end());
  if (v.empty()) return nullptr;
  auto t0 = std::chrono::steady_clock::now();
  std::unordered_map<uint32_t, llvm::APInt> fixed; // inputs the path has a value for
  for (auto &c : cs) if (c.n && c.n->op == O_EQ) for (int i = 0; i < 2; i++) { E a = c.n->kids[i], b = c.n->kids[1 - i]; if (a.n && a.n->op == O_SYM && b.k()) fixed.emplace(symsOf(a)[0], b.ap()); }
  for (unsigned t = 0; t < tries; t++) {
    auto m = std::make_shared<Model>();
    if (recent.size() && t % 2) { // change part of a known model
      auto &b = *recent[rng() % recent.size()];
      for (auto i : v) { auto it = b.v.find(i); if (it != b.v.end() && rng() % 3) m->v[i] = it->second; else m->v[i] = randomValue(X.syms[i].w); }
    } else for (auto i : v) m->v[i] = randomValue(X.syms[i].w);
    for (auto &f : fixed) m->v[f.first] = f.second;
    Evaluator ev(*m); bool ok = true;
    for (auto &e : cs) if (!ev.evalBool(e)) { ok = false; break; }
    if (ok) return m;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
  }
  return nullptr;
}
static SR runReal(const std::vector<E> &cs, std::shared_ptr<Model> *out) {
  auto t0 = std::chrono::steady_clock::now();
  SS.z3Calls++; SS.fresh++;
  SR res = SR::UNKNOWN; std::shared_ptr<Model> m;
  realDefs.clear(); realOf.clear(); realLeaf.clear();
  // terms are rebuilt for every query, so that exactly the definitions they need are asserted
  std::vector<Z3_ast> as;
  bool bits = false;
  std::unordered_set<const Node *> seen; std::vector<const Node *> st;
  for (auto &c : cs) if (c.n) st.push_back(c.n);
  while (!st.empty()) {
    const Node *n = st.back(); st.pop_back();
    if (!seen.insert(n).second) continue;
    if (n->w == 1) { n->zbool = nullptr; n->zbv = nullptr; }
    if (n->w == 1 && n->op != O_FEQ && n->op != O_FLT && n->op != O_FLE && n->op != O_AND && n->op != O_OR && n->op != O_XOR && n->op != O_ITE) bits = true;
    for (unsigned i = 0; i < n->nk; i++) if (n->kids[i].n) st.push_back(n->kids[i].n);
  }
  for (auto &c : cs) as.push_back(boolGet(c));
  Z3_solver s = bits ? Z3_mk_solver(z) : Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_NRA"));
  Z3_solver_inc_ref(z, s);
  Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
  Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), SO.slowMs);
  Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
  for (auto a : as) Z3_solver_assert(z, s, a);
  for (auto a : realDefs) Z3_solver_assert(z, s, a);
  if (SO.dumpDir.size() && SO.dumpMax) {
    SO.dumpMax--;
    if (FILE *f = fopen((SO.dumpDir + "/q" + std::to_string(SS.z3Calls) + ".smt2").c_str(), "w")) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(z, s)); fclose(f); }
  }
  Z3_lbool r = Z3_solver_check(z, s);
  if (r == Z3_L_TRUE) { res = SR::SAT; m = getModel(s, cs); }
  else if (r == Z3_L_FALSE) res = SR::UNSAT;
  else SS.unknown++;
  Z3_solver_dec_ref(z, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  SS.time += dt; SS.maxTime = std::max(SS.maxTime, dt);
  if (out) *out = m;
  return res;
}
static SR runZ3(const std::vector<E> &cs, bool fp, std::shared_ptr<Model> *out) {
  init();
  if (X.realFp) return runReal(cs, out);
  auto t0 = std::chrono::steady_clock::now();
  SS.z3Calls++;
  SR res = SR::UNKNOWN; std::shared_ptr<Model> m;
  auto setTimeout = [&](Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
    Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
  };
  if (!fp) {
    if (incAsserted > 3000) newInc();
    std::vector<Z3_ast> as;
    for (auto &c : cs) {
      auto it = incLit.find(c.n->id);
      if (it == incLit.end()) {
        Z3_ast l = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, ("p" + std::to_string(c.n->id)).c_str()), Z3_mk_bool_sort(z)));
        Z3_solver_assert(z, inc, Z3_mk_implies(z, l, boolGet(c)));
        incAsserted++;
        it = incLit.emplace(c.n->id, l).first;
      }
      as.push_back(it->second);
    }
    setTimeout(inc, SO.fastMs);
    Z3_lbool r = Z3_solver_check_assumptions(z, inc, as.size(), as.data());
    if (r == Z3_L_TRUE) { res = SR::SAT; m = getModel(inc, cs); }
    else if (r == Z3_L_FALSE) res = SR::UNSAT;
    else newInc();
  }
  if (res == SR::UNKNOWN && (m = guess(cs, 400, 2.0))) { res = SR::SAT; SS.modelHits++; }
  if (res == SR::UNKNOWN) {
    SS.fresh++;
    Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, fp ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(z, s);
    setTimeout(s, SO.slowMs);
    for (auto &c : cs) Z3_solver_assert(z, s, boolGet(c));
    Z3_lbool r = Z3_solver_check(z, s);
    if (r == Z3_L_TRUE) { res = SR::SAT; m = getModel(s, cs); }
    else if (r == Z3_L_FALSE) res = SR::UNSAT;
    Z3_solver_dec_ref(z, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  SS.time += dt; SS.maxTime = std::max(SS.maxTime, dt);
  if (res == SR::UNKNOWN) SS.unknown++;
  if (SO.dumpDir.size() && SO.dumpMax && res != SR::UNKNOWN) {
    SO.dumpMax--;
    std::string fn = SO.dumpDir + "/q" + std::to_string(SS.z3Calls) + (res == SR::SAT ? ".sat.smt2" : ".unsat.smt2");
    if (FILE *f = fopen(fn.c_str(), "w")) { std::string s = toSmt2(cs); fwrite(s.data(), 1, s.size(), f); fclose(f); }
  }
  if (out) *out = m;
  return res;
}

SR solve(const std::vector<E> &all, E focus, std::shared_ptr<Model> *out) {
  SS.queries++;
  // slice
  std::vector<E> cs;
  bool fp = false;
  if (focus.w && !focus.k()) {
    if (std::find(all.begin(), all.end(), focus) == all.end() || true) {
      std::unordered_set<uint32_t> live(symsOf(focus).begin(), symsOf(focus).end());
      std::vector<char> in(all.size(), 0); bool ch = true;
      while (ch) {
        ch = false;
        for (size_t i = 0; i < all.size(); i++) {
          if (in[i] || all[i].k()) continue;
          for (auto s : symsOf(all[i])) if (live.count(s)) { in[i] = 1; break; }
          if (in[i]) { ch = true; for (auto s : symsOf(all[i])) live.insert(s); }
        }
      }
      for (size_t i = 0; i < all.size(); i++) if (in[i]) cs.push_back(all[i]);
      cs.push_back(focus);
    }
  } else for (auto &e : all) if (!e.k()) cs.push_back(e);
  if (focus.w && focus.k() && focus.isZero()) { SS.folded++; return SR::UNSAT; }
  for (auto &e : all) if (e.k() && e.isZero()) { SS.folded++; return SR::UNSAT; }
  if (cs.empty()) { SS.folded++; if (out) *out = std::make_shared<Model>(); return SR::SAT; }
  std::sort(cs.begin(), cs.end(), [](const E &a, const E &b) { return a.n->id < b.n->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<uint32_t> key;
  for (auto &e : cs) { key.push_back(e.n->id); fp |= hasFP(e); }
  // contradiction by structure
  for (auto &e : cs) { E ne = bnot(e); if (ne.n && std::binary_search(key.begin(), key.end(), ne.n->id)) { SS.folded++; return SR::UNSAT; } }
  auto it = cache.find(key);
  if (it != cache.end()) { SS.cacheHits++; if (out) *out = it->second.m; return it->second.r; }
  int tried = 0;
  for (auto &m : recent) {
    if (++tried > 12 || X.realFp) break;
    Evaluator ev(*m); bool ok = true;
    for (auto &e : cs) if (!ev.evalBool(e)) { ok = false; break; }
    if (ok) { // only what the query is about: the caller merges the answer into a model of the rest
      auto part = std::make_shared<Model>();
      for (auto &e : cs) for (auto y : symsOf(e)) { auto i = m->v.find(y); part->v[y] = i != m->v.end() ? i->second : APInt(X.syms[y].w, 0); }
      SS.modelHits++; cache[key] = {SR::SAT, part}; if (out) *out = part; return SR::SAT;
    }
  }
  std::shared_ptr<Model> m;
  SR r = runZ3(cs, fp, &m);
  if (r == SR::SAT && !X.realFp) {
    Evaluator ev(*m); bool ok = true;
    for (auto &e : cs) if (!ev.evalBool(e)) { ok = false; break; }
    if (!ok) fprintf(stderr, "note: model not confirmed by the evaluator\n");
    recent.push_front(m); if (recent.size() > 40) recent.pop_back();
  }
  if (r != SR::UNKNOWN) cache[key] = {r, m};
  if (out) *out = m;
  return r;
}
