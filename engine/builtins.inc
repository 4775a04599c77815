// Models of external functions. Everything here is part of the trusted base.
static void def(std::initializer_list<const char *> ns, Builtin b) { for (auto *n : ns) builtins[n] = b; }
static bool allocN(State &s, E szE, Val &r) {
  uint64_t n; if (!concretize(s, szE, n)) return false;
  if (n > (1ull << 25)) { // no allocator would be asked for this much by a correct caller in our bounds
    fail(s, "memory", "allocation of " + std::to_string(n) + " bytes"); return false;
  }
  r = Val(C(64, mkHeap(s, n)->base)); return true;
}
static double dOf(E e) { double d; uint64_t b = e.u64(); memcpy(&d, &b, 8); return d; }
static float fOf(E e) { float d; uint32_t b = e.u64(); memcpy(&d, &b, 4); return d; }
static E eOf(double d) { uint64_t b; memcpy(&b, &d, 8); return C(64, b); }
static E eOf(float d) { uint32_t b; memcpy(&b, &d, 4); return C(32, b); }
static E newSym(State &s, const std::string &name, unsigned w) {
  unsigned k = 0; for (auto &p : s.nameCount) if (p.first == name) { k = p.second++; goto done; }
  s.nameCount.push_back({name, 1});
done:
  // symbols are shared between paths that create the same input
  static std::map<std::string, E> memo;
  std::string key = name + "#" + std::to_string(k) + "/" + std::to_string(w);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  return memo[key] = mkSym(name + "#" + std::to_string(k), w);
}
static bool memcmpModel(State &s, E p, E q, uint64_t n, E &out, bool ordered) {
  E r = C(32, 0);
  for (uint64_t i = n; i-- > 0;) {
    E a, b;
    if (!loadMem(s, add(p, C(64, i)), 1, a) || !loadMem(s, add(q, C(64, i)), 1, b)) return false;
    r = ite(eq(a, b), r, ordered ? sub(zext(a, 32), zext(b, 32)) : C(32, 1));
  }
  out = r; return true;
}
static void initBuiltins() {
  def({"malloc", "_Znwm", "_Znam"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { return allocN(s, a[0].one, r); });
  def({"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { return allocN(s, a[0].one, r); });
  def({"aligned_alloc", "memalign", "_mm_malloc"}, [](State &s, CallBase *cb, std::vector<Val> &a, Val &r) { 
    uint64_t al, n; if (!concretize(s, a[0].one, al) || !concretize(s, a[1].one, n)) return false;
    Obj *o = s.mem.alloc(n, OK_HEAP, std::max<uint64_t>(16, al)); o->st.assign(n, 2); r = Val(C(64, o->base)); return true; });
  def({"calloc"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) {
    uint64_t n, m; if (!concretize(s, a[0].one, n) || !concretize(s, a[1].one, m)) return false;
    Obj *o = s.mem.alloc(n * m, OK_HEAP, 16); r = Val(C(64, o->base)); return true; });
  def({"realloc"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) {
    uint64_t p, n; if (!concretize(s, a[0].one, p) || !concretize(s, a[1].one, n)) return false;
    uint64_t nb = mkHeap(s, n)->base;
    if (p) { Obj *o = s.mem.get(p >> OBJ_SHIFT); if (!o || o->base != p || o->freed) { fail(s, "memory", "realloc of an invalid pointer"); return false; }
      if (!copyMem(s, C(64, nb), C(64, p), std::min(n, o->size)) || !doFree(s, a[0].one, p)) return false; }
    r = Val(C(64, nb)); return true; });
  def({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_mm_free"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) {
    uint64_t p; if (!concretize(s, a[0].one, p)) return false; return doFree(s, a[0].one, p); });
  def({"memcpy", "memmove", "__memcpy_chk"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { uint64_t n; if (!concretize(s, a[2].one, n)) return false; r = a[0]; return copyMem(s, a[0].one, a[1].one, n); });
  def({"memset"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { uint64_t n; if (!concretize(s, a[2].one, n)) return false; r = a[0]; return setMem(s, a[0].one, extract(a[1].one, 0, 8), n); });
  def({"memcmp"}, [](State &s, CallBase *cb, std::vector<Val> &a, Val &r) { uint64_t n; if (!concretize(s, a[2].one, n)) return false; E o; if (!memcmpModel(s, a[0].one, a[1].one, n, o, true)) return false; r = Val(o); return true; });
  def({"bcmp"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { uint64_t n; if (!concretize(s, a[2].one, n)) return false; E o; if (!memcmpModel(s, a[0].one, a[1].one, n, o, false)) return false; r = Val(o); return true; });
  def({"__cxa_atexit", "atexit", "__cxa_thread_atexit"}, [](State &, CallBase *, std::vector<Val> &, Val &r) { r = Val(C(32, 0)); return true; });
  def({"__cxa_guard_acquire"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { E b; if (!loadMem(s, a[0].one, 1, b)) return false; r = Val(zext(eq(b, C(8, 0)), 32)); return true; });
  def({"__cxa_guard_release"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) { return storeMem(s, a[0].one, C(8, 1)); });
  def({"__cxa_guard_abort"}, [](State &, CallBase *, std::vector<Val> &, Val &) { return true; });
  def({"__cxa_pure_virtual", "__cxa_deleted_virtual"}, [](State &s, CallBase *, std::vector<Val> &, Val &) { fail(s, "abort", "pure virtual call"); return false; });
  def({"abort", "_ZSt9terminatev", "__clang_call_terminate", "exit", "_exit", "quick_exit", "__assert_fail", "__stack_chk_fail", "__cxa_bad_cast", "__cxa_bad_typeid", "__cxa_throw_bad_array_new_length"}, [](State &s, CallBase *cb, std::vector<Val> &, Val &) { fail(s, "abort", "call of " + cb->getCalledFunction()->getName().str()); return false; });
  // ---- exceptions
  def({"__cxa_allocate_exception"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { return allocN(s, a[0].one, r); });
  def({"__cxa_free_exception"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) { return doFree(s, a[0].one, a[0].one.u64()); });
  def({"__cxa_throw"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) {
    ExcInfo e; e.tinfo = a[1].one.u64(); e.dtor = a[2].one.u64(); e.refs = 1; uint64_t o = a[0].one.u64();
    s.exc[o] = e; s.th[s.cur].excObj = o; return unwind(s) && false ? true : !s.dead; });
  def({"__cxa_rethrow"}, [](State &s, CallBase *, std::vector<Val> &, Val &) {
    auto &t = s.th[s.cur]; if (t.caught.empty()) { fail(s, "abort", "rethrow without exception"); return false; }
    t.excObj = t.caught.back(); s.exc[t.excObj].refs++; unwind(s); return !s.dead; });
  def({"__cxa_begin_catch"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { uint64_t o = a[0].one.u64(); auto &t = s.th[s.cur]; t.caught.push_back(o); uint64_t adj = s.exc[o].adj; r = Val(C(64, adj ? adj : o)); return true; });
  def({"__cxa_get_exception_ptr"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { uint64_t o = a[0].one.u64(), adj = s.exc[o].adj; r = Val(C(64, adj ? adj : o)); return true; });
  def({"__cxa_end_catch"}, [](State &s, CallBase *, std::vector<Val> &, Val &) { auto &t = s.th[s.cur]; if (t.caught.size()) t.caught.pop_back(); return true; }); // exception objects are not destroyed
  def({"__gxx_personality_v0", "__cxa_call_unexpected"}, [](State &s, CallBase *, std::vector<Val> &, Val &) { fail(s, "abort", "unexpected exception"); return false; });
  def({"__dynamic_cast"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) {
    uint64_t p; if (!concretize(s, a[0].one, p)) return false; if (!p) { r = Val(C(64, 0)); return true; }
    uint64_t vt = rd64(s, p), top = rd64(s, vt - 16), ti = rd64(s, vt - 8); uint64_t whole = p + top, off = 0;
    r = Val(C(64, tiMatch(s, ti, a[2].one.u64(), off) ? whole + off : 0)); return true; });
  // ---- math
#define M1(nm, fn) def({#nm}, [](State &, CallBase *, std::vector<Val> &a, Val &r) { E x = a[0].one; r = Val(x.k() ? eOf((double)fn(dOf(x))) : uf(#nm, 64, {x})); return true; }); \
  def({#nm "f"}, [](State &, CallBase *, std::vector<Val> &a, Val &r) { E x = a[0].one; r = Val(x.k() ? eOf((float)fn##f(fOf(x))) : uf(#nm "f", 32, {x})); return true; });
  M1(sin, sin) M1(cos, cos) M1(tan, tan) M1(asin, asin) M1(acos, acos) M1(atan, atan) M1(exp, exp) M1(exp2, exp2) M1(log, log) M1(log2, log2) M1(log10, log10) M1(cbrt, cbrt)
  def({"pow", "atan2", "fmod"}, [](State &, CallBase *cb, std::vector<Val> &a, Val &r) { std::string n = cb->getCalledFunction()->getName().str(); E x = a[0].one, y = a[1].one; if (n == "pow" && y.k() && dOf(y) == 2.0) { r = Val(fop(O_FMUL, 64, {x, x})); return true; } r = Val(x.k() && y.k() ? eOf(n == "pow" ? pow(dOf(x), dOf(y)) : n == "fmod" ? fmod(dOf(x), dOf(y)) : atan2(dOf(x), dOf(y))) : uf(n, 64, {x, y})); return true; });
  def({"powf", "atan2f", "fmodf"}, [](State &, CallBase *cb, std::vector<Val> &a, Val &r) { std::string n = cb->getCalledFunction()->getName().str(); E x = a[0].one, y = a[1].one; r = Val(x.k() && y.k() ? eOf(n == "powf" ? powf(fOf(x), fOf(y)) : n == "fmodf" ? fmodf(fOf(x), fOf(y)) : atan2f(fOf(x), fOf(y))) : uf(n, 32, {x, y})); return true; });
  def({"sqrt", "sqrtf"}, [](State &, CallBase *, std::vector<Val> &a, Val &r) { r = Val(fop(O_FSQRT, a[0].one.w, {a[0].one})); return true; });
  def({"ldexp", "ldexpf", "scalbn"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { E x = a[0].one, y = a[1].one; if (x.k() && y.k()) { r = Val(x.w == 64 ? eOf(ldexp(dOf(x), (int)y.u64())) : eOf(ldexpf(fOf(x), (int)y.u64()))); return true; } r = Val(uf("ldexp", x.w, {x, y})); return true; });
  def({"strtod", "strtof"}, [](State &s, CallBase *cb, std::vector<Val> &a, Val &r) {
    std::string t = cstr(s, a[0].one);
    if (!a[0].one.k() || t.find('?') != std::string::npos) { killIncomplete(s, "strtod of symbolic text"); return false; }
    char *e; bool d = cb->getCalledFunction()->getName() == "strtod"; double dv = 0; float fv = 0; if (d) dv = strtod(t.c_str(), &e); else fv = strtof(t.c_str(), &e);
    if (!(a[1].one.k() && a[1].one.isZero()) && !storeMem(s, a[1].one, add(a[0].one, C(64, e - t.c_str())))) return false;
    r = Val(d ? eOf(dv) : eOf(fv)); return true; });
  // ---- verification API (see sx.h)
  def({"__sx_sym"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) { // (void *p, size_t n, const char *name)
    uint64_t n; if (!concretize(s, a[1].one, n)) return false;
    std::string nm = cstr(s, a[2].one); Input in; in.name = nm;
    if (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) {
      E v = newSym(s, nm, n * 8); if (!storeMem(s, a[0].one, v)) return false;
      for (unsigned i = 0; i < n; i++) in.bytes.push_back(extract(v, i * 8, 8));
    } else for (uint64_t i = 0; i < n; i++) { E v = newSym(s, nm, 8); if (!storeMem(s, add(a[0].one, C(64, i)), v)) return false; in.bytes.push_back(v); }
    s.inputs.push_back(in); return true; });
  def({"__sx_assume"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) {
    E c = bnot(eq(a[0].one, C(APInt(a[0].one.w, 0)))); 
    bool side; std::shared_ptr<Model> om; TV t = query(s, c, &om, &side);
    if (t == TV::UNK) { killIncomplete(s, "solver timeout on an assumption"); return false; }
    if (t == TV::F) { s.dead = true; return false; }
    if (t == TV::BOTH) { addC(s, c); if (!side) s.hint = om; }
    return true; });
  def({"__sx_assert"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) {
    E c = bnot(eq(a[0].one, C(APInt(a[0].one.w, 0)))); std::string lab = cstr(s, a[1].one);
    assertHits[lab]++; assertsChecked++;
    if (c.k()) { if (c.isZero()) { report(s, "assert", lab, E()); s.dead = true; pathsKilled++; return false; } return true; }
    assertsSolver++;
    // a known model of the path may already violate it; whether other values satisfy it is then only asked briefly
    if (!X.realFp) ensureHint(s);
    if (s.hint && !X.realFp && !Evaluator(*s.hint).evalBool(c)) {
      report(s, "assert", lab, bnot(c));
      unsigned slow = SO.slowMs; SO.slowMs = 2000;
      std::shared_ptr<Model> m; SR r = solve(s.cs, c, &m);
      SO.slowMs = slow;
      if (r != SR::SAT) { s.dead = true; pathsKilled++; return false; }
      s.hint = mergeModel(s.hint, m); addC(s, c);
      return true;
    }
    std::shared_ptr<Model> om; bool side = true; TV t;
    if (X.realFp) { SR r = solve(s.cs, bnot(c), &om); t = r == SR::UNSAT ? TV::T : r == SR::SAT ? TV::BOTH : TV::UNK; }
    else t = query(s, c, &om, &side);
    if (t == TV::UNK) { incomplete["solver timeout on assertion " + lab]++; return true; }
    if (t == TV::F) { report(s, "assert", lab, E()); s.dead = true; pathsKilled++; return false; }
    if (t == TV::BOTH) { report(s, "assert", lab, bnot(c)); addC(s, c); if (!side) s.hint = om; }
    return true; });
  def({"__sx_fmtdouble"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) {
    if (!a[0].one.k()) { r = Val(C(32, (uint32_t)-1)); return true; }
    char f[16], o[400]; int prec = (int)a[2].one.u64();
    if (prec < 0) snprintf(f, sizeof f, "%%%c", (char)a[1].one.u64()); else snprintf(f, sizeof f, "%%.%d%c", prec, (char)a[1].one.u64());
    int n = snprintf(o, sizeof o, f, dOf(a[0].one)); if (n >= (int)sizeof o) { r = Val(C(32, (uint32_t)-1)); return true; }
    for (int i = 0; i < n; i++) if (!storeMem(s, add(a[3].one, C(64, i)), C(8, (uint8_t)o[i]))) return false;
    r = Val(C(32, n)); return true; });
  def({"__sx_reach"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) { reachHits[cstr(s, a[0].one)]++; return true; });
  def({"__sx_observe"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) { s.obs.push_back({cstr(s, a[0].one), a[1].one}); return true; });
  def({"__sx_concretize"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { uint64_t v; if (!concretize(s, a[0].one, v)) return false; r = Val(C(64, v)); return true; });
  def({"__sx_engine"}, [](State &, CallBase *, std::vector<Val> &, Val &r) { r = Val(C(32, 1)); return true; });
  def({"__sx_readable"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { // is [p, p+n) inside one live object? (concrete arguments)
    uint64_t p = a[0].one.u64(), n = a[1].one.u64(); Obj *o = s.mem.get(p >> OBJ_SHIFT); r = Val(C(32, o && !o->freed && p >= o->base && p + n <= o->base + o->size)); return true; });
  def({"__sx_live"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { uint64_t p; if (!concretize(s, a[0].one, p)) return false; Obj *o = s.mem.get(p >> OBJ_SHIFT); r = Val(C(32, o && !o->freed)); return true; });
  def({"__sx_fail"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) { fail(s, "abort", cstr(s, a[0].one)); return false; });
  def({"__sx_stop"}, [](State &s, CallBase *, std::vector<Val> &, Val &) { finishPath(s); return false; });
  def({"__sx_unsupported"}, [](State &s, CallBase *, std::vector<Val> &a, Val &) { killIncomplete(s, "unsupported: " + cstr(s, a[0].one)); return false; });
  // ---- threads
  def({"__sx_thread_create"}, [](State &s, CallBase *cb, std::vector<Val> &a, Val &r) {
    uint64_t fn = a[0].one.u64(); Obj *o = s.mem.get(fn >> OBJ_SHIFT); if (!o || o->kind != OK_FUNC) { fail(s, "abort", "thread function"); return false; }
    unsigned id = s.th.size(); s.th.emplace_back(); unsigned me = s.cur; s.cur = id; std::vector<Val> av{a[1]};
    bool ok = pushCall(s, (Function *)o->tag, av, nullptr); s.cur = me; r = Val(C(32, id)); return ok; });
  def({"__sx_self"}, [](State &s, CallBase *, std::vector<Val> &, Val &r) { r = Val(C(32, s.cur)); return true; });
  def({"__sx_thread_done"}, [](State &s, CallBase *, std::vector<Val> &a, Val &r) { r = Val(C(32, s.th[a[0].one.u64()].done)); return true; });
  auto sched = [](State &s, CallBase *cb, std::vector<Val> &a, Val &) {
    if (s.th.size() < 2) return true;
    // finish this instruction first, then switch
    Frame &f = s.fr(); const KInst &ki = f.kf->code[f.pc];
    if (ki.dst >= 0) f.regs[ki.dst] = Val(C(32, 0));
    if (auto *inv = dyn_cast<InvokeInst>(ki.I)) gotoBB(s, inv->getNormalDest()); else f.pc++;
    if (a.size()) { s.th[s.cur].waitAddr = a[0].one.u64(); schedule(s, false); }
    else schedule(s, true);
    return true;
  };
  def({"__sx_yield"}, sched);
  def({"__sx_wait"}, [sched](State &s, CallBase *cb, std::vector<Val> &a, Val &r) {
    E v; if (!loadMem(s, a[0].one, 4, v)) return false;
    if (v.k() && !v.isZero()) return true;
    if (s.th.size() < 2) { fail(s, "deadlock", "the only thread waits"); return false; }
    return sched(s, cb, a, r); });
  // switch to another thread; this one goes on behind the call when it is switched back to
  def({"__sx_switch"}, [](State &s, CallBase *cb, std::vector<Val> &a, Val &) {
    uint64_t to; if (!concretize(s, a[0].one, to)) return false;
    Frame &f = s.fr();
    if (auto *inv = dyn_cast<InvokeInst>(cb)) gotoBB(s, inv->getNormalDest()); else f.pc++;
    if (to >= s.th.size() || s.th[to].done) { fail(s, "abort", "switch to a finished thread"); return false; }
    s.cur = to; return true; });
}
