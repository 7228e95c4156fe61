// harness intrinsics, library models (included by symex.cpp)
static std::string cstr(State &s, const Val &p) {
  std::string r;
  if (p.k != Val::PTR || p.p->size() != 1 || !(*p.p)[0].off.conc) return "?";
  int id = (*p.p)[0].obj; int64_t off = (*p.p)[0].off.c;
  if (!s.mem.count(id)) return "?";
  for (int i = 0; i < 400; i++) {
    if (off + i >= s.mem[id]->size) break;
    Val v = loadConc(s, id, off + i, TD{Val::INT, 8, 1});
    if (!v.conc || v.c == 0) break;
    r += (char)v.c;
  }
  return r;
}
struct Alt { z3::expr cond; Val ret; Alt(z3::expr c, Val v) : cond(c), ret(v) {} };
static bool concArg(const Val &v, int64_t &x) { if (v.k == Val::INT && v.conc) { x = sext64(v.c, v.w); return true; } return false; }
static Val toBoolV(const Val &v) {
  if (v.w == 1) return v;
  return icmpInt(CmpInst::ICMP_NE, v, mkInt(0, v.w));
}
static bool singlePtr(const Val &v, int &obj, int64_t &off) {
  if (v.k != Val::PTR || v.p->size() != 1 || !(*v.p)[0].off.conc) return false;
  obj = (*v.p)[0].obj; off = (*v.p)[0].off.c; return true;
}
static void doAbort(State &s, const std::string &what) {
  ST.aborted++;
  if (s.abortSet) { s.checks.push_back(Pending{s.abortOk, s.abortId}); }
  else if (OPT.abortIsViolation) s.checks.push_back(Pending{C.bool_val(false), "no-abort"});
  s.reach.insert("abort");
  endPath(s, "abort");
}
// 32-bit integer input with known bounds, carried by a constant of the smallest width
static Val boundedInt(const std::string &nm, int64_t lo, int64_t hi) {
  unsigned n = 1;
  if (lo >= 0) {
    while (n < 32 && (hi >> n)) n++;
    if (n >= 31) { rangeDecl(nm, lo, hi); return mkIntE(C.bv_const(nm.c_str(), 32)); }
    z3::expr c = C.bv_const(nm.c_str(), n), e = z3::zext(c, 32 - n);
    rangeSet(e, lo, hi); return mkIntE(e);
  }
  while (n < 32 && (lo < -((int64_t)1 << (n - 1)) || hi >= ((int64_t)1 << (n - 1)))) n++;
  rangeDecl(nm, lo, hi);
  z3::expr c = C.bv_const(nm.c_str(), n);
  return mkIntE(n == 32 ? c : z3::sext(c, 32 - n));
}
static int64_t maxConc(State &s, const Val &v, bool &ok) { int64_t x; ok = concArg(v, x); return ok ? x : 0; }
// returns: 0 path dies, 1 ok, 2 not handled
static int builtin(Path &p, FnInfo &fi, CallBase *ci, std::vector<Val> &a, Val &ret, std::vector<Alt> &alts) {
  State &s = p.st;
  const std::string &n = fi.bi;
  Type *rt = ci->getType();
  auto str = [&](int i) { return cstr(s, a[i]); };
  if (starts(n, "sym_")) {
    if (n == "sym_int") { // name, lo, hi
      std::string nm = freshName(s, str(0));
      int64_t lo, hi;
      if (concArg(a[1], lo) && concArg(a[2], hi) && lo == hi) { ret = a[1]; s.inputs.push_back(Input{nm, ret, false}); return 1; }
      if (!(concArg(a[1], lo) && concArg(a[2], hi))) { lo = INT32_MIN; hi = INT32_MAX; }
      Val v = boundedInt(nm, lo, hi);
      s.inputs.push_back(Input{nm, v, false});
      ret = v;
      return assume(s, zand(ex(a[1]) <= v.e, v.e <= ex(a[2])));
    }
    if (n == "sym_modzero") {
      int64_t m; if (!concArg(a[1], m)) return 0;
      ret = a[0].conc ? mkBool(C.bool_val(sext64(a[0].c, a[0].w) % m == 0)) : mkBool(modZero(a[0].e, m, s.pc));
      if (rt->getIntegerBitWidth() != 1) ret = castInt(Instruction::ZExt, ret, rt->getIntegerBitWidth());
      return 1;
    }
    if (n == "sym_pick") { // forks on every value
      std::string nm = freshName(s, str(0)); int64_t lo, hi;
      if (!concArg(a[1], lo) || !concArg(a[2], hi)) return 0;
      Val v = mkIntE(C.bv_const(nm.c_str(), 32));
      s.inputs.push_back(Input{nm, v, false});
      for (int64_t x = lo; x <= hi; x++) alts.push_back(Alt(ex(v) == C.bv_val((int)x, 32), mkInt(x, 32)));
      return 1;
    }
    if (n == "sym_conc") { // fork on the feasible values of an existing int
      if (a[0].conc) { ret = a[0]; return 1; }
      z3::expr blk = C.bool_val(true); 
      for (int i = 0; i < OPT.enumLimit; i++) {
        std::shared_ptr<z3::model> m; auto r = SOL->check(s.pc, blk, &m);
        if (r != z3::sat) break;
        uint64_t u; if (!m->eval(a[0].e, true).is_numeral_u64(u)) break;
        z3::expr c = a[0].e == C.bv_val(u, a[0].w);
        alts.push_back(Alt(c, mkInt(u, a[0].w))); blk = blk && !c;
      }
      return 1;
    }
    if (n == "sym_long" || n == "sym_ulong") {
      std::string nm = freshName(s, str(0));
      ret = mkIntE(C.bv_const(nm.c_str(), 64)); s.inputs.push_back(Input{nm, ret, false}); return 1;
    }
    if (n == "sym_bool") {
      std::string nm = freshName(s, str(0));
      Val v = mkBool(C.bool_const(nm.c_str())); s.inputs.push_back(Input{nm, v, false});
      ret = castInt(Instruction::ZExt, v, rt->getIntegerBitWidth()); return 1;
    }
    if (n == "sym_double") { // any double
      std::string nm = freshName(s, str(0));
      ret = mkFpE(C.constant(nm.c_str(), fpSort(64)), 64); s.inputs.push_back(Input{nm, ret, true});
      if (FPM == FP_IEEE) { // finite
        z3::expr b1(C, Z3_mk_fpa_is_nan(C, ret.e)), b2(C, Z3_mk_fpa_is_infinite(C, ret.e));
        return assume(s, !b1 && !b2);
      }
      return 1;
    }
    if (n == "sym_param") {
      auto it = OPT.params.find(str(0));
      ret = it == OPT.params.end() ? a[1] : mkInt(it->second, 32);
      if (it == OPT.params.end() && a[1].conc) OPT.params[str(0)] = (int)sext64(a[1].c, 32);
      return 1;
    }
    if (n == "sym_assume") return assume(s, ex(toBoolV(a[0])));
    if (n == "sym_check") { s.checks.push_back(Pending{ex(toBoolV(a[0])), str(1)}); return 1; }
    if (n == "sym_reach") { s.reach.insert(str(0)); return 1; }
    if (n == "sym_observe") { s.obs.push_back({freshName(s, "obs:" + str(0)), a[1]}); return 1; }
    if (n == "sym_observe_d") { s.obs.push_back({freshName(s, "obs:" + str(0)), a[1]}); return 1; }
    if (n == "sym_stop") { endPath(s, "ok"); return 0; }
    if (n == "sym_abort_ok") { s.abortSet = true; s.abortOk = ex(toBoolV(a[0])); s.abortId = str(1); return 1; }
    if (n == "sym_abort_default") { s.abortSet = false; return 1; }
    if (n == "sym_is_native") { ret = mkInt(0, rt->getIntegerBitWidth()); return 1; }
    if (n == "sym_region") { // ptr, elemsize, count, zero, fp, name
      int obj; int64_t off, es, cnt, z, fp;
      if (!singlePtr(a[0], obj, off) || !concArg(a[1], es) || !concArg(a[2], cnt) || !concArg(a[3], z) || !concArg(a[4], fp)) { incomplete(s, "sym_region"); return 0; }
      Region r; r.start = off; r.es = es; r.cnt = cnt; r.zero = z; r.fp = fp; r.name = str(5); r.log = std::make_shared<std::vector<RegStore>>();
      Obj &o = wobj(s, obj);
      std::vector<Cell> out; for (auto &c : o.cells) if (c.off + c.size <= off || c.off >= off + es * cnt) out.push_back(c);
      o.cells.swap(out); o.regs.push_back(r);
      return 1;
    }
    if (n == "sym_uf" || n == "sym_ufd") { // name, n, args (long array)
      int64_t k; if (!concArg(a[1], k)) return 0;
      z3::expr_vector ev(C); z3::sort_vector sv(C);
      for (int64_t i = 0; i < k; i++) {
        Val v; if (!loadVal(p, gepVal(s, a[2], mkInt(8 * i, 64)), Type::getInt64Ty(ci->getContext()), v)) return 0;
        v = asIntBits(s, v);
        z3::expr e = bx(v); if (v.w > 32 && FPM == FP_GROUP) e = v.conc ? C.bv_val((int)v.c, 32) : (e.is_app() && e.decl().decl_kind() == Z3_OP_ZERO_EXT && e.arg(0).get_sort().bv_size() <= 32 ? z3::zext(e.arg(0), 32 - e.arg(0).get_sort().bv_size()) : e.extract(31, 0).simplify());
        ev.push_back(e); sv.push_back(e.get_sort());
      }
      bool d = n == "sym_ufd";
      z3::func_decl f = C.function(("u!" + str(0)).c_str(), sv, d ? fpSort(64) : C.bv_sort(64));
      ret = d ? mkFpE(f(ev), 64) : mkIntE(f(ev));
      return 1;
    }
    if (n == "sym_dbits") { // identity of a double as an integer
      Val v = a[0];
      if (FPM == FP_GROUP) { z3::expr e = fx(v); ret = mkIntE(z3::zext(e, 48)); return 1; }
      ret = asIntBits(s, v); return 1;
    }
    if (n == "sym_modpart") { ret = grpPart(a[0], 0); return 1; }
    if (n == "sym_phasepart") { ret = grpPart(a[0], 1); return 1; }
    if (n == "sym_deq") { ret = castInt(Instruction::ZExt, mkBool(a[0].conc && a[1].conc ? C.bool_val(a[0].d == a[1].d) : FPM == FP_GROUP ? grpEq(fx(a[0]), fx(a[1])) : zeq(fx(a[0]), fx(a[1]))), rt->getIntegerBitWidth()); return 1; }
    if (n == "sym_draw_count") { ret = mkInt(s.draws.size(), 32); return 1; }
    if (n == "sym_draw_kind" || n == "sym_draw_cmp") {
      int64_t i; if (!concArg(a[0], i) || i < 0 || i >= (int64_t)s.draws.size()) { ret = mkInt(-1, 32); return 1; }
      ret = mkInt(n == "sym_draw_kind" ? s.draws[i].kind : s.draws[i].cmp, 32); return 1;
    }
    if (n == "sym_draw_cmpval") { int64_t i; if (!concArg(a[0], i) || i < 0 || i >= (int64_t)s.draws.size() || !s.draws[i].cmp) { ret = mkFp(0, 64); return 1; } ret = mkFpE(s.draws[i].cmpOther, 64); return 1; }
    if (n == "sym_lt") { // numeric comparison through the executor's own fcmp
      ret = castInt(Instruction::ZExt, fcmpV(CmpInst::FCMP_OLT, a[0], a[1]), rt->getIntegerBitWidth()); return 1; }
    if (n == "sym_draw_urn") { int64_t i; if (!concArg(a[0], i) || i < 0 || i >= (int64_t)s.draws.size() || s.draws[i].v.k != Val::FP) { ret = mkFp(0, 64); return 1; } ret = s.draws[i].v; return 1; }
    if (n == "sym_draw_int") { int64_t i; if (!concArg(a[0], i) || i < 0 || i >= (int64_t)s.draws.size() || s.draws[i].v.k != Val::INT) { ret = mkInt(0, 32); return 1; } ret = s.draws[i].v; return 1; }
    if (n == "sym_draw_clear") { s.draws.clear(); return 1; }
    if (n == "sym_size") { int obj; int64_t off; ret = mkInt(singlePtr(a[0], obj, off) && s.mem.count(obj) ? s.mem[obj]->size - off : 0, 64); return 1; }
    if (n == "sym_note") { s.notes.push_back(str(0)); return 1; }
    incomplete(s, "unknown intrinsic " + n); return 0;
  }
  if (n == "!urn") {
    std::string nm = freshName(s, "draw!urn");
    Val v = mkFpE(C.constant(nm.c_str(), fpSort(64)), 64);
    s.draws.push_back(Draw(1, v, Val()));
    ret = v;
    if (FPM == FP_GROUP) return assume(s, z3::ult(valOf(v.e), C.bv_val(0x4000, 16)));
    return assume(s, zand(ex(fcmpV(CmpInst::FCMP_OGE, v, mkFp(0, 64))), ex(fcmpV(CmpInst::FCMP_OLT, v, mkFp(1, 64)))));
  }
  if (n == "!irn") {
    int64_t l1 = INT32_MIN, h1, l2, h2 = INT32_MAX; rangeOf(ex(a[1]), l1, h1); rangeOf(ex(a[2]), l2, h2);
    if (l1 > h2) { l1 = INT32_MIN; h2 = INT32_MAX; }
    Val v = boundedInt(freshName(s, "draw!irn"), l1, h2);
    s.draws.push_back(Draw(0, v, a[1]));
    ret = v;
    Val bad = icmpInt(CmpInst::ICMP_SGT, a[1], a[2]);
    if (!isFalse(ex(bad)) && feasible(s, ex(bad)) != z3::unsat) {
      // empty range: documented contract violated by the caller
      if (!(bad.conc && bad.c)) reportError(s, "rng-range", ex(bad), "random integer drawn from an empty range in " + p.fr.fi->dem);
      else { reportError(s, "rng-range", C.bool_val(true), "random integer drawn from an empty range in " + p.fr.fi->dem); return 0; }
      if (!assume(s, znot(ex(bad)))) return 0;
    }
    if (!assume(s, zand(ex(a[1]) <= v.e, v.e <= ex(a[2])))) return 0;
    if (h2 - l1 < OPT.forkDraws) for (int64_t x = l1; x <= h2; x++) alts.push_back(Alt(zeq(v.e, C.bv_val((int)x, 32)), mkInt(x, 32)));
    return 1;
  }
  if (n == "!mt") {
    std::string nm = freshName(s, "draw!raw");
    z3::expr e = C.bv_const(nm.c_str(), 32);
    Val v = mkIntE(e); s.draws.push_back(Draw(2, v, Val()));
    ret = castInt(Instruction::ZExt, v, rt->getIntegerBitWidth());
    return 1;
  }
  if (n == "!mod" || n == "!mod2" || n == "!phase" || n == "!conjugate") {
    int ai = n == "!mod" || n == "!mod2" ? 0 : (rt->isVoidTy() ? 1 : 0);
    Val re; 
    if (!loadVal(p, a[ai], Type::getDoubleTy(ci->getContext()), re)) return 0;
    if (n == "!mod") { ret = grpPart(re, 0); return 1; }
    if (n == "!mod2") { Val m = grpPart(re, 0); ret = binFp(Instruction::FMul, m, m); return 1; }
    Val r = grpPart(re, n == "!phase" ? 1 : 2);
    if (rt->isVoidTy()) { // sret
      if (!storeVal(p, a[0], Type::getDoubleTy(ci->getContext()), r)) return 0;
      return storeVal(p, gepVal(s, a[0], mkInt(8, 64)), Type::getDoubleTy(ci->getContext()), mkFp(0, 64));
    }
    ret.k = Val::AGG; ret.a = std::make_shared<std::vector<Val>>();
    ret.a->push_back(r); ret.a->push_back(mkFp(0, 64));
    return 1;
  }
  if (n == "!cdiv") { // Complex &operator/=(this, const Complex &): moduli divide, phases subtract
    Val x, y; Type *dt = Type::getDoubleTy(ci->getContext());
    if (!loadVal(p, a[0], dt, x) || !loadVal(p, a[1], dt, y)) return 0;
    Val m = binFp(Instruction::FDiv, grpPart(x, 0), grpPart(y, 0));
    Val ph = binFp(Instruction::FMul, grpPart(x, 1), grpPart(grpPart(y, 1), 2));
    if (!storeVal(p, a[0], dt, binFp(Instruction::FMul, m, ph))) return 0;
    if (!storeVal(p, gepVal(s, a[0], mkInt(8, 64)), dt, mkFp(0, 64))) return 0;
    ret = a[0]; return 1;
  }
  // ---- memory
  if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "calloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmRKSt9nothrow_t") {
    Val sz = a[0];
    if (n == "calloc") sz = binInt(Instruction::Mul, a[0], a[1]);
    int64_t x;
    if (!concArg(sz, x)) {
      std::vector<int64_t> vals;
      if (!enumOff(s, C.bool_val(true), sz.e, vals) || vals.empty()) { incomplete(s, "symbolic allocation size"); return 0; }
      for (auto v : vals) {
        int id = newObj(s, v, "heap"); s.mem[id]->heap = true;
        if (n == "calloc") s.mem[id]->fills.push_back(Fill{0, v, 0});
        alts.push_back(Alt(ex(icmpInt(CmpInst::ICMP_EQ, sz, mkInt(v, 64))), ptrTo(id, 0)));
      }
      return 1;
    }
    int id = newObj(s, x, "heap"); s.mem[id]->heap = true;
    if (n == "calloc") s.mem[id]->fills.push_back(Fill{0, x, 0});
    ret = ptrTo(id, 0); return 1;
  }
  if (starts(n, "_ZdlPv") || starts(n, "_ZdaPv") || n == "free") {
    if (a[0].k == Val::PTR && a[0].p->size() == 1) {
      int obj = (*a[0].p)[0].obj;
      if (obj == 0) return 1;
      auto it = s.mem.find(obj);
      if (it == s.mem.end() || it->second->freed || !it->second->heap) { reportError(s, "memory-safety", C.bool_val(true), "invalid free in " + p.fr.fi->dem); return 0; }
      wobj(s, obj).freed = true;
    }
    return 1;
  }
  if (n == "memcpy" || n == "memmove" || n == "memset" || n == "memcmp" || n == "bcmp") return 2;
  // ---- math
  static const std::map<std::string, std::string> mathm = {
    {"fabs", "fabs"}, {"floor", "floor"}, {"ceil", "ceil"}, {"sqrt", "sqrt"}, {"exp", "exp"}, {"log", "log"}, {"sin", "sin"}, {"cos", "cos"}, {"atan2", "atan2"}, {"pow", "pow"}, {"round", "round"}, {"trunc", "trunc"}, {"tan", "tan"}, {"fmin", "fmin"}, {"fmax", "fmax"}, {"rint", "rint"}, {"hypot", "hypot"}};
  auto mi = mathm.find(n);
  if (mi != mathm.end()) {
    if (n == "hypot") {
      Val q = binFp(Instruction::FAdd, binFp(Instruction::FMul, a[0], a[0]), binFp(Instruction::FMul, a[1], a[1]));
      ret = mathFn("sqrt", {q}); return 1;
    }
    if (FPM == FP_GROUP && n == "sqrt" && !a[0].conc) { z3::func_decl f = C.function("f!sqrt", C.bv_sort(16), C.bv_sort(16)); ret = mkFpE(f(fx(a[0])), 64); return 1; }
    ret = mathFn(mi->second, a); return 1;
  }
  if (n == "lround" || n == "lrint") { ret = fpToInt(mathFn("round", {a[0]}), true, 64); return 1; }
  if (n == "abs") { Val neg = binInt(Instruction::Sub, mkInt(0, a[0].w), a[0]); bool ok = true; ret = iteVal(ex(icmpInt(CmpInst::ICMP_SLT, a[0], mkInt(0, a[0].w))), neg, a[0], ok); return 1; }
  // ---- control
  if (n == "__cxa_throw" || n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail" || n == "_ZSt9terminatev" || starts(n, "_ZSt20__throw") || starts(n, "_ZSt16__throw") || starts(n, "_ZSt17__throw") || starts(n, "_ZSt19__throw") || starts(n, "_ZSt24__throw") || starts(n, "_ZSt28__throw") || starts(n, "_ZSt25__throw") || n == "__cxa_rethrow" || has(fi.dem, "std::__throw_")) { doAbort(s, n); return 0; }
  if (n == "__cxa_allocate_exception") { int id = newObj(s, 256, "exc"); s.mem[id]->known = false; ret = ptrTo(id, 0); return 1; }
  if (n == "__cxa_free_exception" || n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_atexit" || n == "__cxa_guard_release" || n == "__cxa_guard_abort") { if (rt->isIntegerTy()) ret = mkInt(0, rt->getIntegerBitWidth()); else if (rt->isPointerTy()) ret = nullPtr(); return 1; }
  if (n == "__cxa_guard_acquire") { ret = mkInt(1, 32); return 1; }
  if (n == "strlen") { ret = mkInt(str(0).size(), 64); return 1; }
  return 2;
}
