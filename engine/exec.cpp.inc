// function execution and path merging (included by symex.cpp)
static void runFn(Function *F, std::vector<Val> args, State st, std::vector<Outcome> &outs, int depth);

static bool mergeable(const State &a, const State &b) {
  if (a.draws.size() != b.draws.size() || a.checks.size() != b.checks.size() || a.obs.size() != b.obs.size() || a.inputs.size() != b.inputs.size()) return false;
  if (a.sig != b.sig || a.names != b.names || a.reach != b.reach || a.abortSet != b.abortSet) return false;
  for (size_t i = 0; i < a.draws.size(); i++) if (a.draws[i].cmp != b.draws[i].cmp || !sameVal(a.draws[i].v, b.draws[i].v)) return false;
  for (size_t i = 0; i < a.checks.size(); i++) if (!z3::eq(a.checks[i].cond, b.checks[i].cond)) return false;
  for (size_t i = 0; i < a.obs.size(); i++) if (!sameVal(a.obs[i].second, b.obs[i].second)) return false;
  return true;
}
// merge b into a; budget on differing cells
static bool mergeState(State &a, State &b, Val &ra, const Val &rb, int budget) {
  if (a.exc || b.exc || a.caught.size() != b.caught.size()) return false;
  if (!mergeable(a, b)) return false;
  // globals come into being at their first use: give the side that has not used one yet its initial contents
  { std::vector<int> na, nb;
    for (auto &pr : a.mem) if (pr.first >= GLOBAL_BASE && !b.mem.count(pr.first)) nb.push_back(pr.first);
    for (auto &pr : b.mem) if (pr.first >= GLOBAL_BASE && !a.mem.count(pr.first)) na.push_back(pr.first);
    for (int id : nb) { auto it = GLOBAL_OF.find(id); if (it != GLOBAL_OF.end()) globalObj(b, it->second); }
    for (int id : na) { auto it = GLOBAL_OF.find(id); if (it != GLOBAL_OF.end()) globalObj(a, it->second); } }
  size_t k = 0;
  while (k < a.pc.size() && k < b.pc.size() && z3::eq(a.pc[k], b.pc[k])) k++;
  z3::expr A = C.bool_val(true), B = C.bool_val(true);
  for (size_t i = k; i < a.pc.size(); i++) A = zand(A, a.pc[i]);
  for (size_t i = k; i < b.pc.size(); i++) B = zand(B, b.pc[i]);
  struct Chg { int obj; int64_t off; int64_t size; Val v; };
  std::vector<Chg> chg; struct RC { int obj, reg; std::shared_ptr<std::vector<RegStore>> log; }; std::vector<RC> rchg; std::vector<std::pair<int, std::vector<Cell>>> relay; std::vector<std::pair<int, ObjP>> addObj;
  for (auto &pr : a.mem) {
    auto it = b.mem.find(pr.first);
    if (it == b.mem.end()) continue; // object created lazily on one side only
    if (pr.second == it->second) continue;
    const Obj *x = pr.second.get(), *y = it->second.get();
    if (x->freed != y->freed || x->size != y->size || x->fills.size() != y->fills.size() || x->regs.size() != y->regs.size()) return false;
    for (size_t i = 0; i < x->fills.size(); i++) if (x->fills[i].lo != y->fills[i].lo || x->fills[i].hi != y->fills[i].hi || x->fills[i].byte != y->fills[i].byte) return false;
    for (size_t i = 0; i < x->regs.size(); i++) {
      auto &lx = *x->regs[i].log, &ly = *y->regs[i].log;
      if (x->regs[i].log == y->regs[i].log) continue;
      size_t c = 0;
      while (c < lx.size() && c < ly.size() && sameVal(lx[c].idx, ly[c].idx) && sameVal(lx[c].val, ly[c].val) && z3::eq(lx[c].guard, ly[c].guard)) c++;
      if (c == lx.size() && c == ly.size()) continue;
      if ((int)(lx.size() + ly.size() - 2 * c) > budget) return false;
      auto nl = std::make_shared<std::vector<RegStore>>(lx.begin(), lx.begin() + c);
      for (size_t j = c; j < lx.size(); j++) { nl->push_back(lx[j]); nl->back().guard = zand(lx[j].guard, A); }
      for (size_t j = c; j < ly.size(); j++) { nl->push_back(ly[j]); nl->back().guard = zand(ly[j].guard, znot(A)); }
      rchg.push_back({pr.first, (int)i, nl});
    }
    bool same = x->cells.size() == y->cells.size();
    for (size_t i = 0; same && i < x->cells.size(); i++) same = x->cells[i].off == y->cells[i].off && x->cells[i].size == y->cells[i].size;
    Obj X, Y;
    if (!same) {
      X = *x; Y = *y; x = &X; y = &Y;
      for (auto &c : Y.cells) splitCells(a, X, c.off, c.size);
      for (auto &c : X.cells) splitCells(a, Y, c.off, c.size);
      // a cell absent on one side holds that side's fill byte or nothing at all
      auto complete = [&](Obj &P, const Obj &Q) {
        for (auto &c : Q.cells) {
          size_t i = lbCell(P, c.off);
          if (i < P.cells.size() && P.cells[i].off == c.off) continue;
          Cell n; n.off = c.off; n.size = c.size; bool cov = false, part = false;
          for (int k = (int)P.fills.size() - 1; k >= 0 && !cov && !part; k--) {
            auto &f = P.fills[k];
            if (f.lo <= c.off && c.off + c.size <= f.hi) { cov = true; uint64_t v = 0; for (int b = 0; b < 8; b++) v = v << 8 | f.byte; if (c.size > 8) part = true; n.v = viewAs(a, mkInt(v, c.size * 8), TD{c.v.k == Val::UNDEF ? Val::INT : c.v.k, c.v.k == Val::FP ? c.v.w : (unsigned)c.size * 8, c.size}); }
            else if (f.lo < c.off + c.size && c.off < f.hi) part = true;
          }
          if (part) return false;
          if (!cov && (c.v.k == Val::INT || c.v.k == Val::FP)) n.v = freshVal(a, TD{c.v.k, c.v.w, c.size}, "uninit!m" + std::to_string(P.id) + "!" + std::to_string(c.off));
          P.cells.insert(P.cells.begin() + i, n);
        }
        return true;
      };
      if (!complete(X, Y) || !complete(Y, X)) return false;
      if (X.cells.size() != Y.cells.size()) return false;
      relay.push_back({pr.first, X.cells});
    }
    for (size_t i = 0; i < x->cells.size(); i++) {
      auto &p = x->cells[i], &q = y->cells[i];
      if (p.off != q.off || p.size != q.size) return false;
      if (sameVal(p.v, q.v)) continue;
      if (p.v.k == Val::UNDEF) { chg.push_back({pr.first, p.off, p.size, q.v}); continue; }
      if (q.v.k == Val::UNDEF) continue;
      bool ok = true; Val v = iteVal(A, p.v, q.v, ok);
      if (!ok) return false;
      chg.push_back({pr.first, p.off, p.size, v});
      if ((int)chg.size() > budget) return false;
    }
  }
  bool ok = true;
  Val r = iteVal(A, ra, rb, ok);
  if (!ok) return false;
  for (auto &pr : b.mem) if (!a.mem.count(pr.first)) addObj.push_back(pr);
  for (auto &rl : relay) wobj(a, rl.first).cells = rl.second;
  for (auto &c : rchg) wobj(a, c.obj).regs[c.reg].log = c.log;
  for (auto &c : chg) {
    Obj &o = wobj(a, c.obj); size_t i = lbCell(o, c.off); o.cells[i].v = c.v;
  }
  for (auto &o : addObj) a.mem[o.first] = o.second;
  a.pc.resize(k, z3::expr(C));
  z3::expr AB = zor(A, B);
  if (!isTrue(AB)) { z3::expr simp = AB.simplify(); if (!isTrue(simp)) a.pc.push_back(AB); }
  if (!a.mdl) a.mdl = b.mdl;
  ra = r;
  ST.merges++;
  return true;
}
static void mergeOutcomes(std::vector<Outcome> &outs, size_t from) {
  for (size_t i = from; i < outs.size(); i++)
    for (size_t j = i + 1; j < outs.size();) {
      if (mergeState(outs[i].st, outs[j].st, outs[i].ret, outs[j].ret, OPT.mergeCells)) { outs.erase(outs.begin() + j); }
      else j++;
    }
}
static void noteCmp(State &s, const Val &a, const Val &b) {
  for (auto &d : s.draws) if (d.kind == 1) {
    if (a.k == Val::FP && !a.conc && z3::eq(a.e, d.v.e)) { d.cmp = true; d.cmpOther = fx(b); }
    else if (b.k == Val::FP && !b.conc && z3::eq(b.e, d.v.e)) { d.cmp = true; d.cmpOther = fx(a); }
  }
}
static Val elementwise2(const std::function<Val(const Val &, const Val &)> &f, const Val &a, const Val &b) {
  if (a.k == Val::AGG && b.k == Val::AGG) {
    Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < a.a->size(); i++) r.a->push_back(elementwise2(f, (*a.a)[i], (*b.a)[i]));
    return r;
  }
  return f(a, b);
}
static Val elementwise1(const std::function<Val(const Val &)> &f, const Val &a) {
  if (a.k == Val::AGG) {
    Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>();
    for (auto &x : *a.a) r.a->push_back(elementwise1(f, x));
    return r;
  }
  return f(a);
}
static Val toI(State &s, const Val &v, unsigned w) {
  if (v.k == Val::INT) return v;
  if (v.k == Val::UNDEF) return mkInt(0, w);
  Val r = asIntBits(s, v);
  if (r.k == Val::INT && r.w != w) r = castInt(r.w > w ? Instruction::Trunc : Instruction::ZExt, r, w);
  return r;
}
static Val toF(State &s, const Val &v, unsigned w) {
  if (v.k == Val::FP) return v;
  if (v.k == Val::UNDEF) return mkFp(0, w);
  return viewAs(s, v, TD{Val::FP, w, w / 8});
}
static Val ptrCmp(State &s, unsigned pred, Val a, Val b) {
  a = viewAs(s, a, TD{Val::PTR, 64, 8}); b = viewAs(s, b, TD{Val::PTR, 64, 8});
  if (a.k != Val::PTR || b.k != Val::PTR) return freshVal(s, TD{Val::INT, 1, 1}, "havoc!pcmp");
  if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
    z3::expr e = C.bool_val(false);
    for (auto &x : *a.p) for (auto &y : *b.p)
      if (x.obj == y.obj) e = zor(e, zand(zand(x.cond, y.cond), ex(icmpInt(CmpInst::ICMP_EQ, x.off, y.off))));
    return mkBool(pred == CmpInst::ICMP_EQ ? e : znot(e));
  }
  z3::expr e = C.bool_val(false);
  for (auto &x : *a.p) for (auto &y : *b.p) {
    Val ax = binInt(Instruction::Add, mkInt((uint64_t)(uint32_t)x.obj << 32, 64), x.off), ay = binInt(Instruction::Add, mkInt((uint64_t)(uint32_t)y.obj << 32, 64), y.off);
    e = zor(e, zand(zand(x.cond, y.cond), ex(icmpInt(pred, ax, ay))));
  }
  return mkBool(e);
}
static Val gepInstr(Path &p, GetElementPtrInst *g) {
  Val base = get(p, g->getPointerOperand());
  Val off = mkInt(0, 64);
  for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
    Val idx = get(p, gi.getOperand());
    if (auto *st = gi.getStructTypeOrNull()) {
      off = binInt(Instruction::Add, off, mkInt(DL->getStructLayout(st)->getElementOffset(idx.c), 64));
    } else {
      int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
      idx = toI(p.st, idx, 64);
      if (idx.w != 64) idx = castInt(Instruction::SExt, idx, 64);
      off = binInt(Instruction::Add, off, binInt(Instruction::Mul, idx, mkInt(sz, 64)));
    }
  }
  return gepVal(p.st, base, off);
}
static void enterBlock(Path &p, BasicBlock *to) {
  BasicBlock *from = p.fr.bb;
  std::vector<std::pair<const Value *, Val>> ph;
  auto it = to->begin();
  for (; auto *phi = dyn_cast<PHINode>(&*it); ++it) ph.push_back({phi, get(p, phi->getIncomingValueForBlock(from))});
  for (auto &x : ph) setv(p, x.first, x.second);
  p.fr.prev = from; p.fr.bb = to; p.fr.ip = it;
}
// 1 continue, 0 path ended
static int memIntrinsic(Path &p, const std::string &kind, const std::vector<Val> &a) {
  State &s = p.st; int64_t n;
  Val ln = a[2];
  if (!concArg(ln, n)) {
    std::vector<int64_t> v;
    if (!enumOff(s, C.bool_val(true), ln.e, v) || v.size() != 1) { incomplete(s, "symbolic " + kind + " length in " + p.fr.fi->dem); return 0; }
    n = v[0];
  }
  if (n == 0) return 1;
  std::vector<Acc> d, q;
  if (!resolve(p, a[0], n, true, d)) return 0;
  if (kind == "memset") {
    Val b = a[1];
    for (auto &x : d) {
      if (b.conc && isTrue(x.cond)) {
        Obj &o = wobj(s, x.obj);
        splitCells(s, o, x.off, n);
        std::vector<Cell> out; for (auto &c : o.cells) if (!(c.off >= x.off && c.off + c.size <= x.off + n)) out.push_back(c);
        o.cells.swap(out); o.fills.push_back(Fill{x.off, x.off + n, (uint8_t)b.c});
        for (auto &r : o.regs) if (r.start >= x.off && r.start + r.es * r.cnt <= x.off + n && b.c == 0) { r.zero = true; r.log = std::make_shared<std::vector<RegStore>>(); }
      } else for (int64_t i = 0; i < n; i++) storeConc(s, x.obj, x.off + i, 1, b, x.cond);
    }
    return 1;
  }
  if (!resolve(p, a[1], n, false, q)) return 0;
  if (d.size() == 1 && q.size() == 1 && !d[0].region && !q[0].region) { copyRange(s, d[0].obj, d[0].off, q[0].obj, q[0].off, n, C.bool_val(true)); return 1; }
  for (auto &x : d) for (auto &y : q) {
    if (x.region || y.region) { // one element
      TD td{Val::INT, (unsigned)n * 8, n};
      Val v = y.region ? regionRead(s, s.mem[y.obj]->regs[y.ri], y.idx) : loadConc(s, y.obj, y.off, td);
      if (x.region) {
        Obj &o = wobj(s, x.obj); auto nl = std::make_shared<std::vector<RegStore>>(*o.regs[x.ri].log);
        nl->push_back(RegStore(x.idx, v, zand(x.cond, y.cond))); o.regs[x.ri].log = nl;
      } else storeConc(s, x.obj, x.off, n, v, zand(x.cond, y.cond));
      continue;
    }
    copyRange(s, x.obj, x.off, y.obj, y.off, n, zand(x.cond, y.cond));
  }
  return 1;
}
static bool TIMEUP() {
  if (ST.timedOut) return true;
  if (elapsed() > OPT.timeLimit) { ST.timedOut = true; ST.checks["engine-complete"].unknown++; ST.errs["incomplete: time limit"]++; }
  return ST.timedOut;
}
// ---------------------------------------------------------------- exceptions
static int typeNo(const GlobalVariable *t) { static std::map<const GlobalVariable *, int> m; auto it = m.find(t); if (it == m.end()) it = m.emplace(t, (int)m.size() + 1).first; return it->second; }
static bool isA(const GlobalVariable *t, const GlobalVariable *b) {
  if (!t) return false;
  if (t == b) return true;
  if (!t->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(t->getInitializer());
  if (!cs || cs->getNumOperands() < 3) return false;
  return isA(dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts()), b);
}
// selector the landing pad receives for the exception in flight; -1: it does not stop here
static int landing(State &s, const LandingPadInst *lp) {
  if (!s.exc) return -1;
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (!lp->isCatch(i)) return 0;
    auto *c = lp->getClause(i)->stripPointerCasts();
    if (isa<ConstantPointerNull>(c)) return 1 << 20;
    auto *g = dyn_cast<GlobalVariable>(c);
    if (g && isA(s.exc->type, g)) return typeNo(g);
  }
  return lp->isCleanup() ? 0 : -1;
}
static void runFn(Function *F, std::vector<Val> args, State st0, std::vector<Outcome> &outs, int depth) {
  FnInfo &fi = info(F);
  ST.fns[fi.dem] = fi.instrs;
  if (depth > 200) { incomplete(st0, "recursion bound in " + fi.dem); return; }
  std::vector<Path> wl;
  {
    Path p; p.st = std::move(st0); p.fr.fi = &fi; p.fr.regs.resize(fi.n);
    for (unsigned i = 0; i < F->arg_size(); i++) if (i < args.size()) p.fr.regs[i] = args[i];
    p.fr.bb = &F->getEntryBlock(); p.fr.prev = nullptr; p.fr.ip = p.fr.bb->begin();
    wl.push_back(std::move(p));
  }
  size_t base = outs.size();
  auto ret = [&](Path &p, const Val &v) {
    for (int a : p.fr.allocas) p.st.mem.erase(a);
    outs.push_back(Outcome{std::move(p.st), v});
  };
  while (!wl.empty()) {
    Path p = std::move(wl.back()); wl.pop_back();
    bool live = true;
    while (live) {
      if (TIMEUP()) return;
      Instruction *I = &*p.fr.ip;
      ++p.fr.ip;
      ST.instrs++;
      if (++p.st.steps > OPT.maxSteps) { incomplete(p.st, "step bound in " + fi.dem); live = false; break; }
      State &s = p.st;
      unsigned op = I->getOpcode();
      Type *ty = I->getType();
      if (auto *bo = dyn_cast<BinaryOperator>(I)) {
        Val a = get(p, I->getOperand(0)), b = get(p, I->getOperand(1));
        if (ty->getScalarType()->isFloatingPointTy()) {
          unsigned w = ty->getScalarType()->isFloatTy() ? 32 : 64;
          setv(p, I, elementwise2([&](const Val &x, const Val &y) { return binFp(op, toF(s, x, w), toF(s, y, w)); }, a, b));
        } else {
          unsigned w = ty->getScalarType()->getIntegerBitWidth();
          if ((op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem) && a.k != Val::AGG) {
            Val bb = toI(s, b, w);
            z3::expr z = ex(icmpInt(CmpInst::ICMP_EQ, bb, mkInt(0, w)));
            if (!isFalse(z) && feasible(s, z) != z3::unsat) {
              reportError(s, "memory-safety", z, "division by zero in " + fi.dem);
              if (!assume(s, znot(z))) { live = false; break; }
            }
          }
          setv(p, I, elementwise2([&](const Val &x, const Val &y) { return binInt(op, toI(s, x, w), toI(s, y, w)); }, a, b));
        }
        continue;
      }
      switch (op) {
      case Instruction::FNeg: setv(p, I, elementwise1([&](const Val &x) { return fnegV(toF(s, x, 64)); }, get(p, I->getOperand(0)))); break;
      case Instruction::Alloca: {
        auto *ai = cast<AllocaInst>(I);
        int64_t n = 1; if (ai->isArrayAllocation()) { Val c = get(p, ai->getArraySize()); if (!concArg(c, n)) { incomplete(s, "symbolic alloca"); live = false; break; } }
        int id = newObj(s, DL->getTypeAllocSize(ai->getAllocatedType()) * n, "stack:" + fi.dem);
        s.mem[id]->stack = true; p.fr.allocas.push_back(id);
        setv(p, I, ptrTo(id, 0)); break;
      }
      case Instruction::Load: { Val v; if (!loadVal(p, get(p, I->getOperand(0)), ty, v)) { live = false; break; } setv(p, I, v); break; }
      case Instruction::Store: { if (!storeVal(p, get(p, I->getOperand(1)), I->getOperand(0)->getType(), get(p, I->getOperand(0)))) live = false; break; }
      case Instruction::GetElementPtr: setv(p, I, gepInstr(p, cast<GetElementPtrInst>(I))); break;
      case Instruction::ICmp: {
        Val a = get(p, I->getOperand(0)), b = get(p, I->getOperand(1));
        unsigned pr = cast<ICmpInst>(I)->getPredicate();
        if (I->getOperand(0)->getType()->isPointerTy() || ((a.k == Val::PTR || b.k == Val::PTR) && a.k != Val::AGG)) setv(p, I, ptrCmp(s, pr, a, b));
        else { unsigned w = I->getOperand(0)->getType()->getScalarType()->getIntegerBitWidth(); setv(p, I, elementwise2([&](const Val &x, const Val &y) { return icmpInt(pr, toI(s, x, w), toI(s, y, w)); }, a, b)); }
        break;
      }
      case Instruction::FCmp: {
        Val a = get(p, I->getOperand(0)), b = get(p, I->getOperand(1));
        noteCmp(s, a, b);
        unsigned pr = cast<FCmpInst>(I)->getPredicate();
        setv(p, I, elementwise2([&](const Val &x, const Val &y) { return fcmpV(pr, toF(s, x, 64), toF(s, y, 64)); }, a, b));
        break;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
        unsigned w = ty->getScalarType()->getIntegerBitWidth(), w0 = I->getOperand(0)->getType()->getScalarType()->getIntegerBitWidth();
        setv(p, I, elementwise1([&](const Val &x) { return castInt(op, toI(s, x, w0), w); }, get(p, I->getOperand(0)))); break;
      }
      case Instruction::SIToFP: case Instruction::UIToFP: { unsigned w0 = I->getOperand(0)->getType()->getScalarType()->getIntegerBitWidth(); setv(p, I, elementwise1([&](const Val &x) { return intToFp(toI(s, x, w0), op == Instruction::SIToFP, ty->getScalarType()->isFloatTy() ? 32 : 64); }, get(p, I->getOperand(0)))); break; }
      case Instruction::FPToSI: case Instruction::FPToUI: setv(p, I, elementwise1([&](const Val &x) { return fpToInt(toF(s, x, 64), op == Instruction::FPToSI, ty->getScalarType()->getIntegerBitWidth()); }, get(p, I->getOperand(0)))); break;
      case Instruction::FPExt: case Instruction::FPTrunc: {
        Val a = get(p, I->getOperand(0)); 
        unsigned w = ty->isFloatTy() ? 32 : 64;
        if (a.conc) setv(p, I, mkFp(a.d, w));
        else if (FPM == FP_IEEE) setv(p, I, mkFpE(z3::expr(C, Z3_mk_fpa_to_fp_float(C, z3::expr(C, Z3_mk_fpa_rne(C)), fx(a), fpSort(w))), w));
        else { a.w = w; setv(p, I, a); }
        break;
      }
      case Instruction::PtrToInt: setv(p, I, asIntBits(s, get(p, I->getOperand(0)))); break;
      case Instruction::IntToPtr: setv(p, I, viewAs(s, get(p, I->getOperand(0)), TD{Val::PTR, 64, 8})); break;
      case Instruction::BitCast: { Val a = get(p, I->getOperand(0)); if (a.k != Val::AGG && !ty->isVectorTy()) a = viewAs(s, a, tdOf(ty)); setv(p, I, a); break; }
      case Instruction::Freeze: setv(p, I, get(p, I->getOperand(0))); break;
      case Instruction::Select: {
        Val c = get(p, I->getOperand(0)), a = get(p, I->getOperand(1)), b = get(p, I->getOperand(2));
        if (c.k == Val::AGG) { incomplete(s, "vector select"); live = false; break; }
        c = toI(s, c, 1);
        bool ok = true;
        if (a.k != b.k && a.k != Val::UNDEF && b.k != Val::UNDEF) { if (ty->isPointerTy()) { a = viewAs(s, a, tdOf(ty)); b = viewAs(s, b, tdOf(ty)); } else if (ty->isIntegerTy()) { a = toI(s, a, ty->getIntegerBitWidth()); b = toI(s, b, ty->getIntegerBitWidth()); } }
        Val r = iteVal(ex(c), a, b, ok);
        if (!ok) { incomplete(s, "select of unlike values in " + fi.dem); live = false; break; }
        setv(p, I, r); break;
      }
      case Instruction::ExtractValue: {
        Val a = get(p, I->getOperand(0));
        for (unsigned i : cast<ExtractValueInst>(I)->indices()) { if (a.k == Val::AGG && i < a.a->size()) a = Val((*a.a)[i]); else a = Val(); }
        setv(p, I, a); break;
      }
      case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(I);
        Val a = get(p, I->getOperand(0)), b = get(p, I->getOperand(1));
        if (a.k != Val::AGG) a = constVal(s, UndefValue::get(ty));
        std::function<Val(const Val &, unsigned)> ins = [&](const Val &x, unsigned lv) {
          if (lv == iv->getNumIndices()) return b;
          Val r = x; r.a = std::make_shared<std::vector<Val>>(*x.a);
          unsigned ix = iv->getIndices()[lv];
          (*r.a)[ix] = ins((*x.a)[ix], lv + 1); return r;
        };
        setv(p, I, ins(a, 0)); break;
      }
      case Instruction::ExtractElement: {
        Val a = get(p, I->getOperand(0)), i = get(p, I->getOperand(1));
        setv(p, I, a.k == Val::AGG && i.conc && i.c < a.a->size() ? (*a.a)[i.c] : Val()); break;
      }
      case Instruction::InsertElement: {
        Val a = get(p, I->getOperand(0)), b = get(p, I->getOperand(1)), i = get(p, I->getOperand(2));
        if (a.k != Val::AGG) a = constVal(s, UndefValue::get(ty));
        Val r = a; r.a = std::make_shared<std::vector<Val>>(*a.a);
        if (i.conc && i.c < r.a->size()) (*r.a)[i.c] = b;
        setv(p, I, r); break;
      }
      case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(I);
        Val a = get(p, I->getOperand(0)), b = get(p, I->getOperand(1));
        Val r; r.k = Val::AGG; r.a = std::make_shared<std::vector<Val>>();
        for (int m : sv->getShuffleMask()) {
          if (m < 0) r.a->push_back((*a.a)[0]);
          else if (m < (int)a.a->size()) r.a->push_back((*a.a)[m]);
          else r.a->push_back((*b.a)[m - a.a->size()]);
        }
        setv(p, I, r); break;
      }
      case Instruction::Br: {
        auto *br = cast<BranchInst>(I);
        if (br->isUnconditional()) { enterBlock(p, br->getSuccessor(0)); break; }
        Val c = toI(s, get(p, br->getCondition()), 1);
        if (c.conc) { enterBlock(p, br->getSuccessor(c.c ? 0 : 1)); break; }
        z3::expr e = ex(c);
        std::shared_ptr<z3::model> mt, mf;
        auto rt = feasible(s, e, &mt), rf = feasible(s, znot(e), &mf);
        if (rt != z3::unsat && rf != z3::unsat) {
          ST.forks++; ST.states++;
          Path q = p;
          addPc(q.st, znot(e)); q.st.mdl = rf == z3::sat ? mf : nullptr;
          enterBlock(q, br->getSuccessor(1));
          wl.push_back(std::move(q));
          addPc(p.st, e); p.st.mdl = rt == z3::sat ? mt : nullptr;
          enterBlock(p, br->getSuccessor(0));
        } else if (rt != z3::unsat) { enterBlock(p, br->getSuccessor(0)); }
        else if (rf != z3::unsat) { enterBlock(p, br->getSuccessor(1)); }
        else { ST.killed++; live = false; }
        break;
      }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I);
        Val c = toI(s, get(p, sw->getCondition()), sw->getCondition()->getType()->getIntegerBitWidth());
        if (c.conc) {
          BasicBlock *to = sw->getDefaultDest();
          for (auto cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) to = cs.getCaseSuccessor();
          enterBlock(p, to); break;
        }
        z3::expr def = C.bool_val(true);
        std::vector<std::pair<BasicBlock *, z3::expr>> tg;
        for (auto cs : sw->cases()) {
          z3::expr e = ex(icmpInt(CmpInst::ICMP_EQ, c, mkInt(cs.getCaseValue()->getZExtValue(), c.w)));
          def = zand(def, znot(e)); bool f = false;
          for (auto &t : tg) if (t.first == cs.getCaseSuccessor()) { t.second = zor(t.second, e); f = true; }
          if (!f) tg.push_back({cs.getCaseSuccessor(), e});
        }
        { bool f = false; for (auto &t : tg) if (t.first == sw->getDefaultDest()) { t.second = zor(t.second, def); f = true; } if (!f) tg.push_back({sw->getDefaultDest(), def}); }
        std::vector<Path> qs;
        for (auto &t : tg) {
          std::shared_ptr<z3::model> m; auto r = feasible(s, t.second, &m);
          if (r == z3::unsat) continue;
          Path q = p; addPc(q.st, t.second); q.st.mdl = r == z3::sat ? m : nullptr;
          enterBlock(q, t.first); qs.push_back(std::move(q));
        }
        if (qs.empty()) { ST.killed++; live = false; break; }
        ST.forks += qs.size() - 1; ST.states += qs.size() - 1;
        for (size_t i = 1; i < qs.size(); i++) wl.push_back(std::move(qs[i]));
        p = std::move(qs[0]);
        break;
      }
      case Instruction::Ret: {
        Val v; if (I->getNumOperands()) v = get(p, I->getOperand(0));
        ret(p, v); live = false; break;
      }
      case Instruction::Unreachable: incomplete(s, "unreachable executed in " + fi.dem); live = false; break;
      case Instruction::LandingPad: {
        auto *lp = cast<LandingPadInst>(I); int sel = landing(s, lp);
        if (!s.exc || sel < 0) { incomplete(s, "landing pad without exception"); live = false; break; }
        Val ag; ag.k = Val::AGG; ag.a = std::make_shared<std::vector<Val>>(); ag.a->push_back(s.exc->obj); ag.a->push_back(mkInt(sel, 32));
        s.caught.push_back(s.exc); s.exc = nullptr; setv(p, I, ag); break;
      }
      case Instruction::Resume: {
        if (s.caught.empty()) { incomplete(s, "resume without exception"); live = false; break; }
        s.exc = s.caught.back(); s.caught.pop_back(); ret(p, Val()); live = false; break;
      }
      case Instruction::Fence: break;
      case Instruction::Call: case Instruction::Invoke: {
        auto *ci = cast<CallBase>(I);
        Function *cf = ci->getCalledFunction();
        if (!cf) if (auto *al = dyn_cast<GlobalAlias>(ci->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
        if (!cf) cf = dyn_cast<Function>(ci->getCalledOperand()->stripPointerCasts());
        auto cont = [&](Path &q) { if (auto *inv = dyn_cast<InvokeInst>(ci)) enterBlock(q, inv->getNormalDest()); };
        // false: the exception leaves this function
        auto unwind = [&](Path &q) {
          if (auto *inv = dyn_cast<InvokeInst>(ci)) if (landing(q.st, inv->getLandingPadInst()) >= 0) { enterBlock(q, inv->getUnwindDest()); return true; }
          ret(q, Val()); return false;
        };
        if (OPT.exceptions && cf && (cf->getName() == "__cxa_throw" || cf->getName() == "__cxa_rethrow")) {
          if (cf->getName() == "__cxa_throw") {
            auto *ti = dyn_cast<GlobalVariable>(ci->getArgOperand(1)->stripPointerCasts());
            if (!ti) { incomplete(s, "thrown type"); live = false; break; }
            s.exc = std::make_shared<State::Exc>(State::Exc{get(p, ci->getArgOperand(0)), ti});
          } else { if (s.caught.empty()) { incomplete(s, "rethrow"); live = false; break; } s.exc = s.caught.back(); }
          if (!unwind(p)) live = false;
          break;
        }
        if (OPT.exceptions && cf && (cf->getName() == "__cxa_begin_catch" || cf->getName() == "__cxa_get_exception_ptr")) { setv(p, I, get(p, ci->getArgOperand(0))); cont(p); break; }
        if (OPT.exceptions && cf && cf->getName() == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); cont(p); break; }
        if (ci->isInlineAsm()) { incomplete(s, "inline assembly"); live = false; break; }
        if (!cf) {
          Val fp = get(p, ci->getCalledOperand());
          int ob; int64_t of; 
          if (singlePtr(fp, ob, of) && s.mem.count(ob) && s.mem[ob]->name.compare(0, 3, "fn ") == 0) cf = M->getFunction(s.mem[ob]->name.substr(3));
          if (!cf) { incomplete(s, "indirect call in " + fi.dem); live = false; break; }
        }
        if (auto *ii = dyn_cast<IntrinsicInst>(ci)) {
          auto id = ii->getIntrinsicID();
          std::vector<Val> a; for (auto &x : ci->args()) if (!x->getType()->isMetadataTy()) a.push_back(get(p, x)); else a.push_back(Val());
          bool done = true;
          auto mm = [&](unsigned pr, bool first) { unsigned w = ty->getIntegerBitWidth(); a[0] = toI(s, a[0], w); a[1] = toI(s, a[1], w); bool ok = true; setv(p, I, iteVal(ex(icmpInt(pr, a[0], a[1])), a[0], a[1], ok)); };
          switch (id) {
          case Intrinsic::memcpy: case Intrinsic::memmove: if (!memIntrinsic(p, "memcpy", a)) live = false; break;
          case Intrinsic::memset: if (!memIntrinsic(p, "memset", a)) live = false; break;
          case Intrinsic::eh_typeid_for: { auto *g = dyn_cast<GlobalVariable>(ii->getArgOperand(0)->stripPointerCasts()); setv(p, I, mkInt(g ? typeNo(g) : 1 << 20, 32)); break; }
          case Intrinsic::assume: break;
          case Intrinsic::smax: mm(CmpInst::ICMP_SGT, true); break;
          case Intrinsic::smin: mm(CmpInst::ICMP_SLT, true); break;
          case Intrinsic::umax: mm(CmpInst::ICMP_UGT, true); break;
          case Intrinsic::umin: mm(CmpInst::ICMP_ULT, true); break;
          case Intrinsic::abs: { unsigned w = ty->getIntegerBitWidth(); Val x = toI(s, a[0], w); bool ok = true; setv(p, I, iteVal(ex(icmpInt(CmpInst::ICMP_SLT, x, mkInt(0, w))), binInt(Instruction::Sub, mkInt(0, w), x), x, ok)); break; }
          case Intrinsic::fabs: setv(p, I, mathFn("fabs", {toF(s, a[0], 64)})); break;
          case Intrinsic::floor: setv(p, I, mathFn("floor", {toF(s, a[0], 64)})); break;
          case Intrinsic::ceil: setv(p, I, mathFn("ceil", {toF(s, a[0], 64)})); break;
          case Intrinsic::trunc: setv(p, I, mathFn("trunc", {toF(s, a[0], 64)})); break;
          case Intrinsic::rint: case Intrinsic::nearbyint: setv(p, I, mathFn("rint", {toF(s, a[0], 64)})); break;
          case Intrinsic::round: setv(p, I, mathFn("round", {toF(s, a[0], 64)})); break;
          case Intrinsic::sqrt: setv(p, I, mathFn("sqrt", {toF(s, a[0], 64)})); break;
          case Intrinsic::exp: setv(p, I, mathFn("exp", {toF(s, a[0], 64)})); break;
          case Intrinsic::log: setv(p, I, mathFn("log", {toF(s, a[0], 64)})); break;
          case Intrinsic::sin: setv(p, I, mathFn("sin", {toF(s, a[0], 64)})); break;
          case Intrinsic::cos: setv(p, I, mathFn("cos", {toF(s, a[0], 64)})); break;
          case Intrinsic::pow: setv(p, I, mathFn("pow", {toF(s, a[0], 64), toF(s, a[1], 64)})); break;
          case Intrinsic::fmuladd: case Intrinsic::fma: setv(p, I, binFp(Instruction::FAdd, binFp(Instruction::FMul, toF(s, a[0], 64), toF(s, a[1], 64)), toF(s, a[2], 64))); break;
          case Intrinsic::expect: setv(p, I, a[0]); break;
          case Intrinsic::objectsize: setv(p, I, mkInt(~0ull, ty->getIntegerBitWidth())); break;
          case Intrinsic::is_constant: setv(p, I, mkInt(0, 1)); break;
          case Intrinsic::stacksave: setv(p, I, nullPtr()); break;
          case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
            unsigned w = cast<StructType>(ty)->getElementType(0)->getIntegerBitWidth();
            bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
            unsigned o = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? Instruction::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : Instruction::Sub;
            Val x = toI(s, a[0], w), y = toI(s, a[1], w); Val r = binInt(o, x, y);
            z3::expr X = sg ? z3::sext(ex(x), w) : z3::zext(ex(x), w), Y = sg ? z3::sext(ex(y), w) : z3::zext(ex(y), w);
            z3::expr full = o == Instruction::Mul ? X * Y : o == Instruction::Add ? X + Y : X - Y;
            z3::expr back = sg ? z3::sext(ex(r), w) : z3::zext(ex(r), w);
            Val ov = mkBool((full != back).simplify());
            Val ag; ag.k = Val::AGG; ag.a = std::make_shared<std::vector<Val>>(); ag.a->push_back(r); ag.a->push_back(ov);
            setv(p, I, ag); break;
          }
          case Intrinsic::is_fpclass: {
            Val x = toF(s, a[0], 64); unsigned mask = a[1].c;
            if (FPM == FP_IEEE) {
              z3::expr r = C.bool_val(false), X = fx(x);
              if (mask & 3) r = r || z3::expr(C, Z3_mk_fpa_is_nan(C, X));
              z3::expr neg(C, Z3_mk_fpa_is_negative(C, X));
              if (mask & 0x204) { z3::expr inf(C, Z3_mk_fpa_is_infinite(C, X)); r = r || (inf && ((mask & 4) && (mask & 0x200) ? C.bool_val(true) : (mask & 4) ? neg : !neg)); }
              if (mask & ~0x207u) { incomplete(s, "is_fpclass"); }
              setv(p, I, mkBool(r.simplify()));
            } else setv(p, I, mkInt(0, 1));
            break;
          }
          case Intrinsic::trap: doAbort(s, "trap"); live = false; break;
          default: done = ii->isAssumeLikeIntrinsic() || ty->isVoidTy();
          }
          if (!live) break;
          if (!done) { ST.externs[cf->getName().str()]++; TD t = tdOf(ty); setv(p, I, freshVal(s, t, "havoc!" + cf->getName().str())); }
          cont(p); break;
        }
        FnInfo &cfi = info(cf);
        std::vector<Val> a; for (auto &x : ci->args()) a.push_back(get(p, x));
        for (unsigned i = 0; i < ci->arg_size(); i++) {
          Type *at = ci->getArgOperand(i)->getType();
          if (a[i].k == Val::INT || a[i].k == Val::UNDEF) { if (at->isIntegerTy()) a[i] = toI(s, a[i], at->getIntegerBitWidth()); else if (at->isDoubleTy()) a[i] = toF(s, a[i], 64); }
          if (at->isPointerTy()) a[i] = viewAs(s, a[i], TD{Val::PTR, 64, 8});
          if (ci->isByValArgument(i)) {
            Type *bt = ci->getParamByValType(i); int64_t sz = DL->getTypeAllocSize(bt);
            int id = newObj(s, sz, "byval"); p.fr.allocas.push_back(id);
            if (!memIntrinsic(p, "memcpy", {ptrTo(id, 0), a[i], mkInt(sz, 64)})) { live = false; break; }
            a[i] = ptrTo(id, 0);
          }
        }
        if (!live) break;
        if (cfi.kind == 1) {
          Val r; std::vector<Alt> alts;
          int k = builtin(p, cfi, ci, a, r, alts);
          if (k == 2 && (cfi.bi == "memcpy" || cfi.bi == "memmove" || cfi.bi == "memset")) { k = memIntrinsic(p, cfi.bi == "memset" ? "memset" : "memcpy", a); r = a[0]; }
          if (k == 0) { live = false; break; }
          if (k == 2) { // unknown external: havoc
            ST.externs[cfi.dem]++;
            if (ty->isPointerTy()) { if (!a.empty() && a[0].k == Val::PTR) r = a[0]; else { int id = newObj(s, 4096, "ext"); s.mem[id]->known = false; r = ptrTo(id, 0); } }
            else if (!ty->isVoidTy() && !ty->isStructTy()) r = freshVal(s, tdOf(ty), "havoc!" + cfi.bi);
          }
          if (!alts.empty()) {
            std::vector<Path> qs;
            for (auto &al : alts) {
              std::shared_ptr<z3::model> m; auto fr = feasible(p.st, al.cond, &m);
              if (fr == z3::unsat) continue;
              Path q = p; addPc(q.st, al.cond); q.st.mdl = fr == z3::sat ? m : nullptr;
              if ((cfi.bi == "sym_pick" || cfi.bi == "sym_conc" || cfi.bi == "!irn") && al.ret.conc) q.st.sig.push_back(al.ret.c);
              setv(q, I, al.ret); cont(q); qs.push_back(std::move(q));
            }
            if (qs.empty()) { live = false; break; }
            ST.forks += qs.size() - 1; ST.states += qs.size() - 1;
            for (size_t i = 1; i < qs.size(); i++) wl.push_back(std::move(qs[i]));
            p = std::move(qs[0]);
            break;
          }
          if (!ty->isVoidTy()) setv(p, I, r);
          cont(p); break;
        }
        if (cfi.kind == 2) {
          ST.overridden[cfi.dem.substr(0, 60)]++;
          if (OPT.strings && cf->arg_size() && cf->hasStructRetAttr() && !a.empty() && a[0].k == Val::PTR) {
            auto *rt = dyn_cast<StructType>(cf->getParamStructRetType(0));
            if (rt && rt->hasName() && starts(rt->getName().str(), "class.std::__cxx11::basic_string")) {   // an empty string
              bool one = a[0].p && a[0].p->size() == 1 && (*a[0].p)[0].off.conc;
              if (one) {
                int id = (*a[0].p)[0].obj; int64_t o = (*a[0].p)[0].off.c;
                storeConc(s, id, o, 8, ptrTo(id, o + 16), C.bool_val(true)); storeConc(s, id, o + 8, 8, mkInt(0, 64), C.bool_val(true)); storeConc(s, id, o + 16, 1, mkInt(0, 8), C.bool_val(true));
              } else { incomplete(s, "string result"); live = false; break; }
            }
          }
          if (ty->isPointerTy()) { if (!a.empty() && a[0].k == Val::PTR) setv(p, I, a[0]); else { int id = newObj(s, 4096, "ext"); s.mem[id]->known = false; setv(p, I, ptrTo(id, 0)); } }
          else if (!ty->isVoidTy() && !ty->isStructTy()) setv(p, I, freshVal(s, tdOf(ty), "havoc!stub"));
          cont(p); break;
        }
        Function *target = cfi.over ? cfi.over : cf;
        if (cfi.over) ST.overridden[cfi.dem.substr(0, 80)]++;
        std::vector<Outcome> os;
        if (target->isDeclaration()) { incomplete(s, "no body for " + cfi.dem); live = false; break; }
        runFn(target, a, std::move(p.st), os, depth + 1);
        if (os.empty()) { live = false; break; }
        for (size_t i = os.size(); i-- > 1;) {
          Path q; q.fr = p.fr; q.st = std::move(os[i].st);
          if (q.st.exc) { if (unwind(q)) wl.push_back(std::move(q)); continue; }
          if (!ty->isVoidTy()) setv(q, I, os[i].ret);
          cont(q); wl.push_back(std::move(q));
        }
        p.st = std::move(os[0].st);
        if (p.st.exc) { if (!unwind(p)) live = false; break; }
        if (!ty->isVoidTy()) setv(p, I, os[0].ret);
        cont(p);
        break;
      }
      default: {
        incomplete(s, std::string("instruction ") + I->getOpcodeName() + " in " + fi.dem); live = false; break;
      }
      }
    }
  }
  if (outs.size() - base > 1 && OPT.mergeCells >= 0 && depth > 0) mergeOutcomes(outs, base);
}
