// solver front (included by symex.cpp): incremental stack synchronised with path conditions
struct Solver {
  z3::solver s;
  std::vector<z3::expr> stk;
  size_t nax = 0;
  static z3::expr nr(const z3::expr &e) { return OPT.narrow ? ::narrow(e) : e; }
  Solver() : s(C, z3::solver::simple()) { setup(); }
  void setup() {
    z3::params p(C); p.set("timeout", OPT.qTimeout); s.set(p);
  }
  void sync(const std::vector<z3::expr> &pc) {
    if (nax != AXIOMS.size()) {
      if (!stk.empty()) s.pop(stk.size());
      stk.clear();
      for (; nax < AXIOMS.size(); nax++) s.add(AXIOMS[nax]);
    }
    size_t k = 0;
    while (k < stk.size() && k < pc.size() && z3::eq(stk[k], pc[k])) k++;
    if (k < stk.size()) { s.pop(stk.size() - k); stk.resize(k, z3::expr(C)); }
    for (; k < pc.size(); k++) { s.push(); s.add(nr(pc[k])); stk.push_back(pc[k]); }
  }
  // a model the solver returns must satisfy what was asked (guards against solver bugs)
  bool valid(z3::model &m, const std::vector<z3::expr> &pc, const z3::expr &extra) {
    if (m.eval(extra, true).is_false()) return false;
    for (auto &e : pc) if (m.eval(e, true).is_false()) return false;
    return true;
  }
  z3::check_result check(const std::vector<z3::expr> &pc, const z3::expr &extra, std::shared_ptr<z3::model> *m, unsigned tmo = 0) {
    auto t0 = std::chrono::steady_clock::now();
    z3::check_result r = z3::unknown;
    ST.queries++;
    auto inc = [&](unsigned to) {
      try {
        sync(pc);
        z3::params p(C); p.set("timeout", to); s.set(p);
        s.push(); s.add(nr(extra));
        try {
          r = s.check();
          if (r == z3::sat && m) {
            *m = std::make_shared<z3::model>(s.get_model());
            if (!valid(**m, pc, extra)) { ST.badModels++; r = z3::unknown; m->reset(); stk.clear(); s = z3::solver(C, z3::solver::simple()); nax = 0; return; }
          }
        }
        catch (z3::exception &e) { r = z3::unknown; }
        s.pop();
      } catch (z3::exception &e) { r = z3::unknown; stk.clear(); s = z3::solver(C, z3::solver::simple()); nax = 0; }
    };
    auto shot = [&](z3::solver q, unsigned to) {
      try {
        z3::params p(C); p.set("timeout", to); q.set(p);
        for (auto &a : AXIOMS) q.add(a);
        for (auto &e : pc) q.add(nr(e));
        q.add(nr(extra));
        r = q.check();
        if (r == z3::sat && m) *m = std::make_shared<z3::model>(q.get_model());
      } catch (z3::exception &e) { r = z3::unknown; }
    };
    unsigned Q = tmo ? tmo : OPT.qTimeout;
    inc(FPM == FP_GROUP ? std::min(Q, 3000u) : std::min(Q, 400u));
    if (r == z3::unknown && FPM != FP_REAL) {
      z3::tactic t = z3::tactic(C, "simplify") & z3::tactic(C, "propagate-values");
      if (FPM == FP_IEEE) t = t & z3::tactic(C, "fpa2bv");
      t = t & z3::tactic(C, "simplify") & z3::tactic(C, "propagate-values") & z3::tactic(C, "solve-eqs") & z3::tactic(C, "elim-uncnstr") & z3::tactic(C, "simplify") &
          z3::tactic(C, "ackermannize_bv") & z3::tactic(C, "bit-blast") & z3::tactic(C, "sat");
      shot(t.mk_solver(), Q);
    }
    if (r == z3::unknown) shot(z3::solver(C), Q);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    ST.solverTime += dt;
    if (r == z3::unknown) ST.unknownQ++;
    if (!OPT.dump.empty() && dt > 0.7) {
      static int dn = 0; z3::solver q(C);
      for (auto &a : AXIOMS) q.add(a);
      for (auto &e : pc) q.add(nr(e));
      q.add(nr(extra));
      std::ofstream f(OPT.dump + "/q" + std::to_string(dn++) + "_" + std::to_string((int)r) + ".smt2"); f << q.to_smt2();
    }
    if (OPT.verbose > 1 && dt > 1.0) fprintf(stderr, "slow query %.2fs -> %d (pc %zu)\n", dt, (int)r, pc.size());
    return r;
  }
};
static Solver *SOL;
// does the state's model satisfy e? (1 yes, 0 no, -1 unknown)
static int mdlEval(State &s, const z3::expr &e) {
  if (!s.mdl) return -1;
  try {
    z3::expr v = s.mdl->eval(e, true);
    if (v.is_true()) return 1;
    if (v.is_false()) return 0;
  } catch (z3::exception &) {}
  return -1;
}
// feasible(pc and e)? updates nothing
static z3::check_result feasible(State &s, const z3::expr &e, std::shared_ptr<z3::model> *m = nullptr) {
  if (isTrue(e) && s.mdl) { if (m) *m = s.mdl; return z3::sat; }
  if (isFalse(e)) return z3::unsat;
  if (mdlEval(s, e) == 1) { if (m) *m = s.mdl; return z3::sat; }
  std::shared_ptr<z3::model> mm;
  z3::check_result r = SOL->check(s.pc, e, &mm);
  if (r == z3::sat && m) *m = mm;
  return r;
}
static void addPc(State &s, const z3::expr &e) {
  if (isTrue(e)) return;
  for (auto &x : s.pc) if (z3::eq(x, e)) return;
  s.pc.push_back(e);
}
// constrain; returns false when the path becomes infeasible
static bool assume(State &s, const z3::expr &e) {
  if (isTrue(e)) return true;
  if (isFalse(e)) return false;
  std::shared_ptr<z3::model> m;
  auto r = feasible(s, e, &m);
  if (r == z3::unsat) return false;
  addPc(s, e);
  s.mdl = (r == z3::sat) ? m : nullptr;
  return true;
}
