// traces, checks, path ends (included by symex.cpp)
static std::string modelVal(z3::model &m, const Val &v) {
  char buf[64];
  try {
    if (v.k == Val::INT) {
      if (v.conc) { snprintf(buf, 64, "%lld", (long long)(v.w == 1 ? (int64_t)v.c : sext64(v.c, v.w))); return buf; }
      z3::expr e = m.eval(v.e, true);
      if (e.is_bool()) return e.is_true() ? "1" : "0";
      uint64_t u; if (e.is_numeral_u64(u)) { snprintf(buf, 64, "%lld", (long long)sext64(u, v.w)); return buf; }
      return "?";
    }
    if (v.k == Val::FP) {
      double d = 0;
      if (v.conc) d = v.d;
      else if (FPM == FP_IEEE) {
        z3::expr b(C, Z3_mk_fpa_to_ieee_bv(C, v.e));
        z3::expr e = m.eval(b, true).simplify(); uint64_t u;
        if (!e.is_numeral_u64(u)) return "0x0p+0";
        if (v.w == 32) { float f; uint32_t q = u; memcpy(&f, &q, 4); d = f; } else memcpy(&d, &u, 8);
      } else if (FPM == FP_REAL) {
        z3::expr e = m.eval(v.e, true);
        std::string t = e.get_decimal_string(30);
        d = strtod(t.c_str(), nullptr);
      } else {
        z3::expr e = m.eval(v.e, true); uint64_t u;
        if (e.is_numeral_u64(u)) { snprintf(buf, 64, "g%u", (unsigned)u); return buf; }
        return "g0";
      }
      snprintf(buf, 64, "%a", d); return buf;
    }
  } catch (z3::exception &) {}
  return "?";
}
static int traceNo = 0;
static std::string writeTrace(State &s, z3::model &m, const std::string &tag, const std::string &id, const std::string &note) {
  if (OPT.traceDir.empty()) return "";
  std::string fn = OPT.traceDir + "/" + OPT.entry + "." + tag + std::to_string(traceNo++) + ".trace";
  FILE *f = fopen(fn.c_str(), "w");
  if (!f) return "";
  fprintf(f, "entry %s\n", OPT.entry.c_str());
  if (!id.empty()) fprintf(f, "viol %s\n", id.c_str());
  if (!note.empty()) fprintf(f, "note %s\n", note.c_str());
  for (auto &p : OPT.params) fprintf(f, "param %s %d\n", p.first.c_str(), p.second);
  for (auto &i : s.inputs) fprintf(f, "%s %s %s\n", i.dbl ? "dbl" : "int", i.name.c_str(), modelVal(m, i.v).c_str());
  for (auto &d : s.draws) {
    if (d.kind == 0) { // irn
      Val raw = binInt(llvm::Instruction::Sub, d.v, d.lo);
      std::string r = modelVal(m, raw);
      long long q = atoll(r.c_str());
      fprintf(f, "draw irn %u %s\n", (unsigned)(uint32_t)q, modelVal(m, d.v).c_str());
    } else if (d.kind == 2) {
      fprintf(f, "draw raw %s 0\n", modelVal(m, d.v).c_str());
    } else {
      int c = -1;
      if (d.cmp && FPM == FP_GROUP) {
        try { z3::expr r = m.eval(z3::ult(valOf(fx(d.v)), valOf(d.cmpOther)), true); c = r.is_true() ? 1 : 0; } catch (z3::exception &) {}
      }
      fprintf(f, "draw urn %d %s\n", c, modelVal(m, d.v).c_str());
    }
  }
  for (auto &o : s.obs) fprintf(f, "obs %s %s\n", o.first.c_str(), modelVal(m, o.second).c_str());
  fclose(f);
  return fn;
}
static void recordViol(State &s, const std::string &id, z3::model &m, const std::string &note) {
  auto &cs = ST.checks[id];
  cs.viol++;
  if (cs.viol > OPT.maxViol) return;
  std::string fn = writeTrace(s, m, "cex", id, note);
  ST.viols.push_back(id + "\t" + fn + "\t" + note);
  if (OPT.verbose) fprintf(stderr, "candidate violation %s %s %s\n", id.c_str(), note.c_str(), fn.c_str());
}
// decide cond under pc right now
static void decide(State &s, const z3::expr &cond, const std::string &id, const std::string &note = "") {
  auto &cs = ST.checks[id];
  if (isTrue(cond)) { cs.ok++; return; }
  if (cs.viol >= OPT.maxViol) { cs.skipped++; return; }
  std::shared_ptr<z3::model> m;
  auto r = feasible(s, znot(cond), &m);
  if (r == z3::unsat) cs.ok++;
  else if (r == z3::sat && m) recordViol(s, id, *m, note);
  else cs.unknown++;
}
static void flushChecks(State &s) {
  if (s.checks.empty()) return;
  z3::expr all = C.bool_val(true);
  std::vector<Pending> todo;
  for (auto &p : s.checks) {
    if (isTrue(p.cond)) { ST.checks[p.id].ok++; continue; }
    if (ST.checks[p.id].viol >= OPT.maxViol) { ST.checks[p.id].skipped++; continue; }
    todo.push_back(p); all = zand(all, p.cond);
  }
  s.checks.clear();
  if (todo.empty()) return;
  auto r = todo.size() > 1 ? SOL->check(s.pc, znot(all), nullptr, std::min(OPT.qTimeout, 2500u)) : z3::unknown;
  if (r == z3::unsat) { for (auto &p : todo) ST.checks[p.id].ok++; return; }
  for (auto &p : todo) decide(s, p.cond, p.id);
}
static std::map<std::string, int> witTags;
static void endPath(State &s, const char *status) {
  flushChecks(s);
  ST.paths++;
  std::string tag = status;
  for (auto &r : s.reach) { ST.reach[r]++; tag += "," + r; }
  if ((int)ST.wits.size() < OPT.witness * 8 && witTags[tag] < OPT.witness && !strcmp(status, "ok")) {
    std::shared_ptr<z3::model> m = s.mdl;
    if (!m) { if (SOL->check(s.pc, C.bool_val(true), &m) != z3::sat) m = nullptr; }
    if (m) { witTags[tag]++; ST.wits.push_back(writeTrace(s, *m, "wit", "", tag)); }
  }
}
static void reportError(State &s, const std::string &id, const z3::expr &bad, const std::string &note) {
  std::shared_ptr<z3::model> m;
  ST.errs[id + ": " + note]++;
  auto r = feasible(s, bad, &m);
  if (r == z3::sat && m) recordViol(s, id, *m, note);
  else if (r == z3::unknown) ST.checks[id].unknown++;
}
static void incomplete(State &s, const std::string &why) {
  ST.errors++; ST.errs["incomplete: " + why]++;
  ST.checks["engine-complete"].unknown++;
}
