static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void writeOut() {
  FILE *f = OPT.out.empty() ? stdout : fopen(OPT.out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"entry\":\"%s\",\"params\":{", jesc(OPT.entry).c_str());
  bool c = false; for (auto &p : OPT.params) { fprintf(f, "%s\"%s\":%d", c ? "," : "", p.first.c_str(), p.second); c = true; }
  fprintf(f, "},\"paths\":%ld,\"killed\":%ld,\"aborted\":%ld,\"incomplete\":%ld,\"forks\":%ld,\"merges\":%ld,\"queries\":%ld,\"unknown_queries\":%ld,\"bad_models\":%ld,\"solver_s\":%.3f,\"instrs\":%ld,\"timed_out\":%s,\"wall_s\":%.3f,\n",
          ST.paths, ST.killed, ST.aborted, ST.errors, ST.forks, ST.merges, ST.queries, ST.unknownQ, ST.badModels, ST.solverTime, ST.instrs, ST.timedOut ? "true" : "false", elapsed());
  fprintf(f, "\"checks\":{"); c = false;
  for (auto &k : ST.checks) { fprintf(f, "%s\"%s\":{\"ok\":%ld,\"viol\":%ld,\"unknown\":%ld,\"skipped\":%ld}", c ? "," : "", jesc(k.first).c_str(), k.second.ok, k.second.viol, k.second.unknown, k.second.skipped); c = true; }
  auto mp = [&](const char *n, std::map<std::string, long> &m) { fprintf(f, "},\n\"%s\":{", n); bool c = false; for (auto &k : m) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", jesc(k.first).c_str(), k.second); c = true; } };
  mp("reach", ST.reach); mp("functions", ST.fns); mp("externs", ST.externs); mp("errors", ST.errs); mp("stubbed", ST.overridden);
  fprintf(f, "},\n\"violations\":["); c = false;
  for (auto &v : ST.viols) {
    size_t a = v.find('\t'), b = v.find('\t', a + 1);
    fprintf(f, "%s{\"id\":\"%s\",\"trace\":\"%s\",\"note\":\"%s\"}", c ? "," : "", jesc(v.substr(0, a)).c_str(), jesc(v.substr(a + 1, b - a - 1)).c_str(), jesc(v.substr(b + 1)).c_str()); c = true;
  }
  fprintf(f, "],\n\"witnesses\":["); c = false;
  for (auto &w : ST.wits) { if (w.empty()) continue; fprintf(f, "%s\"%s\"", c ? "," : "", jesc(w).c_str()); c = true; }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
}
int main(int argc, char **argv) {
  T0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--entry") OPT.entry = nx();
    else if (a == "--out") OPT.out = nx();
    else if (a == "--traces") OPT.traceDir = nx();
    else if (a == "--fp") { std::string m = nx(); FPM = m == "real" ? FP_REAL : m == "group" ? FP_GROUP : FP_IEEE; }
    else if (a == "--time") OPT.timeLimit = atof(nx().c_str());
    else if (a == "--qtimeout") OPT.qTimeout = atoi(nx().c_str());
    else if (a == "--witness") OPT.witness = atoi(nx().c_str());
    else if (a == "--maxviol") OPT.maxViol = atoi(nx().c_str());
    else if (a == "--maxsteps") OPT.maxSteps = atol(nx().c_str());
    else if (a == "--merge") OPT.mergeCells = atoi(nx().c_str());
    else if (a == "--enum") OPT.enumLimit = atoi(nx().c_str());
    else if (a == "--strings") OPT.strings = true;
    else if (a == "--exceptions") OPT.exceptions = true;
    else if (a == "--no-rng") OPT.rng = false;
    else if (a == "--no-heur") OPT.heur = false;
    else if (a == "--fork-draws") OPT.forkDraws = atoi(nx().c_str());
    else if (a == "--no-narrow") OPT.narrow = false;
    else if (a == "--no-memcheck") OPT.memcheck = false;
    else if (a == "--abort-ok") OPT.abortIsViolation = false;
    else if (a == "--dump") OPT.dump = nx();
    else if (a == "-v") OPT.verbose++;
    else if (a == "--noop") OPT.noop.push_back(nx());
    else if (a == "--over") { std::string m = nx(); auto k = m.rfind('='); OPT.over[m.substr(0, k)] = m.substr(k + 1); }
    else if (a == "--param") { std::string m = nx(); auto k = m.find('='); OPT.params[m.substr(0, k)] = atoi(m.substr(k + 1).c_str()); }
    else OPT.bc = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  M = parseIRFile(OPT.bc, err, ctx);
  if (!M) { fprintf(stderr, "cannot read %s\n", OPT.bc.c_str()); return 3; }
  DL = &M->getDataLayout();
  Function *F = M->getFunction(OPT.entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", OPT.entry.c_str()); return 3; }
  SOL = new Solver();
  if (FPM == FP_GROUP) valOf(fx(mkFp(1.0, 64)));
  ST.states = 1;
  State st;
  { std::shared_ptr<z3::model> m; SOL->check(st.pc, C.bool_val(true), &m); st.mdl = m; }
  std::vector<Outcome> outs;
  try {
    if (OPT.strings) if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (unsigned i = 0; i < ca->getNumOperands(); i++) {   // static objects (named constants are strings)
        auto *f = dyn_cast<Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts());
        if (!f || f->isDeclaration()) continue;
        std::vector<Outcome> o; runFn(f, {}, std::move(st), o, 0);
        if (o.size() != 1) throw std::runtime_error("static initializer forks");
        st = std::move(o[0].st);
      }
    runFn(F, {}, std::move(st), outs, 0); for (auto &o : outs) if (o.st.exc) doAbort(o.st, "throw"); else endPath(o.st, "ok"); }
  catch (z3::exception &e) { ST.errors++; ST.errs[std::string("incomplete: z3 ") + e.msg()]++; ST.checks["engine-complete"].unknown++; }
  catch (std::exception &e) { ST.errors++; ST.errs[std::string("incomplete: ") + e.what()]++; ST.checks["engine-complete"].unknown++; }
  writeOut();
  fflush(nullptr);
  _exit(0);
}
