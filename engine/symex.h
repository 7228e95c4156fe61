#pragma once
#include "state.h"
struct Opt {
  std::string bc, entry, out, traceDir;
  double timeLimit = 300; unsigned qTimeout = 20000;
  int maxViol = 3, witness = 2; long maxSteps = 4000000; int mergeCells = 6; bool rng = true; bool strings = false, exceptions = false; bool heur = true; int enumLimit = 200; int forkDraws = 0;
  bool abortIsViolation = true; bool memcheck = true, narrow = true;
  std::map<std::string, std::string> over; std::map<std::string, int> params; std::vector<std::string> noop;
  int verbose = 0; std::string dump;
};
struct CheckStat { long ok = 0, viol = 0, unknown = 0, skipped = 0; };
struct Stats {
  long paths = 0, killed = 0, aborted = 0, errors = 0, forks = 0, queries = 0, instrs = 0, merges = 0, states = 0, unknownQ = 0, badModels = 0;
  double solverTime = 0;
  std::map<std::string, CheckStat> checks;
  std::map<std::string, long> reach, fns, externs, errs, overridden;
  std::vector<std::string> viols, wits;
  bool timedOut = false;
};
