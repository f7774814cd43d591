#pragma once
#include "expr.h"
#include <z3.h>
#include <string>

enum Res { R_UNSAT, R_SAT, R_UNKNOWN };

struct SolverStats {
  u64 queries = 0, unsat = 0, sat = 0, unknown = 0, cacheHits = 0;
  u64 byMode[6] = {0, 0, 0, 0, 0, 0}; // decided by: LIA, linear abstraction, BV-k, NIA, BV64, recheck
  double time = 0, maxTime = 0;
};
extern SolverStats g_ss;

// Decide satisfiability of the conjunction.  On R_SAT `m` receives values for the variables involved;
// every model is re-evaluated against the conjunction with machine semantics before it is believed.
Res solve(const std::vector<E>& conj, Model& m, unsigned timeout_ms);
extern std::string g_dumpDir;   // if set, every unsat query is dumped in SMT-LIB (BV64 semantics)
extern unsigned g_dumpMax;
