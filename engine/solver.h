#pragma once
#include "expr.h"
#include <vector>
#include <string>

struct SolverStats {
  uint64_t queries = 0;        // feasibility / validity questions asked
  uint64_t byModel = 0;        // answered by evaluating a known model
  uint64_t byCache = 0;
  uint64_t z3calls = 0, sat = 0, unsat = 0, unknown = 0;
  double z3time = 0, maxq = 0;
};
extern SolverStats g_ss;
extern unsigned g_qtimeout_ms;
extern std::string g_dumpdir;

// 1 sat (model filled for the variables involved), 0 unsat, -1 unknown.
// `pc` is the path condition (known satisfiable), `extra` the queried constraint.
int solveSliced(const std::vector<E>& pc, E extra, Model& m);
