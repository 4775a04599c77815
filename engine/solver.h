#pragma once
#include "expr.h"
#include <memory>
enum class SR { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, folded = 0, cacheHits = 0, modelHits = 0, z3Calls = 0, unknown = 0, fresh = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats SS;
struct SolverOpts { unsigned fastMs = 1500, slowMs = 150000; std::string dumpDir; unsigned dumpMax = 0; };
extern SolverOpts SO;
// Is the conjunction of `cs` satisfiable? `focus`: only constraints connected (by
// shared symbols) to it matter when the rest is known satisfiable.
SR solve(const std::vector<E> &cs, E focus, std::shared_ptr<Model> *out);
std::string toSmt2(const std::vector<E> &cs);
