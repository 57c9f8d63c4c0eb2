#pragma once
#include "expr.h"
#include <string>
#include <vector>

namespace sx {
enum class Res { Sat, Unsat, Unknown };
struct SolverStats {
    uint64_t queries = 0;      // feasibility questions asked by the executor
    uint64_t byModel = 0;      // answered by the path's current model
    uint64_t byCache = 0;      // answered from the query cache
    uint64_t intCalls = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0;
    double z3time = 0, maxtime = 0;
};
extern SolverStats sstats;
extern unsigned solverTimeoutMs;
// Is pc && cond satisfiable?  On Sat, `out` is a full model of pc && cond (base is a model of pc).
Res checkSat(const std::vector<E>& pc, E cond, const ModelP& base, ModelP& out);
}  // namespace sx
