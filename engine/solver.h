#pragma once
#include "expr.h"
#include <vector>
enum class Sat { No, Yes, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, fast = 0, xchecked = 0; double seconds = 0; };
extern SolverStats gSolver;
// Is /\pc && cond satisfiable?  On Yes, fills the model (variables not
// constrained keep the value they have in *m).
Sat solve(const std::vector<E>& pc, E cond, const std::vector<uint8_t>& varWidths, Model* m);
void solverInit(unsigned timeoutMs);
