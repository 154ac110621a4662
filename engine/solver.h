#pragma once
#include "expr.h"
#include <vector>
enum class Sat { Yes, No, Unknown };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, unknowns = 0, sat = 0, unsat = 0; double z3time = 0, maxQuery = 0; };
extern SolverStats g_ss;
extern unsigned g_rlimit;            // z3 resource limit per query (thousands)
void solverInit();
// Is pc /\ cond satisfiable?  `hint` satisfies pc. On Yes, *out satisfies pc /\ cond.
Sat checkSat(const std::vector<E>& pc, E cond, const ModelP& hint, ModelP* out);
std::string toSmt2(const std::vector<E>& cs);
extern double g_queryTimeout; extern double (*g_timeLeft)();
