#pragma once
#include "expr.h"
#include <memory>
namespace gpse {
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, algebraic = 0, sampled = 0; double algTime = 0; double time = 0; double maxTime = 0; };
extern SolverStats gSS;
extern unsigned gTimeoutMs;
// Is pc /\ extra satisfiable?  model receives the values of every variable of the slice.
bool realAtoms(Expr *e);
Res checkSat(const std::vector<Expr *> &pc, Expr *extra, Model *model, unsigned timeoutMs = 0);
extern std::string gDumpDir;
}
