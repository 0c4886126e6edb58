#pragma once
#include "expr.h"
namespace gpse {
int algCompare(Expr *a, Expr *b, int *terms = nullptr);
Expr *algSimplify(Expr *e);
Expr *firstIte(Expr *e);
Expr *substCond(Expr *e, Expr *c, bool v);
bool sampleModel(const std::vector<Expr *> &sel, const std::vector<Expr *> &vars, Model &out, int tries);
}
