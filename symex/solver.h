#pragma once
#include "expr.h"
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries, sat, unsat, unknown, ns, bvq, intq, fdq; };
void solverInit();
void solverNewVar(Expr *v);
void solverAssert(Expr *c);              // add to the path condition
// is PC && c satisfiable?  On SAT, model (one u64 per variable) is filled in.
Res solverCheck(Expr *c, std::vector<u64> &model, SolverStats &st, bool hard);
extern bool g_forceBV;
extern bool g_reals;   // translate floating point arithmetic to real arithmetic
