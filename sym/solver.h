// SMT back end: decides conjunctions of terms with libz3, falling back to external solvers.
#pragma once
#include "term.h"
enum SRes { R_SAT, R_UNSAT, R_UNK };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unk = 0, fallback = 0, cached = 0; double secs = 0; };
extern SolverStats SST;
extern int solverTimeoutMs;
extern double solverDeadline; // absolute, seconds (monotonic)
double nowSec();
// Is the conjunction satisfiable?  On R_SAT *out gets values for the variables of the query (others copied from base).
SRes solveConj(const std::vector<T> &cs, const Model *base, ModelP *out, int timeoutMs = 0, bool allowFallback = true);
