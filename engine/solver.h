#pragma once
#include "expr.h"
#include <string>

struct Constraints {
    std::vector<const Bits256*> dom;   // per variable (width<=8), nullptr = unconstrained
    std::vector<Expr*> multi;          // all other constraints
    std::vector<u8> inMulti;           // per variable
    std::vector<u64> model;            // satisfies everything above
};

enum class SatRes { Sat, Unsat, Unknown };

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, domainDecided = 0, crossChecked = 0, mismatches = 0, asserts = 0, assertsTrivial = 0, guessed = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats gSolver;
extern unsigned gSolverTimeoutMs;
extern u64 gTableLimit;
extern double gDeadline;   // steady clock seconds; queries after it are not started

// is (C && cond) satisfiable?  On Sat *out is a full model.  useZ3: do not decide by domain propagation
SatRes feasible(const Constraints& C, Expr* cond, std::vector<u64>* out, bool useZ3 = false);
// 1/0 if the constraints imply the condition/its negation by interval and linear reasoning alone, else -1
int implied(const Constraints& C, Expr* cond);
void addConstraint(Constraints& C, Expr* cond, const std::vector<u64>& model);
const Bits256* domainOf(const Constraints& C, u32 var);
void solverResetAfterFork();
std::string smt2Of(const Constraints& C, Expr* cond);
