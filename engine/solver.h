#pragma once
#include "expr.h"
#include <memory>
#include <string>
enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0; double secs = 0, maxsecs = 0; u64 cross = 0, crossbad = 0; };
extern SolverStats g_sstat;
extern unsigned g_solver_ms;       // per-query time limit
extern std::string g_cross_dir;    // when set, every z3 query is also written there as SMT-LIB for a second solver
// Is (conj of cs) satisfiable?  On SAT, the model (extending base for symbols not mentioned) is returned.
SatRes solve(const std::vector<Expr*>& cs, const Model& base, Model& out);
// Slice of pcs relevant to e (transitively sharing symbols).
void slice(const std::vector<Expr*>& pcs, Expr* e, std::vector<Expr*>& out);
