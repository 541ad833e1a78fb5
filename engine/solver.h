#pragma once
#include "expr.h"
enum Res { UNSAT=0, SAT=1, UNKNOWN=2 };
struct SolverStats { u64 queries=0, unsat=0, sat=0, unknown=0, cache_hits=0, model_hits=0, fp_refined=0; double time=0, maxtime=0; };
extern SolverStats sstats;
extern u64 opt_rlimit, opt_fp_rlimit; extern std::string opt_dump_smt;
// Decides the conjunction of cs (each of width 1). On SAT the values of the variables in cs are stored in m.
// loose: treat floating point arithmetic as uninterpreted and accept SAT from that abstraction.
Res solve(const std::vector<Expr*> &cs, Model *m, u64 rlimit=0);
// Independent slice of pc relevant to e
std::vector<Expr*> slice(const std::vector<Expr*> &pc, Expr *e);
void solver_reset();
