/* SMT back end: path condition slicing, query cache, Z3 translation */
#pragma once
#include "expr.h"

enum Res { R_SAT, R_UNSAT, R_UNKNOWN };

struct SolverStats {
    uint64_t queries = 0;   /* decided by the SMT solver */
    uint64_t sat = 0, unsat = 0, unknown = 0;
    uint64_t cached = 0;    /* answered from the query cache */
    uint64_t bymodel = 0;   /* answered by an existing satisfying assignment */
    uint64_t small = 0;     /* decided over the domain of one byte */
    double time = 0, maxtime = 0;
};
extern SolverStats g_ss;
extern unsigned g_query_timeout_ms;
/* steady clock time after which queries get little time */
extern double g_deadline_s;

void solver_init();
/*
 * Is pc AND extra satisfiable?  "base" is an assignment which satisfies pc;
 * on R_SAT "out" is one which satisfies pc AND extra.
 */
Res solve(const std::vector<E> &pc, E extra, const Model &base, Model *out);
/*
 * The feasible values of e under pc, with assignments, when e and everything
 * it is connected to depends on a single variable of at most 8 bits.
 * Decided by evaluating the path condition over the whole domain.
 */
bool domain(const std::vector<E> &pc, E e, const Model &base,
            std::vector<std::pair<u128, Model>> *out);
