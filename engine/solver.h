// Satisfiability of path constraints: independence slicing, a query cache, model reuse, then Z3 (QF_BV).
#pragma once
#include <memory>
#include <unordered_map>
#include "expr.h"

enum class Sat { Sat, Unsat, Unknown };

struct SolverStats {
    uint64_t queries = 0;    // questions asked
    uint64_t cacheHits = 0;  // answered from the cache or a recent model
    uint64_t z3Queries = 0;  // sent to Z3
    uint64_t sat = 0, unsat = 0, unknown = 0;
    double z3Seconds = 0;
};

class Solver {
public:
    explicit Solver(unsigned timeoutMs);
    ~Solver();
    // Is (constraints && extra) satisfiable?  `constraints` alone must be satisfiable, with `base` as a model of it
    // (used to complete the variables outside the slice).  On Sat, *out is a model of the conjunction.
    Sat check(const std::vector<E> &constraints, E extra, const Model &base, Model *out);
    SolverStats stats;
private:
    struct Impl;
    std::unique_ptr<Impl> m;
};
