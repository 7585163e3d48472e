// SMT queries over path constraints (z3 behind it).
#pragma once
#include <cstdio>
#include <memory>
#include <unordered_map>
#include <vector>

#include "expr.h"

namespace sx {
enum class Sat { Yes, No, Unknown };
struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0,
             modelHits = 0, intSat = 0, intUnsat = 0, spurious = 0, byRange = 0;
    double seconds = 0, maxSeconds = 0;
};
class Solver {
public:
    Solver();
    // Is  (and constraints) && cond  satisfiable?  `base` is a model of the
    // constraints; on Yes, `out` becomes a model of constraints && cond.
    Sat check(const std::vector<E> &constraints, E cond, const Model &base,
              std::shared_ptr<const Model> *out);
    SolverStats stats;
    unsigned timeoutMs = 20000;
    FILE *dump = nullptr;     // SMT-LIB dump of decided queries
    unsigned dumpEvery = 1;   // dump one query in so many
    unsigned dumpMax = 200;
    unsigned dumped = 0;
    bool dumpUndecided = false;

private:
    struct Impl;
    Impl *p;
};
}  // namespace sx
