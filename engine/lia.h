// Integer encoding of bit-vector queries made of sums, comparisons, constant
// masks, shifts, multiplications and divisions.  Exact: every wrap-around is
// a multiple of 2^w with its own bounded integer variable.
#pragma once
#include <z3.h>

#include <vector>

#include "expr.h"

namespace sx {
class Lia {
public:
    explicit Lia(Z3_context c);
    // 0 unsat, 1 sat (values of the symbols in `vals`), 2 no answer,
    // 3 not expressible
    int check(const std::vector<E> &cs, unsigned ms,
              std::vector<std::pair<uint32_t, APInt>> &vals);

    // value ranges alone: is cond false whenever cs hold?
    bool refutes(const std::vector<E> &cs, E cond);

private:
    struct Impl;
    Impl *p;
};
}  // namespace sx
