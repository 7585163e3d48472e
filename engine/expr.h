// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <llvm/ADT/APInt.h>

#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace sx {
using llvm::APInt;

enum class K : uint8_t {
    Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr,
    AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt
};

struct Expr {
    K k;
    unsigned w;            // width in bits
    unsigned lo = 0;       // Extract: low bit; Sym: symbol number
    uint32_t id = 0;       // unique number
    const Expr *a = nullptr, *b = nullptr, *c = nullptr;
    APInt val;             // Const only
    uint64_t hash = 0;
    // evaluation cache
    mutable uint64_t epoch = 0;
    mutable APInt ev;
    // symbols (sorted), shared
    mutable std::shared_ptr<const std::vector<uint32_t>> syms;
    mutable void *z3 = nullptr;
    bool isConst() const { return k == K::Const; }
    bool isTrue() const { return isConst() && w == 1 && val.getBoolValue(); }
    bool isFalse() const { return isConst() && w == 1 && !val.getBoolValue(); }
};
using E = const Expr *;

struct SymInfo {
    std::string name;
    unsigned w;
    bool undef;  // stands for an uninitialised value
};
extern std::vector<SymInfo> symTable;

E mkConst(const APInt &v);
E mkConst(uint64_t v, unsigned w);
E mkSym(const std::string &name, unsigned w, bool undef = false);
E mkBin(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkNot(E a);  // width-1
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
inline E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
inline E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }

const std::vector<uint32_t> &exprSyms(E e);
bool hasUndef(E e);

// Assignment of concrete values to symbols
struct Model {
    std::vector<APInt> v;      // by symbol number
    std::vector<uint8_t> has;  // assigned?
    APInt get(uint32_t s) const {
        if (s < v.size() && has[s])
            return v[s];
        return APInt(symTable[s].w, 0);
    }
    void set(uint32_t s, const APInt &x) {
        if (s >= v.size()) {
            v.resize(s + 1);
            has.resize(s + 1, 0);
        }
        v[s] = x;
        has[s] = 1;
    }
};
uint64_t newEpoch();
APInt evalExpr(E e, const Model &m, uint64_t epoch);
APInt foldBin(K k, const APInt &a, const APInt &b);
size_t exprCount();
E substUndef(E e, std::vector<std::pair<uint32_t, E>> &map);
std::string exprStr(E e, int depth = 6);
}  // namespace sx
