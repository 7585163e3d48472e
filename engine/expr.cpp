#include "expr.h"

#include <llvm/ADT/SmallString.h>

#include <algorithm>
#include <unordered_map>
#include <unordered_set>

namespace sx {
std::vector<SymInfo> symTable;

namespace {
struct Hash {
    size_t operator()(E e) const { return e->hash; }
};
struct Same {
    bool operator()(E x, E y) const {
        if (x->k != y->k || x->w != y->w || x->lo != y->lo || x->a != y->a ||
            x->b != y->b || x->c != y->c)
            return false;
        if (x->k == K::Const)
            return x->val == y->val;
        return true;
    }
};
std::unordered_set<E, Hash, Same> &table() {
    static auto *t = new std::unordered_set<E, Hash, Same>();
    return *t;
}
uint32_t nextId = 1;
uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}
E intern(Expr &&e) {
    uint64_t h = mix((uint64_t)e.k * 131 + e.w, e.lo);
    h = mix(h, e.a ? e.a->id : 0);
    h = mix(h, e.b ? e.b->id : 0);
    h = mix(h, e.c ? e.c->id : 0);
    if (e.k == K::Const)
        for (unsigned i = 0; i < e.val.getNumWords(); ++i)
            h = mix(h, e.val.getRawData()[i]);
    e.hash = h;
    auto it = table().find(&e);
    if (it != table().end())
        return *it;
    auto *n = new Expr(std::move(e));
    n->id = nextId++;
    table().insert(n);
    return n;
}
E raw(K k, unsigned w, E a, E b = nullptr, E c = nullptr, unsigned lo = 0) {
    Expr e;
    e.k = k;
    e.w = w;
    e.a = a;
    e.b = b;
    e.c = c;
    e.lo = lo;
    bool ok = true;
    switch (k) {
        case K::Const:
        case K::Sym: break;
        case K::Eq:
        case K::Ult:
        case K::Ule:
        case K::Slt:
        case K::Sle: ok = w == 1 && a->w == b->w; break;
        case K::Ite: ok = a->w == 1 && b->w == w && c->w == w; break;
        case K::Concat: ok = w == a->w + b->w; break;
        case K::Extract: ok = lo + w <= a->w; break;
        case K::ZExt:
        case K::SExt: ok = a->w < w; break;
        default: ok = a->w == w && b->w == w;
    }
    if (!ok) {
        fprintf(stderr, "ill-typed expression, kind %d\n", (int)k);
        abort();
    }
    return intern(std::move(e));
}
bool isCmp(K k) {
    return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt ||
           k == K::Sle;
}
bool constArms(E e) {
    return e->k == K::Ite && e->b->isConst() && e->c->isConst();
}
bool nonNeg(E e) {
    return (e->isConst() && !e->val.isNegative()) || e->k == K::ZExt ||
           (e->k == K::And && e->b->isConst() && !e->b->val.isNegative());
}
}  // namespace

size_t exprCount() { return nextId; }

E mkConst(const APInt &v) {
    Expr e;
    e.k = K::Const;
    e.w = v.getBitWidth();
    e.val = v;
    return intern(std::move(e));
}
E mkConst(uint64_t v, unsigned w) { return mkConst(APInt(w, v)); }
E mkSym(const std::string &name, unsigned w, bool undef) {
    symTable.push_back({name, w, undef});
    Expr e;
    e.k = K::Sym;
    e.w = w;
    e.lo = (unsigned)symTable.size() - 1;
    return intern(std::move(e));
}

APInt foldBin(K k, const APInt &a, const APInt &b) {
    unsigned w = a.getBitWidth();
    switch (k) {
        case K::Add: return a + b;
        case K::Sub: return a - b;
        case K::Mul: return a * b;
        case K::UDiv: return b == 0 ? APInt::getAllOnes(w) : a.udiv(b);
        case K::SDiv:
            if (b == 0)
                return a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w);
            return a.sdiv(b);
        case K::URem: return b == 0 ? a : a.urem(b);
        case K::SRem: return b == 0 ? a : a.srem(b);
        case K::And: return a & b;
        case K::Or: return a | b;
        case K::Xor: return a ^ b;
        case K::Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
        case K::LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
        case K::AShr:
            return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0))
                            : a.ashr(b);
        case K::Eq: return APInt(1, a == b);
        case K::Ult: return APInt(1, a.ult(b));
        case K::Ule: return APInt(1, a.ule(b));
        case K::Slt: return APInt(1, a.slt(b));
        case K::Sle: return APInt(1, a.sle(b));
        default: abort();
    }
}

E mkNot(E a) { return mkBin(K::Xor, a, mkConst(APInt::getAllOnes(a->w))); }

E mkBin(K k, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) {
        fprintf(stderr, "width mismatch %u %u op %d\n", a->w, b->w, (int)k);
        abort();
    }
    if (a->isConst() && b->isConst())
        return mkConst(foldBin(k, a->val, b->val));
    bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or ||
                k == K::Xor || k == K::Eq;
    if (comm) {
        if (a->isConst() || (!b->isConst() && a->id > b->id))
            std::swap(a, b);
    }
    // op(ite(c,k1,k2),k) with constants
    if (b->isConst() && constArms(a))
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (a->isConst() && constArms(b))
        return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    if ((k == K::And || k == K::Or || k == K::Xor) && a->k == K::ZExt &&
        b->k == K::ZExt) {
        unsigned m = std::max(a->a->w, b->a->w);
        return mkZExt(mkBin(k, mkZExt(a->a, m), mkZExt(b->a, m)), w);
    }
    if ((k == K::Or || k == K::Xor) && a->k == K::ZExt && b->isConst() &&
        b->val.getActiveBits() <= a->a->w)
        return mkZExt(mkBin(k, a->a, mkConst(b->val.trunc(a->a->w))), w);
    // comparing a quotient with a constant: c <= x / y  iff  c * y <= x
    // (also for y == 0, where x / y is all ones)
    if (k == K::Ule || k == K::Ult || (k == K::Eq && b->isConst())) {
        auto atLeast = [&](const APInt &c, E q) {
            if (c == 0)
                return mkTrue();
            unsigned v = w + c.getActiveBits();
            return mkBin(K::Ule, mkBin(K::Mul, mkZExt(q->b, v), mkConst(c.zext(v))),
                         mkZExt(q->a, v));
        };
        auto isDiv = [](E x) { return x->k == K::UDiv && !x->b->isConst(); };
        if (a->isConst() && isDiv(b)) {
            if (k == K::Ule)
                return atLeast(a->val, b);
            if (!a->val.isAllOnes())
                return atLeast(a->val + 1, b);
        } else if (b->isConst() && isDiv(a) && !b->val.isAllOnes()) {
            if (k == K::Ult)
                return mkNot(atLeast(b->val, a));
            if (k == K::Ule)
                return mkNot(atLeast(b->val + 1, a));
            return mkAnd1(atLeast(b->val, a), mkNot(atLeast(b->val + 1, a)));
        }
    }
    switch (k) {
        case K::Add:
            if (b->isConst()) {
                if (b->val == 0)
                    return a;
                if (a->k == K::Add && a->b->isConst())
                    return mkBin(K::Add, a->a, mkConst(a->b->val + b->val));
            } else {
                // float constants outward
                if (a->k == K::Add && a->b->isConst())
                    return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
                if (b->k == K::Add && b->b->isConst())
                    return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
                if (a->k == K::Sub && a->b == b)
                    return a->a;
                if (b->k == K::Sub && b->b == a)
                    return b->a;
            }
            break;
        case K::Sub:
            if (b->isConst())
                return mkBin(K::Add, a, mkConst(-b->val));
            if (a == b)
                return mkConst(0, w);
            if (a->k == K::Add && a->b->isConst())
                return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
            if (b->k == K::Add && b->b->isConst())
                return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkConst(-b->b->val));
            if (a->k == K::Add) {
                if (a->a == b)
                    return a->b;
                if (a->b == b)
                    return a->a;
                if (b->k == K::Add) {
                    if (a->a == b->a)
                        return mkBin(K::Sub, a->b, b->b);
                    if (a->b == b->b)
                        return mkBin(K::Sub, a->a, b->a);
                    if (a->a == b->b)
                        return mkBin(K::Sub, a->b, b->a);
                    if (a->b == b->a)
                        return mkBin(K::Sub, a->a, b->b);
                }
            }
            break;
        case K::Mul:
            if (b->isConst()) {
                if (b->val == 0)
                    return b;
                if (b->val == 1)
                    return a;
                if (b->val.isPowerOf2())
                    return mkBin(K::Shl, a, mkConst(b->val.logBase2(), w));
            }
            break;
        case K::UDiv:
            if (b->isConst() && b->val == 1)
                return a;
            if (b->isConst() && b->val.isPowerOf2())
                return mkBin(K::LShr, a, mkConst(b->val.logBase2(), w));
            break;
        case K::SDiv:
            if (b->isConst() && b->val == 1)
                return a;
            break;
        case K::URem:
            if (b->isConst() && b->val.isPowerOf2())
                return mkBin(K::And, a, mkConst(b->val - 1));
            break;
        case K::And:
            if (a == b)
                return a;
            if (b->isConst()) {
                if (b->val == 0)
                    return b;
                if (b->val.isAllOnes())
                    return a;
                if (a->k == K::And && a->b->isConst())
                    return mkBin(K::And, a->a, mkConst(a->b->val & b->val));
                if (a->k == K::ZExt && b->val.countLeadingZeros() < w) {
                    APInt t = b->val.trunc(a->a->w);
                    if (t.zext(w) == b->val || true)
                        return mkZExt(mkBin(K::And, a->a, mkConst(t)), w);
                }
                // contiguous masks become extract / concat with zeros
                {
                    unsigned tz = b->val.countTrailingZeros();
                    APInt m = b->val.lshr(tz);
                    unsigned n = m.getActiveBits();
                    if (m.countTrailingOnes() == n) {
                        E x = mkExtract(a, tz, n);
                        if (tz)
                            x = mkConcat(x, mkConst(0, tz));
                        return mkZExt(x, w);
                    }
                }
                // (x | c1) & c2 with disjoint / covered constants
                if (a->k == K::Or && a->b->isConst())
                    return mkBin(K::Or, mkBin(K::And, a->a, b),
                                 mkConst(a->b->val & b->val));
            }
            if (w == 1) {
                if (a->k == K::Xor && a->b->isTrue() && a->a == b)
                    return mkFalse();
                if (b->k == K::Xor && b->b->isTrue() && b->a == a)
                    return mkFalse();
            }
            break;
        case K::Or:
            if (a == b)
                return a;
            if (b->isConst()) {
                if (b->val == 0)
                    return a;
                if (b->val.isAllOnes())
                    return b;
            }
            if (w == 1) {
                if (a->k == K::Xor && a->b->isTrue() && a->a == b)
                    return mkTrue();
                if (b->k == K::Xor && b->b->isTrue() && b->a == a)
                    return mkTrue();
            }
            break;
        case K::Xor:
            if (a == b)
                return mkConst(0, w);
            if (b->isConst()) {
                if (b->val == 0)
                    return a;
                if (a->k == K::Xor && a->b->isConst())
                    return mkBin(K::Xor, a->a, mkConst(a->b->val ^ b->val));
                if (w == 1) {
                    // push negation into comparisons
                    if (a->k == K::Ult)
                        return mkBin(K::Ule, a->b, a->a);
                    if (a->k == K::Ule)
                        return mkBin(K::Ult, a->b, a->a);
                    if (a->k == K::Slt)
                        return mkBin(K::Sle, a->b, a->a);
                    if (a->k == K::Sle)
                        return mkBin(K::Slt, a->b, a->a);
                }
            }
            break;
        case K::Shl:
        case K::LShr:
        case K::AShr:
            if (b->isConst()) {
                if (b->val == 0)
                    return a;
                if (b->val.uge(w)) {
                    if (k != K::AShr)
                        return mkConst(0, w);
                } else {
                    unsigned s = (unsigned)b->val.getZExtValue();
                    if (k == K::LShr)
                        return mkZExt(mkExtract(a, s, w - s), w);
                    if (k == K::Shl)
                        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
                    if (k == K::LShr && a->k == K::ZExt && s >= a->a->w)
                        return mkConst(0, w);
                    if (a->k == k && a->b->isConst() && a->b->val.ult(w) &&
                        k != K::AShr) {
                        uint64_t t = s + a->b->val.getZExtValue();
                        return t >= w ? mkConst(0, w)
                                      : mkBin(k, a->a, mkConst(t, w));
                    }
                }
            }
            break;
        case K::Eq:
            if (a == b)
                return mkTrue();
            if (b->isConst()) {
                if (w == 1)
                    return b->isTrue() ? a : mkNot(a);
                if (a->k == K::Add && a->b->isConst())
                    return mkBin(K::Eq, a->a, mkConst(b->val - a->b->val));
                if (a->k == K::Xor && a->b->isConst())
                    return mkBin(K::Eq, a->a, mkConst(b->val ^ a->b->val));
                if (a->k == K::Sub && b->val == 0)
                    return mkBin(K::Eq, a->a, a->b);
                if (a->k == K::And && b->val == 0 && w > 1) {
                    // x & (x - 1) == 0: at most one bit set
                    auto dec = [](E x, E y) {
                        return y->k == K::Add && y->a == x && y->b->isConst() &&
                               y->b->val.isAllOnes();
                    };
                    E x = dec(a->a, a->b) ? a->a : dec(a->b, a->a) ? a->b : nullptr;
                    if (x) {
                        E r = mkBin(K::Eq, x, b);
                        for (unsigned i = 0; i < w; ++i)
                            r = mkOr1(r, mkBin(K::Eq, x, mkConst(APInt::getOneBitSet(w, i))));
                        return r;
                    }
                }
                if (a->k == K::ZExt) {
                    if (b->val.getActiveBits() > a->a->w)
                        return mkFalse();
                    return mkBin(K::Eq, a->a, mkConst(b->val.trunc(a->a->w)));
                }
                if (a->k == K::SExt) {
                    APInt t = b->val.trunc(a->a->w);
                    if (t.sext(w) != b->val)
                        return mkFalse();
                    return mkBin(K::Eq, a->a, mkConst(t));
                }
                if (a->k == K::Shl && a->b->isConst() && a->b->val.ult(w) &&
                    b->val != 0) {
                    unsigned s = (unsigned)a->b->val.getZExtValue();
                    if (b->val.countTrailingZeros() < s)
                        return mkFalse();
                }
                if (a->k == K::Ite && a->b->isConst()) {
                    if (a->b->val == b->val)
                        return mkOr1(a->a, mkBin(K::Eq, a->c, b));
                    return mkAnd1(mkNot(a->a), mkBin(K::Eq, a->c, b));
                }
                if (a->k == K::Ite && a->c->isConst()) {
                    if (a->c->val == b->val)
                        return mkOr1(mkNot(a->a), mkBin(K::Eq, a->b, b));
                    return mkAnd1(a->a, mkBin(K::Eq, a->b, b));
                }
                if (a->k == K::Concat) {
                    unsigned lw = a->b->w;
                    return mkAnd1(
                        mkBin(K::Eq, a->a, mkConst(b->val.lshr(lw).trunc(w - lw))),
                        mkBin(K::Eq, a->b, mkConst(b->val.trunc(lw))));
                }
            } else {
                if (a->k == K::Add && a->b->isConst() && a->a == b)
                    return mkFalse();
                if (b->k == K::Add && b->b->isConst() && b->a == a)
                    return mkFalse();
                if (a->k == K::Add && b->k == K::Add) {
                    if (a->a == b->a)
                        return mkBin(K::Eq, a->b, b->b);
                    if (a->b == b->b)
                        return mkBin(K::Eq, a->a, b->a);
                }
                if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w)
                    return mkBin(K::Eq, a->a, b->a);
            }
            break;
        case K::Ult:
            if (a == b)
                return mkFalse();
            if (b->isConst()) {
                if (b->val == 0)
                    return mkFalse();
                if (b->val == 1)
                    return mkBin(K::Eq, a, mkConst(0, w));
                if (a->k == K::ZExt) {
                    if (b->val.getActiveBits() > a->a->w)
                        return mkTrue();
                    return mkBin(K::Ult, a->a, mkConst(b->val.trunc(a->a->w)));
                }
            }
            if (a->isConst()) {
                if (a->val.isAllOnes())
                    return mkFalse();
                if (a->val == 0)
                    return mkNot(mkBin(K::Eq, b, a));
                if (b->k == K::ZExt) {
                    if (a->val.getActiveBits() > b->a->w)
                        return mkFalse();
                    return mkBin(K::Ult, mkConst(a->val.trunc(b->a->w)), b->a);
                }
            }
            if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w)
                return mkBin(K::Ult, a->a, b->a);
            break;
        case K::Ule:
            if (a == b)
                return mkTrue();
            if (b->isConst()) {
                if (b->val.isAllOnes())
                    return mkTrue();
                if (b->val == 0)
                    return mkBin(K::Eq, a, b);
                if (a->k == K::ZExt) {
                    if (b->val.getActiveBits() > a->a->w)
                        return mkTrue();
                    return mkBin(K::Ule, a->a, mkConst(b->val.trunc(a->a->w)));
                }
            }
            if (a->isConst()) {
                if (a->val == 0)
                    return mkTrue();
                if (b->k == K::ZExt) {
                    if (a->val.getActiveBits() > b->a->w)
                        return mkFalse();
                    return mkBin(K::Ule, mkConst(a->val.trunc(b->a->w)), b->a);
                }
            }
            if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w)
                return mkBin(K::Ule, a->a, b->a);
            break;
        case K::Slt:
            if (a == b)
                return mkFalse();
            if (nonNeg(a) && nonNeg(b))
                return mkBin(K::Ult, a, b);
            break;
        case K::Sle:
            if (a == b)
                return mkTrue();
            if (nonNeg(a) && nonNeg(b))
                return mkBin(K::Ule, a, b);
            break;
        default: break;
    }
    return raw(k, isCmp(k) ? 1 : w, a, b);
}

E mkIte(E c, E a, E b) {
    if (c->isConst())
        return c->isTrue() ? a : b;
    if (a == b)
        return a;
    if (c->k == K::Xor && c->b->isTrue())
        return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (a->isTrue() && b->isFalse())
            return c;
        if (a->isFalse() && b->isTrue())
            return mkNot(c);
        if (a->isTrue())
            return mkOr1(c, b);
        if (a->isFalse())
            return mkAnd1(mkNot(c), b);
        if (b->isTrue())
            return mkOr1(mkNot(c), a);
        if (b->isFalse())
            return mkAnd1(c, a);
    }
    if (a->k == K::Ite && a->a == c)
        a = a->b;
    if (b->k == K::Ite && b->a == c)
        b = b->c;
    if (a == b)
        return a;
    return raw(K::Ite, a->w, c, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w)
        return a;
    switch (a->k) {
        case K::Const: return mkConst(a->val.lshr(lo).trunc(w));
        case K::Extract: return mkExtract(a->a, a->lo + lo, w);
        case K::Concat: {
            unsigned lw = a->b->w;
            if (lo >= lw)
                return mkExtract(a->a, lo - lw, w);
            if (lo + w <= lw)
                return mkExtract(a->b, lo, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - lw),
                            mkExtract(a->b, lo, lw - lo));
        }
        case K::ZExt: {
            unsigned iw = a->a->w;
            if (lo >= iw)
                return mkConst(0, w);
            if (lo + w <= iw)
                return mkExtract(a->a, lo, w);
            return mkZExt(mkExtract(a->a, lo, iw - lo), w);
        }
        case K::SExt: {
            unsigned iw = a->a->w;
            if (lo + w <= iw)
                return mkExtract(a->a, lo, w);
            break;
        }
        case K::Ite:
            if (constArms(a))
                return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
            break;
        case K::And:
        case K::Or:
        case K::Xor:
            if (a->b->isConst())
                return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
            break;
        case K::Add:
        case K::Sub:
        case K::Mul:
            if (lo == 0 && (a->a->k == K::ZExt || a->a->k == K::SExt) &&
                a->a->a->w == w)
                return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
            break;
        default: break;
    }
    return raw(K::Extract, w, a, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
    if (hi->isConst() && lo->isConst()) {
        unsigned w = hi->w + lo->w;
        return mkConst(hi->val.zext(w).shl(lo->w) | lo->val.zext(w));
    }
    if (hi->isConst() && hi->val == 0)
        return mkZExt(lo, hi->w + lo->w);
    auto part = [](E x, E &base, unsigned &l) {
        if (x->k == K::Extract) {
            base = x->a;
            l = x->lo;
        } else {
            base = x;
            l = 0;
        }
    };
    E b1, b2;
    unsigned l1, l2;
    part(hi, b1, l1);
    part(lo, b2, l2);
    if (b1 == b2 && l1 == l2 + lo->w && hi->k == K::Extract)
        return mkExtract(b1, l2, hi->w + lo->w);
    if (lo->k == K::Concat) {
        E m = mkConcat(hi, lo->a);
        if (m->k != K::Concat)
            return mkConcat(m, lo->b);
    }
    if (hi->k == K::Concat) {
        E m = mkConcat(hi->b, lo);
        if (m->k != K::Concat)
            return mkConcat(hi->a, m);
    }
    if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a &&
        ((constArms(hi) && constArms(lo))))
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    return raw(K::Concat, hi->w + lo->w, hi, lo);
}
E mkZExt(E a, unsigned w) {
    if (w == a->w)
        return a;
    if (a->isConst())
        return mkConst(a->val.zext(w));
    if (a->k == K::ZExt)
        return mkZExt(a->a, w);
    if (constArms(a))
        return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    return raw(K::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
    if (w == a->w)
        return a;
    if (a->isConst())
        return mkConst(a->val.sext(w));
    if (a->k == K::ZExt)
        return mkZExt(a->a, w);
    if (a->k == K::SExt)
        return mkSExt(a->a, w);
    if (constArms(a))
        return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return raw(K::SExt, w, a);
}

const std::vector<uint32_t> &exprSyms(E e) {
    static auto empty = std::make_shared<const std::vector<uint32_t>>();
    if (e->syms)
        return *e->syms;
    if (e->k == K::Const) {
        e->syms = empty;
    } else if (e->k == K::Sym) {
        e->syms = std::make_shared<const std::vector<uint32_t>>(1, e->lo);
    } else {
        E ch[3] = {e->a, e->b, e->c};
        std::shared_ptr<const std::vector<uint32_t>> r = empty;
        for (E x : ch) {
            if (!x)
                continue;
            exprSyms(x);
            if (x->syms->empty() || x->syms == r)
                continue;
            if (r->empty()) {
                r = x->syms;
                continue;
            }
            if (std::includes(r->begin(), r->end(), x->syms->begin(),
                              x->syms->end()))
                continue;
            auto n = std::make_shared<std::vector<uint32_t>>();
            std::set_union(r->begin(), r->end(), x->syms->begin(),
                           x->syms->end(), std::back_inserter(*n));
            r = n;
        }
        e->syms = r;
    }
    return *e->syms;
}
bool hasUndef(E e) {
    for (uint32_t s : exprSyms(e))
        if (symTable[s].undef)
            return true;
    return false;
}

static uint64_t epochCtr = 1;
uint64_t newEpoch() { return ++epochCtr; }
APInt evalExpr(E e, const Model &m, uint64_t ep) {
    if (e->k == K::Const)
        return e->val;
    if (e->epoch == ep)
        return e->ev;
    APInt r;
    switch (e->k) {
        case K::Sym: r = m.get(e->lo); break;
        case K::Ite:
            r = evalExpr(e->a, m, ep).getBoolValue() ? evalExpr(e->b, m, ep)
                                                     : evalExpr(e->c, m, ep);
            break;
        case K::Concat: {
            APInt h = evalExpr(e->a, m, ep), l = evalExpr(e->b, m, ep);
            r = h.zext(e->w).shl(e->b->w) | l.zext(e->w);
            break;
        }
        case K::Extract: r = evalExpr(e->a, m, ep).lshr(e->lo).trunc(e->w); break;
        case K::ZExt: r = evalExpr(e->a, m, ep).zext(e->w); break;
        case K::SExt: r = evalExpr(e->a, m, ep).sext(e->w); break;
        default: r = foldBin(e->k, evalExpr(e->a, m, ep), evalExpr(e->b, m, ep));
    }
    e->epoch = ep;
    e->ev = r;
    return r;
}

static E substRec(E e, std::unordered_map<E, E> &memo,
                  std::vector<std::pair<uint32_t, E>> &map) {
    if (!hasUndef(e))
        return e;
    auto it = memo.find(e);
    if (it != memo.end())
        return it->second;
    E r;
    if (e->k == K::Sym) {
        r = nullptr;
        for (auto &p : map)
            if (p.first == e->lo)
                r = p.second;
        if (!r) {
            r = mkSym(symTable[e->lo].name + "'", e->w, true);
            map.push_back({e->lo, r});
        }
    } else {
        E a = e->a ? substRec(e->a, memo, map) : nullptr;
        E b = e->b ? substRec(e->b, memo, map) : nullptr;
        E c = e->c ? substRec(e->c, memo, map) : nullptr;
        switch (e->k) {
            case K::Ite: r = mkIte(a, b, c); break;
            case K::Concat: r = mkConcat(a, b); break;
            case K::Extract: r = mkExtract(a, e->lo, e->w); break;
            case K::ZExt: r = mkZExt(a, e->w); break;
            case K::SExt: r = mkSExt(a, e->w); break;
            default: r = mkBin(e->k, a, b);
        }
    }
    memo[e] = r;
    return r;
}
E substUndef(E e, std::vector<std::pair<uint32_t, E>> &map) {
    std::unordered_map<E, E> memo;
    return substRec(e, memo, map);
}

std::string exprStr(E e, int d) {
    static const char *n[] = {"const", "sym", "+", "-", "*", "udiv", "sdiv", "urem",
                              "srem", "&", "|", "^", "shl", "lshr", "ashr", "=",
                              "u<", "u<=", "s<", "s<=", "ite", "concat", "extract",
                              "zext", "sext"};
    if (e->isConst()) {
        llvm::SmallString<40> s;
        e->val.toStringUnsigned(s, e->w > 16 ? 16 : 10);
        return (e->w > 16 ? "0x" : "") + std::string(s.str());
    }
    if (e->k == K::Sym)
        return symTable[e->lo].name;
    if (d <= 0)
        return "..";
    std::string r = std::string("(") + n[(int)e->k];
    if (e->k == K::Extract)
        r += "@" + std::to_string(e->lo) + ":" + std::to_string(e->w);
    for (E x : {e->a, e->b, e->c})
        if (x)
            r += " " + exprStr(x, d - 1);
    return r + ")";
}
}  // namespace sx
