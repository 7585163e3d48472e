#include "lia.h"

#include <llvm/ADT/StringRef.h>

#include <algorithm>
#include <map>
#include <string>
#include <unordered_map>

namespace sx {
using i128 = __int128;
namespace {
struct Iv {
    i128 lo, hi;
};
struct Bail {
    Bail(const char *why = "", E e = nullptr) {
        static bool trace = getenv("SX_TRACE");
        if (trace && e)
            fprintf(stderr, "bail %s %s\n", why, e ? exprStr(e, 8).c_str() : "");
    }
};
i128 p2(unsigned k) { return i128(1) << k; }
i128 fdiv(i128 a, i128 b) {  // b > 0
    i128 q = a / b;
    return a % b < 0 ? q - 1 : q;
}
}  // namespace

struct Lia::Impl {
    Z3_context c;
    Z3_sort I;
    std::unordered_map<E, Iv> bound;  // what the constraints say, per query
    std::unordered_map<E, Iv> ivMemo;
    std::unordered_map<E, Z3_ast> memo, bmemo;
    std::map<std::pair<E, unsigned>, std::pair<Z3_ast, Z3_ast>> cuts;
    std::vector<Z3_ast> side;
    std::vector<std::pair<uint32_t, Z3_ast>> symVars;
    std::vector<Z3_ast> held;
    unsigned fresh = 0;

    Z3_ast keep(Z3_ast a) {
        Z3_inc_ref(c, a);
        held.push_back(a);
        return a;
    }
    Z3_ast num(i128 v) {
        bool neg = v < 0;
        unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
        std::string s;
        do {
            s.push_back(char('0' + int(u % 10)));
            u /= 10;
        } while (u);
        if (neg)
            s.push_back('-');
        std::reverse(s.begin(), s.end());
        return keep(Z3_mk_numeral(c, s.c_str(), I));
    }
    Z3_ast var(const char *pre, i128 lo, i128 hi) {
        std::string n = pre + std::to_string(fresh++);
        Z3_ast v = keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), I));
        side.push_back(keep(Z3_mk_le(c, num(lo), v)));
        side.push_back(keep(Z3_mk_le(c, v, num(hi))));
        return v;
    }
    Z3_ast add(std::vector<Z3_ast> v) {
        if (v.empty())
            return num(0);
        if (v.size() == 1)
            return v[0];
        return keep(Z3_mk_add(c, (unsigned)v.size(), v.data()));
    }
    Z3_ast mul(i128 k, Z3_ast a) {
        if (k == 1)
            return a;
        Z3_ast x[2] = {num(k), a};
        return keep(Z3_mk_mul(c, 2, x));
    }
    Z3_ast eq(Z3_ast a, Z3_ast b) { return keep(Z3_mk_eq(c, a, b)); }
    Z3_ast le(Z3_ast a, Z3_ast b) { return keep(Z3_mk_le(c, a, b)); }
    Z3_ast lt(Z3_ast a, Z3_ast b) { return keep(Z3_mk_lt(c, a, b)); }
    Z3_ast ite(Z3_ast k, Z3_ast a, Z3_ast b) { return keep(Z3_mk_ite(c, k, a, b)); }

    static constexpr unsigned maxW = 80;
    static i128 val(const APInt &v) {
        const uint64_t *d = v.getRawData();
        i128 r = (i128)d[0];
        if (v.getNumWords() > 1)
            r += (i128)d[1] << 64;
        return r;
    }

    // ---- linear combinations modulo 2^w
    struct Lin {
        std::map<E, i128> t;
        i128 k = 0;
    };
    static bool shlForm(E e, unsigned &s) {
        return e->k == K::Concat && e->b->isConst() && e->b->val == 0 &&
               e->a->k == K::Extract && e->a->lo == 0 && e->a->a->w == e->w &&
               (s = e->b->w, true);
    }
    void lin(E e, i128 m, Lin &l, unsigned w, int depth = 0) {
        unsigned s;
        auto sgn = [&](const APInt &v) {
            i128 x = val(v);
            return x >= p2(w - 1) ? x - p2(w) : x;
        };
        if (m > p2(40) || m < -p2(40))
            throw Bail("1");
        if (e->isConst())
            l.k += m * sgn(e->val);
        else if (e->k == K::Add) {
            lin(e->a, m, l, w, depth + 1);
            lin(e->b, m, l, w, depth + 1);
        } else if (e->k == K::Sub) {
            lin(e->a, m, l, w, depth + 1);
            lin(e->b, -m, l, w, depth + 1);
        } else if (e->k == K::Mul && e->b->isConst() && sgn(e->b->val) < p2(20) &&
                   sgn(e->b->val) > -p2(20))
            lin(e->a, m * sgn(e->b->val), l, w, depth + 1);
        else if (e->k == K::Shl && e->b->isConst() && e->b->val.ult(30))
            lin(e->a, m * p2((unsigned)e->b->val.getZExtValue()), l, w, depth + 1);
        else if (shlForm(e, s) && s < 30)
            lin(e->a->a, m * p2(s), l, w, depth + 1);
        else if (e->k == K::Xor && e->b->isConst() && e->b->val.isAllOnes()) {
            l.k -= m;  // ~x = -x - 1
            lin(e->a, -m, l, w, depth + 1);
        } else
            l.t[e] += m;
        if (l.k > p2(100) || l.k < -p2(100))
            throw Bail("2");
    }
    bool isLin(E e) {
        unsigned s;
        return e->k == K::Add || e->k == K::Sub ||
               (e->k == K::Mul && e->b->isConst()) ||
               (e->k == K::Shl && e->b->isConst()) ||
               (e->k == K::Xor && e->b->isConst() && e->b->val.isAllOnes()) ||
               shlForm(e, s);
    }
    Iv linIv(const Lin &l) {
        Iv r{l.k, l.k};
        for (auto &x : l.t) {
            if (!x.second)
                continue;
            Iv a = iv(x.first);
            if (x.second > 0) {
                r.lo += x.second * a.lo;
                r.hi += x.second * a.hi;
            } else {
                r.lo += x.second * a.hi;
                r.hi += x.second * a.lo;
            }
        }
        return r;
    }

    // ---- value ranges
    Iv iv(E e) {
        auto it = ivMemo.find(e);
        if (it != ivMemo.end())
            return it->second;
        if (e->w > maxW)
            throw Bail("3");
        Iv full{0, p2(e->w) - 1}, r = full;
        switch (e->k) {
            case K::Const: r = {val(e->val), val(e->val)}; break;
            case K::ZExt: r = iv(e->a); break;
            case K::Extract: {
                Iv a = iv(e->a);
                a.lo >>= e->lo;
                a.hi >>= e->lo;
                if (a.hi < p2(e->w))
                    r = a;
                break;
            }
            case K::Concat: {
                Iv a = iv(e->a), b = iv(e->b);
                unsigned s;
                r = {a.lo * p2(e->b->w) + b.lo, a.hi * p2(e->b->w) + b.hi};
                if (shlForm(e, s) && s < 30) {
                    Iv x = iv(e->a->a);
                    if (x.hi * p2(s) <= full.hi)
                        r = {x.lo * p2(s), x.hi * p2(s)};
                }
                break;
            }
            case K::Ite: {
                Iv a = iv(e->b), b = iv(e->c);
                r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
                break;
            }
            case K::And:
                if (e->b->isConst())
                    r.hi = std::min(val(e->b->val), iv(e->a).hi);
                else
                    r.hi = std::min(iv(e->a).hi, iv(e->b).hi);
                break;
            case K::UDiv:
                if (e->b->isConst() && e->b->val != 0) {
                    Iv a = iv(e->a);
                    r = {a.lo / val(e->b->val), a.hi / val(e->b->val)};
                }
                break;
            case K::URem:
                if (e->b->isConst() && e->b->val != 0)
                    r.hi = std::min(val(e->b->val) - 1, iv(e->a).hi);
                break;
            default:
                if (isLin(e)) {
                    Lin l;
                    lin(e, 1, l, e->w);
                    bool self = l.t.size() == 1 && l.t.begin()->first == e;
                    if (!self) {
                        Iv a = linIv(l);
                        i128 k1 = fdiv(a.lo, p2(e->w)), k2 = fdiv(a.hi, p2(e->w));
                        if (k1 == k2)
                            r = {a.lo - k1 * p2(e->w), a.hi - k1 * p2(e->w)};
                    }
                }
                break;
        }
        auto b = bound.find(e);
        if (b != bound.end()) {
            r.lo = std::max(r.lo, b->second.lo);
            r.hi = std::min(r.hi, b->second.hi);
            if (r.lo > r.hi)
                r.lo = r.hi;  // contradictory: the solver will say so
        }
        ivMemo[e] = r;
        return r;
    }
    void restrict_(E e, i128 lo, i128 hi) {
        if (e->isConst())
            return;
        auto it = bound.find(e);
        if (it == bound.end())
            bound[e] = {lo, hi};
        else {
            it->second.lo = std::max(it->second.lo, lo);
            it->second.hi = std::min(it->second.hi, hi);
        }
        if (e->k == K::ZExt)
            restrict_(e->a, lo, std::min(hi, p2(e->a->w) - 1));
    }
    // bounds that hold whenever f holds (conjunctions only)
    void learn(E f) {
        if (f->k == K::And && f->w == 1) {
            learn(f->a);
            learn(f->b);
            return;
        }
        if (f->k == K::Ule || f->k == K::Ult) {
            if (f->a->w > maxW)
                return;
            int d = f->k == K::Ult;
            Iv a = iv(f->a), b = iv(f->b);
            if (b.hi - d >= 0)
                restrict_(f->a, 0, b.hi - d);
            restrict_(f->b, a.lo + d, p2(f->b->w) - 1);
        } else if (f->k == K::Eq && f->a->w <= maxW && f->a->w > 1) {
            Iv a = iv(f->a), b = iv(f->b);
            restrict_(f->a, b.lo, b.hi);
            restrict_(f->b, a.lo, a.hi);
        } else if (f->k == K::Xor && f->b->isTrue() && f->a->k == K::Eq &&
                   f->a->b->isConst() && f->a->b->val == 0 && f->a->a->w <= maxW)
            restrict_(f->a->a, 1, p2(f->a->a->w) - 1);
    }

    // 0 false, 1 true, 2 not known, from value ranges
    int truth(E f) {
        if (f->isConst())
            return f->isTrue();
        switch (f->k) {
            case K::And: {
                int a = truth(f->a), b = truth(f->b);
                return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : 2;
            }
            case K::Or: {
                int a = truth(f->a), b = truth(f->b);
                return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2;
            }
            case K::Xor:
                if (f->b->isTrue()) {
                    int a = truth(f->a);
                    return a == 2 ? 2 : 1 - a;
                }
                return 2;
            case K::Ule:
            case K::Ult: {
                if (f->a->w > maxW)
                    return 2;
                Iv a = iv(f->a), b = iv(f->b);
                int d = f->k == K::Ult;
                if (a.hi + d <= b.lo)
                    return 1;
                return a.lo + d > b.hi ? 0 : 2;
            }
            case K::Eq: {
                if (f->a->w > maxW || f->a->w == 1)
                    return 2;
                Iv a = iv(f->a), b = iv(f->b);
                if (a.hi < b.lo || b.hi < a.lo)
                    return 0;
                return a.lo == a.hi && b.lo == b.hi ? 1 : 2;
            }
            default: return 2;
        }
    }
    // e = 2^k * q + r
    std::pair<Z3_ast, Z3_ast> cut(E e, unsigned k) {
        auto key = std::make_pair(e, k);
        auto it = cuts.find(key);
        if (it != cuts.end())
            return it->second;
        Iv a = iv(e);
        std::pair<Z3_ast, Z3_ast> r;
        if (k == 0)
            r = {tr(e), num(0)};
        else if (a.hi < p2(k))
            r = {num(0), tr(e)};
        else {
            Z3_ast q = var("q", a.lo >> k, a.hi >> k), m = var("r", 0, p2(k) - 1);
            Z3_ast x[2] = {mul(p2(k), q), m};
            side.push_back(eq(tr(e), keep(Z3_mk_add(c, 2, x))));
            r = {q, m};
        }
        cuts[key] = r;
        return r;
    }
    Z3_ast sval(E e) {  // signed value
        Iv a = iv(e);
        if (a.hi < p2(e->w - 1))
            return tr(e);
        Z3_ast x[2] = {tr(e), num(-p2(e->w))};
        Z3_ast s = keep(Z3_mk_add(c, 2, x));
        if (a.lo >= p2(e->w - 1))
            return s;
        return ite(lt(tr(e), num(p2(e->w - 1))), tr(e), s);
    }
    Z3_ast tr(E e) {
        auto it = memo.find(e);
        if (it != memo.end())
            return it->second;
        if (e->w > maxW)
            throw Bail("4");
        Z3_ast r = nullptr;
        switch (e->k) {
            case K::Const: r = num(val(e->val)); break;
            case K::Sym: {
                Iv a = iv(e);
                r = var(("s" + std::to_string(e->lo) + "_").c_str(), a.lo, a.hi);
                symVars.push_back({e->lo, r});
                break;
            }
            case K::ZExt: r = tr(e->a); break;
            case K::SExt: {
                Iv a = iv(e->a);
                if (a.hi < p2(e->a->w - 1)) {
                    r = tr(e->a);
                    break;
                }
                Z3_ast x[2] = {tr(e->a), num(p2(e->w) - p2(e->a->w))};
                r = ite(lt(tr(e->a), num(p2(e->a->w - 1))), tr(e->a),
                        keep(Z3_mk_add(c, 2, x)));
                break;
            }
            case K::Ite: r = ite(bl(e->a), tr(e->b), tr(e->c)); break;
            case K::Extract: {
                // the bits below lo+w, then those from lo on
                Z3_ast low;
                unsigned top = e->lo + e->w;
                if (top == e->a->w || iv(e->a).hi < p2(top)) {
                    r = cut(e->a, e->lo).first;
                    break;
                }
                low = cut(e->a, top).second;
                if (e->lo == 0) {
                    r = low;
                    break;
                }
                // a = 2^lo * q + m and low = 2^lo * t + m
                {
                    Z3_ast t = var("t", 0, p2(e->w) - 1);
                    Z3_ast m = cut(e->a, e->lo).second;
                    Z3_ast x[2] = {mul(p2(e->lo), t), m};
                    side.push_back(eq(low, keep(Z3_mk_add(c, 2, x))));
                    r = t;
                }
                break;
            }
            case K::Concat: {
                unsigned s;
                if (shlForm(e, s) && s < 30)
                    goto linear;
                Z3_ast x[2] = {mul(p2(e->b->w), tr(e->a)), tr(e->b)};
                r = keep(Z3_mk_add(c, 2, x));
                break;
            }
            case K::LShr:
                if (!e->b->isConst() || e->b->val.uge(e->w))
                    throw Bail("5");
                r = cut(e->a, (unsigned)e->b->val.getZExtValue()).first;
                break;
            case K::UDiv:
            case K::URem: {
                if (!e->b->isConst() || e->b->val == 0)
                    throw Bail("6");
                i128 d = val(e->b->val);
                Iv a = iv(e->a);
                Z3_ast q = var("dq", a.lo / d, a.hi / d), m = var("dr", 0, d - 1);
                Z3_ast x[2] = {mul(d, q), m};
                side.push_back(eq(tr(e->a), keep(Z3_mk_add(c, 2, x))));
                r = e->k == K::UDiv ? q : m;
                break;
            }
            case K::And: case K::Or: case K::Xor:
            case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle:
                if (e->w == 1) {
                    r = ite(bl(e), num(1), num(0));
                    break;
                }
                if (e->k == K::And && e->b->isConst()) {
                    // contiguous mask
                    unsigned tz = e->b->val.countTrailingZeros();
                    APInt m = e->b->val.lshr(tz);
                    unsigned n = m.getActiveBits();
                    if (m.countTrailingOnes() == n) {
                        r = mul(p2(tz), tr(mkExtract(e->a, tz, n)));
                        break;
                    }
                }
                if (e->k == K::Xor)
                    goto linear;
                throw Bail("7", e);
            default:
            linear: {
                if (!isLin(e))
                    throw Bail("8", e);
                Lin l;
                lin(e, 1, l, e->w);
                if (l.t.size() == 1 && l.t.begin()->first == e)
                    throw Bail("9");
                std::vector<Z3_ast> v;
                for (auto &x : l.t)
                    if (x.second)
                        v.push_back(mul(x.second, tr(x.first)));
                Iv a = linIv(l);
                i128 M = p2(e->w);
                i128 k1 = fdiv(a.lo, M), k2 = fdiv(a.hi, M);
                if (k1 == k2) {
                    if (l.k - k1 * M)
                        v.push_back(num(l.k - k1 * M));
                    r = add(v);
                } else {
                    if (l.k)
                        v.push_back(num(l.k));
                    Z3_ast k = var("k", k1, k2);
                    v.push_back(mul(-M, k));
                    Iv b = iv(e);
                    r = var("a", b.lo, b.hi);
                    side.push_back(eq(r, add(v)));
                }
            }
        }
        memo[e] = r;
        return r;
    }
    // constraints themselves are kept even where the ranges imply them: the
    // ranges come from them
    void top(E e, std::vector<Z3_ast> &out) {
        if (e->k == K::And) {
            top(e->a, out);
            top(e->b, out);
        } else
            out.push_back(blRaw(e));
    }
    Z3_ast bl(E e) {
        auto it = bmemo.find(e);
        if (it != bmemo.end())
            return it->second;
        int t = truth(e);
        Z3_ast r = t == 2 ? blRaw(e) : keep(t ? Z3_mk_true(c) : Z3_mk_false(c));
        bmemo[e] = r;
        return r;
    }
    Z3_ast blRaw(E e) {
        Z3_ast r = nullptr;
        switch (e->k) {
            case K::Const:
                r = keep(e->isTrue() ? Z3_mk_true(c) : Z3_mk_false(c));
                break;
            case K::Eq:
                if (e->a->w == 1)
                    r = eq(bl(e->a), bl(e->b));
                else
                    r = eq(tr(e->a), tr(e->b));
                break;
            case K::Ult: r = lt(tr(e->a), tr(e->b)); break;
            case K::Ule: r = le(tr(e->a), tr(e->b)); break;
            case K::Slt: r = lt(sval(e->a), sval(e->b)); break;
            case K::Sle: r = le(sval(e->a), sval(e->b)); break;
            case K::And: {
                Z3_ast x[2] = {bl(e->a), bl(e->b)};
                r = keep(Z3_mk_and(c, 2, x));
                break;
            }
            case K::Or: {
                std::vector<Z3_ast> x;
                E y = e;
                while (y->k == K::Or) {
                    if (truth(y->b) != 0)
                        x.push_back(bl(y->b));
                    y = y->a;
                }
                if (truth(y) != 0)
                    x.push_back(bl(y));
                r = keep(x.empty() ? Z3_mk_false(c)
                                   : Z3_mk_or(c, (unsigned)x.size(), x.data()));
                break;
            }
            case K::Xor:
                if (e->b->isTrue())
                    r = keep(Z3_mk_not(c, bl(e->a)));
                else
                    r = keep(Z3_mk_xor(c, bl(e->a), bl(e->b)));
                break;
            case K::Ite: r = ite(bl(e->a), bl(e->b), bl(e->c)); break;
            default: r = eq(tr(e), num(1)); break;
        }
        return r;
    }
    void reset() {
        bound.clear();
        ivMemo.clear();
        memo.clear();
        bmemo.clear();
        cuts.clear();
        side.clear();
        symVars.clear();
        for (Z3_ast a : held)
            Z3_dec_ref(c, a);
        held.clear();
        fresh = 0;
    }
};

Lia::Lia(Z3_context c) : p(new Impl) {
    p->c = c;
    p->I = Z3_mk_int_sort(c);
    Z3_inc_ref(c, Z3_sort_to_ast(c, p->I));
}

bool Lia::refutes(const std::vector<E> &cs, E cond) {
    bool r = false;
    try {
        for (int round = 0; round < 2; ++round) {
            for (E e : cs)
                p->learn(e);
            p->ivMemo.clear();
        }
        r = p->truth(cond) == 0;
    } catch (Bail &) {
    }
    p->reset();
    return r;
}

int Lia::check(const std::vector<E> &cs, unsigned ms,
               std::vector<std::pair<uint32_t, APInt>> &vals) {
    Z3_context c = p->c;
    int res = 2;
    std::vector<Z3_ast> fs;
    try {
        for (int round = 0; round < 4; ++round) {
            for (E e : cs)
                p->learn(e);
            p->ivMemo.clear();
        }
        for (E e : cs)
            p->top(e, fs);
    } catch (Bail &) {
        p->reset();
        return 3;
    }
    Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_LIA"));
    Z3_solver_inc_ref(c, s);
    Z3_params ps = Z3_mk_params(c);
    Z3_params_inc_ref(c, ps);
    Z3_params_set_uint(c, ps, Z3_mk_string_symbol(c, "timeout"), ms);
    Z3_solver_set_params(c, s, ps);
    Z3_params_dec_ref(c, ps);
    for (Z3_ast a : p->side)
        Z3_solver_assert(c, s, a);
    for (Z3_ast a : fs)
        Z3_solver_assert(c, s, a);
    Z3_lbool r = Z3_solver_check(c, s);
    if (r == Z3_L_FALSE)
        res = 0;
    else if (r == Z3_L_TRUE) {
        res = 1;
        Z3_model m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        for (auto &sv : p->symVars) {
            Z3_ast v = nullptr;
            Z3_model_eval(c, m, sv.second, true, &v);
            Z3_inc_ref(c, v);
            std::string str = Z3_get_numeral_string(c, v);
            Z3_dec_ref(c, v);
            unsigned w = symTable[sv.first].w;
            vals.push_back({sv.first, APInt(w + 8, llvm::StringRef(str), 10).trunc(w)});
        }
        Z3_model_dec_ref(c, m);
    }
    Z3_solver_dec_ref(c, s);
    p->reset();
    return res;
}
}  // namespace sx
