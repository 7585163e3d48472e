#include "solver.h"
#include "lia.h"

#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringRef.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstring>
#include <sstream>
#include <string>
#include <unordered_set>

namespace sx {
struct Solver::Impl {
    Z3_context c;
    Z3_solver inc;
    Lia *lia;
    std::vector<Z3_ast> symAst;
    struct Entry {
        Sat r;
        std::shared_ptr<const std::vector<std::pair<uint32_t, APInt>>> vals;
    };
    std::unordered_map<std::string, Entry> cache;

    std::unordered_map<unsigned, Z3_sort> sorts;
    Z3_sort bv(unsigned w) {
        Z3_sort &r = sorts[w];
        if (!r) {
            r = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, Z3_sort_to_ast(c, r));
        }
        return r;
    }
    Z3_ast keep(Z3_ast a) {
        Z3_inc_ref(c, a);
        return a;
    }
    Z3_ast one_ = nullptr, zero_ = nullptr;
    Z3_ast one() {
        if (!one_)
            one_ = keep(Z3_mk_unsigned_int64(c, 1, bv(1)));
        return one_;
    }
    Z3_ast zero() {
        if (!zero_)
            zero_ = keep(Z3_mk_unsigned_int64(c, 0, bv(1)));
        return zero_;
    }
    // width-1 bit-vectors are used throughout; booleans only at the borders
    Z3_ast b2v(Z3_ast b) {
        return Z3_mk_ite(c, b, one(), zero());
    }
    Z3_ast v2b(Z3_ast v) {
        return Z3_mk_eq(c, v, one());
    }
    Z3_ast constAst(const APInt &v) {
        unsigned w = v.getBitWidth();
        if (w <= 64)
            return Z3_mk_unsigned_int64(c, v.getZExtValue(), bv(w));
        llvm::SmallVector<char, 64> s;
        v.toStringUnsigned(s);
        s.push_back(0);
        return Z3_mk_numeral(c, s.data(), bv(w));
    }
    // boolean form of a width-1 expression, to keep formulas small
    std::unordered_map<E, Z3_ast> boolMemo;
    Z3_ast toBool(E e) {
        auto it = boolMemo.find(e);
        if (it != boolMemo.end())
            return it->second;
        Z3_ast r;
        switch (e->k) {
            case K::Const: r = e->isTrue() ? Z3_mk_true(c) : Z3_mk_false(c); break;
            case K::Eq:
                if (e->a->w == 1)
                    r = Z3_mk_eq(c, toBool(e->a), toBool(e->b));
                else
                    r = Z3_mk_eq(c, tr(e->a), tr(e->b));
                break;
            case K::Ult: r = Z3_mk_bvult(c, tr(e->a), tr(e->b)); break;
            case K::Ule: r = Z3_mk_bvule(c, tr(e->a), tr(e->b)); break;
            case K::Slt: r = Z3_mk_bvslt(c, tr(e->a), tr(e->b)); break;
            case K::Sle: r = Z3_mk_bvsle(c, tr(e->a), tr(e->b)); break;
            case K::And: {
                Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
                r = Z3_mk_and(c, 2, x);
                break;
            }
            case K::Or: {
                Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
                r = Z3_mk_or(c, 2, x);
                break;
            }
            case K::Xor:
                if (e->b->isTrue())
                    r = Z3_mk_not(c, toBool(e->a));
                else
                    r = Z3_mk_xor(c, toBool(e->a), toBool(e->b));
                break;
            case K::Ite:
                r = Z3_mk_ite(c, toBool(e->a), toBool(e->b), toBool(e->c));
                break;
            default: r = v2b(tr(e)); break;
        }
        keep(r);
        boolMemo[e] = r;
        return r;
    }
    Z3_ast tr(E e) {
        if (e->z3)
            return (Z3_ast)e->z3;
        Z3_ast r = nullptr;
        switch (e->k) {
            case K::Const: r = constAst(e->val); break;
            case K::Sym: {
                std::string n = "s" + std::to_string(e->lo);
                r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bv(e->w));
                if (symAst.size() <= e->lo)
                    symAst.resize(e->lo + 1, nullptr);
                symAst[e->lo] = keep(r);
                break;
            }
            case K::Eq:
            case K::Ult:
            case K::Ule:
            case K::Slt:
            case K::Sle: r = b2v(toBool(e)); break;
            case K::Ite:
                if (e->w == 1) {
                    r = b2v(toBool(e));
                    break;
                }
                r = Z3_mk_ite(c, toBool(e->a), tr(e->b), tr(e->c));
                break;
            case K::Add: r = Z3_mk_bvadd(c, tr(e->a), tr(e->b)); break;
            case K::Sub: r = Z3_mk_bvsub(c, tr(e->a), tr(e->b)); break;
            case K::Mul: r = Z3_mk_bvmul(c, tr(e->a), tr(e->b)); break;
            case K::UDiv: r = Z3_mk_bvudiv(c, tr(e->a), tr(e->b)); break;
            case K::SDiv: r = Z3_mk_bvsdiv(c, tr(e->a), tr(e->b)); break;
            case K::URem: r = Z3_mk_bvurem(c, tr(e->a), tr(e->b)); break;
            case K::SRem: r = Z3_mk_bvsrem(c, tr(e->a), tr(e->b)); break;
            case K::And: r = Z3_mk_bvand(c, tr(e->a), tr(e->b)); break;
            case K::Or: r = Z3_mk_bvor(c, tr(e->a), tr(e->b)); break;
            case K::Xor: r = Z3_mk_bvxor(c, tr(e->a), tr(e->b)); break;
            case K::Shl: r = Z3_mk_bvshl(c, tr(e->a), tr(e->b)); break;
            case K::LShr: r = Z3_mk_bvlshr(c, tr(e->a), tr(e->b)); break;
            case K::AShr: r = Z3_mk_bvashr(c, tr(e->a), tr(e->b)); break;
            case K::Concat: r = Z3_mk_concat(c, tr(e->a), tr(e->b)); break;
            case K::Extract:
                r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, tr(e->a));
                break;
            case K::ZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, tr(e->a)); break;
            case K::SExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, tr(e->a)); break;
        }
        e->z3 = keep(r);
        return r;
    }
};


// cvc5 with the bit-vectors encoded as integers.  0 unsat, 1 sat, 2 unknown
static int runExternal(std::string q, const std::vector<uint32_t> &ask,
                       const std::vector<SymInfo> &tab,
                       std::vector<std::string> &vals) {
    for (uint32_t s : ask)
        q += "(get-value (s" + std::to_string(s) + "))\n";
    int in[2], out[2];
    if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC))
        return 2;
    pid_t pid = fork();
    if (pid == 0) {
        dup2(in[0], 0);
        dup2(out[1], 1);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        execlp("cvc5", "cvc5", "--lang=smt2", "--solve-bv-as-int=sum",
               "--tlimit=10000", "-", (char *)nullptr);
        _exit(127);
    }
    close(in[0]);
    close(out[1]);
    if (pid < 0) {
        close(in[1]);
        close(out[0]);
        return 2;
    }
    size_t w = 0;
    while (w < q.size()) {
        ssize_t k = write(in[1], q.data() + w, q.size() - w);
        if (k <= 0)
            break;
        w += (size_t)k;
    }
    close(in[1]);
    std::string r;
    char buf[4096];
    ssize_t k;
    while ((k = read(out[0], buf, sizeof buf)) > 0)
        r.append(buf, (size_t)k);
    close(out[0]);
    int st;
    waitpid(pid, &st, 0);
    if (r.compare(0, 5, "unsat") == 0)
        return 0;
    if (r.compare(0, 3, "sat") != 0)
        return 2;
    size_t at = 0;
    for (uint32_t s : ask) {
        size_t b = r.find("#b", at);
        if (b == std::string::npos || b + 2 + tab[s].w > r.size())
            return 2;
        vals.push_back(r.substr(b + 2, tab[s].w));
        at = b + 2;
    }
    return 1;
}

static void onErr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error %d: %s\n", (int)e, Z3_get_error_msg(c, e));
    abort();
}

Solver::Solver() : p(new Impl) {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    p->c = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(p->c, onErr);
    p->inc = Z3_mk_simple_solver(p->c);
    Z3_solver_inc_ref(p->c, p->inc);
    p->lia = new Lia(p->c);
}

Sat Solver::check(const std::vector<E> &cs, E cond, const Model &base,
                  std::shared_ptr<const Model> *out) {
    if (cond->isFalse())
        return Sat::No;
    if (cond->isTrue()) {
        if (out)
            *out = std::make_shared<Model>(base);
        return Sat::Yes;
    }
    // cheap: does the known model satisfy the condition already?
    if (evalExpr(cond, base, newEpoch()).getBoolValue()) {
        ++stats.modelHits;
        if (out)
            *out = std::make_shared<Model>(base);
        return Sat::Yes;
    }
    // independence slicing: constraints transitively sharing symbols with cond
    std::unordered_set<uint32_t> want(exprSyms(cond).begin(), exprSyms(cond).end());
    std::vector<E> sel;
    std::vector<char> used(cs.size(), 0);
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < cs.size(); ++i) {
            if (used[i])
                continue;
            const auto &sy = exprSyms(cs[i]);
            bool hit = false;
            for (uint32_t s : sy)
                if (want.count(s)) {
                    hit = true;
                    break;
                }
            if (!hit)
                continue;
            used[i] = 1;
            sel.push_back(cs[i]);
            for (uint32_t s : sy)
                if (want.insert(s).second)
                    changed = true;
        }
    }
    std::vector<uint32_t> ids;
    for (E e : sel)
        ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    ids.push_back(cond->id);
    std::string key((const char *)ids.data(), ids.size() * sizeof(uint32_t));
    auto it = p->cache.find(key);
    Impl::Entry ent;
    if (it != p->cache.end()) {
        ++stats.cacheHits;
        ent = it->second;
    } else {
        auto t0 = std::chrono::steady_clock::now();
        Z3_context c = p->c;
        if (p->lia->refutes(sel, cond)) {
            ++stats.byRange;
            ent.r = Sat::No;
            p->cache[key] = ent;
            return Sat::No;
        }
        auto run = [&](Z3_solver s, unsigned ms, bool push) {
            Z3_params ps = Z3_mk_params(c);
            Z3_params_inc_ref(c, ps);
            Z3_params_set_uint(c, ps, Z3_mk_string_symbol(c, "timeout"), ms);
            Z3_solver_set_params(c, s, ps);
            Z3_params_dec_ref(c, ps);
            if (push)
                Z3_solver_push(c, s);
            for (E e : sel)
                Z3_solver_assert(c, s, p->toBool(e));
            Z3_solver_assert(c, s, p->toBool(cond));
            Z3_lbool r = Z3_solver_check(c, s);
            if (r == Z3_L_TRUE) {
                Z3_model m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                auto vals =
                    std::make_shared<std::vector<std::pair<uint32_t, APInt>>>();
                for (uint32_t sy : want) {
                    if (sy >= p->symAst.size() || !p->symAst[sy])
                        continue;
                    Z3_ast v = nullptr;
                    Z3_model_eval(c, m, p->symAst[sy], true, &v);
                    Z3_inc_ref(c, v);
                    std::string str = Z3_get_numeral_string(c, v);
                    Z3_dec_ref(c, v);
                    vals->push_back(
                        {sy, APInt(symTable[sy].w + 8, llvm::StringRef(str), 10).trunc(symTable[sy].w)});
                }
                Z3_model_dec_ref(c, m);
                ent.vals = vals;
            }
            if (dump && dumped < dumpMax && stats.queries % dumpEvery == 0 &&
                (dumpUndecided || r != Z3_L_UNDEF)) {
                ++dumped;
                fprintf(dump, "; expect %s\n(set-logic QF_BV)\n%s(check-sat)\n(exit)\n;;;;\n",
                        r == Z3_L_TRUE ? "sat" : "unsat",
                        Z3_solver_to_string(c, s));
            }
            if (push)
                Z3_solver_pop(c, s, 1);
            return r;
        };
        ++stats.queries;
        Z3_lbool r = Z3_L_UNDEF;
        auto accept = [&](std::shared_ptr<std::vector<std::pair<uint32_t, APInt>>> v) {
            // trust, but check: the values have to satisfy the query
            Model m = base;
            for (auto &kv : *v)
                m.set(kv.first, kv.second);
            uint64_t ep = newEpoch();
            bool good = evalExpr(cond, m, ep).getBoolValue();
            for (E e : sel)
                good = good && evalExpr(e, m, ep).getBoolValue();
            if (!good)
                return false;
            r = Z3_L_TRUE;
            ent.vals = v;
            ++stats.intSat;
            return true;
        };
        bool expressible = true;
        auto tryLia = [&](unsigned ms) {
            std::vector<E> all = sel;
            all.push_back(cond);
            auto v = std::make_shared<std::vector<std::pair<uint32_t, APInt>>>();
            int k = p->lia->check(all, ms, *v);
            if (k == 0) {
                r = Z3_L_FALSE;
                ++stats.intUnsat;
            } else if (k == 1 && !accept(v)) {
                ++stats.spurious;
                expressible = false;
            } else if (k == 3)
                expressible = false;
        };
        tryLia(100);
        if (r == Z3_L_UNDEF)
            r = run(p->inc, expressible ? 50 : 300, true);
        if (r == Z3_L_UNDEF && expressible)
            tryLia(4000);
        if (r == Z3_L_UNDEF) {
            // sums and comparisons: integer encoding of the bit-vectors
            std::ostringstream o;
            o << "(set-logic QF_BV)\n(set-option :produce-models true)\n";
            Z3_solver s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            for (E e : sel)
                Z3_solver_assert(c, s, p->toBool(e));
            Z3_solver_assert(c, s, p->toBool(cond));
            std::string body = Z3_solver_to_string(c, s);
            Z3_solver_dec_ref(c, s);
            std::vector<uint32_t> ask;
            for (uint32_t sy : want)
                if (sy < p->symAst.size() && p->symAst[sy] &&
                    body.find("(declare-fun s" + std::to_string(sy) + " ") !=
                        std::string::npos)
                    ask.push_back(sy);
            o << body << "(check-sat)\n";
            std::vector<std::string> vals;
            int k = runExternal(o.str(), ask, symTable, vals);
            if (k == 0) {
                r = Z3_L_FALSE;
                ++stats.intUnsat;
            } else if (k == 1) {
                auto v = std::make_shared<std::vector<std::pair<uint32_t, APInt>>>();
                for (size_t i = 0; i < ask.size(); ++i)
                    v->push_back({ask[i], APInt(symTable[ask[i]].w, vals[i], 2)});
                accept(v);
            }
        }
        if (r == Z3_L_UNDEF) {
            // bit-blast from scratch
            Z3_tactic t = Z3_mk_tactic(c, "qfbv");
            Z3_tactic_inc_ref(c, t);
            Z3_solver s = Z3_mk_solver_from_tactic(c, t);
            Z3_solver_inc_ref(c, s);
            r = run(s, timeoutMs, false);
            Z3_solver_dec_ref(c, s);
            Z3_tactic_dec_ref(c, t);
        }
        double dt = std::chrono::duration<double>(
                        std::chrono::steady_clock::now() - t0)
                        .count();
        static const char *tr = getenv("SX_TRACE");
        if (tr && dt > (tr[0] ? atof(tr) : 0.5))
            fprintf(stderr, "slow %.2f r=%d n=%zu %s\n", dt, (int)r, sel.size(), exprStr(cond, 8).c_str());
        stats.seconds += dt;
        stats.maxSeconds = std::max(stats.maxSeconds, dt);
        ent.r = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
        if (ent.r == Sat::Yes)
            ++stats.sat;
        else if (ent.r == Sat::No)
            ++stats.unsat;
        else
            ++stats.unknown;
        if (ent.r != Sat::Unknown)
            p->cache[key] = ent;
    }
    if (ent.r == Sat::Yes && out) {
        auto m = std::make_shared<Model>(base);
        for (auto &kv : *ent.vals)
            m->set(kv.first, kv.second);
        *out = m;
    }
    return ent.r;
}
}  // namespace sx
