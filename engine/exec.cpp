// Instruction semantics, control flow, exceptions, threads.
#include "exec.h"

#include <llvm/ADT/SmallString.h>

#include <cmath>
#include <cstring>

#include <algorithm>
#include <chrono>

using namespace llvm;
namespace sx {


Frame &Exec::top(State &s) {
    FrameP &p = thr(s).st.back();
    if (p.use_count() > 1)
        p = std::make_shared<Frame>(*p);
    return *p;
}
void Exec::set(State &s, const PI &pi, const Val &v) {
    if (pi.dst >= 0)
        top(s).regs[pi.dst] = v;
}
void Exec::advance(State &s) { ++top(s).ip; }

std::vector<std::string> Exec::backtrace(State &s) {
    std::vector<std::string> r;
    Thread &t = thr(s);
    for (size_t i = t.st.size(); i-- > 0;) {
        Frame &f = *t.st[i];
        std::string l = f.f->f->getName().str();
        if (f.ip < (int)f.f->blocks[f.bb].insts.size())
            if (auto dloc = f.f->blocks[f.bb].insts[f.ip].I->getDebugLoc())
                l += " (" + dloc->getFilename().str() + ":" +
                     std::to_string(dloc->getLine()) + ")";
        r.push_back(l);
        if (r.size() > 25)
            break;
    }
    return r;
}
std::string Exec::topRepoFn(State &s) {
    Thread &t = thr(s);
    for (size_t i = t.st.size(); i-- > 0;) {
        std::string n = t.st[i]->f->f->getName().str();
        if (n.find("6vecmem") != std::string::npos)
            return n;
    }
    return t.st.empty() ? "?" : t.st.back()->f->f->getName().str();
}

void Exec::fail(State &, const std::string &kind, const std::string &id,
                const std::string &msg, std::shared_ptr<const Model> m) {
    throw PathError{kind, id, msg, m};
}

void Exec::report(State &s, const PathError &e) {
    if (e.kind == "limit" || e.kind == "unmodelled") {
        std::string where;
        auto bt = backtrace(s);
        for (size_t i = 0; i < bt.size() && i < 4; ++i)
            where += (i ? " < " : "") + bt[i];
        giveUp(e.kind + ": " + e.msg + " at " + where);
        return;
    }
    std::string key = e.kind + "|" + e.id;
    auto it = repIdx.find(key);
    if (it != repIdx.end()) {
        ++reports[it->second].count;
        return;
    }
    if (reports.size() >= maxReports)
        return;
    Report r;
    r.kind = e.kind;
    r.id = e.id;
    r.msg = e.msg;
    r.trace = backtrace(s);
    const Model &m = e.model ? *e.model : *s.model;
    for (Input &i : s.inputs) {
        APInt v = m.get(i.sym->lo);
        SmallString<24> str;
        v.toStringUnsigned(str);
        r.inputs.push_back({i.name, std::string(str.str())});
        r.widths.push_back(i.sym->w);
    }
    repIdx[key] = reports.size();
    reports.push_back(r);
}

// ------------------------------------------------------------- constraints
void Exec::addC(State &s, E c) {
    if (c->isTrue())
        return;
    if (c->k == K::And && c->w == 1) {
        addC(s, c->a);
        addC(s, c->b);
        return;
    }
    for (E x : s.pc)
        if (x == c)
            return;
    s.pc.push_back(c);
}
StateP Exec::clone(State &s) {
    auto n = std::make_unique<State>(s);
    n->id = nextState++;
    n->forks++;
    return n;
}
Sat Exec::feas(State &s, E c, std::shared_ptr<const Model> *m) {
    return solver.check(s.pc, c, *s.model, m);
}
void Exec::undefCheck(State &s, E c, const char *what) {
    if (!hasUndef(c))
        return;
    std::vector<std::pair<uint32_t, E>> map;
    E c2 = substUndef(c, map);
    // constraints may mention undef symbols as well; those are then decided
    std::vector<E> cs = s.pc;
    for (E x : s.pc)
        if (hasUndef(x))
            cs.push_back(substUndef(x, map));
    std::shared_ptr<const Model> m;
    Model base = *s.model;
    for (auto &p : map)
        base.set(p.second->lo, base.get(p.first));
    Sat r = solver.check(cs, mkNot(mkEq(c, c2)), base, &m);
    if (r == Sat::Yes)
        fail(s, "uninit", "uninit:" + topRepoFn(s),
             std::string("use of an uninitialised value (") + what + "): " +
                 exprStr(c, 4),
             m);
}

bool Exec::branch(State &s, E cond, StateP &other) {
    if (cond->isConst())
        return cond->isTrue();
    undefCheck(s, cond, "branch");
    bool v = evalExpr(cond, *s.model, newEpoch()).getBoolValue();
    E here = v ? cond : mkNot(cond), there = v ? mkNot(cond) : cond;
    std::shared_ptr<const Model> m;
    Sat r = feas(s, there, &m);
    if (r == Sat::Unknown)
        giveUp("solver gave no answer on a branch");
    if (r == Sat::Yes) {
        other = clone(s);
        addC(*other, there);
        other->model = m;
        ++forks;
    }
    addC(s, here);
    return v;
}
bool Exec::decide(State &s, E cond) {
    StateP o;
    bool v = branch(s, cond, o);
    if (o)
        work.push_back(std::move(o));
    return v;
}
uint64_t Exec::concretize(State &s, const Val &v, unsigned limit) {
    if (v.concrete())
        return v.c;
    E e = toE(v);
    undefCheck(s, e, "value that must be concrete");
    APInt val = evalExpr(e, *s.model, newEpoch());
    E eq = mkEq(e, mkConst(val));
    std::shared_ptr<const Model> m;
    Sat r = feas(s, mkNot(eq), &m);
    if (r == Sat::Unknown)
        giveUp("solver gave no answer on a value choice");
    if (r == Sat::Yes) {
        StateP o = clone(s);
        addC(*o, mkNot(eq));
        o->model = m;
        if (++o->forks > 200000 || limit == 0)
            giveUp("too many values");
        else
            work.push_back(std::move(o));
        ++forks;
    }
    addC(s, eq);
    return val.getZExtValue();
}

// ------------------------------------------------------------- values
static K binKind(unsigned opc) {
    switch (opc) {
        case Instruction::Add: return K::Add;
        case Instruction::Sub: return K::Sub;
        case Instruction::Mul: return K::Mul;
        case Instruction::UDiv: return K::UDiv;
        case Instruction::SDiv: return K::SDiv;
        case Instruction::URem: return K::URem;
        case Instruction::SRem: return K::SRem;
        case Instruction::And: return K::And;
        case Instruction::Or: return K::Or;
        case Instruction::Xor: return K::Xor;
        case Instruction::Shl: return K::Shl;
        case Instruction::LShr: return K::LShr;
        case Instruction::AShr: return K::AShr;
    }
    return K::Const;
}

static double toD(const Val &v) {
    if (v.w == 32) {
        uint32_t u = (uint32_t)v.c;
        float f;
        memcpy(&f, &u, 4);
        return f;
    }
    double d;
    memcpy(&d, &v.c, 8);
    return d;
}
static Val fromD(double d, unsigned w) {
    if (w == 32) {
        float f = (float)d;
        uint32_t u;
        memcpy(&u, &f, 4);
        return V(u, 32);
    }
    uint64_t u;
    memcpy(&u, &d, 8);
    return V(u, 64);
}

Val Exec::binVal(State &s, unsigned opc, const Val &a, const Val &b,
                 const Instruction *I) {
    if (a.agg) {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        for (size_t i = 0; i < a.agg->size(); ++i)
            r.agg->push_back(binVal(s, opc, (*a.agg)[i], (*b.agg)[i], I));
        return r;
    }
    switch (opc) {
        case Instruction::FAdd:
        case Instruction::FSub:
        case Instruction::FMul:
        case Instruction::FDiv:
        case Instruction::FRem: {
            if (!a.concrete() || !b.concrete() || a.w > 64)
                fail(s, "unmodelled", "fp", "floating point on symbolic values");
            double x = toD(a), y = toD(b);
            if (a.w == 32) {
                float fx = (float)x, fy = (float)y, r = 0;
                switch (opc) {
                    case Instruction::FAdd: r = fx + fy; break;
                    case Instruction::FSub: r = fx - fy; break;
                    case Instruction::FMul: r = fx * fy; break;
                    case Instruction::FDiv: r = fx / fy; break;
                    default: r = fmodf(fx, fy);
                }
                return fromD(r, 32);
            }
            double r = 0;
            switch (opc) {
                case Instruction::FAdd: r = x + y; break;
                case Instruction::FSub: r = x - y; break;
                case Instruction::FMul: r = x * y; break;
                case Instruction::FDiv: r = x / y; break;
                default: r = fmod(x, y);
            }
            return fromD(r, 64);
        }
        default: break;
    }
    K k = binKind(opc);
    if (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) {
        E z = mkEq(toE(b), mkConst(0, b.w));
        if (!z->isFalse()) {
            std::shared_ptr<const Model> m;
            if (feas(s, z, &m) == Sat::Yes)
                fail(s, "ub", "divzero:" + topRepoFn(s), "division by zero", m);
        }
    }
    if (k == K::Shl || k == K::LShr || k == K::AShr) {
        E big = mkBin(K::Ule, mkConst(b.w, b.w), toE(b));
        if (!big->isFalse() && b.w > 1) {
            std::shared_ptr<const Model> m;
            if (feas(s, big, &m) == Sat::Yes)
                fail(s, "ub", "shift:" + topRepoFn(s),
                     "shift by at least the width of the operand", m);
        }
    }
    if (checkOverflow && (k == K::Add || k == K::Sub || k == K::Mul)) {
        auto *ob = dyn_cast<OverflowingBinaryOperator>(I);
        if (ob && ob->hasNoSignedWrap() && a.w <= 64) {
            E x = mkSExt(toE(a), a.w * 2), y = mkSExt(toE(b), a.w * 2);
            E wide = mkBin(k, x, y);
            E ov = mkNot(mkEq(wide, mkSExt(mkExtract(wide, 0, a.w), a.w * 2)));
            std::shared_ptr<const Model> m;
            if (!ov->isFalse() && feas(s, ov, &m) == Sat::Yes)
                fail(s, "ub", "overflow:" + topRepoFn(s), "signed integer overflow", m);
        }
    }
    if (!a.e && !b.e && a.w <= 64) {
        uint64_t x = a.c, y = b.c, r;
        switch (k) {
            case K::Add: r = x + y; break;
            case K::Sub: r = x - y; break;
            case K::Mul: r = x * y; break;
            case K::And: r = x & y; break;
            case K::Or: r = x | y; break;
            case K::Xor: r = x ^ y; break;
            default: return VE(mkBin(k, toE(a), toE(b)));
        }
        return V(r, a.w);
    }
    return VE(mkBin(k, toE(a), toE(b)));
}

Val Exec::cmpVal(CmpInst::Predicate p, const Val &a, const Val &b) {
    if (a.agg) {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        for (size_t i = 0; i < a.agg->size(); ++i)
            r.agg->push_back(cmpVal(p, (*a.agg)[i], (*b.agg)[i]));
        return r;
    }
    if (!a.e && !b.e) {
        int64_t sa = a.w == 64 ? (int64_t)a.c : (int64_t)(a.c << (64 - a.w)) >> (64 - a.w);
        int64_t sb = b.w == 64 ? (int64_t)b.c : (int64_t)(b.c << (64 - b.w)) >> (64 - b.w);
        bool r = false;
        switch (p) {
            case CmpInst::ICMP_EQ: r = a.c == b.c; break;
            case CmpInst::ICMP_NE: r = a.c != b.c; break;
            case CmpInst::ICMP_UGT: r = a.c > b.c; break;
            case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
            case CmpInst::ICMP_ULT: r = a.c < b.c; break;
            case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
            case CmpInst::ICMP_SGT: r = sa > sb; break;
            case CmpInst::ICMP_SGE: r = sa >= sb; break;
            case CmpInst::ICMP_SLT: r = sa < sb; break;
            case CmpInst::ICMP_SLE: r = sa <= sb; break;
            default: abort();
        }
        return V(r, 1);
    }
    E x = toE(a), y = toE(b);
    switch (p) {
        case CmpInst::ICMP_EQ: return VE(mkEq(x, y));
        case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y)));
        case CmpInst::ICMP_UGT: return VE(mkBin(K::Ult, y, x));
        case CmpInst::ICMP_UGE: return VE(mkBin(K::Ule, y, x));
        case CmpInst::ICMP_ULT: return VE(mkBin(K::Ult, x, y));
        case CmpInst::ICMP_ULE: return VE(mkBin(K::Ule, x, y));
        case CmpInst::ICMP_SGT: return VE(mkBin(K::Slt, y, x));
        case CmpInst::ICMP_SGE: return VE(mkBin(K::Sle, y, x));
        case CmpInst::ICMP_SLT: return VE(mkBin(K::Slt, x, y));
        case CmpInst::ICMP_SLE: return VE(mkBin(K::Sle, x, y));
        default: abort();
    }
}
Val Exec::fcmpVal(State &s, CmpInst::Predicate p, const Val &a, const Val &b) {
    if (!a.concrete() || !b.concrete())
        fail(s, "unmodelled", "fp", "floating point comparison on symbolic values");
    double x = toD(a), y = toD(b);
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p) {
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        default: r = false;
    }
    return V(r, 1);
}

Val Exec::castVal(State &s, unsigned opc, const Val &a, Type *from, Type *to) {
    if (a.agg && opc != Instruction::BitCast) {
        Val r;
        r.agg = std::make_shared<std::vector<Val>>();
        for (auto &x : *a.agg)
            r.agg->push_back(castVal(s, opc, x, from->getScalarType(), to->getScalarType()));
        return r;
    }
    unsigned w = to->isPointerTy() ? 64 : (unsigned)to->getPrimitiveSizeInBits();
    switch (opc) {
        case Instruction::Trunc:
            if (!a.e && w <= 64)
                return V(a.c, w);
            return VE(mkExtract(toE(a), 0, w));
        case Instruction::ZExt:
            if (!a.e && w <= 64)
                return V(a.c, w);
            return VE(mkZExt(toE(a), w));
        case Instruction::SExt: return VE(mkSExt(toE(a), w));
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
            if (w == a.w)
                return a;
            return w < a.w ? VE(mkExtract(toE(a), 0, w)) : VE(mkZExt(toE(a), w));
        case Instruction::AddrSpaceCast: return a;
        case Instruction::BitCast: {
            bool va = from->isVectorTy(), vb = to->isVectorTy();
            if (!va && !vb)
                return a;
            E e;
            if (va) {
                e = nullptr;
                for (auto &x : *a.agg)
                    e = e ? mkConcat(toE(x), e) : toE(x);
            } else
                e = toE(a);
            if (!vb)
                return VE(e);
            auto *vt = cast<FixedVectorType>(to);
            unsigned ew = vt->getElementType()->isPointerTy()
                              ? 64
                              : vt->getElementType()->getPrimitiveSizeInBits();
            Val r;
            r.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < vt->getNumElements(); ++i)
                r.agg->push_back(VE(mkExtract(e, i * ew, ew)));
            return r;
        }
        case Instruction::UIToFP:
        case Instruction::SIToFP:
        case Instruction::FPToUI:
        case Instruction::FPToSI:
        case Instruction::FPExt:
        case Instruction::FPTrunc: {
            if (!a.concrete()) {
                Val c = V(concretize(s, a), a.w);
                return castVal(s, opc, c, from, to);
            }
            if (opc == Instruction::UIToFP)
                return w == 32 ? fromD((float)a.c, 32) : fromD((double)a.c, 64);
            if (opc == Instruction::SIToFP) {
                int64_t x = a.w == 64 ? (int64_t)a.c
                                      : (int64_t)(a.c << (64 - a.w)) >> (64 - a.w);
                return w == 32 ? fromD((float)x, 32) : fromD((double)x, 64);
            }
            double d = toD(a);
            if (opc == Instruction::FPToUI) {
                if (!(d > -1.0 && d < ldexp(1.0, w)))
                    fail(s, "ub", "fptoui:" + topRepoFn(s),
                         "floating point value does not fit the integer type");
                return V((uint64_t)d, w);
            }
            if (opc == Instruction::FPToSI) {
                if (!(d >= -ldexp(1.0, w - 1) && d < ldexp(1.0, w - 1)))
                    fail(s, "ub", "fptosi:" + topRepoFn(s),
                         "floating point value does not fit the integer type");
                return V((uint64_t)(int64_t)d, w);
            }
            return fromD(d, w);
        }
    }
    fail(s, "unmodelled", "cast", "cast");
}

// ------------------------------------------------------------- control
void Exec::jump(State &s, int bb) {
    Frame &f = top(s);
    f.prev = f.bb;
    f.bb = bb;
    f.ip = 0;
    PB &b = f.f->blocks[bb];
    if (b.nphi) {
        std::vector<Val> vals(b.nphi);
        for (unsigned i = 0; i < b.nphi; ++i) {
            PI &p = b.insts[i];
            for (size_t k = 0; k < p.succ.size(); ++k)
                if (p.succ[k] == f.prev) {
                    vals[i] = get(f, p.ops[k]);
                    break;
                }
        }
        for (unsigned i = 0; i < b.nphi; ++i)
            f.regs[b.insts[i].dst] = vals[i];
        f.ip = b.nphi;
    }
}

void Exec::callFn(State &s, PF *pf, const std::vector<Val> &args, bool discard) {
    if (!pf->prepared)
        prepBody(pf);
    pf->executed = true;
    pf->calls++;
    Thread &t = thr(s);
    if (t.st.size() > 400)
        fail(s, "limit", "stack", "call depth above 400 in " + pf->f->getName().str());
    auto f = std::make_shared<Frame>();
    f->f = pf;
    f->regs.resize(pf->nregs);
    size_t n = pf->f->arg_size();
    for (size_t i = 0; i < n && i < args.size(); ++i) {
        f->regs[i] = args[i];
        Argument *a = pf->f->getArg(i);
        if (a->hasByValAttr()) {
            Type *bt = a->getParamByValType();
            uint64_t sz = dl.getTypeAllocSize(bt);
            uint64_t al = a->getParamAlign() ? a->getParamAlign()->value() : 8;
            uint64_t p = allocObj(s, sz, al, OK_Stack, "byval", true);
            doMemcpy(s, V(p, 64), args[i], V(sz, 64), false);
            f->regs[i] = V(p, 64);
            f->allocas.push_back(p);
        }
    }
    for (size_t i = n; i < args.size(); ++i)
        f->varargs.push_back(args[i]);
    f->discardRet = discard;
    t.st.push_back(f);
    maxDepth = std::max<uint64_t>(maxDepth, t.st.size());
}

static void dropFrame(State &s, Thread &t) {
    for (uint64_t a : t.st.back()->allocas)
        s.mem.erase(a);
    t.st.pop_back();
}

void Exec::finishThread(State &s) {
    Thread &t = thr(s);
    t.finished = true;
    if (s.cur == 0)
        return;
    if (s.multi)
        t.vc[s.cur]++;
    schedule(s, true);
}

void Exec::doReturn(State &s, const Val *v) {
    Thread &t = thr(s);
    bool discard = t.st.back()->discardRet;
    dropFrame(s, t);
    if (t.st.empty()) {
        finishThread(s);
        return;
    }
    if (discard)
        return;  // engine-inserted call: caller pc already right
    Frame &f = top(s);
    PI &ci = f.f->blocks[f.bb].insts[f.ip];
    if (v && ci.dst >= 0)
        f.regs[ci.dst] = *v;
    if (ci.opc == Instruction::Invoke)
        jump(s, ci.succ[0]);
    else
        ++f.ip;
}

// ------------------------------------------------------------- exceptions
static const char *stdBase(StringRef n) {
    static const std::map<std::string, const char *> m = {
        {"_ZTISt9bad_alloc", "_ZTISt9exception"},
        {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt12system_error", "_ZTISt13runtime_error"},
        {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
        {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
    auto it = m.find(n.str());
    return it == m.end() ? nullptr : it->second;
}
bool Exec::tiMatch(const GlobalValue *thrown, const GlobalValue *clause) {
    if (!clause)
        return true;
    if (thrown->getName() == clause->getName())
        return true;
    if (const char *b = stdBase(thrown->getName())) {
        std::string n = b;
        while (true) {
            if (clause->getName() == n)
                return true;
            const char *x = stdBase(n);
            if (!x)
                break;
            n = x;
        }
        return false;
    }
    if (auto *gv = dyn_cast<GlobalVariable>(thrown))
        if (gv->hasInitializer())
            for (unsigned i = 2; i < gv->getInitializer()->getNumOperands(); ++i)
                if (auto *b = dyn_cast<GlobalValue>(
                        gv->getInitializer()->getOperand(i)->stripPointerCasts()))
                    if (b->getName().starts_with("_ZTI") && tiMatch(b, clause))
                        return true;
    return false;
}

void Exec::doThrow(State &s, uint64_t obj) {
    ExcInfo &ei = s.exc[obj];
    Thread &t = thr(s);
    // is there any handler at all?  (otherwise std::terminate)
    bool found = false;
    for (size_t i = t.st.size(); i-- > 0 && !found;) {
        Frame &f = *t.st[i];
        PI &ci = f.f->blocks[f.bb].insts[f.ip];
        if (ci.opc != Instruction::Invoke)
            continue;
        PB &ub = f.f->blocks[ci.succ[1]];
        auto *lp = cast<LandingPadInst>(ub.insts[ub.nphi].I);
        for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
            if (lp->isFilter(k)) {
                found = true;
                break;
            }
            auto *g = dyn_cast<GlobalValue>(lp->getClause(k)->stripPointerCasts());
            if (tiMatch(ei.ti, g))
                found = true;
        }
    }
    if (!found)
        fail(s, "uncaught", "uncaught:" + topRepoFn(s),
             "exception " + (ei.ti ? ei.ti->getName().str() : "?") +
                 " leaves the program");
    while (!t.st.empty()) {
        Frame &f0 = *t.st.back();
        PI &ci = f0.f->blocks[f0.bb].insts[f0.ip];
        if (ci.opc == Instruction::Invoke) {
            PB &ub = f0.f->blocks[ci.succ[1]];
            auto *lp = cast<LandingPadInst>(ub.insts[ub.nphi].I);
            bool enter = lp->isCleanup();
            int sel = 0;
            for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
                if (lp->isFilter(k)) {
                    enter = true;
                    sel = -1;
                    break;
                }
                auto *g = dyn_cast<GlobalValue>(lp->getClause(k)->stripPointerCasts());
                if (tiMatch(ei.ti, g)) {
                    enter = true;
                    sel = g ? (int)(gaddr[g] & 0x7fffffff) : 0x7fffff01;
                    break;
                }
            }
            if (enter) {
                jump(s, ci.succ[1]);
                Frame &f = top(s);
                PI &lpi = f.f->blocks[f.bb].insts[f.ip];
                Val v;
                v.agg = std::make_shared<std::vector<Val>>();
                v.agg->push_back(V(obj, 64));
                v.agg->push_back(V((uint32_t)sel, 32));
                f.regs[lpi.dst] = v;
                ++f.ip;
                advanced = true;
                return;
            }
        }
        dropFrame(s, t);
    }
    fail(s, "uncaught", "uncaught", "exception leaves the program");
}

// ------------------------------------------------------------- threads
bool Exec::runnable(State &s, unsigned i) {
    Thread &t = s.th[i];
    if (t.finished)
        return false;
    if (t.blockedOn) {
        auto it = s.mutexOwner.find(t.blockedOn);
        if (it != s.mutexOwner.end() && it->second >= 0)
            return false;
        return true;
    }
    if (t.joining) {
        for (size_t k = 0; k < s.th.size(); ++k)
            if (k != i && !s.th[k].finished)
                return false;
        return true;
    }
    return true;
}
void Exec::schedule(State &s, bool) {
    std::vector<unsigned> r;
    for (unsigned i = 0; i < s.th.size(); ++i)
        if (runnable(s, i))
            r.push_back(i);
    if (r.empty())
        fail(s, "deadlock", "deadlock", "no thread can run");
    if (r.size() == 1) {
        s.cur = r[0];
        s.th[s.cur].granted = true;
        return;
    }
    ++schedPoints;
    // the scheduler's decision is a symbolic input
    E sym = inputSym(s, "sched", 8);
    for (size_t k = 1; k < r.size(); ++k) {
        StateP o = clone(s);
        E c = mkEq(sym, mkConst(r[k], 8));
        addC(*o, c);
        auto m = std::make_shared<Model>(*s.model);
        m->set(sym->lo, APInt(8, r[k]));
        o->model = m;
        o->cur = r[k];
        o->th[r[k]].granted = true;
        work.push_back(std::move(o));
        ++forks;
    }
    addC(s, mkEq(sym, mkConst(r[0], 8)));
    auto m = std::make_shared<Model>(*s.model);
    m->set(sym->lo, APInt(8, r[0]));
    s.model = m;
    s.cur = r[0];
    s.th[r[0]].granted = true;
}
// Called before an operation other threads can observe.
bool Exec::visible(State &s) {
    if (!s.multi)
        return true;
    Thread &t = thr(s);
    if (t.granted) {
        t.granted = false;
        return true;
    }
    schedule(s, false);
    throw Redo{};
}

// ------------------------------------------------------------- execution
void Exec::execBin(State &s, const PI &pi) {
    Frame &f = top(s);
    Val a = get(f, pi.ops[0]), b = get(f, pi.ops[1]);
    Val r = binVal(s, pi.opc, a, b, pi.I);
    set(s, pi, r);
}

void Exec::exec(State &s, const PI &pi) {
    switch (pi.opc) {
        case Instruction::Add:
        case Instruction::Sub:
        case Instruction::Mul:
        case Instruction::UDiv:
        case Instruction::SDiv:
        case Instruction::URem:
        case Instruction::SRem:
        case Instruction::And:
        case Instruction::Or:
        case Instruction::Xor:
        case Instruction::Shl:
        case Instruction::LShr:
        case Instruction::AShr:
        case Instruction::FAdd:
        case Instruction::FSub:
        case Instruction::FMul:
        case Instruction::FDiv:
        case Instruction::FRem: execBin(s, pi); break;
        case Instruction::FNeg: {
            Val a = get(top(s), pi.ops[0]);
            set(s, pi, VE(mkBin(K::Xor, toE(a), mkConst(APInt::getSignMask(a.w)))));
            break;
        }
        case Instruction::ICmp: {
            Frame &f = top(s);
            set(s, pi, cmpVal(cast<CmpInst>(pi.I)->getPredicate(), get(f, pi.ops[0]),
                              get(f, pi.ops[1])));
            break;
        }
        case Instruction::FCmp: {
            Frame &f = top(s);
            set(s, pi, fcmpVal(s, cast<CmpInst>(pi.I)->getPredicate(),
                               get(f, pi.ops[0]), get(f, pi.ops[1])));
            break;
        }
        case Instruction::Trunc:
        case Instruction::ZExt:
        case Instruction::SExt:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
        case Instruction::UIToFP:
        case Instruction::SIToFP:
        case Instruction::FPToUI:
        case Instruction::FPToSI:
        case Instruction::FPExt:
        case Instruction::FPTrunc:
            set(s, pi, castVal(s, pi.opc, get(top(s), pi.ops[0]),
                               pi.I->getOperand(0)->getType(), pi.ty));
            break;
        case Instruction::Freeze: set(s, pi, get(top(s), pi.ops[0])); break;
        case Instruction::Select: {
            Frame &f = top(s);
            Val c = get(f, pi.ops[0]), a = get(f, pi.ops[1]), b = get(f, pi.ops[2]);
            if (c.concrete())
                set(s, pi, c.c ? a : b);
            else if (c.agg) {
                Val r;
                r.agg = std::make_shared<std::vector<Val>>();
                for (size_t i = 0; i < c.agg->size(); ++i)
                    r.agg->push_back(VE(mkIte(toE((*c.agg)[i]), toE((*a.agg)[i]),
                                              toE((*b.agg)[i]))));
                set(s, pi, r);
            } else if (a.agg || (f.f->lib && (pi.w > 1 || pi.I->getType()->isPointerTy()))) {
                set(s, pi, decide(s, toE(c)) ? a : b);
            } else
                set(s, pi, VE(mkIte(toE(c), toE(a), toE(b))));
            break;
        }
        case Instruction::Alloca: {
            uint64_t n = 1;
            Val c = get(top(s), pi.ops[0]);
            n = concretize(s, c);
            uint64_t a = allocObj(s, pi.size * n, pi.align, OK_Stack,
                                  "local " + pi.I->getName().str() + " of " +
                                      top(s).f->f->getName().str(),
                                  true);
            top(s).allocas.push_back(a);
            set(s, pi, V(a, 64));
            break;
        }
        case Instruction::Load: {
            Val a = get(top(s), pi.ops[0]);
            auto *ld = cast<LoadInst>(pi.I);
            if (ld->isAtomic() && s.multi)
                visible(s);
            if (ld->isAtomic()) {
                Loc l = resolve(s, a, pi.size, false, "atomic read");
                alignCheck(s, a, pi.align);
                access(s, l, pi.size, false, true);
                Val v = loadScalar(s, l, pi.size, pi.w);
                if (s.multi && isAcquireOrStronger(ld->getOrdering())) {
                    auto it = s.syncVC.find(l.o->base + l.off);
                    if (it != s.syncVC.end()) {
                        Thread &t = thr(s);
                        for (size_t i = 0; i < it->second.size() && i < t.vc.size(); ++i)
                            t.vc[i] = std::max(t.vc[i], it->second[i]);
                    }
                }
                set(s, pi, v);
                break;
            }
            set(s, pi, loadTy(s, a, pi.ty, pi.align));
            break;
        }
        case Instruction::Store: {
            Frame &f = top(s);
            Val v = get(f, pi.ops[0]), a = get(f, pi.ops[1]);
            auto *st = cast<StoreInst>(pi.I);
            if (st->isAtomic() && s.multi)
                visible(s);
            if (st->isAtomic()) {
                Loc l = resolve(s, a, pi.size, true, "atomic write");
                alignCheck(s, a, pi.align);
                access(s, l, pi.size, true, true);
                if (s.multi && isReleaseOrStronger(st->getOrdering())) {
                    Thread &t = thr(s);
                    s.syncVC[l.o->base + l.off] = t.vc;
                    t.vc[s.cur]++;
                }
                storeScalar(s, l, pi.size, v);
                break;
            }
            storeTy(s, a, v, pi.ty, pi.align);
            break;
        }
        case Instruction::AtomicRMW: {
            visible(s);
            Frame &f = top(s);
            auto *rm = cast<AtomicRMWInst>(pi.I);
            Val a = get(f, pi.ops[0]), v = get(f, pi.ops[1]);
            uint64_t n = dl.getTypeStoreSize(pi.ty);
            Loc l = resolve(s, a, n, true, "atomic update");
            alignCheck(s, a, rm->getAlign().value());
            access(s, l, n, true, true);
            Val old = loadScalar(s, l, n, pi.w);
            E o = toE(old), x = toE(v), r = nullptr;
            switch (rm->getOperation()) {
                case AtomicRMWInst::Xchg: r = x; break;
                case AtomicRMWInst::Add: r = mkBin(K::Add, o, x); break;
                case AtomicRMWInst::Sub: r = mkBin(K::Sub, o, x); break;
                case AtomicRMWInst::And: r = mkBin(K::And, o, x); break;
                case AtomicRMWInst::Nand: r = mkNot(mkBin(K::And, o, x)); break;
                case AtomicRMWInst::Or: r = mkBin(K::Or, o, x); break;
                case AtomicRMWInst::Xor: r = mkBin(K::Xor, o, x); break;
                case AtomicRMWInst::Max: r = mkIte(mkBin(K::Slt, o, x), x, o); break;
                case AtomicRMWInst::Min: r = mkIte(mkBin(K::Slt, x, o), x, o); break;
                case AtomicRMWInst::UMax: r = mkIte(mkBin(K::Ult, o, x), x, o); break;
                case AtomicRMWInst::UMin: r = mkIte(mkBin(K::Ult, x, o), x, o); break;
                default: fail(s, "unmodelled", "rmw", "atomicrmw operation");
            }
            storeScalar(s, l, n, VE(r));
            if (s.multi) {
                Thread &t = thr(s);
                auto &sv = s.syncVC[l.o->base + l.off];
                if (isAcquireOrStronger(rm->getOrdering()))
                    for (size_t i = 0; i < sv.size() && i < t.vc.size(); ++i)
                        t.vc[i] = std::max(t.vc[i], sv[i]);
                if (isReleaseOrStronger(rm->getOrdering())) {
                    sv.resize(std::max(sv.size(), t.vc.size()), 0);
                    for (size_t i = 0; i < t.vc.size(); ++i)
                        sv[i] = std::max(sv[i], t.vc[i]);
                    t.vc[s.cur]++;
                }
            }
            set(s, pi, old);
            break;
        }
        case Instruction::AtomicCmpXchg: {
            visible(s);
            Frame &f = top(s);
            auto *cx = cast<AtomicCmpXchgInst>(pi.I);
            Val a = get(f, pi.ops[0]), c = get(f, pi.ops[1]), v = get(f, pi.ops[2]);
            Type *et = cx->getCompareOperand()->getType();
            uint64_t n = dl.getTypeStoreSize(et);
            unsigned w = et->isPointerTy() ? 64 : et->getPrimitiveSizeInBits();
            Loc l = resolve(s, a, n, true, "atomic update");
            alignCheck(s, a, cx->getAlign().value());
            access(s, l, n, true, true);
            Val old = loadScalar(s, l, n, w);
            E eq = mkEq(toE(old), toE(c));
            // an exchange that fails is a read with an order of its own
            AtomicOrdering order = cx->getSuccessOrdering();
            if (s.multi) {
                Val ok = VE(eq);
                if (!(ok.concrete() ? ok.c != 0 : decide(s, eq)))
                    order = cx->getFailureOrdering();
            }
            storeScalar(s, l, n, VE(mkIte(eq, toE(v), toE(old))));
            if (s.multi) {
                Thread &t = thr(s);
                auto &sv = s.syncVC[l.o->base + l.off];
                if (isAcquireOrStronger(order))
                    for (size_t i = 0; i < sv.size() && i < t.vc.size(); ++i)
                        t.vc[i] = std::max(t.vc[i], sv[i]);
                if (isReleaseOrStronger(order)) {
                    sv.resize(std::max(sv.size(), t.vc.size()), 0);
                    for (size_t i = 0; i < t.vc.size(); ++i)
                        sv[i] = std::max(sv[i], t.vc[i]);
                    t.vc[s.cur]++;
                }
            }
            Val r;
            r.agg = std::make_shared<std::vector<Val>>();
            r.agg->push_back(old);
            r.agg->push_back(VE(eq));
            set(s, pi, r);
            break;
        }
        case Instruction::Fence: break;
        case Instruction::GetElementPtr: {
            Frame &f = top(s);
            if (pi.ty->isVectorTy())
                fail(s, "unmodelled", "vgep", "vector GEP");
            Val b = get(f, pi.ops[0]);
            bool conc = b.concrete();
            uint64_t acc = b.c + (uint64_t)pi.gepConst;
            E e = nullptr;
            for (size_t i = 1; i < pi.ops.size(); ++i) {
                Val x = get(f, pi.ops[i]);
                if (x.concrete()) {
                    int64_t xi = x.w == 64 ? (int64_t)x.c
                                           : (int64_t)(x.c << (64 - x.w)) >> (64 - x.w);
                    acc += (uint64_t)xi * pi.gepScale[i - 1];
                } else {
                    E ix = mkSExt(toE(x), 64);
                    E t = mkBin(K::Mul, ix, mkConst(pi.gepScale[i - 1], 64));
                    e = e ? mkBin(K::Add, e, t) : t;
                }
            }
            if (conc && !e) {
                set(s, pi, V(acc, 64));
                break;
            }
            E r;
            if (conc)
                r = mkBin(K::Add, e, mkConst(acc, 64));
            else {
                r = toE(b);
                if (e)
                    r = mkBin(K::Add, r, e);
                r = mkBin(K::Add, r, mkConst(acc - b.c, 64));
            }
            set(s, pi, VE(r));
            break;
        }
        case Instruction::ExtractValue: {
            Val a = get(top(s), pi.ops[0]);
            for (unsigned i : cast<ExtractValueInst>(pi.I)->indices()) {
                Val t = (*a.agg)[i];
                a = t;
            }
            set(s, pi, a);
            break;
        }
        case Instruction::InsertValue: {
            Frame &f = top(s);
            Val a = get(f, pi.ops[0]), v = get(f, pi.ops[1]);
            Val r = a;
            Val *cur = &r;
            for (unsigned i : cast<InsertValueInst>(pi.I)->indices()) {
                cur->agg = std::make_shared<std::vector<Val>>(*cur->agg);
                cur = &(*cur->agg)[i];
            }
            *cur = v;
            set(s, pi, r);
            break;
        }
        case Instruction::ExtractElement: {
            Frame &f = top(s);
            Val a = get(f, pi.ops[0]);
            uint64_t i = concretize(s, get(f, pi.ops[1]));
            set(s, pi, (*a.agg).at(i));
            break;
        }
        case Instruction::InsertElement: {
            Frame &f = top(s);
            Val a = get(f, pi.ops[0]), v = get(f, pi.ops[1]);
            uint64_t i = concretize(s, get(f, pi.ops[2]));
            a.agg = std::make_shared<std::vector<Val>>(*a.agg);
            (*a.agg).at(i) = v;
            set(s, pi, a);
            break;
        }
        case Instruction::ShuffleVector: {
            Frame &f = top(s);
            Val a = get(f, pi.ops[0]), b = get(f, pi.ops[1]), r;
            r.agg = std::make_shared<std::vector<Val>>();
            int n = (int)a.agg->size();
            for (int m : cast<ShuffleVectorInst>(pi.I)->getShuffleMask())
                r.agg->push_back(m < 0 ? (*a.agg)[0] : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
            set(s, pi, r);
            break;
        }
        case Instruction::Br: {
            if (pi.ops.empty()) {
                jump(s, pi.succ[0]);
                advanced = true;
                break;
            }
            Val c = get(top(s), pi.ops[0]);
            bool t;
            if (c.concrete())
                t = c.c;
            else {
                StateP o;
                t = branch(s, toE(c), o);
                if (o) {
                    jump(*o, pi.succ[t ? 1 : 0]);
                    work.push_back(std::move(o));
                }
            }
            jump(s, pi.succ[t ? 0 : 1]);
            advanced = true;
            break;
        }
        case Instruction::Switch: {
            Val c = get(top(s), pi.ops[0]);
            uint64_t v;
            if (c.concrete())
                v = c.c;
            else {
                // fork once per feasible target value
                E e = toE(c);
                bool done = false;
                for (size_t i = 1; i < pi.ops.size() && !done; ++i) {
                    E eq = mkEq(e, toE(pi.ops[i].c));
                    StateP o;
                    bool t = branch(s, eq, o);
                    if (t) {
                        if (o)
                            work.push_back(std::move(o));  // redoes the switch
                        jump(s, pi.succ[i]);
                        done = true;
                    } else if (o) {
                        jump(*o, pi.succ[i]);
                        work.push_back(std::move(o));
                    }
                }
                if (!done)
                    jump(s, pi.succ[0]);
                advanced = true;
                break;
            }
            int target = pi.succ[0];
            for (size_t i = 1; i < pi.ops.size(); ++i)
                if (pi.ops[i].c.c == v) {
                    target = pi.succ[i];
                    break;
                }
            jump(s, target);
            advanced = true;
            break;
        }
        case Instruction::Ret: {
            if (pi.ops.empty())
                doReturn(s, nullptr);
            else {
                Val v = get(top(s), pi.ops[0]);
                doReturn(s, &v);
            }
            advanced = true;
            break;
        }
        case Instruction::Unreachable:
            fail(s, "ub", "unreachable:" + topRepoFn(s), "unreachable code reached");
        case Instruction::Resume: {
            Val v = get(top(s), pi.ops[0]);
            uint64_t obj = (*v.agg)[0].c;
            // leave this frame: continue unwinding in the caller
            Thread &t = thr(s);
            dropFrame(s, t);
            if (t.st.empty())
                fail(s, "uncaught", "uncaught", "exception leaves the thread");
            doThrow(s, obj);
            advanced = true;
            break;
        }
        case Instruction::LandingPad: abort();
        case Instruction::Call:
        case Instruction::Invoke: execCall(s, pi); break;
        default:
            fail(s, "unmodelled", "inst",
                 std::string("instruction ") + pi.I->getOpcodeName());
    }
}

void Exec::execCall(State &s, const PI &pi) {
    Frame &f = top(s);
    std::vector<Val> args;
    auto *cb = cast<CallBase>(pi.I);
    for (unsigned i = 0; i < cb->arg_size(); ++i)
        args.push_back(get(f, pi.ops[i]));
    if (cb->isInlineAsm()) {
        fail(s, "unmodelled", "asm", "inline assembly");
    }
    PF *pf = pi.pf;
    Function *callee = pi.callee;
    int h = pi.handler;
    if (!callee) {
        uint64_t a = concretize(s, get(f, pi.ops.back()));
        auto it = fnAt.find(a);
        if (it == fnAt.end())
            fail(s, "mem", "call:" + topRepoFn(s), "call through an invalid pointer");
        callee = it->second;
        auto hi = handlerIdx.find(callee->getName().str());
        if (hi != handlerIdx.end())
            h = hi->second;
        else if (!callee->isDeclaration())
            pf = prep(callee);
    }
    if (h >= 0) {
        int depth = (int)thr(s).st.size();
        (void)depth;
        handlers[h](s, pi, args);
        if (!advanced) {
            if (pi.opc == Instruction::Invoke) {
                jump(s, pi.succ[0]);
                advanced = true;
            }
        }
        return;
    }
    if (callee->isIntrinsic()) {
        execIntrinsic(s, pi, callee->getIntrinsicID(), args);
        if (!advanced && pi.opc == Instruction::Invoke) {
            jump(s, pi.succ[0]);
            advanced = true;
        }
        return;
    }
    if (!pf)
        fail(s, "unmodelled", "ext", "external function " + callee->getName().str());
    callFn(s, pf, args);
    advanced = true;
}

void Exec::step(State &s) {
    Thread &t = thr(s);
    FrameP fp = t.st.back();
    const PI &pi = fp->f->blocks[fp->bb].insts[fp->ip];
    fp.reset();
    advanced = false;
    ++insts;
    ++s.steps;
    try {
        exec(s, pi);
        if (!advanced && !s.th[s.cur].st.empty())
            advance(s);
    } catch (Redo &) {
    }
}

bool Exec::run(const std::string &entry) {
    auto init = std::make_unique<State>();
    init->model = std::make_shared<Model>();
    init->id = 0;
    setupGlobals(*init);
    init->th.resize(1);
    init->th[0].vc.assign(8, 0);
    init->th[0].vc[0] = 1;
    // every vf_cover / vf_assert id mentioned in the harness entry's reach is
    // collected lazily; see main.cpp
    Function *f = mod.getFunction(entry);
    if (!f || f->isDeclaration()) {
        giveUp("no such harness: " + entry);
        return false;
    }
    callFn(*init, prep(f), {});
    // global constructors run first: push them on top, in reverse order
    if (GlobalVariable *gc = mod.getGlobalVariable("llvm.global_ctors")) {
        std::vector<std::pair<uint64_t, Function *>> ctors;
        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (Value *o : ca->operands()) {
                auto *cs = cast<ConstantStruct>(o);
                if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    ctors.push_back(
                        {cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
            }
        std::stable_sort(ctors.begin(), ctors.end(),
                         [](auto &a, auto &b) { return a.first < b.first; });
        for (size_t i = ctors.size(); i-- > 0;)
            callFn(*init, prep(ctors[i].second), {}, true);
    }
    work.push_back(std::move(init));
    while (!work.empty()) {
        if (timeUp()) {
            giveUp("time limit reached with paths left");
            break;
        }
        if (paths > maxPaths) {
            giveUp("path limit reached");
            break;
        }
        StateP sp = std::move(work.back());
        work.pop_back();
        ++paths;
        State &s = *sp;
        uint64_t cnt = 0;
        try {
            while (!s.th[0].finished) {
                step(s);
                if ((++cnt & 0xfff) == 0) {
                    if (s.steps > maxSteps)
                        fail(s, "limit", "steps", "instruction limit per path");
                    if (timeUp()) {
                        giveUp("time limit reached with paths left");
                        break;
                    }
                }
            }
            if (s.th[0].finished) {
                ++completed;
                if (samples.size() < 4) {
                    std::vector<std::pair<std::string, std::string>> v;
                    for (Input &i : s.inputs) {
                        SmallString<24> str;
                        s.model->get(i.sym->lo).toStringUnsigned(str);
                        v.push_back({i.name, std::string(str.str())});
                    }
                    samples.push_back(v);
                }
            }
        } catch (PathError &e) {
            report(s, e);
            ++killed;
        } catch (PathDone &) {
            ++killed;
        }
    }
    return incomplete.empty() && reports.empty();
}
}  // namespace sx
