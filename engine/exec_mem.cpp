// Program preparation and memory model.
#include "exec.h"

#include <algorithm>
#include <chrono>

using namespace llvm;
namespace sx {

static double nowS() {
    return std::chrono::duration<double>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

Exec::Exec(Module &m) : mod(m), dl(m.getDataLayout()) {
    addHandlers();
    uint64_t a = 0x1000000;
    for (Function &f : mod) {
        gaddr[&f] = a;
        fnAt[a] = &f;
        a += 16;
    }
    uint64_t g = 0x20000000;
    for (GlobalVariable &v : mod.globals()) {
        uint64_t sz = v.getValueType()->isSized() ? dl.getTypeAllocSize(v.getValueType())
                                                  : 0;
        if (v.isDeclaration())
            sz = std::max<uint64_t>(sz, 256);
        uint64_t al = std::max<uint64_t>(
            16, v.getAlign() ? v.getAlign()->value() : dl.getPrefTypeAlign(v.getValueType()).value());
        g = (g + 64 + al - 1) / al * al;
        gaddr[&v] = g;
        gvAt[g] = &v;
        g += sz + 64;
    }
    for (GlobalAlias &al : mod.aliases()) {
        const GlobalObject *o = al.getAliaseeObject();
        gaddr[&al] = gaddr[o];
    }
}
bool Exec::timeUp() { return nowS() - t0 > maxSeconds; }

void Exec::giveUp(const std::string &why) {
    for (auto &i : incomplete)
        if (i == why)
            return;
    if (incomplete.size() < 50)
        incomplete.push_back(why);
}

void Exec::setupGlobals(State &s) {
    t0 = nowS();
    for (GlobalVariable &v : mod.globals()) {
        auto o = std::make_shared<Obj>();
        o->base = gaddr[&v];
        o->name = v.getName().str();
        uint64_t sz = v.getValueType()->isSized() ? dl.getTypeAllocSize(v.getValueType())
                                                  : 0;
        if (v.isDeclaration())
            sz = std::max<uint64_t>(sz, 256);
        o->size = sz;
        o->d.assign(sz, 0);
        o->ro = v.isConstant() || v.isDeclaration();
        if (v.hasInitializer())
            initConst(*o, 0, v.getInitializer());
        if (v.isDeclaration() && o->name == "__dso_handle")
            o->ro = true;
        if (o->ro)
            ro[o->base] = o;
        else
            s.mem[o->base] = o;
    }
}

void Exec::initConst(Obj &o, uint64_t off, const Constant *c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
        return;
    if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = ds->getRawDataValues();
        memcpy(o.d.data() + off, r.data(), r.size());
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout *sl = dl.getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i)
            initConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = dl.getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            initConst(o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto *cv = dyn_cast<ConstantVector>(c)) {
        uint64_t es = dl.getTypeAllocSize(cv->getType()->getElementType());
        for (unsigned i = 0; i < cv->getNumOperands(); ++i)
            initConst(o, off + i * es, cv->getOperand(i));
        return;
    }
    Val v = evalConst(c);
    uint64_t n = dl.getTypeStoreSize(c->getType());
    APInt x = v.e ? v.e->val : APInt(64, v.c);
    x = x.zext(std::max<unsigned>(x.getBitWidth(), n * 8));
    for (uint64_t i = 0; i < n; ++i)
        o.d[off + i] = (uint8_t)x.extractBitsAsZExtValue(8, i * 8);
}

Val Exec::evalConst(const Constant *c) {
    Type *t = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c))
        return VE(mkConst(ci->getValue()));
    if (auto *cf = dyn_cast<ConstantFP>(c))
        return VE(mkConst(cf->getValueAPF().bitcastToAPInt()));
    if (isa<ConstantPointerNull>(c))
        return V(0, 64);
    if (isa<UndefValue>(c)) {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            Val v;
            v.agg = std::make_shared<std::vector<Val>>();
            unsigned n = t->isStructTy()  ? t->getStructNumElements()
                         : t->isArrayTy() ? t->getArrayNumElements()
                                          : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; ++i)
                v.agg->push_back(evalConst(c->getAggregateElement(i)));
            return v;
        }
        unsigned w = t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits();
        return VE(mkSym("undef" + std::to_string(undefCtr++), w, true));
    }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Val v;
        v.agg = std::make_shared<std::vector<Val>>();
        unsigned n = t->isStructTy()  ? t->getStructNumElements()
                     : t->isArrayTy() ? t->getArrayNumElements()
                                      : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i)
            v.agg->push_back(evalConst(c->getAggregateElement(i)));
        return v;
    }
    if (auto *g = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(g);
        if (it == gaddr.end()) {
            fprintf(stderr, "no address for global %s\n", g->getName().str().c_str());
            abort();
        }
        return V(it->second, 64);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                auto *go = cast<GEPOperator>(ce);
                if (!go->accumulateConstantOffset(dl, off))
                    break;
                Val b = evalConst(cast<Constant>(go->getPointerOperand()));
                return V(b.c + off.getZExtValue(), 64);
            }
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast:
                return evalConst(ce->getOperand(0));
            case Instruction::IntToPtr:
            case Instruction::PtrToInt:
            case Instruction::Trunc: {
                Val a = evalConst(ce->getOperand(0));
                unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
                if (w < a.w)
                    return VE(mkExtract(toE(a), 0, w));
                return VE(mkZExt(toE(a), w));
            }
            case Instruction::Add:
            case Instruction::Sub: {
                Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
                return VE(mkBin(ce->getOpcode() == Instruction::Add ? K::Add : K::Sub,
                                toE(a), toE(b)));
            }
            case Instruction::ICmp: {
                Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
                return cmpVal((CmpInst::Predicate)ce->getPredicate(), a, b);
            }
            default: break;
        }
    }
    std::string str;
    raw_string_ostream os(str);
    c->print(os);
    fprintf(stderr, "unsupported constant: %s\n", str.c_str());
    abort();
}

PF *Exec::prep(Function *f) {
    auto &p = fns[f];
    if (!p) {
        p = std::make_unique<PF>();
        p->f = f;
    }
    return p.get();
}
std::vector<PF *> Exec::allFns() {
    std::vector<PF *> r;
    for (auto &p : fns)
        if (p.second->executed)
            r.push_back(p.second.get());
    return r;
}

void Exec::prepBody(PF *pf) {
    pf->prepared = true;
    pf->lib = pf->f->getName().contains("6vecmem") || (pf->f->getName().starts_with("_ZNSt") || pf->f->getName().starts_with("_ZSt"));
    Function *f = pf->f;
    for (Argument &a : f->args())
        pf->regs[&a] = pf->nregs++;
    int n = 0;
    for (BasicBlock &b : *f) {
        pf->bbIdx[&b] = n++;
        for (Instruction &i : b)
            if (!i.getType()->isVoidTy())
                pf->regs[&i] = pf->nregs++;
    }
    pf->blocks.resize(n);
    auto mkOp = [&](Value *v) {
        Op o;
        if (auto *c = dyn_cast<Constant>(v)) {
            if (isa<UndefValue>(c) && c->getType()->isMetadataTy())
                return o;
            o.c = evalConst(c);
        } else if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {
        } else
            o.reg = pf->regs.at(v);
        return o;
    };
    for (BasicBlock &b : *f) {
        PB &pb = pf->blocks[pf->bbIdx[&b]];
        pb.bb = &b;
        for (Instruction &i : b) {
            if (isa<DbgInfoIntrinsic>(&i))
                continue;
            if (isa<PHINode>(&i))
                ++pb.nphi;
            PI pi;
            pi.I = &i;
            pi.opc = i.getOpcode();
            if (!i.getType()->isVoidTy())
                pi.dst = pf->regs[&i];
            Type *t = i.getType();
            pi.ty = t;
            if (t->isPointerTy())
                pi.w = 64;
            else if (t->isIntegerTy() || t->isFloatingPointTy())
                pi.w = t->getPrimitiveSizeInBits();
            if (auto *ph = dyn_cast<PHINode>(&i)) {
                for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) {
                    pi.ops.push_back(mkOp(ph->getIncomingValue(k)));
                    pi.succ.push_back(pf->bbIdx[ph->getIncomingBlock(k)]);
                }
            } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional())
                    pi.ops.push_back(mkOp(br->getCondition()));
                for (unsigned k = 0; k < br->getNumSuccessors(); ++k)
                    pi.succ.push_back(pf->bbIdx[br->getSuccessor(k)]);
            } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                pi.ops.push_back(mkOp(sw->getCondition()));
                pi.succ.push_back(pf->bbIdx[sw->getDefaultDest()]);
                for (auto &cs : sw->cases()) {
                    pi.ops.push_back(mkOp(cs.getCaseValue()));
                    pi.succ.push_back(pf->bbIdx[cs.getCaseSuccessor()]);
                }
            } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                bool dbg = isa<IntrinsicInst>(&i);
                (void)dbg;
                for (unsigned k = 0; k < cb->arg_size(); ++k)
                    pi.ops.push_back(mkOp(cb->getArgOperand(k)));
                if (auto *inv = dyn_cast<InvokeInst>(&i)) {
                    pi.succ.push_back(pf->bbIdx[inv->getNormalDest()]);
                    pi.succ.push_back(pf->bbIdx[inv->getUnwindDest()]);
                }
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *al = dyn_cast<GlobalAlias>(cv))
                    cv = al->getAliaseeObject();
                pi.callee = dyn_cast<Function>(cv);
                if (pi.callee) {
                    auto h = handlerIdx.find(pi.callee->getName().str());
                    if (h != handlerIdx.end())
                        pi.handler = h->second;
                    else if (!pi.callee->isDeclaration())
                        pi.pf = prep(pi.callee);
                } else
                    pi.ops.push_back(mkOp(cb->getCalledOperand()));
            } else {
                for (Value *o : i.operands())
                    pi.ops.push_back(mkOp(o));
            }
            if (auto *ld = dyn_cast<LoadInst>(&i)) {
                pi.size = dl.getTypeStoreSize(t);
                pi.align = ld->getAlign().value();
            } else if (auto *st = dyn_cast<StoreInst>(&i)) {
                pi.ty = st->getValueOperand()->getType();
                pi.size = dl.getTypeStoreSize(pi.ty);
                pi.align = st->getAlign().value();
            } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
                pi.size = dl.getTypeAllocSize(al->getAllocatedType());
                pi.align = al->getAlign().value();
            } else if (auto *gep = dyn_cast<GetElementPtrInst>(&i)) {
                if (!t->isVectorTy()) {
                    MapVector<Value *, APInt> vo;
                    APInt co(64, 0);
                    auto *go = cast<GEPOperator>(gep);
                    if (!go->collectOffset(dl, 64, vo, co)) {
                        fprintf(stderr, "unsupported GEP\n");
                        abort();
                    }
                    pi.ops.clear();
                    pi.ops.push_back(mkOp(gep->getPointerOperand()));
                    pi.gepConst = co.getSExtValue();
                    for (auto &kv : vo) {
                        pi.ops.push_back(mkOp(kv.first));
                        pi.gepScale.push_back(kv.second.getZExtValue());
                    }
                }
            }
            pb.insts.push_back(std::move(pi));
        }
    }
}

// ------------------------------------------------------------------ memory
uint64_t Exec::allocObj(State &s, uint64_t size, uint64_t align, ObjKind k,
                        const std::string &name, bool uninit) {
    uint64_t &next = k == OK_Stack ? s.stackNext : s.heapNext;
    if (align < 1)
        align = 1;
    // the address is aligned exactly to `align`, never by accident to more
    uint64_t a = next + 256;
    uint64_t two = align * 2;
    a = (a + two - 1) / two * two + align;
    next = a + size;
    auto o = std::make_shared<Obj>();
    o->base = a;
    o->size = size;
    o->align = align;
    o->kind = k;
    o->name = name;
    o->d.assign(size, uninit ? 0xCD : 0);
    if (uninit)
        o->init.assign(size, 0);
    s.mem[a] = o;
    return a;
}

ObjP Exec::findObj(State &s, uint64_t a) {
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) {
        --it;
        if (a - it->first < it->second->size ||
            (a == it->first && it->second->size == 0))
            return it->second;
    }
    auto i2 = ro.upper_bound(a);
    if (i2 != ro.begin()) {
        --i2;
        if (a - i2->first < i2->second->size)
            return i2->second;
    }
    return nullptr;
}
Obj *Exec::wobj(State &s, uint64_t base) {
    ObjP &p = s.mem[base];
    if (p.use_count() > 1)
        p = std::make_shared<Obj>(*p);
    return p.get();
}

static std::string hex(uint64_t a) {
    char b[32];
    snprintf(b, sizeof b, "0x%llx", (unsigned long long)a);
    return b;
}

Exec::Loc Exec::resolve(State &s, const Val &addr, uint64_t n, bool write,
                        const char *what) {
    auto complain = [&](uint64_t a, const ObjP &o) {
        std::string m = std::string(what) + " of " + std::to_string(n) +
                        " byte(s) at " + hex(a);
        if (a < 4096)
            m += " (null pointer)";
        else if (o && !o->alive)
            m += " inside freed object " + o->name;
        else if (o && o->ro && write)
            m += " into constant object " + o->name;
        else if (o)
            m += " runs past the end of object " + o->name + " (size " +
                 std::to_string(o->size) + ", offset " + std::to_string(a - o->base) +
                 ")";
        else {
            m += " outside any object";
            auto it = s.mem.upper_bound(a);
            if (it != s.mem.begin()) {
                --it;
                if (a - it->first < 4096)
                    m += " (just after object " + it->second->name + " of size " +
                         std::to_string(it->second->size) + ")";
            }
        }
        fail(s, "mem", "mem:" + topRepoFn(s), m);
    };
    ++memChecks;
    Loc l;
    if (addr.concrete()) {
        ObjP o = findObj(s, addr.c);
        if (!o || !o->alive || addr.c - o->base + n > o->size || (write && o->ro))
            complain(addr.c, o);
        l.o = o;
        l.off = addr.c - o->base;
        return l;
    }
    E ae = toE(addr);
    undefCheck(s, ae, "address");
    for (int tries = 0; tries < 4; ++tries) {
        uint64_t a = evalExpr(ae, *s.model, newEpoch()).getZExtValue();
        ObjP o = findObj(s, a);
        if (!o || !o->alive || a - o->base + n > o->size || (write && o->ro))
            complain(a, o);
        // must it be in this object?
        E off = mkBin(K::Sub, ae, mkConst(o->base, 64));
        E in = mkBin(K::Ule, off, mkConst(o->size - n, 64));
        std::shared_ptr<const Model> m;
        Sat r = feas(s, mkNot(in), &m);
        if (r == Sat::Unknown)
            giveUp("solver gave no answer on an address");
        if (r == Sat::Yes) {
            StateP o2 = clone(s);
            addC(*o2, mkNot(in));
            o2->model = m;
            work.push_back(std::move(o2));
            ++forks;
        }
        addC(s, in);
        // one value only?
        E here = mkEq(off, mkConst(a - o->base, 64));
        if (feas(s, mkNot(here)) == Sat::No) {
            addC(s, here);
            l.o = o;
            l.off = a - o->base;
            return l;
        }
        if (o->size / std::max<uint64_t>(n, 1) > 260) {
            uint64_t v = concretize(s, addr);
            l.o = o;
            l.off = v - o->base;
            return l;
        }
        l.o = o;
        l.soff = off;
        return l;
    }
    fail(s, "limit", "limit", "address resolution");
}

E Exec::readByte(State &s, const ObjP &o, uint64_t off) {
    if (!o->init.empty() && !o->init[off]) {
        // an uninitialised byte: an arbitrary but fixed value
        E u = mkSym("uninit" + std::to_string(undefCtr++) + ":" + o->name, 8, true);
        Obj *w = wobj(s, o->base);
        if (w->s.empty())
            w->s.assign(w->size, nullptr);
        w->s[off] = u;
        w->init[off] = 1;
        return u;
    }
    if (!o->s.empty() && o->s[off])
        return o->s[off];
    return mkConst(o->d[off], 8);
}

Val Exec::loadScalar(State &s, const Loc &l0, uint64_t bytes, unsigned w) {
    Loc l = l0;
    auto at = [&](uint64_t off) -> E {
        E by[64], r = nullptr;
        if (bytes > 64)
            giveUp("wide load");
        for (uint64_t i = 0; i < bytes; ++i) {
            ObjP o = l.o->ro ? l.o : s.mem.find(l.o->base)->second;
            by[i] = readByte(s, o, off + i);
        }
        // bytes of one value: give that value back unchanged
        for (uint64_t i = 0; i < bytes && !r; ++i)
            if (by[i]->k == K::Extract && by[i]->lo >= 8 * i) {
                E v = by[i]->a;
                unsigned d = by[i]->lo - 8 * i;
                if (v->w < d + 8 * bytes)
                    continue;
                bool all = true;
                for (uint64_t j = 0; j < bytes && all; ++j)
                    all = mkExtract(v, d + 8 * j, 8) == by[j];
                if (all)
                    r = mkExtract(v, d, 8 * bytes);
            }
        if (!r) {
            r = by[0];
            for (uint64_t j = 1; j < bytes; ++j)
                r = mkConcat(by[j], r);
        }
        return r;
    };
    E r = nullptr;
    if (!l.soff) {
        bool simple = bytes <= 8;
        const Obj &o = *l.o;
        if (simple && (!o.s.empty() || !o.init.empty()))
            for (uint64_t i = 0; i < bytes; ++i)
                if ((!o.s.empty() && o.s[l.off + i]) ||
                    (!o.init.empty() && !o.init[l.off + i])) {
                    simple = false;
                    break;
                }
        if (simple) {
            uint64_t v = 0;
            memcpy(&v, o.d.data() + l.off, bytes);
            return V(v, w);
        }
        r = at(l.off);
    } else {
        uint64_t max = l.o->size - bytes, step = 1, first = 0;
        if (bytes > 1) {
            uint64_t cur = evalExpr(l.soff, *s.model, newEpoch()).getZExtValue();
            E bad = mkNot(mkEq(mkBin(K::And, l.soff, mkConst(bytes - 1, 64)),
                               mkConst(cur & (bytes - 1), 64)));
            if ((bytes & (bytes - 1)) == 0 && feas(s, bad) == Sat::No) {
                step = bytes;
                first = cur & (bytes - 1);
            }
        }
        for (uint64_t off = first; off <= max; off += step) {
            E c = mkEq(l.soff, mkConst(off, 64));
            if (c->isFalse())
                continue;
            E v = at(off);
            r = r ? mkIte(c, v, r) : v;
        }
    }
    if (r->w > w)
        r = mkExtract(r, 0, w);
    return VE(r);
}

void Exec::storeScalar(State &s, const Loc &l, uint64_t bytes, const Val &v0) {
    Obj *o = wobj(s, l.o->base);
    Val v = v0;
    if (!l.soff && v.concrete() && bytes <= 8) {
        uint64_t c = v.c;
        memcpy(o->d.data() + l.off, &c, bytes);
        if (!o->init.empty())
            memset(o->init.data() + l.off, 1, bytes);
        if (!o->s.empty())
            for (uint64_t i = 0; i < bytes; ++i)
                o->s[l.off + i] = nullptr;
        return;
    }
    E e = toE(v);
    if (e->w < bytes * 8)
        e = mkZExt(e, bytes * 8);
    if (o->s.empty())
        o->s.assign(o->size, nullptr);
    auto put = [&](uint64_t off, E b) {
        if (b->isConst()) {
            o->d[off] = (uint8_t)b->val.getZExtValue();
            o->s[off] = nullptr;
        } else
            o->s[off] = b;
        if (!o->init.empty())
            o->init[off] = 1;
    };
    if (!l.soff) {
        for (uint64_t i = 0; i < bytes; ++i)
            put(l.off + i, mkExtract(e, i * 8, 8));
        return;
    }
    uint64_t max = o->size - bytes, step = 1, first = 0;
    if (bytes > 1 && (bytes & (bytes - 1)) == 0) {
        uint64_t cur = evalExpr(l.soff, *s.model, newEpoch()).getZExtValue();
        E bad = mkNot(mkEq(mkBin(K::And, l.soff, mkConst(bytes - 1, 64)),
                           mkConst(cur & (bytes - 1), 64)));
        if (feas(s, bad) == Sat::No) {
            step = bytes;
            first = cur & (bytes - 1);
        }
    }
    ObjP op = s.mem[l.o->base];
    for (uint64_t off = first; off <= max; off += step) {
        E c = mkEq(l.soff, mkConst(off, 64));
        if (c->isFalse())
            continue;
        for (uint64_t i = 0; i < bytes; ++i) {
            E old = !o->init.empty() && !o->init[off + i]
                        ? mkSym("uninit" + std::to_string(undefCtr++), 8, true)
                    : o->s[off + i] ? o->s[off + i]
                                    : mkConst(o->d[off + i], 8);
            put(off + i, mkIte(c, mkExtract(e, i * 8, 8), old));
        }
    }
}

void Exec::alignCheck(State &s, const Val &addr, uint64_t align) {
    if (align <= 1)
        return;
    if (addr.concrete()) {
        if (addr.c & (align - 1))
            fail(s, "align", "align:" + topRepoFn(s),
                 "access at " + hex(addr.c) + " is not aligned to " +
                     std::to_string(align));
        return;
    }
    E bad = mkNot(mkEq(mkBin(K::And, toE(addr), mkConst(align - 1, 64)),
                       mkConst(0, 64)));
    if (bad->isFalse())
        return;
    std::shared_ptr<const Model> m;
    if (feas(s, bad, &m) == Sat::Yes)
        fail(s, "align", "align:" + topRepoFn(s),
             "access can be misaligned, needs " + std::to_string(align), m);
}

Val Exec::loadTy(State &s, const Val &addr, Type *t, uint64_t align) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Val v;
        v.agg = std::make_shared<std::vector<Val>>();
        unsigned n;
        for (n = 0;; ++n) {
            Type *et;
            uint64_t off;
            if (auto *st = dyn_cast<StructType>(t)) {
                if (n >= st->getNumElements())
                    break;
                et = st->getElementType(n);
                off = dl.getStructLayout(st)->getElementOffset(n);
            } else {
                uint64_t cnt = t->isArrayTy() ? t->getArrayNumElements()
                                              : cast<FixedVectorType>(t)->getNumElements();
                if (n >= cnt)
                    break;
                et = t->isArrayTy() ? t->getArrayElementType()
                                    : cast<VectorType>(t)->getElementType();
                off = n * dl.getTypeAllocSize(et);
            }
            Val a = addr.concrete() ? V(addr.c + off, 64)
                                    : VE(mkBin(K::Add, toE(addr), mkConst(off, 64)));
            v.agg->push_back(loadTy(s, a, et, 1));
        }
        alignCheck(s, addr, align);
        return v;
    }
    uint64_t n = dl.getTypeStoreSize(t);
    Loc l = resolve(s, addr, n, false, "read");
    alignCheck(s, addr, align);
    access(s, l, n, false, false);
    unsigned w = t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits();
    return loadScalar(s, l, n, w);
}
void Exec::storeTy(State &s, const Val &addr, const Val &v, Type *t, uint64_t align) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        for (unsigned n = 0; n < v.agg->size(); ++n) {
            Type *et;
            uint64_t off;
            if (auto *st = dyn_cast<StructType>(t)) {
                et = st->getElementType(n);
                off = dl.getStructLayout(st)->getElementOffset(n);
            } else {
                et = t->isArrayTy() ? t->getArrayElementType()
                                    : cast<VectorType>(t)->getElementType();
                off = n * dl.getTypeAllocSize(et);
            }
            Val a = addr.concrete() ? V(addr.c + off, 64)
                                    : VE(mkBin(K::Add, toE(addr), mkConst(off, 64)));
            storeTy(s, a, (*v.agg)[n], et, 1);
        }
        return;
    }
    uint64_t n = dl.getTypeStoreSize(t);
    Loc l = resolve(s, addr, n, true, "write");
    alignCheck(s, addr, align);
    access(s, l, n, true, false);
    storeScalar(s, l, n, v);
}

void Exec::doMemcpy(State &s, const Val &d, const Val &sr, const Val &n, bool move) {
    uint64_t len = concretize(s, n);
    if (len == 0)
        return;
    uint64_t da = concretize(s, d), sa = concretize(s, sr);
    Loc ls = resolve(s, V(sa, 64), len, false, "read (memcpy)");
    Loc ldst = resolve(s, V(da, 64), len, true, "write (memcpy)");
    access(s, ls, len, false, false);
    access(s, ldst, len, true, false);
    if (da == sa)
        return;
    if (!move && da < sa + len && sa < da + len)
        fail(s, "ub", "overlap:" + topRepoFn(s), "memcpy between overlapping ranges");
    ObjP src = ls.o;  // keep the old contents alive (copy-on-write)
    std::vector<uint8_t> bd(src->d.begin() + ls.off, src->d.begin() + ls.off + len);
    std::vector<E> bs;
    std::vector<uint8_t> bi;
    if (!src->s.empty())
        bs.assign(src->s.begin() + ls.off, src->s.begin() + ls.off + len);
    if (!src->init.empty())
        bi.assign(src->init.begin() + ls.off, src->init.begin() + ls.off + len);
    src.reset();
    uint64_t dbase = ldst.o->base;
    ls.o.reset();
    ldst.o.reset();
    Obj *o = wobj(s, dbase);
    memcpy(o->d.data() + ldst.off, bd.data(), len);
    bool anyS = false;
    for (E e : bs)
        if (e)
            anyS = true;
    if (anyS && o->s.empty())
        o->s.assign(o->size, nullptr);
    if (!o->s.empty())
        for (uint64_t i = 0; i < len; ++i)
            o->s[ldst.off + i] = bs.empty() ? nullptr : bs[i];
    bool anyU = false;
    for (uint8_t x : bi)
        if (!x)
            anyU = true;
    if (anyU && o->init.empty())
        o->init.assign(o->size, 1);
    if (!o->init.empty())
        for (uint64_t i = 0; i < len; ++i)
            o->init[ldst.off + i] = bi.empty() ? 1 : bi[i];
}

void Exec::doMemset(State &s, const Val &d, const Val &v, const Val &n) {
    uint64_t len = concretize(s, n);
    if (len == 0)
        return;
    uint64_t da = concretize(s, d);
    Loc l = resolve(s, V(da, 64), len, true, "write (memset)");
    access(s, l, len, true, false);
    uint64_t base = l.o->base;
    l.o.reset();
    Obj *o = wobj(s, base);
    E b = mkExtract(toE(v), 0, 8);
    if (b->isConst()) {
        memset(o->d.data() + l.off, (int)b->val.getZExtValue(), len);
        if (!o->s.empty())
            for (uint64_t i = 0; i < len; ++i)
                o->s[l.off + i] = nullptr;
    } else {
        if (o->s.empty())
            o->s.assign(o->size, nullptr);
        for (uint64_t i = 0; i < len; ++i)
            o->s[l.off + i] = b;
    }
    if (!o->init.empty())
        memset(o->init.data() + l.off, 1, len);
}

void Exec::freeObj(State &s, const Val &p, std::initializer_list<ObjKind> kinds,
                   const char *what) {
    uint64_t a = concretize(s, p);
    if (a == 0)
        return;
    auto it = s.mem.find(a);
    if (it == s.mem.end())
        fail(s, "mem", "free:" + topRepoFn(s),
             std::string(what) + " of " + hex(a) + ", which is not an allocated block");
    if (!it->second->alive)
        fail(s, "mem", "free:" + topRepoFn(s),
             std::string(what) + ": block " + it->second->name + " freed twice");
    bool ok = false;
    for (ObjKind k : kinds)
        ok |= k == it->second->kind;
    if (!ok)
        fail(s, "mem", "free:" + topRepoFn(s),
             std::string(what) + " does not match how the block was allocated");
    Loc l;
    l.o = it->second;
    access(s, l, it->second->size, true, false);
    l.o.reset();
    Obj *o = wobj(s, a);
    o->alive = false;
    o->s.clear();
    o->init.clear();
}

std::string Exec::cstr(State &s, const Val &p) {
    std::string r;
    uint64_t a = p.c;
    for (int i = 0; i < 400; ++i) {
        ObjP o = findObj(s, a + i);
        if (!o)
            break;
        char c = (char)o->d[a + i - o->base];
        if (!c)
            break;
        r += c;
    }
    return r;
}

void Exec::access(State &s, const Loc &l, uint64_t n, bool write, bool atomic) {
    if (!s.multi || !raceCheck || l.o->ro || n == 0)
        return;
    uint32_t lo = l.soff ? 0 : (uint32_t)l.off;
    uint32_t hi = l.soff ? (uint32_t)l.o->size : (uint32_t)(l.off + n);
    Obj *o = wobj(s, l.o->base);
    Thread &t = thr(s);
    unsigned me = s.cur;
    const Instruction *I = nullptr;
    if (!t.st.empty()) {
        Frame &f = *t.st.back();
        I = f.f->blocks[f.bb].insts[f.ip].I;
    }
    for (Acc &a : o->acc) {
        if (a.tid == me || a.hi <= lo || a.lo >= hi)
            continue;
        if (!a.write && !write)
            continue;
        if (a.atomic && atomic)
            continue;
        uint32_t seen = a.tid < t.vc.size() ? t.vc[a.tid] : 0;
        if (a.clk > seen)
            fail(s, "race", "race:" + topRepoFn(s),
                 "data race on object " + o->name + ": unordered " +
                     (write ? "write" : "read") + " and earlier " +
                     (a.write ? "write" : "read") + " by thread " +
                     std::to_string(a.tid));
    }
    uint32_t clk = t.vc[me];
    for (Acc &a : o->acc)
        if (a.tid == me && a.lo == lo && a.hi == hi && a.write == write &&
            a.atomic == atomic) {
            a.clk = clk;
            a.at = I;
            return;
        }
    o->acc.push_back({lo, hi, (uint8_t)me, write, atomic, clk, I});
}
}  // namespace sx
