// Environment: vf_* interface of the harnesses, the C++ runtime and LLVM
// intrinsics.
#include "exec.h"

#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Intrinsics.h>

#include <cmath>
#include <cstring>

#include <algorithm>

using namespace llvm;
namespace sx {

void Exec::H(const std::string &n, Handler h) {
    handlerIdx[n] = (int)handlers.size();
    handlers.push_back(std::move(h));
    handlerName.push_back(n);
}

E Exec::inputSym(State &s, const std::string &name, unsigned w) {
    // the same position of the input sequence shares one symbol on all paths
    std::string key = std::to_string(s.inputs.size()) + "|" + name + "|" +
                      std::to_string(w);
    E &e = symPool[key];
    if (!e)
        e = mkSym(name, w);
    s.inputs.push_back({name, e});
    return e;
}

static double asD(const Val &v) {
    if (v.w == 32) {
        uint32_t u = (uint32_t)v.c;
        float f;
        memcpy(&f, &u, 4);
        return f;
    }
    double d;
    memcpy(&d, &v.c, 8);
    return d;
}
static Val frD(double d, unsigned w) {
    if (w == 32) {
        float f = (float)d;
        uint32_t u;
        memcpy(&u, &f, 4);
        return V(u, 32);
    }
    uint64_t u;
    memcpy(&u, &d, 8);
    return V(u, 64);
}

void Exec::addHandlers() {
    using A = std::vector<Val> &;
    // ----------------------------------------------------------- harness
    H("vf_sym", [this](State &s, const PI &pi, A a) {
        std::string n = cstr(s, a[0]);
        unsigned w = (unsigned)a[1].c;
        E e = inputSym(s, n, w);
        set(s, pi, VE(mkZExt(e, 64)));
    });
    H("vf_assume", [this](State &s, const PI &, A a) {
        E c = mkNot(mkEq(toE(a[0]), mkConst(0, a[0].w)));
        if (c->isTrue())
            return;
        if (c->isFalse())
            throw PathDone{};
        undefCheck(s, c, "assumption");
        std::shared_ptr<const Model> m;
        Sat r = feas(s, c, &m);
        if (r == Sat::Unknown)
            giveUp("solver gave no answer on an assumption");
        if (r != Sat::Yes)
            throw PathDone{};
        addC(s, c);
        s.model = m;
    });
    H("vf_assert", [this](State &s, const PI &, A a) {
        std::string id = cstr(s, a[1]);
        ++obligations;
        assertsSeen.insert(id);
        E c = mkNot(mkEq(toE(a[0]), mkConst(0, a[0].w)));
        if (c->isTrue()) {
            ++discharged;
            return;
        }
        undefCheck(s, c, "checked condition");
        std::shared_ptr<const Model> m;
        Sat r = feas(s, mkNot(c), &m);
        if (r == Sat::No) {
            ++discharged;
            addC(s, c);
            return;
        }
        if (r == Sat::Unknown) {
            giveUp("solver gave no answer on assertion " + id);
            return;
        }
        PathError e{"assert", id, "assertion " + id + " does not hold", m};
        report(s, e);
        if (c->isFalse())
            throw PathDone{};
        std::shared_ptr<const Model> m2;
        if (feas(s, c, &m2) != Sat::Yes)
            throw PathDone{};
        addC(s, c);
        s.model = m2;
    });
    H("vf_fail", [this](State &s, const PI &, A a) {
        std::string id = cstr(s, a[0]);
        ++obligations;
        assertsSeen.insert(id);
        fail(s, "assert", id, "assertion " + id + " does not hold");
    });
    H("vf_cover", [this](State &s, const PI &, A a) {
        coversSeen.insert(cstr(s, a[0]));
    });
    H("vf_done", [](State &, const PI &, A) { throw PathDone{}; });
    H("vf_concretize", [this](State &s, const PI &pi, A a) {
        uint64_t v = concretize(s, a[0]);
        set(s, pi, V(v, 64));
    });
    H("vf_param", [this](State &s, const PI &pi, A a) {
        auto it = params.find(cstr(s, a[0]));
        set(s, pi, it == params.end() ? a[1] : V(it->second, 64));
    });
    H("vf_print", [this](State &s, const PI &, A a) {
        std::string v = a[1].concrete() ? std::to_string(a[1].c) : exprStr(toE(a[1]), 5);
        fprintf(stderr, "[%llu] %s %s\n", (unsigned long long)s.id,
                cstr(s, a[0]).c_str(), v.c_str());
    });
    // text of numbers only appears in messages: a value that is not known
    // is written as "?"
    for (const char *nm : {"i", "j", "l", "m", "x", "y"})
        H(std::string("_ZNSt7__cxx119to_stringE") + nm, [this](State &s, const PI &, A a) {
            uint64_t p = concretize(s, a[0]);
            std::string t = "?";
            if (a[1].concrete())
                t = std::to_string(a[1].c);
            if (t.size() > 15)
                t.resize(15);
            auto put = [&](uint64_t at, uint64_t v, unsigned n) {
                Loc l = resolve(s, V(at, 64), n, true, "write");
                access(s, l, n, true, false);
                storeScalar(s, l, n, V(v, n * 8));
            };
            put(p, p + 16, 8);
            put(p + 8, t.size(), 8);
            for (size_t i = 0; i <= t.size(); ++i)
                put(p + 16 + i, i < t.size() ? (unsigned char)t[i] : 0, 1);
        });
    H("vf_malloc", [this](State &s, const PI &pi, A a) {
        uint64_t n = concretize(s, a[0]);
        uint64_t al = concretize(s, a[1]);
        ObjKind k = (ObjKind)a[2].c;
        if (n > (1u << 24))
            fail(s, "limit", "malloc", "allocation of " + std::to_string(n) + " bytes");
        std::string where = topRepoFn(s);
        uint64_t p = allocObj(s, n, al, k, "block of " + std::to_string(n) +
                                               " allocated under " + where,
                              true);
        set(s, pi, V(p, 64));
    });
    H("vf_free", [this](State &s, const PI &, A a) {
        freeObj(s, a[0], {(ObjKind)a[1].c}, "free");
    });
    H("vf_heap_live", [this](State &s, const PI &pi, A) {
        uint64_t n = 0;
        for (auto &kv : s.mem)
            if (kv.second->alive &&
                (kv.second->kind == OK_New || kv.second->kind == OK_NewArr ||
                 kv.second->kind == OK_Malloc))
                ++n;
        set(s, pi, V(n, 64));
    });
    // number of bytes readable from p (0: none)
    H("vf_extent", [this](State &s, const PI &pi, A a) {
        uint64_t p = concretize(s, a[0]);
        ObjP o = findObj(s, p);
        set(s, pi, V(o && o->alive ? o->base + o->size - p : 0, 64));
    });
    H("vf_in_object", [this](State &s, const PI &pi, A a) {
        // is [p, p+n) inside one live object?
        uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
        ObjP o = findObj(s, p);
        set(s, pi, V(o && o->alive && p - o->base + n <= o->size, 32));
    });
    // makes all bytes of a range uninitialised again
    H("vf_poison", [this](State &s, const PI &, A a) {
        uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
        ObjP o = findObj(s, p);
        if (!o || n == 0)
            return;
        uint64_t off = p - o->base;
        o.reset();
        Obj *w = wobj(s, p - off);
        if (w->init.empty())
            w->init.assign(w->size, 1);
        for (uint64_t i = 0; i < n && off + i < w->size; ++i)
            w->init[off + i] = 0;
    });
    H("vf_symbytes", [this](State &s, const PI &, A a) {
        // fills a range with fresh input bytes
        std::string nm = cstr(s, a[2]);
        uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
        for (uint64_t i = 0; i < n; ++i) {
            Loc l = resolve(s, V(p + i, 64), 1, true, "write");
            access(s, l, 1, true, false);
            storeScalar(s, l, 1, VE(inputSym(s, nm, 8)));
        }
    });
    // ----------------------------------------------------------- threads
    H("vf_spawn", [this](State &s, const PI &, A a) {
        uint64_t fa = concretize(s, a[0]);
        auto it = fnAt.find(fa);
        if (it == fnAt.end())
            fail(s, "mem", "spawn", "bad thread function");
        if (s.th.size() >= 8)
            fail(s, "limit", "threads", "more than 8 threads");
        s.multi = true;
        unsigned me = s.cur, nw = (unsigned)s.th.size();
        s.th.push_back(Thread{});
        s.th[nw].vc = s.th[me].vc;
        s.th[nw].vc[nw]++;
        s.th[me].vc[me]++;
        s.cur = nw;
        callFn(s, prep(it->second), {a[1]});
        s.cur = me;
    });
    H("vf_join", [this](State &s, const PI &, A) {
        thr(s).joining = true;
        if (!runnable(s, s.cur)) {
            schedule(s, true);
            throw Redo{};
        }
        Thread &t = thr(s);
        t.joining = false;
        t.granted = false;
        for (auto &o : s.th)
            for (size_t i = 0; i < o.vc.size(); ++i)
                t.vc[i] = std::max(t.vc[i], o.vc[i]);
        s.multi = false;
    });
    H("vf_yield", [this](State &s, const PI &, A) { visible(s); });
    H("vf_tid", [this](State &s, const PI &pi, A) { set(s, pi, V(s.cur, 32)); });
    H("pthread_mutex_lock", [this](State &s, const PI &pi, A a) {
        uint64_t m = concretize(s, a[0]);
        visible(s);
        auto it = s.mutexOwner.find(m);
        int owner = it == s.mutexOwner.end() ? -1 : it->second;
        if (owner == (int)s.cur)
            fail(s, "deadlock", "relock:" + topRepoFn(s),
                 "a thread locks a mutex it already holds");
        if (owner >= 0) {
            thr(s).blockedOn = m;
            schedule(s, true);
            throw Redo{};
        }
        {
            Loc l = resolve(s, V(m, 64), 1, true, "mutex lock");
        }
        Thread &t = thr(s);
        t.blockedOn = 0;
        s.mutexOwner[m] = (int)s.cur;
        auto sv = s.syncVC.find(m);
        if (sv != s.syncVC.end())
            for (size_t i = 0; i < sv->second.size(); ++i)
                t.vc[i] = std::max(t.vc[i], sv->second[i]);
        set(s, pi, V(0, 32));
    });
    H("pthread_mutex_trylock", [this](State &s, const PI &pi, A a) {
        uint64_t m = concretize(s, a[0]);
        visible(s);
        auto it = s.mutexOwner.find(m);
        int owner = it == s.mutexOwner.end() ? -1 : it->second;
        if (owner >= 0) {
            set(s, pi, V(16, 32));
            return;
        }
        Thread &t = thr(s);
        s.mutexOwner[m] = (int)s.cur;
        auto sv = s.syncVC.find(m);
        if (sv != s.syncVC.end())
            for (size_t i = 0; i < sv->second.size(); ++i)
                t.vc[i] = std::max(t.vc[i], sv->second[i]);
        set(s, pi, V(0, 32));
    });
    H("pthread_mutex_unlock", [this](State &s, const PI &pi, A a) {
        uint64_t m = concretize(s, a[0]);
        auto it = s.mutexOwner.find(m);
        if (it == s.mutexOwner.end() || it->second != (int)s.cur)
            fail(s, "ub", "unlock:" + topRepoFn(s),
                 "a thread unlocks a mutex it does not hold");
        it->second = -1;
        Thread &t = thr(s);
        s.syncVC[m] = t.vc;
        t.vc[s.cur]++;
        set(s, pi, V(0, 32));
    });
    // ----------------------------------------------------------- memory
    H("memcpy", [this](State &s, const PI &pi, A a) {
        doMemcpy(s, a[0], a[1], a[2], false);
        set(s, pi, a[0]);
    });
    H("memmove", [this](State &s, const PI &pi, A a) {
        doMemcpy(s, a[0], a[1], a[2], true);
        set(s, pi, a[0]);
    });
    H("memset", [this](State &s, const PI &pi, A a) {
        doMemset(s, a[0], VE(mkExtract(toE(a[1]), 0, 8)), a[2]);
        set(s, pi, a[0]);
    });
    auto cmp = [this](State &s, const PI &pi, A a) {
        uint64_t n = concretize(s, a[2]);
        uint64_t p = concretize(s, a[0]), q = concretize(s, a[1]);
        if (n == 0) {
            set(s, pi, V(0, 32));
            return;
        }
        Loc l1 = resolve(s, V(p, 64), n, false, "read (memcmp)");
        Loc l2 = resolve(s, V(q, 64), n, false, "read (memcmp)");
        access(s, l1, n, false, false);
        access(s, l2, n, false, false);
        E r = mkConst(0, 32);
        for (uint64_t i = n; i-- > 0;) {
            E x = readByte(s, findObj(s, p), l1.off + i);
            E y = readByte(s, findObj(s, q), l2.off + i);
            r = mkIte(mkEq(x, y), r,
                      mkIte(mkBin(K::Ult, x, y), mkConst(0xffffffff, 32),
                            mkConst(1, 32)));
        }
        set(s, pi, VE(r));
    };
    H("memcmp", cmp);
    H("bcmp", cmp);
    H("strlen", [this](State &s, const PI &pi, A a) {
        uint64_t p = concretize(s, a[0]);
        set(s, pi, V(cstr(s, V(p, 64)).size(), 64));
    });
    H("memchr", [this](State &s, const PI &pi, A a) {
        uint64_t p = concretize(s, a[0]), n = concretize(s, a[2]);
        uint64_t c = concretize(s, a[1]) & 0xff;
        for (uint64_t i = 0; i < n; ++i) {
            Loc l = resolve(s, V(p + i, 64), 1, false, "read (memchr)");
            Val b = loadScalar(s, l, 1, 8);
            if (decide(s, mkEq(toE(b), mkConst(c, 8)))) {
                set(s, pi, V(p + i, 64));
                return;
            }
        }
        set(s, pi, V(0, 64));
    });
    // ----------------------------------------------------------- exceptions
    H("__cxa_allocate_exception", [this](State &s, const PI &pi, A a) {
        uint64_t p = allocObj(s, a[0].c, 16, OK_Exc, "exception object", true);
        set(s, pi, V(p, 64));
    });
    H("__cxa_free_exception", [this](State &s, const PI &, A a) {
        freeObj(s, a[0], {OK_Exc}, "free of exception");
        s.exc.erase(a[0].c);
    });
    H("__cxa_throw", [this](State &s, const PI &, A a) {
        ExcInfo ei;
        auto it = gvAt.find(a[1].c);
        ei.ti = it == gvAt.end() ? nullptr : it->second;
        ei.dtor = a[2].c;
        s.exc[a[0].c] = ei;
        doThrow(s, a[0].c);
    });
    H("__cxa_begin_catch", [this](State &s, const PI &pi, A a) {
        thr(s).caught.push_back({a[0].c, false});
        s.exc[a[0].c].handlers++;
        set(s, pi, a[0]);
    });
    H("__cxa_get_exception_ptr",
      [this](State &s, const PI &pi, A a) { set(s, pi, a[0]); });
    H("__cxa_end_catch", [this](State &s, const PI &pi, A) {
        Thread &t = thr(s);
        if (t.caught.empty())
            fail(s, "ub", "end_catch", "end of catch without begin");
        Caught c = t.caught.back();
        t.caught.pop_back();
        ExcInfo &ei = s.exc[c.obj];
        ei.handlers--;
        if (c.rethrown || ei.handlers > 0)
            return;
        // destroy the exception: the pc moves first, then its dtor runs
        uint64_t d = ei.dtor, obj = c.obj;
        s.exc.erase(obj);
        if (pi.opc == Instruction::Invoke)
            jump(s, pi.succ[0]);
        else
            advance(s);
        advanced = true;
        if (d) {
            auto it = fnAt.find(d);
            if (it != fnAt.end() && !it->second->isDeclaration())
                callFn(s, prep(it->second), {V(obj, 64)}, true);
        }
        // (exception memory stays allocated; it is never observable)
    });
    H("__cxa_rethrow", [this](State &s, const PI &, A) {
        Thread &t = thr(s);
        if (t.caught.empty())
            fail(s, "uncaught", "rethrow", "rethrow without an exception");
        t.caught.back().rethrown = true;
        doThrow(s, t.caught.back().obj);
    });
    H("__clang_call_terminate", [this](State &s, const PI &, A) {
        fail(s, "uncaught", "terminate:" + topRepoFn(s),
             "std::terminate: exception out of a noexcept function");
    });
    H("_ZSt9terminatev", [this](State &s, const PI &, A) {
        fail(s, "uncaught", "terminate:" + topRepoFn(s), "std::terminate");
    });
    H("_ZSt18uncaught_exceptionv",
      [this](State &s, const PI &pi, A) { set(s, pi, V(0, 1)); });
    H("__cxa_pure_virtual", [this](State &s, const PI &, A) {
        fail(s, "ub", "purevirtual", "pure virtual function called");
    });
    H("abort", [this](State &s, const PI &, A) {
        fail(s, "uncaught", "abort:" + topRepoFn(s), "abort");
    });
    H("__assert_fail", [this](State &s, const PI &, A a) {
        fail(s, "uncaught", "cassert:" + topRepoFn(s),
             "assertion in the code fails: " + cstr(s, a[0]));
    });
    H("__cxa_atexit", [this](State &s, const PI &pi, A) { set(s, pi, V(0, 32)); });
    H("__cxa_thread_atexit",
      [this](State &s, const PI &pi, A) { set(s, pi, V(0, 32)); });
    H("__cxa_guard_acquire", [this](State &s, const PI &pi, A a) {
        Loc l = resolve(s, a[0], 1, false, "guard");
        Val v = loadScalar(s, l, 1, 8);
        set(s, pi, V(v.c ? 0 : 1, 32));
    });
    H("__cxa_guard_release", [this](State &s, const PI &, A a) {
        Loc l = resolve(s, a[0], 1, true, "guard");
        storeScalar(s, l, 1, V(1, 8));
    });
    H("__cxa_guard_abort", [](State &, const PI &, A) {});
    H("__dynamic_cast", [this](State &s, const PI &pi, A a) {
        uint64_t p = concretize(s, a[0]);
        auto rd = [&](uint64_t at, uint64_t n) {
            Loc l = resolve(s, V(at, 64), n, false, "type information");
            Val v = loadScalar(s, l, n, (unsigned)n * 8);
            return v.concrete() ? v.c : concretize(s, v);
        };
        if (!p) {
            set(s, pi, V(0, 64));
            return;
        }
        uint64_t vptr = rd(p, 8);
        int64_t top = (int64_t)rd(vptr - 16, 8);
        uint64_t ti = rd(vptr - 8, 8);
        std::function<uint64_t(uint64_t, uint64_t)> find = [&](uint64_t t,
                                                               uint64_t at) -> uint64_t {
            if (t == a[2].c)
                return at;
            auto g = gvAt.find(t);
            if (g == gvAt.end() || !g->second->hasInitializer())
                return 0;
            const Constant *in = g->second->getInitializer();
            unsigned n = in->getNumOperands();
            if (n == 3)
                return find(rd(t + 16, 8), at);
            if (n > 4) {
                unsigned cnt = (unsigned)rd(t + 20, 4);
                for (unsigned i = 0; i < cnt; ++i) {
                    uint64_t b = rd(t + 24 + i * 16, 8);
                    int64_t fl = (int64_t)rd(t + 32 + i * 16, 8);
                    if (fl & 1)
                        fail(s, "unmodelled", "vbase", "virtual base in dynamic_cast");
                    if (uint64_t r = find(b, at + (fl >> 8)))
                        return r;
                }
            }
            return 0;
        };
        set(s, pi, V(find(ti, p + top), 64));
    });
    // ----------------------------------------------------------- libstdc++
    for (const char *n :
         {"_ZNSt3pmr15memory_resourceD1Ev", "_ZNSt3pmr15memory_resourceD2Ev",
          "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9bad_allocD1Ev",
          "_ZNSt9bad_allocD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev",
          "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev",
          "_ZNSt12length_errorD1Ev", "_ZNSt12length_errorD2Ev",
          "_ZNSt12out_of_rangeD1Ev", "_ZNSt12out_of_rangeD2Ev",
          "_ZNSt16invalid_argumentD1Ev", "_ZNSt16invalid_argumentD2Ev",
          "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev",
          "_ZNSt20bad_array_new_lengthD1Ev", "_ZNSt11logic_errorC2ERKS_",
          "_ZNSt13runtime_errorC2ERKS_"})
        H(n, [](State &, const PI &, A) {});
    for (std::string k : {"11logic_error", "13runtime_error", "12length_error",
                          "12out_of_range", "16invalid_argument", "12domain_error"})
        for (const char *v :
             {"C1EPKc", "C2EPKc",
              "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
              "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"})
            H("_ZNSt" + k + v, [](State &, const PI &, A) {});
    for (const char *n : {"round", "lround", "floor", "ceil", "sqrt", "roundf", "sqrtf",
                          "log2", "ceilf", "floorf"}) {
        std::string nm = n;
        H(n, [this, nm](State &s, const PI &pi, A a) {
            Val x = a[0];
            if (!x.concrete())
                fail(s, "unmodelled", "fp", "floating point on symbolic values");
            double d = asD(x);
            if (nm == "lround") {
                set(s, pi, V((uint64_t)lround(d), 64));
                return;
            }
            double r = nm[0] == 'r'   ? round(d)
                       : nm[0] == 'f' ? floor(d)
                       : nm[0] == 'c' ? ceil(d)
                       : nm[0] == 'l' ? log2(d)
                                      : sqrt(d);
            set(s, pi, frD(r, x.w));
        });
    }
}

void Exec::execIntrinsic(State &s, const PI &pi, unsigned iid, std::vector<Val> &a) {
    auto elementwise = [&](std::function<Val(const Val &, const Val &)> f) {
        if (a[0].agg) {
            Val r;
            r.agg = std::make_shared<std::vector<Val>>();
            for (size_t i = 0; i < a[0].agg->size(); ++i)
                r.agg->push_back(f((*a[0].agg)[i], (*a[1].agg)[i]));
            set(s, pi, r);
        } else
            set(s, pi, f(a[0], a[1]));
    };
    switch (iid) {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline: doMemcpy(s, a[0], a[1], a[2], true); break;
        // (clang emits llvm.memcpy for assignments of possibly equal objects;
        //  partial overlap cannot come from there, library calls to memcpy are
        //  checked by their own handler)
        case Intrinsic::memmove: doMemcpy(s, a[0], a[1], a[2], true); break;
        case Intrinsic::memset: doMemset(s, a[0], a[1], a[2]); break;
        case Intrinsic::lifetime_start: {
            // contents become undefined again (loops re-entering a scope)
            if (a[1].concrete()) {
                auto it = s.mem.find(a[1].c);
                if (it != s.mem.end() && it->second->kind == OK_Stack) {
                    Obj *o = wobj(s, a[1].c);
                    o->alive = true;
                    o->s.clear();
                    o->init.assign(o->size, 0);
                }
            }
            break;
        }
        case Intrinsic::lifetime_end: {
            if (a[1].concrete()) {
                auto it = s.mem.find(a[1].c);
                if (it != s.mem.end() && it->second->kind == OK_Stack)
                    wobj(s, a[1].c)->alive = false;
            }
            break;
        }
        case Intrinsic::assume: {
            E c = toE(a[0]);
            if (c->isTrue())
                break;
            std::shared_ptr<const Model> m;
            if (feas(s, mkNot(c), &m) == Sat::Yes)
                fail(s, "ub", "assume:" + topRepoFn(s),
                     "compiler assumption violated", m);
            break;
        }
        case Intrinsic::expect:
        case Intrinsic::expect_with_probability:
        case Intrinsic::annotation:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::threadlocal_address: set(s, pi, a[0]); break;
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing:
        case Intrinsic::prefetch:
        case Intrinsic::invariant_end:
        case Intrinsic::stackrestore:
        case Intrinsic::var_annotation: break;
        case Intrinsic::invariant_start:
        case Intrinsic::stacksave: set(s, pi, V(0, 64)); break;
        case Intrinsic::objectsize: set(s, pi, V(~0ULL, pi.w)); break;
        case Intrinsic::is_constant: set(s, pi, V(0, 1)); break;
        case Intrinsic::umin:
            elementwise([&](const Val &x, const Val &y) {
                return VE(mkIte(mkBin(K::Ult, toE(x), toE(y)), toE(x), toE(y)));
            });
            break;
        case Intrinsic::umax:
            elementwise([&](const Val &x, const Val &y) {
                return VE(mkIte(mkBin(K::Ult, toE(x), toE(y)), toE(y), toE(x)));
            });
            break;
        case Intrinsic::smin:
            elementwise([&](const Val &x, const Val &y) {
                return VE(mkIte(mkBin(K::Slt, toE(x), toE(y)), toE(x), toE(y)));
            });
            break;
        case Intrinsic::smax:
            elementwise([&](const Val &x, const Val &y) {
                return VE(mkIte(mkBin(K::Slt, toE(x), toE(y)), toE(y), toE(x)));
            });
            break;
        case Intrinsic::abs: {
            E x = toE(a[0]);
            set(s, pi, VE(mkIte(mkBin(K::Slt, x, mkConst(0, x->w)),
                                mkBin(K::Sub, mkConst(0, x->w), x), x)));
            break;
        }
        case Intrinsic::usub_sat: {
            E x = toE(a[0]), y = toE(a[1]);
            set(s, pi, VE(mkIte(mkBin(K::Ult, x, y), mkConst(0, x->w),
                                mkBin(K::Sub, x, y))));
            break;
        }
        case Intrinsic::uadd_sat: {
            E x = toE(a[0]), y = toE(a[1]), r = mkBin(K::Add, x, y);
            set(s, pi, VE(mkIte(mkBin(K::Ult, r, x),
                                mkConst(APInt::getAllOnes(x->w)), r)));
            break;
        }
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::smul_with_overflow: {
            E x = toE(a[0]), y = toE(a[1]);
            unsigned w = x->w;
            bool sg = iid == Intrinsic::sadd_with_overflow ||
                      iid == Intrinsic::ssub_with_overflow ||
                      iid == Intrinsic::smul_with_overflow;
            K k = iid == Intrinsic::uadd_with_overflow || iid == Intrinsic::sadd_with_overflow
                      ? K::Add
                  : iid == Intrinsic::usub_with_overflow || iid == Intrinsic::ssub_with_overflow
                      ? K::Sub
                      : K::Mul;
            E r = mkBin(k, x, y), o;
            if (k == K::Mul && !sg && y->isConst()) {
                // x * c overflows iff x > max / c
                o = y->val.isZero()
                        ? mkFalse()
                        : mkBin(K::Ult, mkConst(APInt::getAllOnes(w).udiv(y->val)), x);
            } else if (k == K::Mul && !sg && x->isConst()) {
                o = x->val.isZero()
                        ? mkFalse()
                        : mkBin(K::Ult, mkConst(APInt::getAllOnes(w).udiv(x->val)), y);
            } else {
                E wx = sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w);
                E wy = sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w);
                E wide = mkBin(k, wx, wy);
                o = mkNot(mkEq(wide, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w)));
            }
            Val v;
            v.agg = std::make_shared<std::vector<Val>>();
            v.agg->push_back(VE(r));
            v.agg->push_back(VE(o));
            set(s, pi, v);
            break;
        }
        case Intrinsic::ctlz:
        case Intrinsic::cttz: {
            bool lead = iid == Intrinsic::ctlz;
            Val v = a[0];
            bool zp = a.size() > 1 && a[1].c;
            if (!v.concrete()) {
                E x = toE(v);
                undefCheck(s, x, "bit count");
                unsigned w = x->w;
                if (zp) {
                    std::shared_ptr<const Model> m;
                    if (feas(s, mkEq(x, mkConst(0, w)), &m) == Sat::Yes)
                        fail(s, "ub", "clz0:" + topRepoFn(s), "count of leading or "
                                                              "trailing zeros of 0",
                             m);
                }
                // nested conditional expression
                E r = mkConst(w, w);
                if (lead) {
                    for (unsigned i = 0; i < w; ++i)
                        r = mkIte(mkBin(K::Ule, mkConst(APInt::getOneBitSet(w, i)), x),
                                  mkConst(w - 1 - i, w), r);
                } else {
                    for (unsigned i = w; i-- > 0;)
                        r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)),
                                  mkConst(i, w), r);
                }
                // the result decides loop counts and list indices: one path
                // per value
                uint64_t c = concretize(s, VE(r));
                set(s, pi, V(c, w));
                break;
            }
            if (v.c == 0 && zp)
                fail(s, "ub", "clz0:" + topRepoFn(s),
                     "count of leading or trailing zeros of 0");
            unsigned w = v.w, c = 0;
            if (lead)
                while (c < w && !((v.c >> (w - 1 - c)) & 1))
                    ++c;
            else
                while (c < w && !((v.c >> c) & 1))
                    ++c;
            set(s, pi, V(c, w));
            break;
        }
        case Intrinsic::ctpop: {
            if (a[0].concrete()) {
                set(s, pi, V((uint64_t)__builtin_popcountll(a[0].c), a[0].w));
                break;
            }
            E x = toE(a[0]), r = mkConst(0, x->w);
            for (unsigned i = 0; i < x->w; ++i)
                r = mkBin(K::Add, r, mkZExt(mkExtract(x, i, 1), x->w));
            set(s, pi, VE(r));
            break;
        }
        case Intrinsic::bswap: {
            E x = toE(a[0]), r = nullptr;
            for (unsigned i = 0; i < x->w; i += 8) {
                E b = mkExtract(x, i, 8);
                r = r ? mkConcat(r, b) : b;
            }
            set(s, pi, VE(r));
            break;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            E x = toE(a[0]), y = toE(a[1]), n = toE(a[2]);
            unsigned w = x->w;
            E k = mkBin(K::URem, n, mkConst(w, w));
            E cat = mkConcat(x, y), sh = mkZExt(k, 2 * w);
            E r = iid == Intrinsic::fshl
                      ? mkExtract(mkBin(K::Shl, cat, sh), w, w)
                      : mkExtract(mkBin(K::LShr, cat, sh), 0, w);
            set(s, pi, VE(r));
            break;
        }
        case Intrinsic::ptrmask:
            set(s, pi, VE(mkBin(K::And, toE(a[0]), toE(a[1]))));
            break;
        case Intrinsic::eh_typeid_for: {
            set(s, pi, V(a[0].c & 0x7fffffff, 32));
            break;
        }
        case Intrinsic::trap:
        case Intrinsic::debugtrap:
        case Intrinsic::ubsantrap:
            fail(s, "ub", "trap:" + topRepoFn(s), "trap instruction reached");
        case Intrinsic::round:
        case Intrinsic::floor:
        case Intrinsic::ceil:
        case Intrinsic::trunc:
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::sqrt:
        case Intrinsic::fabs: {
            if (!a[0].concrete())
                fail(s, "unmodelled", "fp", "floating point on symbolic values");
            double d = asD(a[0]), r = 0;
            switch (iid) {
                case Intrinsic::round: r = round(d); break;
                case Intrinsic::floor: r = floor(d); break;
                case Intrinsic::ceil: r = ceil(d); break;
                case Intrinsic::trunc: r = trunc(d); break;
                case Intrinsic::sqrt: r = sqrt(d); break;
                case Intrinsic::fabs: r = fabs(d); break;
                default: r = rint(d);
            }
            set(s, pi, frD(r, a[0].w));
            break;
        }
        case Intrinsic::fmuladd: {
            if (!a[0].concrete() || !a[1].concrete() || !a[2].concrete())
                fail(s, "unmodelled", "fp", "floating point on symbolic values");
            set(s, pi, frD(asD(a[0]) * asD(a[1]) + asD(a[2]), a[0].w));
            break;
        }
        default:
            fail(s, "unmodelled", "intr",
                 "intrinsic " + pi.callee->getName().str());
    }
}
}  // namespace sx
