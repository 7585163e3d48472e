// Symbolic executor for LLVM IR.
#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

#include <functional>
#include <map>
#include <set>
#include <unordered_map>

#include "expr.h"
#include "solver.h"

namespace sx {

struct Val {
    unsigned w = 0;
    uint64_t c = 0;
    E e = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    bool concrete() const { return !e && !agg; }
};
inline Val V(uint64_t c, unsigned w) {
    Val v;
    v.w = w;
    v.c = w >= 64 ? c : (c & ((1ULL << w) - 1));
    return v;
}
inline Val VE(E e) {
    Val v;
    v.w = e->w;
    if (e->isConst() && e->w <= 64)
        v.c = e->val.getZExtValue();
    else
        v.e = e;
    return v;
}
inline E toE(const Val &v) {
    if (v.e)
        return v.e;
    if (v.agg) {
        fprintf(stderr, "aggregate used as scalar\n");
        abort();
    }
    return mkConst(v.c, v.w);
}

struct Op {
    int reg = -1;
    Val c;
};
struct PF;
struct PI {
    llvm::Instruction *I = nullptr;
    unsigned opc = 0;
    int dst = -1;
    unsigned w = 0;  // result width (scalar) or 0
    std::vector<Op> ops;
    std::vector<int> succ;           // successor block numbers
    int64_t gepConst = 0;            // GEP
    std::vector<uint64_t> gepScale;  // per variable index (0 = ops[0] is base)
    llvm::Function *callee = nullptr;
    PF *pf = nullptr;                // defined callee
    int handler = -1;                // external handler number
    uint64_t size = 0, align = 1;    // load/store/alloca
    llvm::Type *ty = nullptr;
};
struct PB {
    llvm::BasicBlock *bb = nullptr;
    std::vector<PI> insts;
    unsigned nphi = 0;
};
struct PF {
    llvm::Function *f = nullptr;
    std::vector<PB> blocks;
    std::unordered_map<const llvm::BasicBlock *, int> bbIdx;
    std::unordered_map<const llvm::Value *, int> regs;
    int nregs = 0;
    bool prepared = false, executed = false;
    bool lib = false;  // code of the library under test
    uint64_t calls = 0;
};

struct Acc {  // race detection record
    uint32_t lo, hi;
    uint8_t tid;
    bool write, atomic;
    uint32_t clk;
    const llvm::Instruction *at;
};
enum ObjKind : uint8_t {
    OK_Global, OK_Stack, OK_New, OK_NewArr, OK_Malloc, OK_Harness, OK_Exc
};
struct Obj {
    uint64_t base = 0, size = 0, align = 1;
    ObjKind kind = OK_Global;
    bool alive = true, ro = false;
    std::string name;
    std::vector<uint8_t> d;
    std::vector<E> s;           // symbolic overlay (may be empty)
    std::vector<uint8_t> init;  // empty: fully initialised
    std::vector<Acc> acc;
};
using ObjP = std::shared_ptr<Obj>;

struct Frame {
    PF *f = nullptr;
    int bb = 0, ip = 0, prev = -1;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs;
    bool discardRet = false;  // call inserted by the engine (no caller inst)
};
using FrameP = std::shared_ptr<Frame>;

struct Caught {
    uint64_t obj;
    bool rethrown;
};
struct Thread {
    std::vector<FrameP> st;
    bool finished = false, granted = false, joining = false;
    uint64_t blockedOn = 0;  // mutex address
    std::vector<Caught> caught;
    std::vector<uint32_t> vc;
};
struct ExcInfo {
    const llvm::GlobalValue *ti = nullptr;
    uint64_t dtor = 0;
    int handlers = 0;
};
struct Input {
    std::string name;
    E sym;
};
struct State {
    uint64_t id = 0;
    std::vector<Thread> th;
    unsigned cur = 0;
    std::map<uint64_t, ObjP> mem;
    std::map<uint64_t, ExcInfo> exc;
    std::map<uint64_t, int> mutexOwner;
    std::map<uint64_t, std::vector<uint32_t>> syncVC;
    std::vector<E> pc;
    std::shared_ptr<const Model> model;
    std::vector<Input> inputs;
    uint64_t heapNext = 0x600000000000ULL, stackNext = 0x7f0000000000ULL;
    uint64_t steps = 0, forks = 0;
    bool multi = false;
    std::vector<std::string> notes;
};
using StateP = std::unique_ptr<State>;

struct PathError {
    std::string kind, id, msg;
    std::shared_ptr<const Model> model;  // witness (state model if null)
};
struct PathDone {};   // path ends quietly
struct Redo {};       // instruction must be executed again (state forked)

struct Report {
    std::string kind, id, msg;
    std::vector<std::string> trace;
    std::vector<std::pair<std::string, std::string>> inputs;  // name, decimal
    std::vector<unsigned> widths;
    uint64_t count = 1;
};

class Exec {
public:
    Exec(llvm::Module &m);
    bool run(const std::string &entry);
    // options
    std::map<std::string, uint64_t> params;
    uint64_t maxSteps = 20000000, maxPaths = 2000000;
    double maxSeconds = 600;
    bool checkOverflow = false, raceCheck = true;
    unsigned maxReports = 12;
    uint64_t maxMem = 0;
    // results
    std::vector<Report> reports;
    std::vector<std::string> incomplete;
    uint64_t paths = 0, completed = 0, insts = 0, obligations = 0, discharged = 0,
             forks = 0, killed = 0, schedPoints = 0, maxDepth = 0, memChecks = 0;
    std::set<std::string> coversSeen, coversAll, assertsSeen;
    std::vector<std::vector<std::pair<std::string, std::string>>> samples;
    Solver solver;
    std::vector<PF *> allFns();

private:
    using Handler = std::function<void(State &, const PI &, std::vector<Val> &)>;
    llvm::Module &mod;
    const llvm::DataLayout &dl;
    std::unordered_map<const llvm::Function *, std::unique_ptr<PF>> fns;
    std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
    std::unordered_map<uint64_t, llvm::Function *> fnAt;
    std::map<uint64_t, const llvm::GlobalVariable *> gvAt;
    std::map<uint64_t, ObjP> ro;  // constant globals, shared by all states
    std::vector<StateP> work;
    std::map<std::string, int> handlerIdx;
    std::vector<Handler> handlers;
    std::vector<std::string> handlerName;
    std::map<std::string, size_t> repIdx;
    uint64_t nextState = 1, undefCtr = 0;
    double t0 = 0;
    bool advanced = false;  // current instruction already moved the pc
    std::vector<Val> argBuf;

    void setupGlobals(State &s);
    void initConst(Obj &o, uint64_t off, const llvm::Constant *c);
    Val evalConst(const llvm::Constant *c);
    PF *prep(llvm::Function *f);
    void prepBody(PF *pf);
    void addHandlers();
    E inputSym(State &s, const std::string &name, unsigned w);
    std::unordered_map<std::string, E> symPool;
    void H(const std::string &n, Handler h);

    Frame &top(State &s);
    Thread &thr(State &s) { return s.th[s.cur]; }
    Val get(const Frame &f, const Op &o) { return o.reg >= 0 ? f.regs[o.reg] : o.c; }
    void set(State &s, const PI &pi, const Val &v);

    void step(State &s);
    void exec(State &s, const PI &pi);
    void execBin(State &s, const PI &pi);
    Val binVal(State &s, unsigned opc, const Val &a, const Val &b,
               const llvm::Instruction *I);
    Val cmpVal(llvm::CmpInst::Predicate p, const Val &a, const Val &b);
    Val fcmpVal(State &s, llvm::CmpInst::Predicate p, const Val &a, const Val &b);
    Val castVal(State &s, unsigned opc, const Val &a, llvm::Type *from,
                llvm::Type *to);
    void jump(State &s, int bb);
    void execCall(State &s, const PI &pi);
    void callFn(State &s, PF *pf, const std::vector<Val> &args, bool discard = false);
    void execIntrinsic(State &s, const PI &pi, unsigned iid, std::vector<Val> &a);
    void doReturn(State &s, const Val *v);
    void finishThread(State &s);
    void doThrow(State &s, uint64_t obj);
    bool tiMatch(const llvm::GlobalValue *thrown, const llvm::GlobalValue *clause);
    void advance(State &s);

    // control
    bool branch(State &s, E cond, StateP &other);  // true: cond holds in s
    bool decide(State &s, E cond);  // forks (other side redoes the instruction)
    uint64_t concretize(State &s, const Val &v, unsigned limit = 300);
    void addC(State &s, E c);
    StateP clone(State &s);
    Sat feas(State &s, E c, std::shared_ptr<const Model> *m = nullptr);
    void undefCheck(State &s, E c, const char *what);
    void schedule(State &s, bool mustSwitch);
    bool visible(State &s);  // scheduling point; may throw Redo
    bool runnable(State &s, unsigned t);

    // memory
    uint64_t allocObj(State &s, uint64_t size, uint64_t align, ObjKind k,
                      const std::string &name, bool uninit);
    ObjP findObj(State &s, uint64_t a);
    Obj *wobj(State &s, uint64_t base);
    struct Loc {
        ObjP o;
        uint64_t off = 0;
        E soff = nullptr;
    };
    Loc resolve(State &s, const Val &addr, uint64_t n, bool write, const char *what);
    Val loadScalar(State &s, const Loc &l, uint64_t bytes, unsigned w);
    void storeScalar(State &s, const Loc &l, uint64_t bytes, const Val &v);
    Val loadTy(State &s, const Val &addr, llvm::Type *t, uint64_t align);
    void storeTy(State &s, const Val &addr, const Val &v, llvm::Type *t,
                 uint64_t align);
    E readByte(State &s, const ObjP &o, uint64_t off);
    void alignCheck(State &s, const Val &addr, uint64_t align);
    void access(State &s, const Loc &l, uint64_t n, bool write, bool atomic);
    void doMemcpy(State &s, const Val &d, const Val &sr, const Val &n, bool move);
    void doMemset(State &s, const Val &d, const Val &v, const Val &n);
    void freeObj(State &s, const Val &p, std::initializer_list<ObjKind> kinds,
                 const char *what);
    std::string cstr(State &s, const Val &p);

    [[noreturn]] void fail(State &s, const std::string &kind, const std::string &id,
                           const std::string &msg,
                           std::shared_ptr<const Model> m = nullptr);
    void report(State &s, const PathError &e);
    std::vector<std::string> backtrace(State &s);
    std::string topRepoFn(State &s);
    void giveUp(const std::string &why);
    bool timeUp();
};
std::string jsonEsc(const std::string &s);
}  // namespace sx
