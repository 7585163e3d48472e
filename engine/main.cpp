// sxe: symbolic execution of one harness function of a bitcode file.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include <pthread.h>

#include <csignal>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>

#include "exec.h"

using namespace llvm;
using namespace sx;

std::string sx::jsonEsc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += (char)c;
    }
    return r + "\"";
}

struct Opts {
    std::string bc, entry, out;
    std::map<std::string, uint64_t> params;
    uint64_t maxSteps = 20000000, maxPaths = 2000000;
    double maxSeconds = 600;
    bool overflow = false, dumpUndecided = false;
    std::string dump;
    unsigned dumpEvery = 1, dumpMax = 100, timeoutMs = 20000;
} o;

// ids of vf_cover calls that the harness could reach
static std::set<std::string> coversInReach(Module &m, const std::string &entry) {
    std::set<std::string> r;
    std::set<const Value *> seen;
    std::deque<const Value *> q;
    auto add = [&](const Value *v) {
        if (v && seen.insert(v).second)
            q.push_back(v);
    };
    add(m.getFunction(entry));
    while (!q.empty()) {
        const Value *v = q.front();
        q.pop_front();
        if (auto *f = dyn_cast<Function>(v)) {
            for (auto &b : *f)
                for (auto &i : b) {
                    if (auto *cb = dyn_cast<CallBase>(&i)) {
                        auto *cf = cb->getCalledFunction();
                        if (cf && cf->getName() == "vf_cover") {
                            if (auto *g = dyn_cast<GlobalVariable>(
                                    cb->getArgOperand(0)->stripPointerCasts()))
                                if (auto *cd = dyn_cast<ConstantDataArray>(
                                        g->getInitializer()))
                                    r.insert(cd->getAsCString().str());
                            continue;
                        }
                    }
                    for (const Value *op : i.operands())
                        if (isa<Constant>(op))
                            add(op);
                }
        } else if (auto *g = dyn_cast<GlobalVariable>(v)) {
            if (g->hasInitializer())
                add(g->getInitializer());
        } else if (auto *u = dyn_cast<User>(v))
            for (const Value *op : u->operands())
                add(op);
    }
    return r;
}

static int mainReal() {
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(o.bc, err, ctx);
    if (!m) {
        err.print("sxe", errs());
        return 3;
    }
    Exec ex(*m);
    ex.params = o.params;
    ex.maxSteps = o.maxSteps;
    ex.maxPaths = o.maxPaths;
    ex.maxSeconds = o.maxSeconds;
    ex.checkOverflow = o.overflow;
    ex.solver.timeoutMs = o.timeoutMs;
    if (!o.dump.empty()) {
        ex.solver.dump = fopen(o.dump.c_str(), "w");
        ex.solver.dumpEvery = o.dumpEvery;
        ex.solver.dumpMax = o.dumpMax;
        ex.solver.dumpUndecided = o.dumpUndecided;
    }
    ex.run(o.entry);
    if (ex.solver.dump)
        fclose(ex.solver.dump);
    ex.coversAll = coversInReach(*m, o.entry);
    std::ofstream f(o.out.empty() ? "/dev/stdout" : o.out);
    auto list = [&](auto &c) {
        std::string r = "[";
        for (auto &x : c)
            r += (r.size() > 1 ? ", " : "") + jsonEsc(x);
        return r + "]";
    };
    auto inputs = [&](auto &v) {
        std::string r = "[";
        for (auto &p : v)
            r += (r.size() > 1 ? ", [" : "[") + jsonEsc(p.first) + ", " +
                 jsonEsc(p.second) + "]";
        return r + "]";
    };
    f << "{\"entry\": " << jsonEsc(o.entry) << ",\n";
    f << " \"paths\": " << ex.paths << ", \"completed\": " << ex.completed
      << ", \"killed\": " << ex.killed << ", \"forks\": " << ex.forks
      << ", \"instructions\": " << ex.insts << ", \"max_depth\": " << ex.maxDepth
      << ", \"mem_checks\": " << ex.memChecks
      << ", \"sched_points\": " << ex.schedPoints << ",\n";
    f << " \"obligations\": " << ex.obligations << ", \"discharged\": " << ex.discharged
      << ",\n";
    auto &st = ex.solver.stats;
    f << " \"queries\": " << st.queries << ", \"sat\": " << st.sat
      << ", \"unsat\": " << st.unsat << ", \"unknown\": " << st.unknown
      << ", \"int_encoded\": " << st.intSat + st.intUnsat << ", \"by_range\": " << st.byRange << ", \"cache_hits\": " << st.cacheHits << ", \"model_hits\": " << st.modelHits
      << ", \"solver_s\": " << st.seconds << ", \"max_query_s\": " << st.maxSeconds
      << ",\n";
    f << " \"asserts\": " << list(ex.assertsSeen) << ",\n";
    f << " \"covers_seen\": " << list(ex.coversSeen) << ",\n";
    f << " \"covers_all\": " << list(ex.coversAll) << ",\n";
    f << " \"incomplete\": " << list(ex.incomplete) << ",\n";
    f << " \"reports\": [";
    bool first = true;
    for (auto &r : ex.reports) {
        f << (first ? "\n  {" : ",\n  {");
        first = false;
        f << "\"kind\": " << jsonEsc(r.kind) << ", \"id\": " << jsonEsc(r.id)
          << ", \"msg\": " << jsonEsc(r.msg) << ", \"count\": " << r.count
          << ", \"trace\": " << list(r.trace) << ", \"inputs\": " << inputs(r.inputs)
          << "}";
    }
    f << "],\n \"samples\": [";
    first = true;
    for (auto &sm : ex.samples) {
        f << (first ? "" : ", ") << inputs(sm);
        first = false;
    }
    std::set<std::string> fn;
    for (PF *p : ex.allFns())
        if (p->f->getName().contains("6vecmem"))
            fn.insert(p->f->getName().str());
    f << "],\n \"functions\": " << list(fn) << "}\n";
    return 0;
}

static int rc = 3;
static void *thrMain(void *) {
    rc = mainReal();
    return nullptr;
}

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string {
            if (i + 1 >= argc)
                exit(3);
            return argv[++i];
        };
        if (a == "--entry")
            o.entry = nx();
        else if (a == "--out")
            o.out = nx();
        else if (a == "--param") {
            std::string p = nx();
            auto q = p.find('=');
            o.params[p.substr(0, q)] = std::stoull(p.substr(q + 1));
        } else if (a == "--max-seconds")
            o.maxSeconds = std::stod(nx());
        else if (a == "--max-paths")
            o.maxPaths = std::stoull(nx());
        else if (a == "--max-steps")
            o.maxSteps = std::stoull(nx());
        else if (a == "--timeout-ms")
            o.timeoutMs = (unsigned)std::stoul(nx());
        else if (a == "--dump-undecided")
            o.dumpUndecided = true;
        else if (a == "--dump")
            o.dump = nx();
        else if (a == "--dump-every")
            o.dumpEvery = (unsigned)std::stoul(nx());
        else if (a == "--dump-max")
            o.dumpMax = (unsigned)std::stoul(nx());
        else if (a == "--overflow")
            o.overflow = true;
        else
            o.bc = a;
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t t;
    if (pthread_create(&t, &at, thrMain, nullptr))
        return 3;
    pthread_join(t, nullptr);
    return rc;
}
