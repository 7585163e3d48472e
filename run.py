#!/usr/bin/env python3
"""Driver of the checks:  run.py PROPERTY [--tier quick|thorough] [--job NAME]
                          run.py --replay DIR
                          run.py --prepare
See DESIGN.md.  Exit 0: property held on everything explored; 1: violation
(VIOLATION line); 2: no verdict (what is missing is printed)."""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil
import subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
B = os.path.join(V, "build")
CACHE = os.path.join(B, "cache")
ENGINE = os.path.join(B, "engine", "sxe")
NPROC = os.cpu_count() or 8

CORE_DEFS = ["-DVECMEM_DEBUG_MSG_LVL=0", "-DVECMEM_HAVE_BUILTIN_CLZL",
             "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC",
             "-DVECMEM_SOURCE_DIR_LENGTH=6", "-Dvecmem_core_EXPORTS"]
USER_DEFS = ["-DVECMEM_DEBUG_MSG_LVL=0", "-DVECMEM_HAVE_PMR_MEMORY_RESOURCE",
             "-DVECMEM_SOURCE_DIR_LENGTH=6", "-DVECMEM_SUPPORT_POSIX_ATOMIC_REF"]
INC = [f"-I{V}/lib", f"-I{V}/include", f"-I{REPO}/core/include", f"-I{REPO}/core/src"]
BCFLAGS = ["-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-DVF_SYMBOLIC",
           "-gline-tables-only", "-emit-llvm", "-c", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
NATIVE = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,returns-nonnull-attribute,nonnull-attribute",
             "-fno-sanitize-recover=all"],
    "plain": [],
    "sched": ["-fsanitize=thread", "-DVF_SCHED"],
}
LINKEX = {
    "asan": ["-Wl,--wrap=aligned_alloc", "-Wl,--wrap=free"],
    "plain": ["-Wl,--wrap=aligned_alloc", "-Wl,--wrap=free"],
    "sched": ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock",
              "-Wl,--wrap=pthread_mutex_trylock"],
}


def sh(cmd, timeout=None, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, env=env, cwd=cwd, text=True, errors="replace")


class BuildError(Exception):
    pass


def repo_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "core", "src")):
        for f in fs:
            if f.endswith(".cpp") and f != "default_resource_polyfill.cpp":
                r.append(os.path.join(d, f))
    return sorted(r)


_hash = {}


def tree_hash(dirs):
    k = tuple(dirs)
    if k not in _hash:
        h = hashlib.sha256()
        for top in dirs:
            for d, ds, fs in sorted(os.walk(top)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, top).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        _hash[k] = h.hexdigest()
    return _hash[k]


def key(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    h.update(tree_hash([os.path.join(REPO, "core")]).encode())
    h.update(tree_hash([os.path.join(V, x) for x in ("lib", "include", "stubs")]).encode())
    return h.hexdigest()[:24]


def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", f"-j{NPROC}", "-C", os.path.join(V, "engine")])
        if r.returncode != 0 or not os.path.exists(ENGINE):
            raise BuildError("the engine does not build:\n" + r.stdout[-4000:])


def comp_bc(src, defs, out):
    t = out + f".{os.getpid()}.tmp"
    r = sh(["clang++-18", *BCFLAGS, f"-I{V}/stubs", *INC, *defs, src, "-o", t])
    if r.returncode:
        raise BuildError(f"{src} does not compile:\n" + r.stdout[-4000:])
    r = sh(["opt-18", "-passes=function(sroa,instsimplify,simplifycfg)", t, "-o", t + "2"])
    if r.returncode:
        raise BuildError(r.stdout[-2000:])
    os.remove(t)
    os.rename(t + "2", out)


def par(fn, items):
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(lambda a: fn(*a), items))


def core_bc():
    out = os.path.join(CACHE, "core_" + key("core", CORE_DEFS, BCFLAGS) + ".bc")
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + f".{os.getpid()}.d"
    os.makedirs(tmp, exist_ok=True)
    work = [(s, CORE_DEFS, os.path.join(tmp, f"{i}.bc")) for i, s in enumerate(repo_sources())]
    work.append((os.path.join(V, "lib", "runtime.cpp"), [], os.path.join(tmp, "rt.bc")))
    par(comp_bc, work)
    r = sh(["llvm-link-18", "-o", out + ".tmp", *[w[2] for w in work]])
    shutil.rmtree(tmp)
    if r.returncode:
        raise BuildError("linking the library's code failed:\n" + r.stdout[-3000:])
    os.rename(out + ".tmp", out)
    return out


def harness_bc(src, defs):
    p = os.path.join(V, "harness", src)
    out = os.path.join(CACHE, "h_" + key("h", open(p).read(), harness_headers(), defs, BCFLAGS) + ".bc")
    if os.path.exists(out):
        return out
    hb = out + f".{os.getpid()}.h"
    comp_bc(p, USER_DEFS + defs, hb)
    rename = []
    r = sh(["llvm-link-18", "-o", out + f".{os.getpid()}.tmp", hb, core_bc()])
    if r.returncode:
        raise BuildError(f"linking {src} failed:\n" + r.stdout[-3000:])
    os.rename(out + f".{os.getpid()}.tmp", out)
    os.remove(hb)
    return out


def harness_headers():
    h = hashlib.sha256()
    d = os.path.join(V, "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith((".h", ".hpp")):
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def native_bin(job, variant):
    cc = ["clang++-18", "-std=gnu++17", "-O0", "-g1", "-DNDEBUG", "-DVF_NATIVE", "-w",
          "-fno-omit-frame-pointer", *NATIVE[variant]]
    src = os.path.join(V, "harness", job["src"])
    defs = job.get("defines", [])
    out = os.path.join(CACHE, "n_" + key("n", variant, open(src).read(), harness_headers(), defs,
                                          job["entry"], cc, LINKEX[variant]))
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    lib = os.path.join(CACHE, "nl_" + key("nl", variant, cc))
    tmp = out + f".{os.getpid()}.d"
    os.makedirs(tmp, exist_ok=True)

    def one(s, d, o):
        r = sh([*cc, *INC, *d, "-c", s, "-o", o])
        if r.returncode:
            raise BuildError(f"{s} does not compile natively:\n" + r.stdout[-3000:])

    work = []
    if not os.path.exists(lib + ".a"):
        for i, s in enumerate(repo_sources()):
            work.append((s, CORE_DEFS, os.path.join(tmp, f"core{i}.o")))
    hs = os.path.join(tmp, "h.o")
    work.append((src, USER_DEFS + defs, hs))
    wrap = ["-DVF_WRAP_ALLOC"] if variant in ("asan", "plain") else []
    ns = os.path.join(tmp, "native.o")
    nflags = [f"-DVF_ENTRY={job['entry']}", *wrap]
    work.append((os.path.join(V, "lib", "native.cpp"), nflags, ns))
    if variant == "sched":
        # the scheduler itself must not be instrumented
        work.pop()
        r = sh([*[c for c in cc if c != "-fsanitize=thread"], *INC, *nflags, "-c",
                os.path.join(V, "lib", "native.cpp"), "-o", ns])
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
    par(one, work)
    if not os.path.exists(lib + ".a"):
        objs = [w[2] for w in work if os.path.basename(w[2]).startswith("core")]
        r = sh(["ar", "qc", lib + f".{os.getpid()}.a", *objs])
        os.rename(lib + f".{os.getpid()}.a", lib + ".a")
    link = ["clang++-18", "-g1", hs, ns, lib + ".a", "-o", out + f".{os.getpid()}", "-lpthread",
            *(NATIVE[variant] if variant != "sched" else []), *LINKEX[variant]]
    r = sh(link)
    shutil.rmtree(tmp)
    if r.returncode:
        raise BuildError("native link failed:\n" + r.stdout[-3000:])
    os.rename(out + f".{os.getpid()}", out)
    return out


def run_engine(bc, job, params, limits, out, dump=None):
    cmd = [ENGINE, bc, "--entry", job["entry"], "--out", out,
           "--max-seconds", str(limits["seconds"]), "--max-paths", str(limits.get("paths", 3000000)),
           "--timeout-ms", str(limits.get("query_ms", 20000))]
    for k, v in params.items():
        cmd += ["--param", f"{k}={v}"]
    if job.get("overflow"):
        cmd += ["--overflow"]
    if dump:
        cmd += ["--dump", dump, "--dump-every", "7", "--dump-max", "40"]
    try:
        r = sh(cmd, timeout=limits["seconds"] + 90)
        msg, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        return {"crash": "engine did not stop in time"}
    if rc != 0 or not os.path.exists(out):
        return {"crash": f"engine ended with {rc}: {msg[-1500:]}"}
    try:
        d = json.load(open(out))
    except Exception as e:  # noqa
        return {"crash": f"engine output unreadable: {e}"}
    if msg.strip():
        d["stderr"] = msg[-2000:]
    return d


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, v in inputs:
            f.write(f"{n.replace(' ', '_')} {v}\n")


SAN = re.compile(r"(ERROR: AddressSanitizer|runtime error:|ERROR: LeakSanitizer|DEADLYSIGNAL|"
                 r"terminate called|REPLAY-MEM|REPLAY-RACE|REPLAY-DEADLOCK|WARNING: ThreadSanitizer)")


def replay(job, params, rep, inputs_file):
    """-> (reproduced, text)"""
    kind = rep["kind"]
    threads = job.get("threads", False)
    env = dict(os.environ, VF_INPUTS=inputs_file,
               ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:"
                            "detect_stack_use_after_return=1",
               UBSAN_OPTIONS="print_stacktrace=0")
    if kind == "assert":
        env["VF_EXPECT"] = rep["id"]
    pv = [f"{k}={v}" for k, v in params.items()]
    order = ["sched"] if threads else ["asan"]
    if kind == "race":
        env["VF_RACE"] = "1"
    if kind == "uninit":
        order = ["valgrind"]
    log = ""
    for variant in order:
        tries = 1
        if variant == "valgrind":
            b = native_bin(job, "plain")
            cmd = ["valgrind", "-q", "--error-exitcode=13", "--leak-check=no", b, *pv]
        else:
            b = native_bin(job, variant)
            cmd = [b, *pv]
        for _ in range(tries):
            try:
                r = sh(cmd, timeout=60, env=env)
            except subprocess.TimeoutExpired:
                return True, "the replay does not terminate"
            log = f"[{variant}] exit {r.returncode}\n" + r.stdout[-3000:]
            if kind == "assert":
                if f"REPLAY-ASSERT {rep['id']}\n" in r.stdout:
                    return True, log
                if SAN.search(r.stdout):
                    return True, log
            else:
                if SAN.search(r.stdout) or r.returncode in (10, 11, 12, 13, 66) or r.returncode < 0:
                    return True, log
    return False, log


def load_jobs():
    sys.path.insert(0, os.path.join(V, "tools"))
    import jobs
    return jobs.JOBS


def known_findings(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def expand(job, tier):
    base = dict(job.get("params", {}))
    base.update(job.get(tier, {}))
    split = job.get("split_" + tier, job.get("split", [{}]))
    return [dict(base, **s) for s in split]


def check(prop, tier, only=None, keep=False):
    t0 = time.time()
    jobs = [j for j in load_jobs()[prop] if not only or j["name"] == only]
    jobs = [j for j in jobs if tier in j.get("tiers", ("quick", "thorough"))]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build_engine()
    core_bc()
    bcs = {}
    todo = sorted({(j["src"], tuple(j.get("defines", []))) for j in jobs})
    for k, b in zip(todo, par(lambda s, d: harness_bc(s, list(d)), todo)):
        bcs[k] = b
    t_build = time.time() - t0
    total = {"quick": 330, "thorough": 780}[tier]
    work = os.path.join(B, "work", f"{prop}_{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    units = []
    for j in jobs:
        for i, p in enumerate(expand(j, tier)):
            units.append((j, p, f"{j['name']}_{i}"))
    units.sort(key=lambda u: -u[0].get("weight", 1))

    def unit(j, p, name):
        left = total - (time.time() - t0)
        lim = {"seconds": max(20, min(j.get("seconds", 600), left)),
               "paths": j.get("paths", 3000000), "query_ms": 20000 if tier == "quick" else 60000}
        dump = os.path.join(work, name + ".smt2") if tier == "thorough" else None
        tt = time.time()
        d = run_engine(bcs[(j["src"], tuple(j.get("defines", [])))], j, p, lim,
                       os.path.join(work, name + ".json"), dump)
        d["wall"] = time.time() - tt
        return d

    res = par(unit, units)
    # ------------------------------------------------------------ judge
    problems, violations, known = [], [], []
    covers = {}
    for (j, p, name), d in zip(units, res):
        if "crash" in d:
            problems.append(f"{name}: {d['crash']}")
            continue
        for i in d["incomplete"]:
            problems.append(f"{name} {p}: {i}")
        c = covers.setdefault(j["name"], (set(), set(), j))
        c[0].update(d["covers_seen"])
        c[1].update(d["covers_all"])
        if d["completed"] == 0 and not d["reports"]:
            problems.append(f"{name}: no path ran to its end (vacuous)")
    kf = known_findings(prop)
    seen_ids = set()
    for (j, p, name), d in zip(units, res):
        for r in d.get("reports", []):
            sig = (j["name"], r["kind"], r["id"])
            if sig in seen_ids:
                continue
            k = next((k for k in kf if k["job"] == j["name"] and k["id"] == r["id"] and
                      k.get("kind", r["kind"]) == r["kind"]), None)
            rd = os.path.join(B, "replays", prop, f"{name}_{len(violations) + len(known)}")
            shutil.rmtree(rd, ignore_errors=True)
            os.makedirs(rd)
            inp = os.path.join(rd, "inputs.txt")
            write_inputs(inp, r["inputs"])
            ok, log = replay(j, p, r, inp)
            json.dump({"property": prop, "job": j["name"], "params": p, "report": r,
                       "reproduced": ok}, open(os.path.join(rd, "violation.json"), "w"), indent=1)
            open(os.path.join(rd, "replay.log"), "w").write(log)
            if not ok:
                problems.append(f"{name}: {r['kind']} {r['id']}: {r['msg']} -- not reproduced "
                                f"natively, see {rd}")
                continue
            seen_ids.add(sig)
            if k:
                known.append((k, r, rd))
            else:
                violations.append((j, p, r, rd))
    # coverage goals (vacuity); not judged when something failed already
    for n, (seen, all_, j) in covers.items():
        miss = all_ - seen - set(j.get("uncovered", []))
        if miss:
            problems.append(f"{n}: never reached: {sorted(miss)}")
    # ------------------------------------------------ replay sampled paths
    validated, vfail = 0, []
    for j in {id(u[0]): u[0] for u in units}.values():
        if j.get("no_validate") or time.time() - t0 > total:
            continue
        todo = []
        for (jj, p, name), d in zip(units, res):
            if jj is j and "crash" not in d and not d["reports"]:
                todo += [(p, s, f"{name}_s{i}") for i, s in
                         enumerate(d["samples"][:2 if tier == "quick" else 4])]
        todo = todo[:4 if tier == "quick" else 24]
        if not todo:
            continue
        try:
            b = native_bin(j, "sched" if j.get("threads") else "asan")
        except BuildError as e:
            problems.append(str(e))
            continue
        for p, s, nm in todo:
            f = os.path.join(work, nm + ".in")
            write_inputs(f, s)
            env = dict(os.environ, VF_INPUTS=f, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:"
                       "allocator_may_return_null=1")
            try:
                r = sh([b, *[f"{k}={v}" for k, v in p.items()]], timeout=60, env=env)
            except subprocess.TimeoutExpired:
                vfail.append(f"{nm}: timeout")
                continue
            if r.returncode == 0:
                validated += 1
            else:
                vfail.append(f"{nm}: exit {r.returncode}: {r.stdout[-400:]}")
    for v in vfail:
        problems.append("native run of an explored path disagrees: " + v)
    # ------------------------------------------------ second solver
    cross = None
    if tier == "thorough":
        cross = cross_check(work, 60)
        if cross["disagree"]:
            problems.append(f"a second solver disagrees on {cross['disagree']} queries")
    # ------------------------------------------------------------ evidence
    agg = {k: sum(d.get(k, 0) for d in res) for k in
           ("paths", "completed", "killed", "forks", "instructions", "mem_checks", "sched_points",
            "obligations", "discharged", "queries", "sat", "unsat", "unknown", "cache_hits",
            "model_hits", "solver_s")}
    fns = sorted(set().union(*[set(d.get("functions", [])) for d in res]) if res else [])
    dem = sh(["c++filt"] + fns).stdout.split("\n")[:-1] if fns else []
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "states": agg["paths"], "transitions": agg["instructions"],
            "traces_validated_against_impl": validated,
            "samples": [{"job": j["name"], "params": p, "inputs": s[:40]}
                        for (j, p, n), d in zip(units, res) for s in d.get("samples", [])[:1]][:12],
            "paths_completed": agg["completed"], "paths_ended_by_assumption_or_report": agg["killed"],
            "forks": agg["forks"], "scheduling_choices": agg["sched_points"],
            "obligations": agg["obligations"], "discharged": agg["discharged"],
            "memory_accesses_checked": agg["mem_checks"],
            "queries": agg["queries"], "queries_sat": agg["sat"], "queries_unsat": agg["unsat"],
            "queries_unknown": agg["unknown"], "query_cache_hits": agg["cache_hits"],
            "decided_by_known_model": agg["model_hits"],
            "solver_s": round(agg["solver_s"], 2),
            "max_query_s": round(max([d.get("max_query_s", 0) for d in res] or [0]), 3),
            "functions_encoded": len(fns), "functions": [x[:160] for x in dem][:400],
            "jobs": [{"job": n, "params": p, "paths": d.get("paths"), "queries": d.get("queries"),
                      "wall_s": round(d.get("wall", 0), 2), "bounds": j.get("bounds", "")}
                     for (j, p, n), d in zip(units, res)],
            "assertions": sorted(set().union(*[set(d.get("asserts", [])) for d in res]) if res else []),
            "cover_goals_reached": sorted(set().union(*[c[0] for c in covers.values()]) if covers else []),
            "build_s": round(t_build, 2),
        },
        "assumptions": ASSUMPTIONS + [a for j in jobs for a in j.get("assumes", [])],
        "violations": [{"job": j["name"], "params": p, "kind": r["kind"], "id": r["id"],
                        "msg": r["msg"], "trace": r["trace"][:12], "replay": rd}
                       for j, p, r, rd in violations],
        "known_findings": [k["what"] for k, _, _ in known],
        "problems": problems,
    }
    if cross:
        ev["coverage"]["second_solver"] = cross
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
    print(f"{prop} {tier}: {agg['paths']} paths, {agg['obligations']} obligations, "
          f"{agg['queries']} queries ({agg['solver_s']:.1f} s solver), {len(fns)} library functions, "
          f"{validated} paths replayed natively, {time.time() - t0:.1f} s")
    for k in {k["what"]: k for k, _, _ in known}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for j, p, r, rd in violations:
        print(f"VIOLATION property={prop} replay={rd}")
        print(f"  {j['name']} {p}: {r['kind']} {r['id']}: {r['msg']}")
        for l in r["trace"][:8]:
            print("    " + l)
    if violations:
        return 1
    if problems:
        for x in problems[:20]:
            print("NO-VERDICT: " + x)
        return 2
    return 0


def cross_check(work, seconds):
    """Re-decides dumped queries with other solvers."""
    t0 = time.time()
    n = agree = dis = unk = 0
    for f in sorted(os.listdir(work)):
        if not f.endswith(".smt2"):
            continue
        for q in open(os.path.join(work, f)).read().split(";;;;\n"):
            if time.time() - t0 > seconds:
                break
            m = re.match(r"; expect (\w+)", q)
            if not m:
                continue
            p = os.path.join(work, "q.smt2")
            open(p, "w").write(q)
            s = ["cvc5", "--tlimit=10000", p] if n % 2 else ["z3-new", "-T:10", p]
            try:
                r = sh(s, timeout=20).stdout.split("\n")[0].strip()
            except subprocess.TimeoutExpired:
                r = "timeout"
            n += 1
            if r == m.group(1):
                agree += 1
            elif r in ("sat", "unsat"):
                dis += 1
            else:
                unk += 1
    return {"queries": n, "agree": agree, "disagree": dis, "no_answer": unk,
            "solvers": "cvc5 and z3-new on queries decided by z3 5.3 (the library in the engine)"}


ASSUMPTIONS = [
    "64-bit little-endian Linux, libstdc++ 13 headers compiled by clang 18 to LLVM IR (the IR is "
    "the encoding; the repository's own build uses g++ 13)",
    "sequentially consistent interleavings at atomic and mutex operations; ordinary accesses are "
    "covered by a happens-before data race check",
    "shared-library parts of the C++ runtime (operator new, exceptions, red-black tree links, "
    "rehash policy, text formatting) are modelled in /verif/lib/runtime.cpp, "
    "engine/exec_handlers.cpp and stubs/",
]


def do_replay(d):
    v = json.load(open(os.path.join(d, "violation.json")))
    job = next(j for j in load_jobs()[v["property"]] if j["name"] == v["job"])
    ok, log = replay(job, v["params"], v["report"], os.path.join(d, "inputs.txt"))
    print(log)
    print("reproduced" if ok else "not reproduced")
    return 1 if ok else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("--replay")
    ap.add_argument("--prepare", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    try:
        if a.prepare:
            build_engine()
            core_bc()
            return 0
        if a.replay:
            return do_replay(a.replay)
        return check(a.prop, a.tier, a.job, a.keep)
    except BuildError as e:
        print("NO-VERDICT: " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
