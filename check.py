#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current working tree.

usage: check.py <property id> [--tier quick|thorough] [--entry NAME] [-v]
exit 0: every assertion of every harness was discharged for all values within the bounds
exit 1: a counterexample was found and reproduced natively (prints VIOLATION property=<id> replay=<path>)
exit 2: no verdict (build problem, solver gave up, counterexample not reproduced)
"""
import concurrent.futures as cf
import contextlib, glob, hashlib, threading, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SV_REPO", "/repo")
sys.path.insert(0, V)
import registry  # noqa: E402

SVX = os.path.join(V, "build", "svx")
COMMON = ["-std=c++17", "-DNDEBUG", "-w", "-I" + V + "/include", "-I" + REPO + "/eigen_ext/include", "-isystem", "/usr/include/eigen3"]
BC = ["-O1", "-c", "-emit-llvm", "-gline-tables-only", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-DEIGEN_MAX_STATIC_ALIGN_BYTES=16", "-DSV_SYMBOLIC", "-fno-vectorize", "-fno-slp-vectorize",
      "-fno-unroll-loops", "-fno-pic", "-fno-strict-return", "-ffp-contract=off"]
NAT = ["-O1", "-fno-strict-return", "-g1", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-DEIGEN_MAX_STATIC_ALIGN_BYTES=16", "-ffp-contract=off", "-fno-omit-frame-pointer"]
MODEL_LOCK = threading.Lock()
JOBS = int(os.environ.get("SV_JOBS", "8"))


class Stop(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


def must(cmd, what, timeout=600):
    r = sh(cmd, timeout)
    if r.returncode:
        raise Stop(what + " failed:\n" + " ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def build_engine():
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    import fcntl
    with open(os.path.join(V, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        must(["make", "-s", "-C", V], "building the symbolic executor", 1200)


def flags(h):
    f = list(COMMON)
    for g in h.get("groups", []):
        f += registry.GROUPS[g](REPO, V)
    f += [x.replace("@REPO@", REPO).replace("@V@", V) for x in h.get("flags", [])]
    return f


def model_bc(name, fl):
    """bitcode of a model library, cached by content (models are not part of the code under test)"""
    src = os.path.join(V, "models", name + ".cpp")
    key = hashlib.sha256((open(src).read() + "".join(open(x).read() for x in sorted(glob.glob(V + "/include/*.h"))) + " ".join(fl + BC)).encode()).hexdigest()[:16]
    out = os.path.join(V, "build", "model-%s-%s.bc" % (name, key))
    with MODEL_LOCK if not os.path.exists(out) else contextlib.nullcontext():
        if os.path.exists(out):
            return out
        tmp = out + ".%d" % os.getpid()
        must(["clang++-18"] + fl + BC + ["-fno-access-control", src, "-o", tmp], "compiling model " + name)
        os.replace(tmp, out)
    return out


def unit_sources(h):
    return [x.replace("@REPO@", REPO).replace("@V@", V) for x in h.get("sources", [])]


def build_bc(h, wd, pool):
    """bitcode of one harness file: the harness, the repository sources it needs and the models"""
    fl = flags(h)
    name = os.path.splitext(os.path.basename(h["file"]))[0] + h.get("variant", "")
    srcs = [os.path.join(V, "harness", h["file"])] + unit_sources(h)
    outs = []
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(wd, "%s.%d.bc" % (name, i))
        outs.append(o)
        jobs.append(pool.submit(must, ["clang++-18"] + fl + BC + [s, "-o", o], "compiling " + s))
    ms = [pool.submit(model_bc, m, (COMMON if m == "std" else fl)) for m in ["std"] + h.get("models", [])]
    for j in jobs:
        j.result()
    outs += []
    mods = [m.result() for m in ms]
    bc = os.path.join(wd, name + ".bc")
    cmd = ["llvm-link-18"] + outs + (["--override=" + m for m in mods[1:]]) + ["--override=" + mods[0], "-o", bc]
    must(cmd, "linking " + name)
    return bc


def build_native(h, entry, wd, san):
    fl = flags(h)
    name = os.path.splitext(os.path.basename(h["file"]))[0] + h.get("variant", "") + ("-%s" % san if san else "-plain")
    odir = os.path.join(wd, name)
    os.makedirs(odir, exist_ok=True)
    exe = os.path.join(odir, entry)
    if os.path.exists(exe):
        return exe
    srcs = [os.path.join(V, "harness", h["file"])] + [os.path.join(V, "models", m + ".cpp") for m in h.get("native_models", [])] + unit_sources(h)
    sf = ["-fsanitize=" + ("address" if san is True else san)] + (["-fsanitize-recover=memory"] if san == "memory" else []) if san else []
    objs = []
    with cf.ThreadPoolExecutor(4) as p:
        fs = []
        for i, s in enumerate(srcs):
            o = os.path.join(odir, "%d.o" % i)
            objs.append(o)
            if not os.path.exists(o):
                fs.append(p.submit(must, ["clang++-18"] + fl + NAT + sf + ["-c", s, "-o", o], "compiling (native) " + s))
        for f in fs:
            f.result()
    main = os.path.join(odir, "main-%s.o" % entry)
    must(["clang++-18"] + COMMON + NAT + sf + ["-DSV_ENTRY=" + entry, "-c", os.path.join(V, "runtime", "native.cpp"), "-o", main], "native runtime")
    must(["clang++-18"] + NAT + sf + objs + [main, "-o", exe + ".tmp"] + h.get("libs", []), "linking native " + entry)
    os.replace(exe + ".tmp", exe)
    return exe


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, v in inputs:
            f.write("%s\t%s\n" % (n, v))


def native_run(h, entry, wd, inputs, kind, where=""):
    """(reproduced, description)"""
    f = os.path.join(wd, "in-%s-%d.txt" % (entry, time.monotonic_ns()))
    write_inputs(f, inputs)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=0")
    try:
        if kind == "uninitialised":
            exe = build_native(h, entry, wd, False)
            r = sh([exe, f], 120)
            if r.returncode == 77:
                return True, r.stdout[-1500:]
            r = sh(["valgrind", "-q", "--error-exitcode=98", "--undef-value-errors=yes", exe, f], 300)
            if r.returncode == 98:
                return True, r.stdout[-3000:]
            exe = build_native(h, entry, wd, "memory")
            r = sh([exe, f], 120, env=dict(os.environ, MSAN_OPTIONS="exitcode=97:halt_on_error=0"))
            # libstdc++ and the libraries are not instrumented: only a report at a place of the executor's own report counts
            lines = set(re.findall(r"([^/\s(]+:\d+)", where))
            for rep in r.stdout.split("WARNING: MemorySanitizer: use-of-uninitialized-value")[1:]:
                frames = re.findall(r"^\s*#\d+ .* \S*?([^/\s:]+:\d+)(?::\d+)?\s*$", rep.split("Uninitialized value was")[0], re.M)[:4]
                if any(x in lines for x in frames):
                    return True, "MemorySanitizer: use-of-uninitialized-value" + rep[:3000]
            return False, r.stdout[-3000:]
        exe = build_native(h, entry, wd, True)
        r = sh([exe, f], 30 if kind == "hang" else 120, env=env)
        if r.returncode == 0 or r.returncode == 78:
            if kind == "memory":
                exe = build_native(h, entry, wd, False)
                r2 = sh(["valgrind", "-q", "--error-exitcode=98", exe, f], 300)
                if r2.returncode == 98:
                    return True, r2.stdout[-3000:]
            return False, r.stdout[-1500:]
        return True, "exit %d\n%s" % (r.returncode, r.stdout[-3000:])
    except subprocess.TimeoutExpired:
        return kind == "hang", "native run timed out"


def search(h, entry, wd, inputs, msg, seconds=40):
    """Concrete inputs on which the real code fails the assertion the solver refuted under its abstraction, or None."""
    f = os.path.join(wd, "se-%s-%d.txt" % (entry, time.monotonic_ns()))
    write_inputs(f, inputs)
    exe = build_native(h, entry, wd, False)
    try:
        r = sh([exe, f, "search", str(seconds)], seconds + 60)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode != 77 or "CHECK FAILED: " + msg not in r.stdout:
        return None
    d = [l.split("\t")[1:3] for l in r.stdout.split("\n") if l.startswith("DRAWN\t")]
    return [[n, v] for n, v in d]


def run_entry(bc, h, e, tier, wd):
    out = os.path.join(wd, e["name"] + ".json")
    t = e.get("time", 240) if tier == "quick" else e.get("time_thorough", max(2400, e.get("time", 240)))
    cmd = [SVX, bc, "--entry", e["name"], "--out", out, "--time", str(t)]
    if tier == "thorough":
        cmd += ["--timeout", "60000", "--confirm", "4000", "600"]
    cmd += e.get("opts", [])
    if e.get("dump"):
        cmd += ["--dump", e["dump"]]
    try:
        r = sh(cmd, t + 120)
        log = r.stdout
    except subprocess.TimeoutExpired:
        log = "timeout"
    if os.path.exists(out):
        j = json.load(open(out))
    else:
        j = {"entry": e["name"], "status": "error", "error": "executor gave no result: " + log[-2000:], "failures": [], "inconclusive": []}
    j["cmd"] = cmd
    return j


def expected_covers(h, entry):
    src = open(os.path.join(V, "harness", h["file"])).read()
    return sorted(set(re.findall(r'sv_cover\("(%s:[^"]*)"\)' % re.escape(entry), src)))


def known_findings():
    p = os.path.join(V, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m:
                r.append(m.groups())
    return r


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    pid = None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--entry":
            only = a.pop(0)
        elif x == "-v":
            verbose = True
        else:
            pid = x
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    prop = registry.PROPERTIES[pid]
    rc, viol, problems, known = 0, [], [], []
    results = []
    validated = 0
    samples = []
    wd = tempfile.mkdtemp(prefix="sv-%s-" % pid)
    cross = {}
    try:
        build_engine()
        hs = prop["harnesses"]
        work = []
        with cf.ThreadPoolExecutor(JOBS) as pool, cf.ThreadPoolExecutor(len(hs) + 1) as bp:
            bcs = [bp.submit(build_bc, h, wd, pool) for h in hs]
            fut = []
            nat = {}
            for h, b in zip(hs, bcs):
                bc = b.result()
                for e in h["entries"]:
                    if isinstance(e, str):
                        e = {"name": e}
                    if only and e["name"] != only:
                        continue
                    if e.get("tier") == "thorough" and tier != "thorough":
                        continue
                    if tier == "thorough":
                        e = dict(e)
                        d = os.path.join(wd, "dump-" + e["name"])
                        os.makedirs(d, exist_ok=True)
                        e["dump"] = d
                    fut.append((h, e, pool.submit(run_entry, bc, h, e, tier, wd)))
            for h, e, f in fut:
                results.append((h, e, f.result()))
        # verdicts
        def wit(args):
            h, e, w = args
            ok, d = native_run(h, e["name"], wd, w["inputs"], "check")
            return h, e, w, ok, d
        wits = []
        for h, e, j in results:
            name = e["name"]
            if verbose:
                print("%-40s %-12s paths=%s asserts=%s queries=%s %.1fs" % (name, j["status"], j.get("paths"), j.get("assertions"), j.get("queries"), j.get("wall_s", 0)))
            if j["status"] == "error":
                problems.append("%s: %s" % (name, j.get("error")))
            reproduced = False

            def record(h, j, name, fl, desc):
                hit = None
                for k in known_findings():
                    if k[0] == pid and k[1] == name and re.search(k[2], fl["msg"] + " @ " + fl["loc"]):
                        hit = k
                rp = os.path.join(V, "evidence", "replay", "%s-%s.json" % (pid, name))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "w") as f:
                    json.dump({"property": pid, "harness": h["file"], "entry": name, "kind": fl["kind"], "message": fl["msg"], "location": fl["loc"], "stack": fl["stack"].split("\n")[:12],
                               "inputs": fl["inputs"], "native": desc, "replay_cmd": "python3 %s/replay.py %s" % (V, rp)}, f, indent=1)
                if hit:
                    known.append("KNOWN-FINDING: property=%s %s" % (pid, hit[3]))
                    j.setdefault("known", []).append(hit[3])
                    return False
                viol.append((rp, name, fl["msg"]))
                return True
            for i, fl in enumerate(j.get("failures", [])):
                if reproduced:
                    break
                if not fl["model"]:
                    continue
                ok, desc = native_run(h, name, wd, fl["inputs"], fl["kind"], fl["loc"] + "\n" + fl["stack"])
                if ok:
                    reproduced = record(h, j, name, fl, desc)
                elif verbose:
                    print("  not reproduced natively: %s\n%s\n%s" % (fl["msg"], fl["stack"], desc))
            if j.get("failures") and not reproduced and not j.get("known"):
                for fl in [x for x in j["failures"] if x["kind"] in ("check", "eq") and x["model"]][:2]:
                    d = search(h, name, wd, fl["inputs"], fl["msg"])
                    if d:
                        ok, desc = native_run(h, name, wd, d, fl["kind"], fl["loc"] + "\n" + fl["stack"])
                        if ok:
                            fl["inputs"] = d
                            record(h, j, name, fl, desc)
                            reproduced = True
                            break
            if j.get("failures") and not reproduced and not j.get("known"):
                fl = j["failures"][0]
                problems.append("%s: counterexample to '%s' (%s) at %s was not reproduced natively" % (name, fl["msg"], fl["kind"], fl["loc"]))
            for m in j.get("inconclusive", []):
                problems.append("%s: %s" % (name, m))
            if j["status"] == "ok":
                miss = [c for c in expected_covers(h, name) if not j.get("covers", {}).get(c)]
                if miss:
                    problems.append("%s: vacuity witness not reached: %s" % (name, ", ".join(miss)))
                if not j.get("assertions"):
                    problems.append("%s: no assertion reached" % name)
            if j["status"] in ("ok",):
                for w in j.get("witnesses", [])[: (3 if tier == "quick" else 12)]:
                    wits.append((h, e, w))
        # native validation of path witnesses (the executor's reading of the code against the compiled code)
        if not viol and wits:
            for h, e, w in wits:
                nat.setdefault((id(h)), h)
            with cf.ThreadPoolExecutor(JOBS) as pool:
                list(pool.map(lambda h: build_native(h, "_", wd, True) if False else None, nat.values()))
                # build once per harness (first entry), then the rest reuse the objects
                firsts = {}
                for h, e, w in wits:
                    firsts.setdefault(id(h), (h, e))
                list(pool.map(lambda he: build_native(he[0], he[1]["name"], wd, True), firsts.values()))
                ents = {}
                for h, e, w in wits:
                    ents[(id(h), e["name"])] = (h, e)
                list(pool.map(lambda he: build_native(he[0], he[1]["name"], wd, True), ents.values()))
                for h, e, w, bad, d in pool.map(wit, wits):
                    if bad:
                        rp = os.path.join(V, "evidence", "replay", "%s-%s.json" % (pid, e["name"]))
                        os.makedirs(os.path.dirname(rp), exist_ok=True)
                        with open(rp, "w") as f:
                            json.dump({"property": pid, "harness": h["file"], "entry": e["name"], "kind": "native-witness", "message": "the compiled code fails on a path witness that satisfies the exact-arithmetic model", "inputs": w["inputs"], "native": d,
                                       "replay_cmd": "python3 %s/replay.py %s" % (V, rp)}, f, indent=1)
                        viol.append((rp, e["name"], "native run of path witness %s: %s" % (w["label"], d.strip().split("\n")[-1][:200])))
                    else:
                        validated += 1
                        if len(samples) < 6:
                            samples.append({"entry": e["name"], "label": w["label"], "inputs": dict(w["inputs"][:24])})
        if tier == "thorough":
            cross = crosscheck(wd)
            if cross.get("disagreements"):
                problems.append("solvers disagree on %d queries" % cross["disagreements"])
    except Stop as e:
        problems.append(str(e))
    finally:
        if not os.environ.get("SV_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept", wd)
    js = [j for _, _, j in results]
    tot = lambda k: sum(j.get(k, 0) or 0 for j in js)
    fns = sorted({f for j in js for f in j.get("functions", []) if re.search(registry.CODE_RE, f)})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "assumptions": prop.get("assumptions", []) + registry.GLOBAL_ASSUMPTIONS,
        "coverage": {
            "states": tot("paths") + tot("killed"), "transitions": tot("instructions"), "traces_validated_against_impl": validated, "samples": samples,
            "exhaustive": not problems and not viol,
            "technique": "symbolic execution of LLVM IR compiled from /repo's working tree; Z3 decides every path condition and assertion",
            "bounds": prop["bounds"], "paths_completed": tot("paths"), "paths_infeasible_or_ended": tot("killed"), "forks": tot("forks"), "instructions_interpreted": tot("instructions"),
            "assertions": tot("assertions"), "assertions_syntactically_equal": tot("assert_trivial"), "assertions_unsat_raw": tot("assert_raw_unsat"),
            "assertions_unsat_after_normalisation": tot("assert_normalised_unsat"), "of_those_confirmed_unsat_raw_by_z3": tot("assert_normalised_confirmed_raw"), "assertions_unsat_with_path_condition": tot("assert_pathcond_unsat"),
            "queries": tot("queries"), "queries_unsat": tot("queries_unsat"), "queries_sat": tot("queries_sat"), "queries_unknown": tot("queries_unknown"), "solver_s": round(tot("solver_s"), 3),
            "functions_encoded": fns[:400], "functions_encoded_count": len({f for j in js for f in j.get("functions", [])}),
            "modelled_functions": sorted({f for j in js for f in j.get("modelled", [])}),
            "entries": [{"entry": j["entry"], "status": j["status"], "paths": j.get("paths"), "assertions": j.get("assertions"), "queries": j.get("queries"), "solver_s": j.get("solver_s"), "wall_s": j.get("wall_s"), "covers": j.get("covers"), "checks": j.get("checks"), "ieee754_mode": j.get("fpmode")} for j in js],
            "problems": problems[:20], "known_findings": known, "crosscheck": cross,
        },
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in sorted(set(known)):
        print(k)
    if viol:
        for rp, n, m in viol:
            print("  %s: %s" % (n, m))
        for rp, n, m in viol[:1]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if problems:
        for p in problems[:10]:
            print("INCONCLUSIVE property=%s %s" % (pid, p[:3000]))
        return 2
    print("OK property=%s entries=%d paths=%d assertions=%d queries=%d solver=%.1fs wall=%.1fs" % (pid, len(js), tot("paths"), tot("assertions"), tot("queries"), tot("solver_s"), time.time() - t0))
    return 0


def crosscheck(wd):
    """re-decide dumped queries with cvc5"""
    res = {"queries": 0, "agree": 0, "other_unknown": 0, "disagreements": 0, "solver": "cvc5 1.1.2"}
    qs = sorted(glob.glob(os.path.join(wd, "dump-*", "*.smt2")))[:240]

    def one(q):
        ans = open(q + ".ans").read().strip() if os.path.exists(q + ".ans") else "?"
        try:
            r = sh(["cvc5", "--tlimit=8000", q], 20)
            o = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        except subprocess.TimeoutExpired:
            o = "unknown"
        return ans, o
    with cf.ThreadPoolExecutor(JOBS) as p:
        for ans, o in p.map(one, qs):
            if ans not in ("sat", "unsat"):
                continue
            res["queries"] += 1
            if o == ans:
                res["agree"] += 1
            elif o in ("sat", "unsat"):
                res["disagreements"] += 1
            else:
                res["other_unknown"] += 1
    return res


if __name__ == "__main__":
    sys.exit(main())
