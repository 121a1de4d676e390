#!/usr/bin/env python3
"""Driver: decides one property of /repo by symbolic execution of the real code.

usage: check.py PROPERTY [--tier quick|thorough] [--keep]      run a check
       check.py --setup                                        build everything once
       check.py --replay FILE                                  re-run a recorded counterexample
"""
import sys, os, tempfile, threading, json, hashlib, subprocess, time, shutil, re, glob, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PCTSP_REPO", "/repo")
BUILD = os.path.join(V, ".build")
CXX = "/usr/bin/clang++-18"
LINK = "/usr/bin/llvm-link-18"
LCFG = "/usr/bin/llvm-config-18"
JOBS = min(8, os.cpu_count() or 4)
sys.path.insert(0, V)
from props import PROPS, PROGRAMS

class Inconclusive(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Inconclusive("build step failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def files(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    return out

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]

def once(path, fn):
    """build `path` with fn(tmp) unless it is there"""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
    fn(tmp)
    os.rename(tmp, path)
    return path

COMMON = ["-std=c++17", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-I" + V + "/stubs", "-I" + REPO + "/include",
          "-I" + V + "/engine", "-I" + V + "/harness", "-I" + REPO, "-w"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]

def repo_sources():
    return [f for f in sorted(glob.glob(REPO + "/src/*.cpp")) if not f.endswith("/pygraph.cpp")]

def repo_digest():
    return digest(files(REPO + "/src", REPO + "/include") + [REPO + "/pctsp/pypctsp.cpp"])

class Builder:
    def __init__(self, native=True):
        self.ex = ThreadPoolExecutor(JOBS)
        self.ed = digest(files(V + "/engine"))
        self.sd = digest(files(V + "/stubs") + [V + "/engine/sym.h"])
        self.rd = repo_digest()
        self.tu = os.path.join(BUILD, "tu-" + hashlib.sha256((self.rd + self.sd).encode()).hexdigest()[:16])
        self.eng = os.path.join(BUILD, "engine-" + self.ed)
        self.cache = {}
        self.lock = threading.RLock()

    def fut(self, key, fn):
        with self.lock:
            if key not in self.cache:
                self.cache[key] = self.ex.submit(fn)
            return self.cache[key]

    def engine(self):
        def flags(*a):
            return sh([LCFG, *a]).split()
        def rt(t):
            sh([CXX, "-O1", "-fPIC", "-c", V + "/engine/rt.cpp", "-o", t, *flags("--cppflags"), "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING", "-std=c++17"])
        def ins(t):
            sh([CXX, "-O1", *flags("--cxxflags"), "-fexceptions", V + "/engine/instr.cpp", "-o", t, *flags("--ldflags"), "-lLLVM-18"])
        return (self.fut("rt", lambda: once(self.eng + "/rt.o", rt)), self.fut("instr", lambda: once(self.eng + "/instr", ins)))

    def tus(self, native):
        def one(src):
            base = os.path.basename(src)[:-4]
            dst = "%s/%s.%s" % (self.tu, base, "san.o" if native else "bc")
            def mk(t):
                if native:
                    sh([CXX, *COMMON, *SAN, "-c", src, "-o", t])
                else:
                    sh([CXX, *COMMON, "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-gline-tables-only", src, "-o", t])
            try:
                return once(dst, mk)
            except Inconclusive as e:
                log("note: %s does not compile against the SCIP model: %s" % (src, str(e)[-300:]))
                return None
        return [self.fut(("tu", native, s), lambda s=s: one(s)) for s in repo_sources()]

    def progdir(self, prog):
        return os.path.join(BUILD, "p-%s-%s" % (prog, digest([V + "/harness/%s.cpp" % prog] + glob.glob(V + "/harness/*.h"), self.ed + self.tu)))

    def symbolic(self, prog):
        d = self.progdir(prog)
        exe = d + "/sym"
        if os.path.exists(exe):
            return exe
        os.makedirs(d, exist_ok=True)
        rt, ins = self.engine()
        tus = self.tus(False)
        hb = self.ex.submit(lambda: once(d + "/h.bc", lambda t: sh([CXX, *COMMON, "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-gline-tables-only", V + "/harness/%s.cpp" % prog, "-o", t])))
        bcs = [hb.result()] + [b for b in (t.result() for t in tus) if b]
        sh([LINK, *bcs, "-o", d + "/all.bc"])
        sh([ins.result(), d + "/all.bc", d + "/all.i.bc", d + "/all.fn", REPO + "/"])
        sh([CXX, "-O1", "-c", d + "/all.i.bc", "-o", d + "/all.o"])
        once(exe, lambda t: sh([CXX, "-rdynamic", d + "/all.o", rt.result(), "-o", t, "-lz3"]))
        for f in ("all.bc", "all.i.bc", "all.o"):
            os.unlink(d + "/" + f)
        return exe

    def native(self, prog):
        d = self.progdir(prog)
        exe = d + "/replay"
        if os.path.exists(exe):
            return exe
        os.makedirs(d, exist_ok=True)
        tus = self.tus(True)
        h = self.ex.submit(lambda: once(d + "/h.san.o", lambda t: sh([CXX, *COMMON, *SAN, "-c", V + "/harness/%s.cpp" % prog, "-o", t])))
        r = self.ex.submit(lambda: once(d + "/replay_rt.o", lambda t: sh([CXX, *COMMON, *SAN, "-c", V + "/engine/replay_rt.cpp", "-o", t])))
        objs = [h.result(), r.result()] + [b for b in (t.result() for t in tus) if b]
        return once(exe, lambda t: sh([CXX, "-rdynamic", "-fsanitize=address,undefined", *objs, "-o", t, "-ldl", "-lstdc++fs"]))

def gc_build():
    """drop the oldest build products when the cache grows"""
    if not os.path.isdir(BUILD):
        return
    ds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d)))
    while len(ds) > 60:
        _, d = ds.pop(0)
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)

def run_native(exe, harness, inputs, tmo=60, cwd=None):
    os.makedirs(BUILD + "/run", exist_ok=True)
    f = BUILD + "/run/in-%d-%d-%s" % (os.getpid(), threading.get_ident(), hashlib.md5((harness + json.dumps(inputs)).encode()).hexdigest()[:10])
    with open(f, "w") as fh:
        for k, v in inputs.items():
            fh.write("%s %d\n" % (k, int(v)))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98")
    try:
        r = subprocess.run([exe, harness, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=tmo, env=env, cwd=cwd)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", "", ""
    finally:
        os.unlink(f)
    return rc, out, err

def describe_native(rc, out, err):
    if rc == 10:
        return [l for l in out.splitlines() if l.startswith("ASSERT ")][-1][7:]
    if rc == 14:
        return "uncaught exception"
    if rc == "timeout":
        return "does not terminate"
    m = re.search(r"(ERROR: AddressSanitizer:[^\n]*|runtime error:[^\n]*|Assertion[^\n]*)", err)
    return m.group(1)[:200] if m else "crash (exit %s)" % rc

def num(s):
    try:
        return float(s)
    except ValueError:
        return s

def run_c(pid, tier, spec, bld, budget):
    """spec: dict(prog, h, time, samples, labels, opts)"""
    t0 = time.time()
    prog, h = spec["prog"], spec["h"]
    exe = bld["sym"][prog]
    nat = bld["nat"][prog]
    out = BUILD + "/run/out-%d-%s.jsonl" % (os.getpid(), h)
    os.makedirs(BUILD + "/run", exist_ok=True)
    work = BUILD + "/run/w-%d" % os.getpid()
    os.makedirs(work, exist_ok=True)
    cmd = [exe, "--harness", h, "--out", out, "--jobs", str(JOBS), "--time", str(int(min(budget, spec.get("time", 600)))), "--samples", str(spec.get("samples", 12)),
           "--samplemod", str(spec.get("samplemod", 1)), "--maxviol", str(spec.get("maxviol", 6)), "--pathsec", str(spec.get("pathsec", 5))]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=work)
    recs = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for l in f:
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        os.unlink(out)
    summ = next((x for x in recs if x.get("type") == "summary"), None)
    if summ is None:
        raise Inconclusive("harness %s gave no summary: %s" % (h, r.stderr[-500:]))
    names = {}
    with open(os.path.dirname(exe) + "/all.fn") as f:
        for i, l in enumerate(f):
            names[i] = l.strip()
    res = dict(harness=h, prog=prog, bounds=spec.get("bounds", ""), complete=summ["complete"], paths=summ["paths"], forks=summ["forks"], queries=summ["queries"],
               solver_s=summ["solver_s"], asserts=summ["asserts"], assert_queries=summ["assert_queries"], pruned=summ["pruned"], opaque=summ["opaque"], errors=summ["errors"],
               unknowns=summ["unknowns"], maxdepth=summ["maxdepth"], wall_s=summ["wall_s"], reach=summ["reach"], functions=sorted({names.get(i, "?") for i in summ["fns"]}),
               violations=[], unconfirmed=[], notes=[], validated=0, samples=[])
    errs = [x["msg"] for x in recs if x.get("type") == "error"]
    # replay the counterexamples
    seen = {}
    viols = [x for x in recs if x.get("type") == "violation"]
    def rep(v):
        last = None
        for i in range(3):
            rc, o, e = run_native(nat, h, v["inputs"], tmo=30 if v["kind"] == "hang" else 60, cwd=work)
            last = (rc, o, e)
            if rc not in (0, 11):
                return last
        return last
    with ThreadPoolExecutor(JOBS) as ex:
        reps = list(ex.map(rep, viols))
    for v, (rc, o, e) in zip(viols, reps):
        if rc in (0, 11):
            if v["opaque"]:
                res["notes"].append("discarded (inexact arithmetic on the path, not reproduced): " + v["msg"])
            else:
                res["unconfirmed"].append(dict(kind=v["kind"], msg=v["msg"], inputs=v["inputs"], native_rc=rc))
        else:
            res["violations"].append(dict(kind=v["kind"], msg=v["msg"], native=describe_native(rc, o, e), inputs=v["inputs"], harness=h, prog=prog))
    # validate sampled paths: the real code computes what the encoding predicts
    samples = [x for x in recs if x.get("type") == "sample"]
    def val(s):
        return run_native(nat, h, s["inputs"], cwd=work)
    with ThreadPoolExecutor(JOBS) as ex:
        vals = list(ex.map(val, samples))
    mism = []
    for s, (rc, o, e) in zip(samples, vals):
        got = []
        for l in o.splitlines():
            p = l.split(" ", 2)
            if p[0] in ("OBS", "OBSD"):
                got.append((p[1], p[2]))
        want = [(n, v) for n, v in s["obs"]]
        if rc == 0 and len(got) == len(want) and all(a[0] == b[0] and (b[1] == "?" or num(a[1]) == num(b[1])) for a, b in zip(got, want)):
            res["validated"] += 1
            if len(res["samples"]) < 2:
                res["samples"].append(dict(harness=h, inputs=s["inputs"], observed=dict((n, v) for n, v in got[:12])))
        elif rc not in (0, 11):
            res["violations"].append(dict(kind="native", msg="the real code fails on inputs of an explored path", native=describe_native(rc, o, e), inputs=s["inputs"], harness=h, prog=prog))
        else:
            mism.append(dict(inputs=s["inputs"], rc=rc, want=want, got=got))
    res["mismatches"] = mism
    res["error_msgs"] = sorted(set(errs))[:5]
    res["missing_labels"] = [l for l in spec.get("labels", []) if not summ["reach"].get(l)]
    shutil.rmtree(work, ignore_errors=True)
    log("  %-28s complete=%s paths=%d queries=%d solver=%.1fs wall=%.1fs violations=%d validated=%d%s" % (h, res["complete"], res["paths"], res["queries"], res["solver_s"],
        time.time() - t0, len(res["violations"]), res["validated"], (" errors=%s" % res["error_msgs"]) if errs else ""))
    return res

def run_py(pid, tier, spec, budget):
    """symbolic execution of a python module: a subprocess under the z3 interpreter prints one JSON result"""
    cmd = ["python3-vt", V + "/pysym/run.py", spec["h"], "--tier", tier, "--time", str(int(min(budget, spec.get("time", 600)))), "--repo", REPO]
    t0 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=V)
    line = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
    if not line:
        raise Inconclusive("python harness %s gave no result: %s" % (spec["h"], (r.stdout + r.stderr)[-3000:]))
    res = json.loads(line[-1][7:])
    res.setdefault("bounds", spec.get("bounds", ""))
    res["missing_labels"] = [l for l in spec.get("labels", []) if not res["reach"].get(l)]
    log("  %-28s complete=%s paths=%d queries=%d solver=%.1fs wall=%.1fs violations=%d validated=%d%s" % (spec["h"], res["complete"], res["paths"], res["queries"], res["solver_s"],
        time.time() - t0, len(res["violations"]), res["validated"], (" errors=%s" % res["error_msgs"]) if res["error_msgs"] else ""))
    return res

def known():
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) match=(.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    limit = 840 if tier == "quick" else 6 * 3600
    specs = [s for s in prop["runs"] if tier == "thorough" or not s.get("thorough")]
    log("property %s: %s (%s tier)" % (pid, prop["title"], tier))
    progs = sorted({s["prog"] for s in specs if s.get("prog")})
    results = []
    bld = {}
    if progs:
        gc_build()
        b = Builder()
        ex2 = ThreadPoolExecutor(8)
        sy = {p: ex2.submit(b.symbolic, p) for p in progs}
        na = {p: ex2.submit(b.native, p) for p in progs}
        bld = dict(sym={p: f.result() for p, f in sy.items()}, nat={p: f.result() for p, f in na.items()})
        log("  build %.1fs" % (time.time() - t0))
    for s in specs:
        left = limit - (time.time() - t0)
        if left < 10:
            raise Inconclusive("out of time before %s" % s["h"])
        res = run_c(pid, tier, s, bld, left - 5) if s.get("prog") else run_py(pid, tier, s, left - 5)
        results.append(res)
        if any(not is_known(pid, v) for v in res["violations"]) and tier == "quick":
            break
    return finish(pid, prop, tier, seed, results, time.time() - t0)

def is_known(pid, v):
    return next((k for k in known() if k[0] == pid and k[1] == v["harness"] and (k[2] in v["msg"] or k[2] in v["native"])), None)

def finish(pid, prop, tier, seed, results, wall):
    viol = [v for r in results for v in r["violations"]]
    fresh, kn = [], []
    for v in viol:
        k = is_known(pid, v)
        (kn if k else fresh).append(v)
    cov = dict(
        states=sum(r["paths"] + r["pruned"] for r in results),
        transitions=sum(r["forks"] for r in results),
        traces_validated_against_impl=sum(r["validated"] for r in results),
        samples=[s for r in results for s in r["samples"]][:6] or [dict(note="no sample path")],
        states_are="completed symbolic paths of the real code (each stands for every input that satisfies its path condition)",
        transitions_are="solver-decided two-way branches",
        paths=sum(r["paths"] for r in results),
        queries=sum(r["queries"] for r in results),
        assertions_evaluated=sum(r["asserts"] for r in results),
        assertion_queries=sum(r["assert_queries"] for r in results),
        solver_s=round(sum(r["solver_s"] for r in results), 3),
        exhaustive=all(r["complete"] for r in results),
        bounds=[dict(harness=r["harness"], bounds=r["bounds"]) for r in results],
        functions_encoded=sorted({f for r in results for f in r["functions"]}),
        harnesses=[{k: r.get(k) for k in ("harness", "complete", "paths", "pruned", "forks", "queries", "solver_s", "asserts", "assert_queries", "maxdepth", "opaque", "reach", "validated", "wall_s", "notes")} for r in results],
        known_findings=[dict(harness=v["harness"], msg=v["msg"], native=v["native"]) for v in kn],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=prop.get("assumptions", []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted({(v["harness"], v["msg"]) for v in kn}):
        log("KNOWN-FINDING: property=%s %s: %s" % (pid, k[0], k[1]))
    if fresh:
        os.makedirs(V + "/replays", exist_ok=True)
        v = fresh[0]
        p = V + "/replays/%s-%s.json" % (pid, v["harness"])
        with open(p, "w") as f:
            json.dump(dict(property=pid, **v), f, indent=1)
        for v in fresh[:5]:
            log("  counterexample (%s): %s | real code: %s | inputs %s" % (v["harness"], v["msg"], v["native"], json.dumps(v["inputs"])[:600]))
        log("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    bad = []
    for r in results:
        if r["unconfirmed"]:
            bad.append("%s: counterexample not reproduced by the real code: %s" % (r["harness"], json.dumps(r["unconfirmed"][0])[:1500]))
        if r["mismatches"]:
            bad.append("%s: encoding and real code disagree: %s" % (r["harness"], json.dumps(r["mismatches"][0])[:1500]))
        if not r["complete"]:
            bad.append("%s: exploration incomplete (%s)" % (r["harness"], r["error_msgs"] or "time"))
        if r["missing_labels"]:
            bad.append("%s: vacuous, never reached %s" % (r["harness"], r["missing_labels"]))
    if bad:
        for x in bad:
            log("INCONCLUSIVE " + x)
        return 2
    log("property %s holds within the stated bounds (%d paths, %d queries, %.1fs solver, %.1fs wall)" % (pid, cov["paths"], cov["queries"], cov["solver_s"], wall))
    return 0

COMMON_ASSUMPTIONS = [
    "C++: clang -O0 bitcode of the real sources is executed; SCIP, pybind11, yaml-cpp's file access and boost-log are replaced by the models in /verif/stubs (documented API behaviour)",
    "Python: the real functions run under CPython on z3-backed proxies; integers are mathematical integers, the compiled extension is replaced by recording stand-ins, counterexamples are re-run on plain values by the project's own interpreter",
    "inputs outside the stated bounds are not covered",
    "memory allocation succeeds",
]

def setup():
    b = Builder()
    progs = sorted({s["prog"] for p in PROPS.values() for s in p["runs"] if s.get("prog")})
    ex2 = ThreadPoolExecutor(8)
    fs = [ex2.submit(b.symbolic, p) for p in progs] + [ex2.submit(b.native, p) for p in progs]
    for f in fs:
        f.result()
    log("built %s" % ", ".join(progs))
    return 0

def replay(path):
    v = json.load(open(path))
    if not v.get("prog"):
        r = subprocess.run(["python3-vt", V + "/pysym/run.py", v["harness"], "--replay", path, "--repo", REPO])
        return r.returncode
    exe = Builder().native(v["prog"])
    rc, o, e = run_native(exe, v["harness"], v["inputs"], cwd=tempfile.gettempdir())
    log(o)
    log(e[-3000:])
    log("exit", rc)
    return 0 if rc == 0 else 1

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    try:
        return check(a[0], tier)
    except Inconclusive as e:
        log("INCONCLUSIVE " + str(e))
        return 2

if __name__ == "__main__":
    sys.exit(main())
