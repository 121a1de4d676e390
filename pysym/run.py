"""pysym driver: run.py HARNESS --tier T --time S --repo R | --concrete | --replay FILE"""
import sys, os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/vp/venv/lib/python3.12/site-packages"
A = sys.argv[1:]
def opt(n, d=None):
    return A[A.index(n) + 1] if n in A else d
REPO = opt("--repo", "/repo")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [REPO, HERE, VENV]
import json, time, multiprocessing as mp, subprocess, queue, shutil, tempfile
import engine as E
E.REPO = REPO

def load(name):
    import harness
    return harness.get(name, opt("--tier", "quick"))

def worker(name, tasks, results, path_s, slice_s):
    h = load(name)
    E.watch()
    n = 0
    while True:
        p = tasks.get()
        if p is None: return
        E.reset_stats()
        stack, t0 = [p], time.time()
        out = dict(paths=0, pruned=0, bad=[], reach={}, samples=[], depth=0, unknown=0)
        while stack and time.time() - t0 < slice_s:
            r = E.run_path(h, stack.pop(), path_s)
            stack.extend(r["pending"])
            out["depth"] = max(out["depth"], r["depth"])
            if r["status"] == "ok":
                out["paths"] += 1
                if n % 7 == 0 and len(out["samples"]) < 4:
                    out["samples"].append((r["inputs"], r["obs"]))
                n += 1
                for k, v in r["reach"].items(): out["reach"][k] = out["reach"].get(k, 0) + v
            elif r["status"] == "bad":
                out["bad"].append({k: r.get(k) for k in ("kind", "msg", "inputs", "trace")})
                if len(out["bad"]) >= 3: break
            elif r["status"] == "unknown": out["unknown"] += 1
            else: out["pruned"] += 1
        out["rest"] = stack
        out["stats"] = dict(E.STATS)
        out["funcs"] = sorted(E.FUNCS)
        results.put(out)

def native(name, jobs, limit=10):
    """replay inputs on the real code with ordinary ints"""
    if not jobs: return []
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    r = subprocess.run(["/opt/vp/venv/bin/python", HERE + "/run.py", name, "--concrete", "--tier", opt("--tier", "quick"), "--limit", str(limit), "--repo", REPO],
        input="\n".join(json.dumps(j) for j in jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    out = [json.loads(l[4:]) for l in r.stdout.splitlines() if l.startswith("OUT ")]
    if len(out) != len(jobs):
        raise SystemExit("replay failed: " + (r.stdout + r.stderr)[-3000:])
    return out

def explore(name, budget):
    t0 = time.time()
    E.sym_init()
    load(name)
    tasks, results = mp.Queue(), mp.Queue()
    nw = int(os.environ.get("PYSYM_JOBS", "8"))
    path_s = 60
    ws = [mp.Process(target=worker, args=(name, tasks, results, path_s, 0.4), daemon=True) for _ in range(nw)]
    for w in ws: w.start()
    todo, busy = [[]], 0
    R = dict(harness=name, complete=False, paths=0, forks=0, queries=0, solver_s=0.0, asserts=0, assert_queries=0, pruned=0, opaque=0, errors=0, unknowns=0, maxdepth=0,
        reach={}, functions=[], violations=[], unconfirmed=[], mismatches=[], notes=[], validated=0, samples=[], error_msgs=[])
    funcs, sam, bad, seen = set(), [], [], set()
    while todo or busy:
        while todo and busy < nw * 2:
            tasks.put(todo.pop())
            busy += 1
        try:
            o = results.get(timeout=1)
        except queue.Empty:
            if any(not w.is_alive() for w in ws):
                R["error_msgs"].append("a worker died")
                break
            if time.time() - t0 > budget: break
            continue
        busy -= 1
        todo.extend(o["rest"])
        for k in ("paths", "pruned"): R[k] += o[k]
        for k in ("queries", "solver_s", "forks", "asserts", "assert_queries", "unknowns"): R[k] += o["stats"][k]
        for k, v in o["reach"].items(): R["reach"][k] = R["reach"].get(k, 0) + v
        R["maxdepth"] = max(R["maxdepth"], o["depth"])
        funcs.update(o["funcs"])
        if len(sam) < 400: sam.extend(o["samples"])
        for b in o["bad"]:
            if b["msg"] in seen: continue
            seen.add(b["msg"])
            bad.append(b)
        if bad: break
        if time.time() - t0 > budget: break
    else:
        R["complete"] = not R["unknowns"]
    for w in ws: w.kill()
    if R["unknowns"]: R["error_msgs"].append("the solver gave up on %d queries" % R["unknowns"])
    for b, o in zip(bad, native(name, [b["inputs"] for b in bad])):
        if o["status"] == "bad":
            R["violations"].append(dict(kind=b["kind"], msg=b["msg"], native=o["msg"], inputs=b["inputs"], harness=name, trace=o.get("trace")))
        else:
            R["unconfirmed"].append(dict(b, native=o))
    for (i, obs), o in zip(sam, native(name, [s[0] for s in sam])):
        if o["status"] == "ok" and o["obs"] == json.loads(json.dumps(obs)): R["validated"] += 1
        elif len(R["mismatches"]) < 3: R["mismatches"].append(dict(inputs=i, symbolic=obs, real=o))
    R["samples"] = [dict(harness=name, inputs=i, observed=o) for i, o in sam[:3]]
    R["functions"] = sorted(funcs)
    R["wall_s"] = round(time.time() - t0, 2)
    R["solver_s"] = round(R["solver_s"], 3)
    return R

def main():
    name = A[0]
    # everything the code under test may write goes to a directory of its own
    tmp = tempfile.mkdtemp(prefix="pysym")
    os.environ["PYSYM_TMP"] = tmp
    os.environ["TMPDIR"] = tmp
    os.chdir(tmp)
    try:
        if "--concrete" in A:
            h = load(name)
            for l in sys.stdin.read().splitlines():
                print("OUT " + json.dumps(E.run_concrete(h, json.loads(l), float(opt("--limit", "10")))), flush=True)
        elif "--replay" in A:
            v = json.load(open(opt("--replay")))
            o = native(name, [v["inputs"]])[0]
            print(json.dumps(o, indent=1))
            return 1 if o["status"] == "bad" else 0
        else:
            print("RESULT " + json.dumps(explore(name, float(opt("--time", "600")))))
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    return 0

if __name__ == "__main__":
    sys.exit(main())
