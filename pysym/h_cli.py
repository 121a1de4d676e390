"""The command line: setting up, batching, repeating what is missing; single runs; summaries."""
from harness import harness
from fix import *
from h_lab import *
from h_run import norm, FakeModel, verify_result
from h_batch import *
import h_suurballe
from typer.testing import CliRunner
csvapp = mod("pctsp.apps.csv_app")
datasetapp = mod("pctsp.apps.dataset_app")
shim(main_app, csvapp, datasetapp)

def cli(*args):
    r = CliRunner().invoke(main_app.app, [str(a) for a in args])
    if r.exception and not isinstance(r.exception, SystemExit): raise r.exception
    check(r.exit_code == 0, "the command is refused: " + r.output[-300:])
    return r.output
def roots(room): return ["--londonaq-root", room.data, "--oplib-root", room.data]

# ---------------------------------------------------------------- P51: the job script
def script(room, name=ExperimentName.dryrun): return room.home / "londonaq" / name.value / (name.value + ".slurm")

def run_script(room, path, tasks=None):
    """runs the job script under bash for every task of its array, srun replaced by a recorder; -> the commands"""
    text = path.read_text()
    lo, hi = re.search(r"^#SBATCH --array=(\d+)-(\d+)$", text, re.M).groups()
    b = room.top / "bin"
    b.mkdir(exist_ok=True)
    log = room.top / "srun.log"
    (b / "srun").write_text('#!/bin/bash\nprintf "%%s\\n" "$@" >> %s\necho ==== >> %s\n' % (log, log))
    (b / "srun").chmod(0o755)
    out = []
    for t in range(int(lo), int(hi) + 1):
        log.write_text("")
        env = dict(PATH="%s:/usr/bin:/bin" % b, SLURM_ARRAY_TASK_ID=str(t))
        r = subprocess.run(["bash", str(path)], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=room.top, timeout=30)
        check(r.returncode == 0, "the job script fails: " + r.stdout[-200:])
        cmds = [c.strip("\n").split("\n") for c in log.read_text().split("====\n") if c.strip()]
        check(len(cmds) == 1 and "pctsp" in cmds[0], "every task runs one command")
        out.append(cmds[0][cmds[0].index("pctsp") + 1:])
    return out, text

@harness
def p_slurm():
    """the tasks of the job script are the batches, and the time they may take is enough"""
    n, size = choice("vials", 4) + 1, pick("size", [1, 2, 3, 7])
    limit = sym_int("time limit", 1, 10 ** 6)
    room, vs = Room(), vials(n)
    exp = experiment(vs)
    missing = choice("missing", 2) == 1
    part = vs[:n - 1] if missing and n > 1 else vs
    lab = room.lab()
    lab.write_experiment_to_file(exp)
    if missing: lab.write_experiment_to_file(experiment(part), only_missing_results=True)
    args = dict(lab_dir=room.home, logging_level=20, londonaq_root=room.data, mem_per_cpu=777, only_missing_results=missing, oplib_root=room.data, partition="p", time_limit=limit)
    main_app.slurm(DatasetName.londonaq, ExperimentName.dryrun, size, overwrite=False, **args)
    cmds, text = run_script(room, script(room))
    hours = int(re.search(r"^#SBATCH --time=(\d+):00:00$", text, re.M).group(1))
    check(hours <= 48, "at most two days are asked for")
    check(lor(hours == 48, hours * 3600 >= size * limit), "the time asked for is enough for a batch")
    s = Solver(vs)
    for c in cmds:
        check(c[0] == "batch", "every task runs a batch")
        check(("--only-missing-results" in c) == missing, "the batch reads the list the script was made for")
        cli(*c)
    check(sorted(s.ran) == list(range(len(part))), "the tasks of the array together run every vial once")
    # an existing script is only replaced on demand
    try: main_app.slurm(DatasetName.londonaq, ExperimentName.dryrun, size + 1, overwrite=False, **args)
    except FileExistsError: pass
    else: check(False, "an existing script is replaced without being asked to")
    check(script(room).read_text() == text, "the existing script is unchanged")
    main_app.slurm(DatasetName.londonaq, ExperimentName.dryrun, size + 1, overwrite=True, **args)
    check(len(run_script(room, script(room))[0]) == labm.get_nbatches(len(part), size + 1), "an existing script is replaced on demand")
    room.done()
    reach("missing" if missing else "all")

@harness
def p_history():
    """setup, batches of which some fail or are cut off, listing what is missing, batches of the missing: the experiment is complete and nothing is solved twice"""
    quotas = [3, 11, 12][:choice("vials", 3) + 1]
    room = Room()
    params.LONDONAQ_QUOTA_LIST[:], params.LONDONAQ_GRAPH_NAME_LIST[:] = quotas, [tspwplib.LondonaqGraphName.laqtinyA]
    name = ExperimentName.cost_cover
    cli("setup", "londonaq", name.value, "--lab-dir", room.home, *roots(room))
    lab = room.lab()
    exp = lab.read_experiment_from_file(name)
    # a few vials of the experiment, so that all ways of failing can be explored
    keep = [v for v in exp.vials][:choice("keep", 2) + 1] if len(quotas) == 1 else [v for v in exp.vials if not v.model_params.cost_cover_disjoint_paths and not v.model_params.cost_cover_shortest_path]
    exp = vial.Experiment(name=name, vials=keep, timestamp=exp.timestamp)
    lab.write_experiment_to_file(exp)
    n, size = len(keep), sym_int("size", 1, 4)
    s = Solver(keep)
    fails, crash = [sym_bool("fails%d" % i) for i in range(n)], choice("crash", n + 1)
    s.fails = lambda i: fails[i]
    def reply(d):
        if d["f"] == "solve_pctsp_bind": return s.reply(d)
        return [7, 3, 11, 7]
    Calls(reply)
    nb = int(cli("nbatches", "londonaq", name.value, size, "--lab-dir", room.home, *roots(room)).split()[-1])
    for b in range(nb): cli("batch", "londonaq", name.value, b * size, size, "--lab-dir", room.home, *roots(room))
    check(s.ran == list(range(n)), "the batches run every vial once")
    if crash < n and not bool(fails[crash]):
        p = lab.get_vial_dir(name, keep[crash].uuid) / (str(keep[crash].uuid) + ".json")
        p.write_text(p.read_text()[:pick("cut", [0, 1, 50])])
    else: crash = n
    left = [i for i in range(n) if i == crash or bool(fails[i])]
    before = (lab.get_experiment_dir(name) / labm.EXPERIMENT_FILENAME).read_text()
    check("%d out of %d" % (len(left), n) in cli("nmissing", "londonaq", name.value, "--lab-dir", room.home), "the number of missing results")
    out = cli("missing", "londonaq", name.value, "--lab-dir", room.home)
    for i, v in enumerate(keep): check((str(v.uuid) in out) == (i in left), "the missing vials are listed")
    check((lab.get_experiment_dir(name) / labm.EXPERIMENT_FILENAME).read_text() == before, "listing what is missing keeps the experiment")
    s.ran, s.fails = [], lambda i: False
    if left:
        cli("slurm", "londonaq", name.value, size, "--lab-dir", room.home, "--only-missing-results", *roots(room))
        cmds, text = run_script(room, script(room, name))
        for c in cmds: cli(*c)
        reach("repeated")
    check(s.ran == left, "exactly the missing vials are run again")
    rs = lab.read_results_from_file(lab.read_experiment_from_file(name))
    check([r.vial_uuid for r in rs] == [v.uuid for v in keep], "the experiment is complete")
    for i, r in enumerate(rs): good(r, keep[i], i)
    # nothing is missing any more: another round has nothing to do
    out = cli("missing", "londonaq", name.value, "--lab-dir", room.home)
    check(not any(str(v.uuid) in out for v in keep), "nothing is listed as missing")
    s.ran = []
    cli("batch", "londonaq", name.value, 0, n, "--only-missing-results", "--lab-dir", room.home, *roots(room))
    check(s.ran == [], "another round of the missing solves nothing again")
    bad = cli("infeasible", "londonaq", name.value, "--lab-dir", room.home).split()
    check(bad == [str(v.uuid) for i, v in enumerate(keep) if WORTH[i % 2] < v.data_config.quota], "the infeasible vials are listed")
    room.done()
    reach("end")

# ---------------------------------------------------------------- P52: products of parameters
def once(xs, ys, what):
    xs, ys = list(xs), list(ys)
    check(len(xs) == len(ys), what)
    for y in ys:
        hit = [x for x in xs if len(x) == len(y) and bool(land([a == b for a, b in zip(x, y)]))]
        check(hit, what)
        xs.remove(hit[0])

@harness
def p_products():
    names = [tspwplib.LondonaqGraphName.laqtinyA, tspwplib.LondonaqGraphName.laqkxA][:choice("graphs", 3)]
    room = Room(20, ["laqtinyA", "laqkxA"])
    k = choice("quotas", 3)
    quotas = [sym_int("q%d" % i, 0, BIG) for i in range(k)]
    dc = prod.product_of_londonaq_data_config(room.data, quotas, names)
    once([(d.quota, d.graph_name, d.root, d.dataset) for d in dc], [(q, g, 20, DatasetName.londonaq) for q in quotas for g in names], "every quota with every graph, once, from the depot")
    algs = [a for a in AlgorithmName if a in (AlgorithmName.solve_pctsp, AlgorithmName.suurballes_heuristic, AlgorithmName.bfs_extension_collapse) and choice(a.value, 2)]
    short, depth, step, limit = choice("short", 2) == 1, sym_int("depth", 0, BIG), sym_int("step", 1, BIG), sym_int("limit", 1, BIG)
    ms = prod.product_of_model_params(algs, collapse_paths=short, path_depth_limit=depth, step_size=step, time_limit=limit)
    check([m.algorithm for m in ms] == algs, "one setting for every algorithm")
    for m in ms:
        check(m.is_exact == (m.algorithm in vial.EXACT_ALGORITHMS) and m.is_heuristic == (m.algorithm in vial.HEURISTIC_ALGORITHMS) and m.is_relaxation == (m.algorithm in vial.RELAXATION_ALGORITHMS), "the kind of the algorithm")
        if m.is_exact:
            check(m.time_limit == limit, "the time limit")
            check(m.sec_disjoint_tour and m.sec_maxflow_mincut and m.sec_sepafreq == 1, "the exact algorithm separates subtours")
        if m.algorithm == AlgorithmName.bfs_extension_collapse: check(land(m.collapse_paths == short, m.path_depth_limit == depth, m.step_size == step), "the options of the extension")
    ls = [[[False], [True], [False, True]][choice("pre%d" % i, 3)] for i in range(3)]
    ps = prod.product_of_preprocessing(*ls)
    once([(p.remove_disconnected_components, p.remove_leaves, p.remove_one_connected_components, p.disjoint_path_cutoff, p.shortest_path_cutoff) for p in ps], [(a, b, c, False, False) for a in ls[0] for b in ls[1] for c in ls[2]], "every combination of the preprocessing, once")
    vs = prod.product_of_vials(dc, ms, ps)
    check(len(vs) == len(dc) * len(ms) * len(ps), "every combination, once")
    check(len({v.uuid for v in vs}) == len(vs), "every vial has an identity of its own")
    def pos(xs, x): return [i for i, y in enumerate(xs) if y is x or y == x]
    seen = {}
    for v in vs:
        key = (v.data_config.graph_name, v.model_params.algorithm, (v.preprocessing.remove_disconnected_components, v.preprocessing.remove_leaves, v.preprocessing.remove_one_connected_components))
        seen.setdefault(key, []).append(v.data_config.quota)
    check(len(seen) == len(names) * len(ms) * len(ps) if quotas else not seen, "every combination is there")
    for qs in seen.values(): once([(q,) for q in qs], [(q,) for q in quotas], "every quota in every combination, once")
    room.done()
    reach("end")

# ---------------------------------------------------------------- P53: summary of an experiment
@harness
def p_summary():
    """feasible and overshoot say whether and by how much the prize exceeds the quota; no result is lost, doubled or given to another vial"""
    n = 2
    vs = vials(n, lambda i: sym_int("quota%d" % i, 0, BIG))
    exp = experiment(vs)
    have = [i for i in range(n) if choice("has%d" % i, 2)]
    assume(len(have) > 0)
    if choice("backwards", 2): have.reverse()
    rs = {i: vial.Result(vial_uuid=vs[i].uuid, objective=sym_int("cost%d" % i, 0, BIG), prize=sym_int("prize%d" % i, 0, BIG), edge_list=answer(i), start_time=datetime(2024, 1, 2, 3), end_time=datetime(2024, 1, 2, 3, 0, 5 + i, 250000)) for i in have}
    df = csvapp.experiment_summary_df(exp, [rs[i] for i in have])
    rows = df.to_dict("records")
    check(sorted(str(r["uuid"]) for r in rows) == sorted(str(vs[i].uuid) for i in have), "one row for every result")
    for r in rows:
        i = [j for j in have if vs[j].uuid == r["uuid"]][0]
        q, p, c = vs[i].data_config.quota, rs[i].prize, rs[i].objective
        check(r["vial_uuid"] == vs[i].uuid and r["algorithm"] == AlgorithmName.solve_pctsp, "the row belongs to one vial")
        check(land(r["prize"] == p, r["quota"] == q), "prize and quota of the row")
        check(iff(bool(r["feasible"]), p >= q), "feasible means that the quota is reached")
        check(r["duration"] == 5 + i + 0.25, "the duration of the run")
        if bool(r["feasible"]): check(land(r["objective"] == c, r["overshoot"] == p - q), "cost and overshoot of a feasible result")
        else: check(r["objective"] != r["objective"] and r["overshoot"] != r["overshoot"], "an infeasible result has neither cost nor overshoot")
        reach("feasible" if r["feasible"] else "infeasible")

# ---------------------------------------------------------------- P55: statistics of a data set
KITE = [(7, 3), (7, 11), (3, 11), (7, 20), (11, 20)]
@harness
def p_stats():
    """the statistics of a graph, before and after removing what no tour can visit"""
    extra = pick("shape", [[], [(20, 5)], [(5, 9)], [(20, 5), (20, 9), (5, 9)]])
    names = [7, 3, 11, 20] + sorted({x for e in extra for x in e} - {7, 20})
    g = shape(names, KITE + extra, cost=lambda u, v: sym_int("c_%d_%d" % (u, v), 1, 1000) if (u, v) in ([(7, 3), (3, 11)] if not extra else [(3, 11)]) else 10 * u + v, prize=(0, BIG))
    assume(total(g.prize.values()) > 0)
    st = datasetapp.get_graph_stats(g.nx.copy(), 7)
    cyc = [c for c in cycles_through(names, 7) if present(g, c)]
    inside = sorted({x for c in cyc for x in c})
    es = [k for k, b in g.bits.items() if b]
    mine = [k for k in es if k[0] in inside and k[1] in inside]
    check(st["num_nodes"] == len(names) and st["num_edges"] == len(es), "the size of the graph")
    check(land(st["total_cost"] == total(g.c(*k) for k in es), st["total_prize"] == total(g.prize.values())), "total cost and prize")
    check(st["preprocessed_num_nodes"] == len(inside) and st["preprocessed_num_edges"] == len(mine), "what is left is what a tour can visit")
    check(land(st["preprocessed_total_cost"] == total(g.c(*k) for k in mine), st["preprocessed_total_prize"] == total(g.prize[x] for x in inside)), "cost and prize of what is left")
    best = []
    for x in inside:
        if x == 7: continue
        costs = [cost_of(g, c) for c in cyc if x in c]
        best.append(lambda m, costs=costs: land([m <= c for c in costs]))
    m = st["max_disjoint_paths_cost"]
    least = [[cost_of(g, c) for c in cyc if x in c] for x in inside if x != 7]
    # the largest of the least: at least every least, and one of them
    check(land([lor([m >= c for c in cs]) for cs in least]), "the largest cost of a cheapest pair of disjoint paths (upper)")
    check(lor([land([m <= c for c in cs]) for cs in least]), "the largest cost of a cheapest pair of disjoint paths (lower)")
    prizes = [(x, cost_of(g, c), total(g.prize[y] for y in set(c))) for c in cyc for x in c if x != 7]
    b = st["biggest_disjoint_prize"]
    check(lor([b == p for x, c, p in prizes] + [b == 0]), "the biggest prize is that of a cycle")
    for x in inside:
        if x == 7: continue
        ways = [(c, p) for y, c, p in prizes if y == x]
        check(lor([land([c <= d for d, q in ways] + [b >= p]) for c, p in ways]), "no vertex has cheapest disjoint paths of bigger prize")
    reach("end")
