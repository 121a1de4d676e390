"""Running one vial: heuristics, exact algorithm, preprocessing, results."""
from harness import harness
from fix import *
from h_lab import *
import pctsp.algorithms.heuristic as heuristic
import h_suurballe

UNTIL, GAIN, COLL, PEC = "extension_until_prize_feasible_bind", "extension_unitary_gain_bind", "collapse_bind", "path_extension_collapse_bind"
A = AlgorithmName
BFS = {A.bfs_extension_collapse, A.bfs_path_extension_collapse}
SBL = {A.suurballes_extension_collapse, A.suurballes_heuristic, A.suurballes_path_extension_collapse}
EXT = {A.bfs_extension_collapse, A.suurballes_extension_collapse}
PATH = {A.bfs_path_extension_collapse, A.suurballes_path_extension_collapse}
def tour_edges(t): return sorted(tuple(sorted(e)) for e in edges_of(t)) if t else []
def norm(es): return sorted(tuple(sorted((u, v))) for u, v in es)

def chain(calls, name, start, quota, n, step=None, depth=None, short=None, reply=None):
    """the sequence of calls that the named heuristic stands for, and the tour it ends with"""
    if name == A.suurballes_heuristic:
        check(calls == [], "Suurballe's heuristic extends nothing")
        return start
    want = [UNTIL, GAIN, COLL] if name in EXT else [PEC]
    check([c["f"] for c in calls] == want, "the stages of the heuristic run in their order")
    t = start
    for c in calls:
        check(c["tour"] == list(t), "each stage starts from the tour of the stage before")
        if "quota" in c: check(c["quota"] == quota, "the quota is passed on")
        if "root" in c: check(c["root"] == 7, "the root is passed on")
        t = reply[c["f"]]
    if name in PATH:
        c = calls[0]
        check(c["step"] == (10 if step is None else step), "the step size")
        check(c["depth"] == (n if depth is None else depth), "the depth limit")
        check(c["shortest_paths"] == bool(short), "the collapse variant")
    else: check(lnot(calls[2]["shortest_paths"]), "the collapse variant")
    return t

@harness
def p_heur():
    quota = sym_int("quota", 0, 10 * BIG)
    name = pick("algorithm", list(A))
    tree = name in BFS and choice("no_cycle", 2) == 1
    g = demo(5) if not tree else shape(NAMES, [(7, 3), (3, 11), (11, 20), (20, 3), (7, 5)], cost=(0, BIG), prize=(0, BIG))
    reply = {UNTIL: [7, 20, 11, 3, 7], GAIN: [7, 3, 11, 20, 7], COLL: pick("collapsed", [[7, 11, 20, 7], [7, 3, 11, 5, 20, 7]]), PEC: pick("extended", [[7, 3, 20, 7], [7, 5, 3, 11, 7], []])}
    if tree: reply = {f: [] for f in reply}
    calls = Calls(lambda d: list(reply[d["f"]]))
    cm = {3: sym_int("cost3", 0, BIG), 11: sym_int("cost11", 0, BIG)}
    pm = {3: ([7, 11, 3], [7, 20, 3]), 11: ([7, 3, 11], [7, 5, 20, 11])}
    given = pick("maps", ["both", "none", "costs", "paths"]) if name in SBL else pick("maps", ["both", "none"])
    if given in ("none", "paths"): cm = {}
    if given in ("none", "costs"): pm = {}
    kw = {}
    if choice("options", 2): kw = dict(step_size=sym_int("step", 1, BIG), path_depth_limit=sym_int("depth", 1, BIG), collapse_shortest_paths=choice("short", 2) == 1)
    try: r = ra.run_heuristic(g.nx, quota, 7, name, cm, pm, **kw)
    except ValueError:
        check(name in SBL and given != "both", "the disjoint paths are there")
        reach("refused")
        return
    except NotImplementedError:
        check(name not in SBL | BFS, "a heuristic that is implemented is refused")
        reach("unknown")
        return
    check(name in SBL | BFS, "a name that is no heuristic is run")
    check(name in BFS or given == "both", "missing disjoint paths are reported")
    if name in BFS: start = heuristic.find_cycle_from_bfs(g.nx, 7)
    elif name == A.suurballes_heuristic: start = heuristic.suurballes_heuristic(g.prize, quota, cm, pm)
    else: start = heuristic.suurballes_tour_initialization(g.prize, quota, cm, pm)
    for c in calls: graph_args(c, g)
    end = chain(calls, name, list(start), quota, 5, kw.get("step_size"), kw.get("path_depth_limit"), kw.get("collapse_shortest_paths"), reply)
    check([tuple(e) for e in r] == edges_of(end), "the result is the tour of the last stage, edge by edge")
    reach("empty" if not end else name.value)

# ---------------------------------------------------------------- one vial
def lenient(cls):
    """let symbolic values into the records of the vials"""
    real = cls.__init__
    def init(self, **kw):
        if any(issym(x) for x in kw.values()):
            m = cls.model_construct(**kw)
            for k in ("__dict__", "__pydantic_fields_set__", "__pydantic_extra__", "__pydantic_private__"): object.__setattr__(self, k, getattr(m, k))
        else: real(self, **kw)
    cls.__init__ = init
    for f in ("dict", "model_dump"):
        def dump(self, *a, real=getattr(cls, f), **kw):
            d = dict(self)
            return d if not a and not kw and any(issym(x) for x in d.values()) else real(self, *a, **kw)
        setattr(cls, f, dump)
for cls in (vial.Result,): lenient(cls)

def make_vial(n, quota, **mp):
    full = dict({k: None for k in vial.ModelParams.model_fields}, is_exact=False, is_heuristic=False, is_relaxation=False)
    full.update(mp)
    return vial.Vial.model_construct(uuid=UUID(int=n), model_params=vial.ModelParams.model_construct(**full),
        data_config=vial.DataConfig.model_construct(dataset=DatasetName.tspwplib, cost_function=tspwplib.EdgeWeightType.EUC_2D, graph_name=tspwplib.GraphName.eil51, quota=quota, root=7, alpha=None, generation=None, kappa=None, triangle=None),
        preprocessing=vial.Preprocessing.model_construct(disjoint_path_cutoff=False, remove_leaves=False, remove_disconnected_components=False, remove_one_connected_components=False, shortest_path_cutoff=False))

class FakeModel:
    made = []
    def __init__(self, *a, **k):
        self.kw = k
        FakeModel.made.append(self)
    def __getattr__(self, n): return lambda *a, **k: None
ra.Model = FakeModel

SQ = [(3, 7), (11, 7), (20, 7), (11, 3), (20, 11)]
def vial_graph(sym): return shape([7, 3, 11, 20], [(7, 3), (7, 11), (7, 20), (3, 11), (11, 20)], cost=lambda u, v: sym_int("c_%d_%d" % (u, v), 1, BIG) if (u, v) in sym else u + 2 * v, prize=(0, BIG))

def verify_result(r, v, g, end, mine):
    """mine: the tour edges that the algorithm answered"""
    check(r.vial_uuid == v.uuid, "the result belongs to the vial")
    check(norm(r.edge_list) == norm(mine), "the result has the edges of the answer without self loops")
    es = [tuple(e) for e in r.edge_list]
    for a, b in zip(es[:-1], es[1:]): check(set(a) & set(b), "consecutive edges of the result share a vertex")
    check(r.objective == total(g.c(u, w) for u, w in norm(mine)), "the objective is the cost of the edges")
    check(r.prize == total(g.prize[u] for u in sorted({x for e in mine for x in e})), "the prize is the prize of the visited vertices")
    check(r.start_time <= r.end_time, "the times are in order")

@harness
def p_runheur():
    """a vial with a heuristic"""
    g = vial_graph([])
    quota = sym_int("quota", 0, 10 * BIG)
    name = pick("algorithm", sorted(SBL | BFS))
    kw = dict(step_size=sym_int("step", 1, BIG), path_depth_limit=sym_int("depth", 1, BIG), collapse_paths=choice("short", 2) == 1) if choice("options", 2) else {}
    v = make_vial(5, quota, algorithm=name, is_heuristic=True, **kw)
    reply = {UNTIL: [7, 20, 11, 3, 7], GAIN: [7, 20, 3, 11, 7], COLL: pick("collapsed", [[7, 11, 20, 7], [7, 3, 11, 20, 7]]), PEC: pick("extended", [[7, 3, 11, 7], [7, 20, 11, 3, 7], []])}
    calls = Calls(lambda d: list(reply[d["f"]]))
    r = ra.run_algorithm(g.nx, v, vial_dir=scratch("vial"))
    cm, pm = h_suurballe.maps(g, 7)
    if name in BFS: start = heuristic.find_cycle_from_bfs(g.nx, 7)
    elif name == A.suurballes_heuristic: start = heuristic.suurballes_heuristic(g.prize, quota, cm, pm)
    else: start = heuristic.suurballes_tour_initialization(g.prize, quota, cm, pm)
    for c in calls: graph_args(c, g)
    end = chain(calls, name, list(start), quota, 4, kw.get("step_size"), kw.get("path_depth_limit"), kw.get("collapse_paths"), reply)
    verify_result(r, v, g, end, edges_of(end))
    reach("heuristic" if end else "empty")

ANSWERS = [[], [(7, 3), (11, 7), (3, 11)], [(20, 11), (7, 3), (7, 20), (3, 11)], [(7, 7), (11, 20), (7, 11), (11, 11), (20, 7), (20, 20)]]
@harness
def p_runexact():
    """a vial with the exact algorithm"""
    g = vial_graph([])
    quota = sym_int("quota", 0, 10 * BIG)
    heur = pick("heuristic", [None, A.bfs_extension_collapse, A.suurballes_path_extension_collapse, A.suurballes_heuristic])
    mp = dict(step_size=sym_int("step", 1, BIG), path_depth_limit=sym_int("depth", 1, BIG), collapse_paths=choice("short", 2) == 1) if choice("options", 2) else {}
    opts = {n: sym_int(n, lo, hi) for n, lo, hi in OPTS if n != "logging_level"}
    opts.update({n: sym_bool(n) for n in FLAGS if n not in ("cycle_cover", "simple_rules_only")})
    opts["sec_lp_gap_improvement_threshold"] = sym_int("threshold64", 0, 64)
    v = make_vial(9, quota, algorithm=A.solve_pctsp, is_exact=True, heuristic=heur, **mp, **opts)
    answer = pick("answer", ANSWERS)
    reply = {UNTIL: [7, 20, 11, 3, 7], GAIN: [7, 20, 3, 11, 7], COLL: pick("collapsed", [[7, 11, 20, 7], [7, 3, 11, 20, 7]]) if heur in EXT else [], PEC: pick("extended", [[7, 20, 11, 3, 7], []]) if heur in PATH else []}
    calls = Calls(lambda d: list(answer) if d["f"] == "solve_pctsp_bind" else list(reply[d["f"]]))
    d = scratch("vial")
    log = logging.getLogger("exact")
    log.setLevel(pick("level", [10, 30]))
    r = ra.run_algorithm(g.nx, v, logger=log, vial_dir=d)
    hs, (c,) = calls[:-1], calls[-1:]
    check(c["f"] == "solve_pctsp_bind", "the exact solver is called once, last")
    graph_args(c, g)
    cm, pm = h_suurballe.maps(g, 7)
    if not heur:
        check(hs == [], "no heuristic asked for")
        end = []
    else:
        if heur in BFS: start = heuristic.find_cycle_from_bfs(g.nx, 7)
        elif heur == A.suurballes_heuristic: start = heuristic.suurballes_heuristic(g.prize, quota, cm, pm)
        else: start = heuristic.suurballes_tour_initialization(g.prize, quota, cm, pm)
        end = chain(hs, heur, list(start), quota, 4, mp.get("step_size"), mp.get("path_depth_limit"), mp.get("collapse_paths"), reply)
    ok = land(is_cycle(end, 7), total(g.prize[x] for x in sorted(set(end))) >= quota) if end else False
    check(implies(ok, norm(c["start"]) == tour_edges(end)), "a feasible heuristic tour becomes the start solution")
    check(implies(lnot(ok), c["start"] == []), "an infeasible heuristic tour is not used")
    check(c["quota"] == quota and c["root"] == 7, "quota and root are passed on")
    check(c["distances"] == {} or (set(c["distances"]) == set(cm) and land([c["distances"][x] == cm[x] for x in cm])), "the disjoint path distances of this graph")
    check(implies(v.model_params.cost_cover_disjoint_paths, c["distances"] != {}), "the distances are there when they are needed")
    for n in opts: check(c[ARG.get(n, n)] == opts[n], "the option %s of the vial reaches the solver" % n)
    check(lnot(c["cycle_cover"]) and lnot(c["simple_rules_only"]), "nothing is enabled that was not asked for")
    check(Path(c["dir"]) == d and c["name"] == str(v.uuid) and c["level"] == log.level, "directory, name and logging level")
    check(c["model"] is FakeModel.made[-1], "the model made for this vial is solved")
    verify_result(r, v, g, answer, [e for e in answer if e[0] != e[1]])
    reach("tour" if answer else "none")
    reach("start" if c["start"] else "no start")

@harness
def p_runmaps():
    """the distances handed to the exact solver are those of the graph, whatever its costs"""
    g = vial_graph(pick('costs', [[(7, 3), (3, 11)], [(7, 11), (11, 20)], [(7, 20), (3, 11)]]))
    calls = Calls(lambda d: [])
    v = make_vial(9, sym_int("quota", 0, BIG), algorithm=A.solve_pctsp, is_exact=True, cost_cover_disjoint_paths=True)
    r = ra.run_algorithm(g.nx, v, vial_dir=scratch("vial"))
    d = calls[-1]["distances"]
    cyc = list(cycles_through(g.names, 7))
    cyc = [c for c in cyc if present(g, c)]
    check(set(d) - {7} == {3, 11, 20}, "every vertex has a distance")
    for x in (3, 11, 20):
        mine = [cost_of(g, c) for c in cyc if x in c]
        check(land([d[x] <= m for m in mine]) and lor([d[x] == m for m in mine]), "the distance of a vertex is the cost of a cheapest cycle with the root")
    reach("end")

@harness
def p_runother():
    """anything else is refused"""
    g = vial_graph([])
    calls = Calls(lambda d: [])
    v = make_vial(9, 3, algorithm=pick("algorithm", [A.disjoint_tours_relaxation, A.extension]), is_relaxation=choice("relax", 2) == 1)
    try: ra.run_algorithm(g.nx, v, vial_dir=scratch("vial"))
    except NotImplementedError:
        reach("refused")
        return
    check(False, "an algorithm that is not implemented is refused")

# ---------------------------------------------------------------- preprocessing by the vial's settings
PRE = ["remove_disconnected_components", "remove_leaves", "remove_one_connected_components"]
def prep(n, fixed):
    g = graph(range(n), cost=(0, BIG), prize=(0, BIG), fixed=fixed)
    v = make_vial(9, 3)
    on = {k: choice(k, 2) == 1 for k in PRE}
    for k in PRE: setattr(v.preprocessing, k, on[k])
    v.data_config.root = 0
    late = choice("cutoff", 3)
    if late: setattr(v.preprocessing, ["shortest_path_cutoff", "disjoint_path_cutoff"][late - 1], True)
    try: h = ra.run_preprocessing(g.nx, v)
    except NotImplementedError:
        check(late, "a supported setting is refused")
        reach("refused")
        return
    check(not late, "a setting that is not implemented is ignored")
    kept = sorted(h.nodes())
    cyc = list(cycles_through(list(g.names), 0))
    oncycle = {x: lor([present(g, c) for c in cyc if x in c]) for x in g.names}
    # no tour through the root is lost
    for x in g.names:
        if x not in kept: check(lnot(oncycle[x]), "a vertex of a tour is removed")
    if not any(on.values()): check(kept == list(g.names), "nothing is removed without being asked for")
    if on[PRE[2]]: check(land([oncycle[x] for x in kept if x != 0]), "a vertex without a tour is kept")
    elif on[PRE[1]]: check(land([count(g.bit(x, y) for y in kept if y != x) >= 2 for x in kept]), "a leaf is left")
    if on[PRE[0]] and not on[PRE[1]] and not on[PRE[2]]:
        for s in range(1, 1 << len(kept)):
            t = [x for i, x in enumerate(kept) if s >> i & 1]
            if 0 in t and len(t) < len(kept): check(lor([g.bit(x, y) for x in t for y in kept if y not in t]), "a vertex not connected to the root is kept")
    for i, x in enumerate(kept):
        for y in kept[i + 1:]:
            check(iff(g.bit(x, y), h.has_edge(x, y)), "an edge between kept vertices is lost or invented")
            if h.has_edge(x, y): check(h.edges[x, y]["cost"] == g.c(x, y), "the cost of an edge")
        check(h.nodes[x]["prize"] == g.prize[x], "the prize of a vertex")
    reach("done")
@harness
def p_prep4(): prep(4, None)
@harness
def p_prep5(): prep(5, {(0, 1), (1, 2), (3, 4)})
