"""Single runs from the command line, loading the data sets, the experiments, the table of a branch and cut experiment."""
from harness import harness
from fix import *
from h_lab import *
from h_run import norm, FakeModel, verify_result, UNTIL, GAIN, COLL, PEC, BFS, SBL, EXT, PATH, tour_edges
from h_batch import *
from h_cli import cli, roots, once, csvapp, datasetapp
from tspwplib import Generation, GraphName, LondonaqGraphName, EdgeWeightType
import pydantic, contextlib, io
A = AlgorithmName

# ---------------------------------------------------------------- symbolic values in files
# A symbolic number inside a record is written as a number of its own and comes back as the same symbolic value.
MARKS = {}
RECORDS = [vial.Experiment, vial.Vial, vial.ModelParams, vial.DataConfig, vial.Preprocessing, vial.Result, alg.SummaryStats]
def fields_of(m, f):
    for k, v in list(m.__dict__.items()):
        if isinstance(v, pydantic.BaseModel): fields_of(v, f)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, pydantic.BaseModel): fields_of(x, f)
        else: m.__dict__[k] = f(v)
def mask(v):
    if not issym(v): return v
    for k, x in MARKS.items():
        if x is v: return k
    k = 7100000000000 + len(MARKS)
    MARKS[k] = v
    return k
def unmask(v): return MARKS[v] if isinstance(v, (int, float)) and not isinstance(v, bool) and not issym(v) and v in MARKS else v
def unmask_all(x):
    if isinstance(x, dict): return {k: unmask_all(v) for k, v in x.items()}
    if isinstance(x, list): return [unmask_all(v) for v in x]
    return unmask(x)
def mask_all(x):
    if isinstance(x, dict): return {k: mask_all(v) for k, v in x.items()}
    if isinstance(x, list): return [mask_all(v) for v in x]
    return mask(x)
on = []
def marks_on():
    MARKS.clear()
    if on: return
    on.append(1)
    for cls in RECORDS:
        def init(self, real=cls.__init__, **kw):
            real(self, **{k: mask(v) for k, v in kw.items()})
            fields_of(self, unmask)
        cls.__init__ = init
        def dump_json(self, *a, real=cls.model_dump_json, **kw):
            fields_of(self, mask)
            try: return real(self, *a, **kw)
            finally: fields_of(self, unmask)
        cls.model_dump_json = cls.json = dump_json
        for name in ("model_dump", "dict"):
            def dump(self, *a, real=getattr(cls, name), **kw):
                fields_of(self, mask)
                try: return unmask_all(real(self, *a, **kw))
                finally: fields_of(self, unmask)
            setattr(cls, name, dump)
        for name in ("model_validate", "model_validate_json", "parse_obj", "parse_raw", "parse_file"):
            def read(c, x, *a, real=getattr(cls, name).__func__, **kw):
                m = real(c, mask_all(x), *a, **kw)
                fields_of(m, unmask)
                return m
            setattr(cls, name, classmethod(read))

# ---------------------------------------------------------------- a small copy of both data sets
COORDS = {7: (0, 0), 3: (3, 4), 11: (10, 0), 20: (1, 1), 5: (7, 7)}
SCORES = {Generation.gen1: {7: 0, 3: 4, 11: 6, 20: 5, 5: 9}, Generation.gen2: {7: 0, 3: 14, 11: 1, 20: 2, 5: 3}, Generation.gen3: {7: 0, 3: 1, 11: 1, 20: 1, 5: 1}}
SHIFT = {GraphName.eil51: 0, GraphName.st70: 100}
def coords(name): return {v: (x, y + (SHIFT[name] if v == 5 else 0)) for v, (x, y) in COORDS.items()}
def far(p, q): return math.ceil(math.hypot(p[0] - q[0], p[1] - q[1]))
def write_oplib(root, names=SHIFT):
    for gen in Generation:
        d = root / "instances" / gen.value
        d.mkdir(parents=True, exist_ok=True)
        for n in names:
            ls = ["NAME : %s" % n.value, "TYPE : OP", "DIMENSION : 5", "COST_LIMIT : 213", "EDGE_WEIGHT_TYPE : EUC_2D", "NODE_COORD_SECTION"]
            ls += ["%d %d %d" % (v, x, y) for v, (x, y) in (coords(n) if n in SHIFT else COORDS).items()] + ["NODE_SCORE_SECTION"]
            ls += ["%d %d" % p for p in SCORES[gen].items()] + ["DEPOT_SECTION", " 7", " -1", "EOF"]
            (d / ("%s-%s-50.oplib" % (n.value, gen.value))).write_text("\n".join(ls) + "\n")

def plain_graph(root, name, gen, weight=None):
    """the complete graph of the data set, a loop at every vertex (vertices and edges in the library's order)"""
    g, at = nx.Graph(), coords(name)
    lib = tspwplib.BaseTSP.from_tsplib95(tspwplib.ProfitsProblem().load(root / "instances" / gen.value / ("%s-%s-50.oplib" % (name.value, gen.value)))).get_graph()
    for v in lib: g.add_node(v, prize=SCORES[gen][v])
    for u, v in lib.edges(): g.add_edge(u, v, cost=far(at[u], at[v]) if weight is None or (u, v) not in weight else weight[u, v])
    check(len(g) == 5 and g.number_of_edges() == 15, "five vertices, ten edges and five loops")
    return g
def priced(g, function, kappa):
    """the library's sparsification and cost functions; visiting a vertex costs nothing"""
    if kappa: g = tspwplib.sparsify_uid(g, kappa)
    if function == EdgeWeightType.UNIFORM_RANDOM: new = tspwplib.uniform_random_cost(list(g.edges()))
    elif function == EdgeWeightType.MST: new = tspwplib.mst_cost(g, cost_attr="cost")
    elif function == EdgeWeightType.SEMI_MST: new = tspwplib.semi_mst_cost(g, cost_attr="cost")
    else: new = {}
    nx.set_edge_attributes(g, new, name="cost")
    for v in g: 
        if g.has_edge(v, v): g.edges[v, v]["cost"] = 0
    return g

def stage(d, g):
    """the graph, its costs and prizes reach the compiled module"""
    check(same_edges(d["edges"], list(g.edges())), "the edges of the data set are passed on")
    for u, v in g.edges():
        c = d["cost"].get((u, v), d["cost"].get((v, u)))
        check(c is not None and c == g.edges[u, v]["cost"], "the cost of every edge is that of the data set")
    for v in g: check(v in d["prize"] and d["prize"][v] == g.nodes[v]["prize"], "the prize of every vertex is that of the data set")

REPLY = {UNTIL: [7, 20, 11, 3, 7], GAIN: [7, 3, 11, 20, 7], COLL: [7, 11, 20, 7], PEC: [7, 3, 20, 7], "solve_pctsp_bind": [(7, 3), (11, 7), (3, 11)]}
def answers(g):
    """answers that are tours of this graph: of any in the complete one"""
    if g.number_of_edges() == 15: return REPLY
    c = [list(c) for c in nx.cycle_basis(nx.Graph([e for e in g.edges() if e[0] != e[1]]), 7) if 7 in c][0]
    c = c[c.index(7):] + c[:c.index(7)] + [7]
    return {UNTIL: c, GAIN: c[::-1], COLL: c, PEC: c[::-1], "solve_pctsp_bind": edges_of(c[::-1])}
def follow(calls, name, g, quota, step, depth, short, reply=REPLY):
    """the stages of a heuristic; -> the tour"""
    for d in calls: stage(d, g)
    check([c["f"] for c in calls] == ([] if name == A.suurballes_heuristic else [UNTIL, GAIN, COLL] if name in EXT else [PEC]), "exactly the asked-for heuristic is run")
    t = None
    for c in calls:
        if t is not None: check(c["tour"] == t, "each stage starts from the tour of the stage before")
        check("root" not in c or c["root"] == 7, "the root is the depot")
        check("quota" not in c or c["quota"] == quota, "the quota is passed on")
        t = reply[c["f"]]
    if name in PATH:
        c = calls[0]
        check(c["step"] == step, "the step size is passed on")
        check(c["depth"] == depth, "the path depth limit is passed on")
        check(c["shortest_paths"] == short, "the collapse variant is passed on")
    return t

def one_result(lab, name):
    """the written experiment and its results"""
    exp = lab.read_experiment_from_file(name)
    check(len(exp.vials) == 1, "the experiment has the one vial")
    rs = lab.read_results_from_file(exp)
    check(len(rs) == 1 and rs[0].vial_uuid == exp.vials[0].uuid, "its result is in place")
    back = json.loads((lab.get_experiment_dir(name) / labm.RESULT_FILENAME).read_text())
    check(len(back) == 1 and back[0]["vial_uuid"] == str(exp.vials[0].uuid), "the copy of the results has it too")
    return exp.vials[0], rs[0]

# ---------------------------------------------------------------- P54: single runs
@harness
def p_tsplib():
    """pctsp tsplib: every option reaches the algorithm"""
    marks_on()
    room = Room()
    write_oplib(room.data)
    name = pick("algorithm", [A.solve_pctsp] + sorted(SBL | BFS))
    exact_ = name == A.solve_pctsp
    heur = pick("heuristic", [None] + sorted(SBL | BFS)) if exact_ else None
    graph, gen = pick("data", [(GraphName.eil51, Generation.gen1), (GraphName.st70, Generation.gen3), (GraphName.eil51, Generation.gen2)])
    function, kappa, leaves = pick("costs", [(EdgeWeightType.EUC_2D, None, False), (EdgeWeightType.UNIFORM_RANDOM, None, False), (EdgeWeightType.MST, None, False), (EdgeWeightType.EUC_2D, 2, False), (EdgeWeightType.EUC_2D, 2, True)])
    alpha = pick("alpha", [0, 7, 50, 100])
    flags = choice("flags", 4)
    short, disjoint, shortest = flags == 3, flags in (1, 3), flags in (2, 3)
    depth, step, levels, tail, limit, gap = sym_int("depth", 1, BIG), sym_int("step", 1, BIG), sym_int("levels", -1, BIG), sym_int("tailing off", -1, BIG), sym_int("limit", 0, BIG), sym_int("gap", 0, BIG)
    quota = int(float(alpha * sum(SCORES[gen].values())) / 100.0)
    g = priced(plain_graph(room.data, graph, gen), function, kappa)
    while leaves:
        bad = [v for v in g if len(set(g[v]) - {v}) <= 1]
        if not bad: break
        g.remove_nodes_from(bad)
    reply = answers(g)
    calls = Calls(lambda d: list(reply[d["f"]]))
    main_app.tsplib(name, alpha=alpha, branching_max_depth=levels, collapse_paths=short, cost_cover_disjoint_paths=disjoint, cost_cover_shortest_path=shortest, cost_function=function, generation=gen, graph_name=graph,
        heuristic=heur, kappa=kappa, lab_dir=room.home, logging_level=20, oplib_root=room.data, path_depth_limit=depth, remove_leaves=leaves, sec_lp_gap_improvement_threshold=gap, sec_max_tailing_off_iterations=tail,
        step_size=step, time_limit=limit)
    h = heur if exact_ else name
    pre = [c for c in calls if c["f"] != "solve_pctsp_bind"]
    end = follow(pre, h, g, quota, step, depth, short, reply) if h else None
    lab = Lab(room.home / "tspwplib", oplib_root=room.data)
    v, r = one_result(lab, ExperimentName.onerun)
    check(v.data_config.quota == quota and v.data_config.graph_name == graph and v.data_config.generation == gen and v.data_config.alpha == alpha and v.data_config.kappa == kappa and v.data_config.cost_function == function and v.data_config.root == 7, "the record names the instance")
    check(v.model_params.algorithm == name and v.model_params.heuristic == heur, "the record names the algorithm")
    if exact_:
        check(calls and calls[-1]["f"] == "solve_pctsp_bind" and len(calls) == len(pre) + 1, "the solver is called once, at the end")
        d = calls[-1]
        stage(d, g)
        check(d["quota"] == quota and d["root"] == 7, "quota and root")
        check(d["branching_max_depth"] == levels, "the depth of strong branching")
        check(d["cost_cover_disjoint_paths"] == disjoint and d["cost_cover_shortest_path"] == shortest, "the cost covers")
        check(d["threshold"] == gap, "the gap improvement threshold")
        check(d["tailing_off"] == tail, "the tailing off window")
        check(d["time_limit"] == limit, "the time limit")
        check(bool(d["sec_disjoint_tour"]) and bool(d["sec_maxflow_mincut"]) and d["sepafreq"] == 1, "subtours are separated")
        check(lab.get_vial_dir(ExperimentName.onerun, v.uuid) in [Path(d["dir"]), *Path(d["dir"]).parents], "the solver's files go to the vial")
        if end and all(g.has_edge(*e) for e in edges_of(end)) and total(g.nodes[x]["prize"] for x in set(end)) >= quota: check(same_edges(d["start"], edges_of(end)), "the start tour is that of the heuristic")
        end = tspwplib.walk_from_edge_list(reply["solve_pctsp_bind"])
    if end is not None and all(g.has_edge(*e) for e in edges_of(end)):
        check(same_edges(r.edge_list, edges_of(end)), "the result has the edges of the answer")
        check(r.objective == sum(g.edges[e]["cost"] for e in edges_of(end)) and r.prize == sum(g.nodes[x]["prize"] for x in set(end)), "cost and prize of the result")
    room.done()
    reach("exact" if exact_ else "heuristic")

LAQ = {7: 0, 3: 4, 11: 6, 20: 5}
LAQCOST = {(7, 3): 1, (7, 11): 2, (7, 20): 3, (3, 11): 4, (11, 20): 5}
def laq_graph(weight=None, prize=None):
    g = nx.Graph()
    for v in LAQ: g.add_node(v, prize=(prize or LAQ)[v])
    for e in LAQCOST: g.add_edge(*e, cost=(weight or {}).get(e, LAQCOST[e]))
    return g

@harness
def p_londonaq():
    """pctsp londonaq: every option reaches the algorithm"""
    marks_on()
    room = Room(7, ["laqtinyA", "laqkxA"])
    # the second data set has a pendant vertex
    y = yaml.safe_load((room.data / "laqkxA" / "laqkxA.yaml").read_text())
    y["demands"][5], y["edge_data"][20], y["edge_weights"][20], y["dimension"] = 9, [5], {5: 8}, 5
    (room.data / "laqkxA" / "laqkxA.yaml").write_text(yaml.dump(y))
    name, graph = pick("algorithm", [A.solve_pctsp] + sorted(SBL | BFS)), pick("graph", [LondonaqGraphName.laqtinyA, LondonaqGraphName.laqkxA])
    exact_, flags, leaves = name == A.solve_pctsp, choice("flags", 4), choice("leaves", 2) == 1
    disjoint, shortest = flags in (1, 3), flags in (2, 3)
    quota, limit = sym_int("quota", 0, BIG), sym_int("limit", 0, BIG)
    if name in SBL: quota = pick("small quota", [0, 4, 11, 10 ** 6])
    g = laq_graph()
    reply = {UNTIL: [7, 3, 11, 20, 7], GAIN: [7, 20, 11, 3, 7], COLL: [7, 3, 11, 7], PEC: [7, 11, 20, 7], "solve_pctsp_bind": [(7, 20), (11, 7), (20, 11)]}
    calls = Calls(lambda d: list(reply[d["f"]]))
    main_app.londonaq(name, graph_name=graph, cost_cover_disjoint_paths=disjoint, cost_cover_shortest_path=shortest, lab_dir=room.home, logging_level=20, londonaq_root=room.data, quota=quota, remove_leaves=leaves, time_limit=limit)
    lab = room.lab()
    v, r = one_result(lab, ExperimentName.onerun)
    check(v.data_config.quota == quota and v.data_config.graph_name == graph and v.data_config.root == 7 and v.model_params.algorithm == name, "the record names the instance and the algorithm")
    if exact_:
        check(len(calls) == 1 and calls[0]["f"] == "solve_pctsp_bind", "the solver is called once")
        d = calls[0]
        stage(d, g)
        check(d["quota"] == quota and d["root"] == 7, "quota and root")
        check(d["cost_cover_disjoint_paths"] == disjoint and d["cost_cover_shortest_path"] == shortest, "the cost covers")
        check(d["time_limit"] == limit, "the time limit")
        check(bool(d["sec_disjoint_tour"]) and bool(d["sec_maxflow_mincut"]) and d["sepafreq"] == 1, "subtours are separated")
        check(lab.get_vial_dir(ExperimentName.onerun, v.uuid) in [Path(d["dir"]), *Path(d["dir"]).parents], "the solver's files go to the vial")
        end = [7, 20, 11, 7]
    else:
        for d in calls: stage(d, g)
        check([c["f"] for c in calls] == ([] if name == A.suurballes_heuristic else [UNTIL, GAIN, COLL] if name in EXT else [PEC]), "exactly the asked-for heuristic is run")
        for c in calls: check(("root" not in c or c["root"] == 7) and ("quota" not in c or c["quota"] == quota), "root and quota")
        end = reply[calls[-1]["f"]] if calls else None
    if end:
        check(same_edges(r.edge_list, edges_of(end)), "the result has the edges of the answer")
        check(r.objective == sum(g.edges[e]["cost"] for e in edges_of(end)) and r.prize == sum(LAQ[x] for x in set(end)), "cost and prize of the result")
    room.done()
    reach("exact" if exact_ else "heuristic")

# ---------------------------------------------------------------- P57: loading
@harness
def p_load():
    """a vial is run on its own data set, sparsified and priced as it says"""
    marks_on()
    room = Room(7, ["laqtinyA", "laqkxA"])
    write_oplib(room.data)
    laq = choice("data set", 2) == 1
    quota = sym_int("quota", 0, BIG)
    prize = {v: sym_int("prize%d" % v, 0, BIG) if v in (3, 11) else LAQ.get(v, 9) for v in COORDS}
    real = tspwplib.BaseTSP.get_graph
    def get_graph(self, *a, **kw):
        # the data set: any weights and prizes
        g = real(self, *a, **kw)
        if not its(self): return g
        for u, v in g.edges():
            if (u, v) in loose: g.edges[u, v]["weight"] = loose[u, v]
            elif (v, u) in loose: g.edges[u, v]["weight"] = loose[v, u]
        for v in g:
            if "demand" in g.nodes[v]: g.nodes[v]["demand"] = prize[v]
        return g
    function = EdgeWeightType.EXPLICIT if laq else pick("costs", [EdgeWeightType.EUC_2D, EdgeWeightType.UNIFORM_RANDOM, EdgeWeightType.MST, EdgeWeightType.SEMI_MST])
    kappa = None if laq else pick("kappa", [None, 2, 10])
    loose = {e: sym_int("w_%d_%d" % e, 0, 20) for e in ([(3, 11)] if laq else [(5, 7)])}
    gen, name, other = pick("instance", [(Generation.gen1, GraphName.st70, "laq"), (Generation.gen3, GraphName.st70, "op"), (Generation.gen3, GraphName.st70, "same")])
    def its(d): return str(d.name).startswith("laqkxA" if laq else "st70")
    tspwplib.BaseTSP.get_graph = get_graph
    realscore = tspwplib.ProfitsProblem.get_node_score
    tspwplib.ProfitsProblem.get_node_score = lambda self: {v: prize[v] for v in realscore(self)} if its(self) and realscore(self) == SCORES[gen] else realscore(self)
    try:
        # another vial, of the other data set perhaps, goes before
        vs = vials(1)
        first = vs[0] if other == "laq" else make_op(100, quota, Generation.gen2, GraphName.st70 if other == "same" else GraphName.eil51, EdgeWeightType.UNIFORM_RANDOM, None)
        mine = vials(2)[1] if laq else make_op(101, quota, gen, name, function, kappa)
        if laq: mine.data_config.graph_name = LondonaqGraphName.laqkxA
        mine.data_config.quota = quota
        exp = experiment([first, mine])
        calls = Calls(lambda d: answers_of(d))
        lab = Lab(room.home / "any", londonaq_root=room.data, oplib_root=room.data)
        rs = lab.run_experiment(exp)
    finally:
        tspwplib.BaseTSP.get_graph, tspwplib.ProfitsProblem.get_node_score = real, realscore
    check(len(calls) == 2 and [c["name"] for c in calls] == [str(first.uuid), str(mine.uuid)], "both vials are solved")
    if laq: g = laq_graph(loose, prize)
    else:
        g = plain_graph(room.data, name, gen, {**loose, **{(v, u): c for (u, v), c in loose.items()}})
        for v in g: g.nodes[v]["prize"] = prize[v]
        g = priced(g, function, kappa)
    d = calls[1]
    stage(d, g)
    check(d["quota"] == quota and d["root"] == 7, "quota and root are those of the vial")
    check(len(rs) == 2 and rs[1].vial_uuid == mine.uuid, "the result belongs to the vial")
    end = answers_of(d)
    check(land(rs[1].objective == total(g.edges[e]["cost"] for e in end), rs[1].prize == total(g.nodes[x]["prize"] for x in {y for e in end for y in e})), "cost and prize of the result")
    room.done()
    reach("londonaq" if laq else "tsplib")
def answers_of(d):
    es = {tuple(sorted(e)) for e in d["edges"] if e[0] != e[1]}
    for c in ([7, 3, 11, 7], [7, 3, 5, 20, 7], [7, 5, 3, 20, 7], [7, 5, 3, 11, 7]):
        if {tuple(sorted(e)) for e in edges_of(c)} <= es: return edges_of(c)
    return [list(e) for e in edges_of([list(c) for c in nx.cycle_basis(nx.Graph(sorted(es)), 7) if 7 in c][0] * 2)][:3]
def make_op(i, quota, gen, name, function, kappa):
    v = vials(1)[0]
    dc = vial.DataConfig(dataset=DatasetName.tspwplib, cost_function=function, graph_name=name, generation=gen, quota=3, root=7, kappa=kappa, alpha=50, triangle=0)
    dc.quota = quota
    return vial.Vial(uuid=UUID(int=i), data_config=dc, model_params=v.model_params, preprocessing=v.preprocessing)

# ---------------------------------------------------------------- P58: the experiments
NAMES = ExperimentName
BOTH = {NAMES.baseline, NAMES.compare_heuristics, NAMES.cost_cover, NAMES.dryrun, NAMES.tailing_off}
TS = BOTH | {NAMES.disjoint_tours_vs_heuristics, NAMES.simple_branch_cut}
LQ = BOTH | {NAMES.cc_londonaq_alpha, NAMES.londonaq_alpha}
PEC_S = A.suurballes_path_extension_collapse
def compared(name):
    """what an experiment compares: -> list of settings every one of which goes with every instance once, fields that may differ"""
    cc = [dict(cost_cover_disjoint_paths=d, cost_cover_shortest_path=s) for d, s in ((False, False), (True, False), (False, True))]
    if name in (NAMES.cost_cover, NAMES.cc_londonaq_alpha): return [dict(c, algorithm=A.solve_pctsp, heuristic=PEC_S) for c in cc]
    if name == NAMES.baseline: return [dict(cc[0], algorithm=A.solve_pctsp, heuristic=A.bfs_extension_collapse)]
    if name == NAMES.tailing_off:
        return [dict(cc[1], algorithm=A.solve_pctsp, heuristic=PEC_S, branching_strategy=b, sec_max_tailing_off_iterations=t) for b in (vial.BranchingStrategy.STRONG_AT_TREE_TOP, vial.BranchingStrategy.DEFAULT) for t in (-1, main_app.SEC_MAX_TAILING_OFF_ITER, 10)]
    if name in (NAMES.compare_heuristics, NAMES.londonaq_alpha): return [dict(algorithm=a) for a in sorted(SBL | BFS)]
    if name == NAMES.disjoint_tours_vs_heuristics: return [dict(algorithm=a) for a in (A.disjoint_tours_relaxation, A.bfs_extension_collapse, A.suurballes_heuristic)]
    return [dict(algorithm=a) for a in (A.bfs_extension_collapse, A.suurballes_heuristic, A.solve_pctsp)]
OPTIONS = [f for f in vial.ModelParams.model_fields if f not in ("algorithm", "is_exact", "is_heuristic", "is_relaxation")]


@harness
def p_setup():
    """every instance of an experiment meets every compared setting once, and the settings differ in what is compared only"""
    marks_on()
    room = Room(7, ["laqtinyA", "laqkxA"])
    dataset, name = pick("data set", [DatasetName.londonaq, DatasetName.tspwplib]), pick("experiment", sorted(NAMES))
    laq = dataset == DatasetName.londonaq
    write_oplib(room.data, [GraphName.eil51, GraphName.st70] if name not in (NAMES.disjoint_tours_vs_heuristics, NAMES.simple_branch_cut) else [GraphName.st70, GraphName.rat195, GraphName.a280, GraphName.pr152, GraphName.gr229])
    lab = Lab(room.home / dataset.value, londonaq_root=room.data, oplib_root=room.data)
    args = (dataset, name, room.home, 20, room.data, room.data)
    if name not in (LQ if laq else TS):
        for f in (main_app.setup, main_app.lab):
            try:
                f(*args)
                check(False, "an experiment that does not exist for the data set is refused")
            except ValueError: pass
        check(not (lab.get_experiment_dir(name) / labm.EXPERIMENT_FILENAME).exists(), "a refused experiment is not written")
        room.done()
        return reach("refused")
    big = name in (NAMES.disjoint_tours_vs_heuristics, NAMES.simple_branch_cut)
    k, full = (0, True) if big else (choice("lists", 3) + 1, False)
    # lists of the experiments: any values
    qs = [sym_int("q%d" % i, 0, BIG) for i in range(min(k, 2))]
    for i in range(1, len(qs)): assume(qs[0] != qs[1])
    params.LONDONAQ_QUOTA_LIST[:] = qs
    params.LONDONAQ_GRAPH_NAME_LIST[:] = [LondonaqGraphName.laqkxA, LondonaqGraphName.laqtinyA][:max(1, k - 1)]
    params.TSPLIB_ALPHA_LIST[:] = [5, 75][:max(1, k - 1)]
    params.TSPLIB_KAPPA_LIST[:] = [None, 7][:max(1, k - 1)]
    params.TSPLIB_GRAPH_NAME_LIST[:] = [GraphName.st70, GraphName.eil51][:max(1, k - 1)]
    params.TSPLIB_COST_FUNCTIONS[:] = [EdgeWeightType.MST, EdgeWeightType.EUC_2D][:max(1, k - 1)]
    # what alpha stands for depends on the graph
    shift = sym_int("worth", 0, BIG)
    more = {"st70": 10 ** 7, "eil51": 2 * 10 ** 7, "laqkxA": 3 * 10 ** 7, "laqtinyA": 4 * 10 ** 7}
    def worth(graph, alpha): return alpha * 1000 + shift + max([0] + [m for n, m in more.items() if str(graph).startswith(n)])
    if name in (NAMES.cc_londonaq_alpha, NAMES.londonaq_alpha): prod.PrizeCollectingTSP.get_quota = lambda self, alpha: worth(self.name, alpha)
    realq = tspwplib.ProfitsProblem.get_quota
    tspwplib.ProfitsProblem.get_quota = lambda self, alpha: worth(self.name, alpha)
    try: main_app.setup(*args)
    finally:
        tspwplib.ProfitsProblem.get_quota = realq
        if "get_quota" in vars(prod.PrizeCollectingTSP): del prod.PrizeCollectingTSP.get_quota
    exp = lab.read_experiment_from_file(name)
    check(exp.name == name, "the experiment keeps its name")
    # the instances
    P = params
    if laq and name == NAMES.dryrun: want = [(LondonaqGraphName.laqtinyA, 200, None)]
    elif laq and name in (NAMES.cc_londonaq_alpha, NAMES.londonaq_alpha): want = [(g, worth(g.value, a), a) for a in P.TSPLIB_ALPHA_LIST for g in P.LONDONAQ_GRAPH_NAME_LIST]
    elif laq: want = [(g, q, None) for q in P.LONDONAQ_QUOTA_LIST for g in P.LONDONAQ_GRAPH_NAME_LIST]
    elif big or name == NAMES.dryrun: want = None
    else:
        ks, al = (P.TSPLIB_KAPPA_LIST, P.TSPLIB_ALPHA_LIST) if name != NAMES.tailing_off else ([10, 20], [25, 75])
        want = [(a, kp, gen, g, c) for a in al for kp in ks for gen in Generation for g in P.TSPLIB_GRAPH_NAME_LIST for c in P.TSPLIB_COST_FUNCTIONS]
    groups = {}
    for v in exp.vials:
        d, pre = v.data_config, v.preprocessing
        check(d.dataset == dataset and d.root == 7, "data set and root of the instances")
        check(pre.remove_one_connected_components and not pre.disjoint_path_cutoff and not pre.shortest_path_cutoff, "no tour is lost in preprocessing")
        if laq: key = (d.graph_name, conc_index(d.quota, [w[1] for w in want]), d.alpha)
        else:
            check(d.quota == worth(d.graph_name.value, d.alpha), "the quota belongs to alpha and the graph")
            key = (d.alpha, d.kappa, d.generation, d.graph_name, d.cost_function)
        groups.setdefault((key, str(pre)), []).append(v.model_params)
    check(len({v.uuid for v in exp.vials}) == len(exp.vials), "every vial has an identity of its own")
    check(len({p for _, p in groups}) == 1, "all vials are preprocessed alike")
    keys = [k for k, _ in groups]
    if want is not None:
        if laq: want = [(g, conc_index(q, [w[1] for w in want]), a) for g, q, a in want]
        check(sorted(map(str, keys)) == sorted(map(str, want)), "the instances of the experiment, each once")
    if big: check(len(keys) == (144 * len(P.TSPLIB_COST_FUNCTIONS) if name == NAMES.simple_branch_cut else 108), "the instances of the experiment, each once")
    settings = compared(name)
    for ms in groups.values():
        check(len(ms) == len(settings), "every instance meets every setting once")
        for s in settings:
            hit = [m for m in ms if all(getattr(m, f) == x for f, x in s.items())]
            check(len(hit) == 1, "every instance meets every setting once")
            m = hit[0]
            check(m.is_exact == (m.algorithm == A.solve_pctsp) and m.is_heuristic == (m.algorithm in SBL | BFS) and m.is_relaxation == (m.algorithm == A.disjoint_tours_relaxation), "the kind of the algorithm")
            if m.is_exact: check(m.sec_disjoint_tour and m.sec_maxflow_mincut and m.sec_sepafreq == 1 and m.time_limit > 0, "the solver separates subtours and has a time limit")
            if m.algorithm in PATH or m.heuristic in PATH: check(m.collapse_paths and m.path_depth_limit is None and m.step_size == 10, "path extension without a limit of the depth")
        if len({m.algorithm for m in ms}) == 1:
            free = set(settings[0])
            check(all(getattr(m, f) == getattr(ms[0], f) for m in ms for f in OPTIONS if f not in free), "the settings differ only in what is compared")
    seen = next(iter(groups.values()))
    for ms in groups.values(): check(sorted(map(str, ms)) == sorted(map(str, seen)), "the same settings for every instance")
    room.done()
    reach("londonaq" if laq else "tsplib")
def conc_index(q, qs):
    for i, x in enumerate(qs):
        if bool(q == x): return i
    check(False, "a quota that nobody asked for")

@harness
def p_lab():
    """pctsp lab: every vial of the experiment is run once and all results are written"""
    marks_on()
    room = Room(7, ["laqtinyA", "laqkxA"])
    write_oplib(room.data, [GraphName.st70])
    laq = choice("data set", 2) == 1
    dataset, name = DatasetName.londonaq if laq else DatasetName.tspwplib, pick("experiment", [NAMES.dryrun, NAMES.cost_cover, NAMES.baseline, NAMES.compare_heuristics])
    q = sym_int("quota", 0, 12)
    params.LONDONAQ_QUOTA_LIST[:], params.LONDONAQ_GRAPH_NAME_LIST[:] = [q], [LondonaqGraphName.laqtinyA]
    params.TSPLIB_ALPHA_LIST[:], params.TSPLIB_KAPPA_LIST[:], params.TSPLIB_GRAPH_NAME_LIST[:], params.TSPLIB_COST_FUNCTIONS[:] = [25], [9], [GraphName.st70], [EdgeWeightType.EUC_2D]
    fails = choice("fails", 3)       # one of the first calls of the solver fails
    n = [0]
    tours = {UNTIL: [7, 20, 11, 3, 7], GAIN: [7, 3, 11, 20, 7], COLL: [7, 11, 20, 7], PEC: [7, 3, 11, 7], "solve_pctsp_bind": [(7, 3), (11, 7), (3, 11)]}
    def reply(d):
        if d["f"] == "solve_pctsp_bind":
            n[0] += 1
            if n[0] == fails: raise RuntimeError("the solver fails")
        return list(tours[d["f"]])
    calls = Calls(reply)
    main_app.lab(dataset, name, room.home, 20, room.data, room.data)
    lab = Lab(room.home / dataset.value, londonaq_root=room.data, oplib_root=room.data)
    exp = lab.read_experiment_from_file(name)
    exact_ = [str(v.uuid) for v in exp.vials if v.model_params.is_exact]
    check([c["name"] for c in calls if c["f"] == "solve_pctsp_bind"] == exact_, "every exact vial is solved once, in order")
    bad = exact_[fails - 1:fails] if fails else []
    count = {}
    for c in calls: count[c["f"]] = count.get(c["f"], 0) + 1
    algs = [a for v in exp.vials for a in (v.model_params.algorithm, v.model_params.heuristic) if a]
    check(count.get(PEC, 0) == sum(a in PATH for a in algs) and count.get(UNTIL, 0) == sum(a in EXT for a in algs), "every heuristic vial is run once")
    rs = lab.read_results_from_file(exp)
    check([str(r.vial_uuid) for r in rs] == [str(v.uuid) for v in exp.vials if str(v.uuid) not in bad], "the results of all vials that worked")
    back = json.loads((lab.get_experiment_dir(name) / labm.RESULT_FILENAME).read_text())
    check([b["vial_uuid"] for b in back] == [str(r.vial_uuid) for r in rs], "the copy of the results has them all")
    which = {str(v.uuid): v for v in exp.vials}
    for r in rs:
        m = which[str(r.vial_uuid)].model_params
        if m.algorithm == A.suurballes_heuristic: continue
        t = edges_of(tours[COLL if m.algorithm in EXT else PEC]) if m.is_heuristic else tours["solve_pctsp_bind"]
        check(same_edges(r.edge_list, t), "every result has the edges of its own answer")
    room.done()
    reach("londonaq" if laq else "tsplib")

# ---------------------------------------------------------------- P59: running one vial again
@harness
def p_vial():
    """pctsp vial: exactly the named vial is run again"""
    marks_on()
    n = choice("vials", 3) + 1
    room, vs = Room(), vials(n, lambda i: 3 + i)
    exp, lab = experiment(vs), room.lab()
    lab.write_experiment_to_file(exp)
    for i in range(n):
        if choice("before%d" % i, 2):
            vial.Result(vial_uuid=vs[i].uuid, objective=PAY[(i + 1) % 2], prize=WORTH[(i + 1) % 2], edge_list=answer(i + 1), start_time=datetime(2024, 1, 2, 3), end_time=datetime(2024, 1, 2, 4)).write_to_json_file(lab.get_vial_dir(exp.name, vs[i].uuid))
    k = choice("which", n + 2)
    fails = choice("fails", 2) == 1
    s = Solver(vs, lambda i: fails)
    def state(): return {str(p.relative_to(room.home)): p.read_text() for p in room.home.rglob("*") if p.is_file()}
    before = state()
    uuid = str(vs[k].uuid) if k < n else str(UUID(int=555)) if k == n else str(vs[0].uuid)[:-1]
    out = None
    try: out = cli("vial", "londonaq", exp.name.value, uuid, "--lab-dir", room.home, *roots(room))
    except Exception as e:
        check(k >= n or fails, "an existing vial is run")
        if k >= n: check(isinstance(e, ValueError), "an unknown vial is reported")
    check(s.ran == ([k] if k < n else []), "exactly the named vial is run")
    after = state()
    for f in set(before) | set(after):
        if k < n and uuid in f and not fails: continue
        check(before.get(f) == after.get(f) or (k < n and uuid in f and not f.endswith(".json")), "nothing else is touched")
    if k < n and not fails:
        rs = {r.vial_uuid: r for r in lab.read_results_from_file(exp)}
        good(rs[vs[k].uuid], vs[k], k)
        check(uuid in out, "the result is printed")
        reach("run")
    elif k < n:
        check(out is None, "a failing run is reported")
        reach("failed")
    else:
        check(out is None, "an unknown vial is reported")
        reach("unknown")
    room.done()

@harness
def p_counts():
    """pctsp nbatches and infeasible on an experiment of any quotas and prizes"""
    marks_on()
    n = choice("vials", 3) + 1
    quota = [sym_int("quota%d" % i, 0, BIG) for i in range(n)]
    room, vs = Room(), vials(n)
    for v, q in zip(vs, quota): v.data_config.quota = q
    exp, lab = experiment(vs), room.lab()
    lab.write_experiment_to_file(exp)
    there, prize = [], {}
    for i in range(n):
        st = choice("state%d" % i, 4)
        if not st: continue
        prize[i] = sym_int("prize%d" % i, 0, BIG) if st < 3 else 0      # 3: no tour was found
        r = vial.Result(vial_uuid=vs[i].uuid, objective=1 if st < 3 else 0, prize=prize[i], edge_list=answer(i) if st < 3 else [], start_time=datetime(2024, 1, 2, 3), end_time=datetime(2024, 1, 2, 4))
        p = r.write_to_json_file(lab.get_vial_dir(exp.name, vs[i].uuid))
        if st == 1: p.write_text(p.read_text()[:pick("cut%d" % i, [0, 1, 40, -1])])
        else: there.append(i)
    bad = cli("infeasible", "londonaq", exp.name.value, "--lab-dir", room.home).split()
    check(len(bad) == len(set(bad)) and set(bad) <= {str(vs[i].uuid) for i in there}, "only vials with a result are infeasible")
    for i in there: check(iff(str(vs[i].uuid) in bad, prize[i] < quota[i]), "infeasible are exactly the vials below their quota")
    check("%d out of %d" % (n - len(there), n) in cli("nmissing", "londonaq", exp.name.value, "--lab-dir", room.home), "the number of missing results")
    size = sym_int("size", -2, 5)
    try:
        main_app_print = []
        with contextlib.redirect_stdout(io.StringIO()) as f: main_app.nbatches(DatasetName.londonaq, exp.name, size, room.home, 20, room.data, room.data)
        b = int(f.getvalue().split()[-1])
        check(land(size > 0, b * size >= n, (b - 1) * size < n), "the least number of batches that hold all vials")
    except ValueError: check(size <= 0, "batches of at least one vial are counted")
    room.done()
    reach("end")

# ---------------------------------------------------------------- P56: the table of a branch and cut experiment
STATS = ["status", "lower_bound", "upper_bound", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "nconss_presolve_disjoint_paths", "nconss_presolve_shortest_paths", "num_cycle_cover", "num_nodes", "num_sec_disjoint_tour", "num_sec_maxflow_mincut"]
def stats_of(i): return {f: 100 * (i + 1) + j for j, f in enumerate(STATS)}
def stats_text(i): return "\n".join("%s: %d" % kv for kv in stats_of(i).items())
@contextlib.contextmanager
def marked_text():
    """symbolic numbers are written as marks into tables"""
    T = type(sym_int("any", 0, 1))
    if T is int: yield; return
    saved = [(c, k, c.__dict__[k]) for c in T.__mro__ for k in ("__repr__", "__str__", "__format__") if k in c.__dict__ and c is not object and c is not int]
    try:
        for c, k, _ in saved: setattr(c, k, (lambda self, *a: str(mask(self))))
        yield
    finally:
        for c, k, f in saved: setattr(c, k, f)
def table(path):
    import csv
    with open(path, newline="") as f: return list(csv.DictReader(f))
def cell(s): return unmask(int(float(s)))

@harness
def p_branchcut():
    """pctsp csv branch-cut: one row for every vial with a result and statistics, with its own numbers; files that a crash cut off harm nobody"""
    marks_on()
    n = 2
    quota = [sym_int("quota%d" % i, 0, BIG) for i in range(n)]
    room, vs = Room(), vials(n)
    for v, q in zip(vs, quota): v.data_config.quota = q
    cut = choice("is cut", 2) == 1      # the statistics of the first vial are cut off anywhere
    if not cut and choice("backwards", 2): vs.reverse(); quota.reverse()
    exp, lab = vial.Experiment.model_construct(name=ExperimentName.cost_cover, vials=vs, timestamp=datetime(2024, 1, 2)), room.lab()
    lab.write_experiment_to_file(exp)
    prize, pay, there, counted = {}, {}, [], []
    for i in range(n):
        d = lab.get_vial_dir(exp.name, vs[i].uuid)
        st = 0 if cut else choice("result%d" % i, 3 if i == 0 else 2)
        if st == 0:
            there.append(i)
            prize[i], pay[i] = sym_int("prize%d" % i, 0, BIG), sym_int("cost%d" % i, 0, BIG)
            vial.Result(vial_uuid=vs[i].uuid, objective=pay[i], prize=prize[i], edge_list=answer(i), start_time=datetime(2024, 1, 2, 3), end_time=datetime(2024, 1, 2, 3, 0, 5 + i, 250000)).write_to_json_file(d)
        elif st == 2:
            d.mkdir(parents=True, exist_ok=True)
            (d / (str(vs[i].uuid) + ".json")).write_text('{"vial_uu')
        t, st = stats_text(i), 2 if cut and i == 0 else choice("stats%d" % i, 2)
        if st != 1: d.mkdir(parents=True, exist_ok=True)
        if st == 0:
            counted.append(i)
            (d / labm_stats).write_text(t)
        elif st == 2: (d / labm_stats).write_text(t[:choice("cut", t.rindex(" ") + 2)])
    with marked_text(): csvapp.write_branch_cut_experiment_to_csv(DatasetName.londonaq, exp.name, room.home)
    rows = table(lab.get_experiment_dir(exp.name) / "londonaq_cost_cover.csv")
    both = [i for i in there if i in counted]
    check(sorted(r["vial_uuid"] for r in rows) == sorted(str(vs[i].uuid) for i in both), "one row for every vial with a result and statistics")
    for r in rows:
        i = [j for j in both if str(vs[j].uuid) == r["vial_uuid"]][0]
        check(r["uuid"] == r["vial_uuid"], "the row belongs to one vial")
        for f, x in stats_of(i).items(): check(float(r[f]) == x, "the statistics of the row")
        check(land(cell(r["prize"]) == prize[i], cell(r["quota"]) == quota[i]), "prize and quota of the row")
        check(r["feasible"] in ("True", "False") and iff(r["feasible"] == "True", prize[i] >= quota[i]), "feasible means that the quota is reached")
        check(float(r["duration"]) == 5 + i + 0.25, "the duration of the run")
        if r["feasible"] == "True":
            check(cell(r["objective"]) == pay[i], "cost of a feasible result")
            over = cell(r["overshoot"])
            check(over == prize[i] - quota[i], "overshoot of a feasible result")
        else: check(r["objective"] == "" and r["overshoot"] == "", "an infeasible result has neither cost nor overshoot")
    room.done()
    reach("rows" if rows else "empty")
labm_stats = csvapp.PCTSP_SUMMARY_STATS_YAML

@harness
def p_csvall():
    """pctsp csv all: what one experiment lacks does not cost another its table"""
    marks_on()
    room = Room()
    pairs = [(d, e) for d in (DatasetName.londonaq, DatasetName.tspwplib) for e in (NAMES.cost_cover, NAMES.tailing_off, NAMES.compare_heuristics)]
    state = {}
    for d, e in pairs:
        st = state[d, e] = pick("%s %s" % (d.value, e.value), ["absent", "no results", "complete"])
        if st == "absent": continue
        lab = Lab(room.home / d.value)
        vs = vials(2)
        lab.write_experiment_to_file(vial.Experiment.model_construct(name=e, vials=vs, timestamp=datetime(2024, 1, 2)))
        if st == "complete":
            for i in (0, 1):
                p = lab.get_vial_dir(e, vs[i].uuid)
                vial.Result(vial_uuid=vs[i].uuid, objective=PAY[i], prize=WORTH[i], edge_list=answer(i), start_time=datetime(2024, 1, 2, 3), end_time=datetime(2024, 1, 2, 4)).write_to_json_file(p)
                (p / labm_stats).write_text(stats_text(i))
    csvapp.write_all_experiments_to_csv(room.home)
    for d, e in pairs:
        f = Lab(room.home / d.value).get_experiment_dir(e) / ("%s_%s.csv" % (d.value, e.value))
        if state[d, e] == "complete":
            check(f.exists(), "every complete experiment has its table")
            rows = table(f)
            check(sorted(r["vial_uuid"] for r in rows) == sorted(str(UUID(int=100 + i)) for i in (0, 1)), "one row for every result")
            for r in rows:
                i = int(r["vial_uuid"] == str(UUID(int=101)))
                check(float(r["prize"]) == WORTH[i] and float(r["objective"]) == PAY[i], "prize and cost of the row")
        elif f.exists(): check(table(f) == [], "an experiment without results has no rows")
    room.done()
    reach("end")

# ---------------------------------------------------------------- P55: the statistics of the data sets, through the command
@harness
def p_dataset():
    """pctsp dataset stats: the row of every graph has the statistics of that graph"""
    marks_on()
    laq = choice("data set", 2) == 1
    room = Room(7, ["laqtinyA", "laqkxA"])
    write_oplib(room.data)
    prize = {v: sym_int("prize%d" % v, 1, 10 ** 6) if v == 11 else x for v, x in {**LAQ, 5: 9}.items()}
    params.LONDONAQ_GRAPH_NAME_LIST[:] = [LondonaqGraphName.laqkxA, LondonaqGraphName.laqtinyA]
    params.TSPLIB_GRAPH_NAME_LIST[:] = [GraphName.st70, GraphName.eil51][:choice("graphs", 2) + 1] if not laq else []
    params.TSPLIB_COST_FUNCTIONS[:] = pick("functions", [[EdgeWeightType.EUC_2D], [EdgeWeightType.MST, EdgeWeightType.EUC_2D]]) if not laq else []
    params.TSPLIB_KAPPA_LIST[:] = pick("kappas", [[10], [2], [10, 3]]) if not laq else []
    real, realscore = tspwplib.BaseTSP.get_graph, tspwplib.ProfitsProblem.get_node_score
    def get_graph(self, *a, **kw):
        g = real(self, *a, **kw)
        for v in g:
            if "demand" in g.nodes[v] and str(self.name) == "laqkxA": g.nodes[v]["demand"] = prize[v]
        return g
    tspwplib.BaseTSP.get_graph = get_graph
    def scores(self):
        s = realscore(self)
        return {v: prize[v] if v == 11 and str(self.name).startswith("st70") else x for v, x in s.items()}
    tspwplib.ProfitsProblem.get_node_score = scores
    try:
        with contextlib.redirect_stdout(io.StringIO()), marked_text(): datasetapp.stats_of_dataset(DatasetName.londonaq if laq else DatasetName.tspwplib, room.data, room.data)
    finally: tspwplib.BaseTSP.get_graph, tspwplib.ProfitsProblem.get_node_score = real, realscore
    rows = table(room.data / ("londonaq_dataset.csv" if laq else "tsplib_dataset.csv"))
    P = params
    keys = ["graph_name"] if laq else ["graph_name", "generation", "cost_function", "kappa"]
    want = [(g.value,) for g in P.LONDONAQ_GRAPH_NAME_LIST] if laq else [(g.value, gen.value, c.value, str(k)) for g in P.TSPLIB_GRAPH_NAME_LIST for gen in Generation for c in P.TSPLIB_COST_FUNCTIONS for k in P.TSPLIB_KAPPA_LIST]
    check(sorted(tuple(r[k] for k in keys) for r in rows) == sorted(want), "one row for every graph of the data set")
    for r in rows:
        if laq: g = laq_graph(None, prize if r["graph_name"] == "laqkxA" else None)
        else:
            name, gen = GraphName(r["graph_name"]), Generation(r["generation"])
            g = plain_graph(room.data, name, gen)
            if name == GraphName.st70: g.nodes[11]["prize"] = prize[11]
            g = priced(g, EdgeWeightType(r["cost_function"]), int(r["kappa"]))
        inside = {7} | {v for c in nx.biconnected_components(nx.Graph([e for e in g.edges() if e[0] != e[1]])) if 7 in c and len(c) > 2 for v in c}
        check(float(r["num_nodes"]) == len(g) and float(r["num_edges"]) == g.number_of_edges(), "the size of the graph")
        check(float(r["total_cost"]) == sum(d["cost"] for _, _, d in g.edges(data=True)), "the total cost")
        check(cell(r["total_prize"]) == total(g.nodes[v]["prize"] for v in g), "the total prize")
        sub = g.subgraph(inside)
        check(float(r["preprocessed_num_nodes"]) == len(sub) and float(r["preprocessed_num_edges"]) == sub.number_of_edges(), "what is left is what a tour can visit")
        check(float(r["preprocessed_total_cost"]) == sum(d["cost"] for _, _, d in sub.edges(data=True)), "cost of what is left")
        check(cell(r["preprocessed_total_prize"]) == total(g.nodes[v]["prize"] for v in sub), "prize of what is left")
    room.done()
    reach("londonaq" if laq else "tsplib")
