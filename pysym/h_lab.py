"""The Python side around the algorithms: wrappers of the extension module, running vials, experiments, batches."""
from harness import harness
from fix import *
import itertools, json, math, os, subprocess, sys, types, logging
from datetime import datetime
from pathlib import Path
from uuid import UUID
import tspwplib
import pctsp.algorithms as alg
import importlib
def mod(n): return importlib.import_module(n)
exact = mod("pctsp.algorithms.algorithms")
ec = mod("pctsp.algorithms.extension_collapse")
pec = mod("pctsp.algorithms.path_extension_collapse")
ra = mod("pctsp.lab.run_algorithm")
labm = mod("pctsp.lab.lab")
import pctsp.vial as vial
from pctsp.vial import AlgorithmName, DatasetName, ExperimentName
logging.disable(logging.CRITICAL)

BIG = 10 ** 12
# ---------------------------------------------------------------- the exported functions, by position (the C++ side of this list is P36 and P37)
POS = {
    "collapse_bind": "edges tour cost prize quota root shortest_paths level",
    "extension_unitary_gain_bind": "edges tour cost prize level",
    "extension_until_prize_feasible_bind": "edges tour cost prize quota",
    "path_extension_bind": "edges tour cost prize root step depth level",
    "path_extension_until_prize_feasible_bind": "edges tour cost prize root quota step depth level",
    "path_extension_collapse_bind": "edges tour cost prize root quota shortest_paths depth step level",
    "solve_pctsp_bind": "model edges start cost prize quota root branching_max_depth branching_strategy cost_cover_disjoint_paths cost_cover_shortest_path cycle_cover distances level name sec_disjoint_tour threshold sec_maxflow_mincut tailing_off sepafreq simple_rules_only dir time_limit",
}
class Calls(list):
    """stand-ins for the exported functions: they note their arguments by meaning and answer with `reply`"""
    def __init__(self, reply):
        self.reply = reply
        bind(**{f: self.make(f) for f in POS})
    def make(self, f):
        names = POS[f].split()
        def stand_in(*a):
            if len(a) != len(names): raise TypeError("%s(): incompatible function arguments" % f)
            d = dict(zip(names, a), f=f)
            for k in ("edges", "tour", "start"):
                if k in d: d[k] = [tuple(x) if isinstance(x, (tuple, list)) else x for x in d[k]]
            self.append(d)
            return self.reply(d)
        return stand_in

def same_edges(es, fs): return sorted(tuple(sorted(e)) for e in es) == sorted(tuple(sorted(e)) for e in fs)

def graph_args(d, g):
    """the user's graph, costs and prizes arrive complete"""
    es = [k for k, b in g.bits.items() if b is True]
    check(same_edges(d["edges"], es), "the edges of the graph are passed on")
    for k in es:
        c = d["cost"].get(k, d["cost"].get(k[::-1]))
        check(c is not None and c == g.cost[k], "the cost of every edge is passed on")
    for v in g.names:
        check(v in d["prize"] and d["prize"][v] == g.prize[v], "the prize of every vertex is passed on")

NAMES = [7, 3, 11, 20, 5]
def demo(n=4):
    es = [(u, v) for i, u in enumerate(NAMES[:n]) for v in NAMES[:i]]
    return shape(NAMES[:n], es, cost=(0, BIG), prize=(0, BIG))

@harness
def p_wrap():
    g = demo(4)
    t = [7, 3, 11, 7]
    out = {"a": [7, 3, 11, 20, 7]}
    calls = Calls(lambda d: list(out["a"]))
    quota, step, depth, level = sym_int("quota", 0, BIG), sym_int("step", 1, BIG), sym_int("depth", 0, BIG), sym_int("level", 0, 100)
    sp = choice("shortest", 2) == 1
    which = pick("function", ["collapse", "path_collapse", "gain", "loss", "until", "path", "path_pec", "path_until"])
    default = choice("defaults", 2) == 1
    kw = {} if default else dict(logging_level=level)
    if default: level = logging.INFO
    want = {"tour": t, "level": level, "root": 7, "quota": quota}
    if which == "collapse": r, want["shortest_paths"] = alg.collapse(g.nx, list(t), quota, 7, **kw), False
    elif which == "path_collapse": r, want["shortest_paths"] = alg.path_collapse(g.nx, list(t), quota, 7, **kw), True
    elif which == "gain": r = alg.extension_unitary_gain(g.nx, list(t), **kw)
    elif which == "loss":
        r = alg.extension_unitary_loss(g.nx, list(t), 7, **kw)
        want.update(step=1, depth=2)
    elif which == "until": r = alg.extension_until_prize_feasible(g.nx, list(t), quota)
    else:
        want.update(step=step, depth=depth, shortest_paths=sp)
        if not default: kw.update(step_size=step, path_depth_limit=depth)
        else: want.update(step=1, depth=2)
        if which == "path": r = alg.path_extension(g.nx, list(t), 7, **kw)
        elif which == "path_until": r = alg.path_extension_until_prize_feasible(g.nx, list(t), 7, quota, **kw)
        else:
            if not default: kw["collapse_shortest_paths"] = sp
            else: want["shortest_paths"] = False
            r = alg.path_extension_collapse(g.nx, list(t), 7, quota, **kw)
    fn = {"collapse": "collapse_bind", "path_collapse": "collapse_bind", "gain": "extension_unitary_gain_bind", "loss": "path_extension_bind", "until": "extension_until_prize_feasible_bind",
        "path": "path_extension_bind", "path_pec": "path_extension_collapse_bind", "path_until": "path_extension_until_prize_feasible_bind"}[which]
    check(len(calls) == 1 and calls[0]["f"] == fn, "exactly the asked-for algorithm is run")
    d = calls[0]
    graph_args(d, g)
    for k in POS[fn].split():
        if k in want: check(d[k] == want[k], "%s: the %s is passed on" % (which, k))
    check(list(r) == out["a"], "the result is handed back")
    reach(which)

# ---------------------------------------------------------------- the exact solver
OPTS = [("branching_max_depth", -1, BIG), ("branching_strategy", 0, 4), ("logging_level", 0, 100), ("sec_max_tailing_off_iterations", -1, BIG), ("sec_sepafreq", -1, BIG), ("time_limit", 0, BIG)]
FLAGS = ["cost_cover_disjoint_paths", "cost_cover_shortest_path", "cycle_cover", "sec_disjoint_tour", "sec_maxflow_mincut", "simple_rules_only"]
ARG = {"logging_level": "level", "sec_max_tailing_off_iterations": "tailing_off", "sec_sepafreq": "sepafreq", "sec_lp_gap_improvement_threshold": "threshold", "solver_dir": "dir"}
@harness
def p_solve():
    g = demo(4)
    tour = pick("start", [[], [7, 3, 11, 7], [7, 3, 11, 20, 7], [7, 20, 11, 3, 7], [3, 11, 20, 3], [7, 3, 7]])
    start = [(u, v) for u, v in edges_of(tour)] if tour else []
    start0 = list(start)
    quota = sym_int("quota", 0, 10 * BIG)
    calls = Calls(lambda d: [(7, 3)])
    kw, want = {}, {}
    given = choice("given", 2)
    if given:
        for n, lo, hi in OPTS: kw[n] = want[n] = sym_int(n, lo, hi)
        for n in FLAGS: kw[n] = want[n] = sym_bool(n)
        kw["sec_lp_gap_improvement_threshold"] = want["sec_lp_gap_improvement_threshold"] = sym_int("threshold64", 0, 64)
        kw["name"] = want["name"] = "some name"
    else:
        want = dict(branching_max_depth=-1, branching_strategy=0, logging_level=logging.INFO, sec_max_tailing_off_iterations=-1, sec_sepafreq=1, cost_cover_disjoint_paths=False, cost_cover_shortest_path=False,
            cycle_cover=False, sec_disjoint_tour=True, sec_maxflow_mincut=True, simple_rules_only=False, name="pctsp", sec_lp_gap_improvement_threshold=0.001, time_limit=4 * 60 * 60.0)
    d = scratch("solve")
    kw["solver_dir"] = want["solver_dir"] = d / "logs"
    dist = {v: sym_int("dist_%d" % v, 0, BIG) for v in g.names} if given and choice("distances", 2) else None
    if dist is not None: kw["disjoint_paths_cost"] = dist
    model = object()
    r = alg.solve_pctsp(model, g.nx, start, quota, 7, **kw)
    check(len(calls) == 1 and calls[0]["f"] == "solve_pctsp_bind", "the solver is called once")
    c = calls[0]
    graph_args(c, g)
    check(c["model"] is model and c["quota"] == quota and c["root"] == 7, "model, quota and root are passed on")
    check(start == start0, "the given start edges are changed")
    if dist is None:
        want["cost_cover_disjoint_paths"] = False
        check(c["distances"] == {}, "no distances")
    else: check(set(c["distances"]) == set(dist) and land([c["distances"][v] == dist[v] for v in dist]), "the distances are passed on")
    for n in want: check(c[ARG.get(n, n)] == want[n], "the option %s reaches the solver" % n)
    ok = land(is_cycle(tour, 7), total(g.prize[v] for v in set(tour)) >= quota) if tour else False
    good = same_edges(c["start"], start0)
    if not tour: check(not c["start"], "no start tour")
    else:
        check(implies(ok, good), "a feasible start tour is passed on")
        check(implies(lnot(ok), not c["start"]), "a start tour that is not feasible is withheld")
        if tour: reach("start" if c["start"] else "withheld")
    check((d / "logs").is_dir(), "the log directory exists")
    check(list(r) == [(7, 3)], "the solver's edges are handed back")
