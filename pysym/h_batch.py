"""Experiments: batches, results on disk, the slurm script, products of parameters."""
from harness import harness
from fix import *
from h_lab import *
from h_run import lenient, make_vial, norm
import shutil, re, yaml, shlex, networkx
import pctsp.apps.main_app as main_app
import pctsp.compare.product_of_params as prod
from pctsp.compare import params
shim(labm)
lenient(vial.DataConfig)
Lab = labm.Lab

class Room:
    """one laboratory in a scratch directory with a small londonaq data set"""
    def __init__(self, depot=7, names=("laqtinyA",)):
        self.top = scratch("lab")
        self.data = self.top / "data"
        for n in names:
            (self.data / n).mkdir(parents=True)
            y = dict(capacity=None, comment="", demands={7: 0, 3: 4, 11: 6, 20: 5}, depots=[depot], dimension=4, display_data=None, display_data_type="NO_DISPLAY",
                edge_data={7: [3, 11, 20], 3: [11], 11: [20]}, edge_data_format="EDGE_LIST", edge_weight_format="FULL_MATRIX", edge_weight_type="EXPLICIT", fixed_edges={}, name=n,
                node_coords={}, node_coord_type="NO_COORDS", problem_type="TSP", tours=None, edge_weights={7: {3: 1, 11: 2, 20: 3}, 3: {11: 4}, 11: {20: 5}})
            (self.data / n / (n + ".yaml")).write_text(yaml.dump(y))
        self.home = self.top / "out"
        self.home.mkdir()
    def lab(self): return Lab(self.home / "londonaq", londonaq_root=self.data)
    def done(self): shutil.rmtree(self.top)

TRIANGLE, SQUARE = [(3, 7), (11, 7), (3, 11)], [(7, 3), (3, 11), (20, 11), (7, 20)]
WORTH = {0: 10, 1: 15}          # prize of the answer to vial i % 2
PAY = {0: 7, 1: 13}             # its cost
def answer(i): return [TRIANGLE, SQUARE][i % 2]

def vials(n, quota=lambda i: 3):
    out = []
    for i in range(n):
        out.append(vial.Vial(uuid=UUID(int=100 + i), data_config=vial.DataConfig(dataset=DatasetName.londonaq, cost_function="EXPLICIT", graph_name="laqtinyA", quota=quota(i), root=7),
            model_params=vial.ModelParams(algorithm=AlgorithmName.solve_pctsp, is_exact=True, is_heuristic=False, is_relaxation=False, branching_max_depth=-1, branching_strategy=0, cost_cover_disjoint_paths=False,
                cost_cover_shortest_path=False, sec_disjoint_tour=True, sec_lp_gap_improvement_threshold=0.01, sec_maxflow_mincut=True, sec_max_tailing_off_iterations=-1, sec_sepafreq=1, time_limit=100.0),
            preprocessing=vial.Preprocessing(disjoint_path_cutoff=False, remove_leaves=False, remove_disconnected_components=False, remove_one_connected_components=False, shortest_path_cutoff=False)))
    return out
def experiment(vs): return vial.Experiment.model_construct(name=ExperimentName.dryrun, vials=vs, timestamp=datetime(2024, 1, 2))

class Solver:
    """stand-in for the compiled solver: notes which vials it is asked to solve; may fail"""
    def __init__(self, vs, fails=None):
        self.index = {str(v.uuid): i for i, v in enumerate(vs)}
        self.ran, self.dirs, self.fails = [], {}, fails or (lambda i: False)
        self.calls = Calls(self.reply)
        self.error = lambda: RuntimeError("the solver fails")
    def reply(self, d):
        i = self.index[d["name"]]
        self.ran.append(i)
        self.dirs[i] = Path(d["dir"])
        if self.fails(i): raise self.error()
        return list(answer(i))

def good(r, v, i):
    check(r.vial_uuid == v.uuid, "the result belongs to its vial")
    check(r.prize == WORTH[i % 2] and r.objective == PAY[i % 2], "prize and objective of the result")
    check(norm(r.edge_list) == norm(answer(i)), "the edges of the result")

# ---------------------------------------------------------------- P47: batches
@harness
def p_nbatches():
    n, bs = sym_int("vials", 0, 10 ** 6), pick("batch size", list(range(1, 65)) + [100, 1000, 10 ** 6])
    nb = labm.get_nbatches(n, bs)
    check(land(nb >= 0, nb * bs >= n), "every vial is in a batch")
    check(implies(n > 0, (nb - 1) * bs < n), "no batch is empty")
    check(implies(n == 0, nb == 0), "no vials, no batches")
    reach("end")

@harness
def p_batch():
    """one batch is exactly the asked-for window"""
    n = choice("vials", 5)
    lo, size = sym_int("start", 0, 6), sym_int("size", 1, 7)
    room, vs = Room(), vials(n)
    s = Solver(vs)
    rs = room.lab().run_batch(experiment(vs), lo, size)
    want = [i for i in range(n)]
    for i in range(n): check(iff(i in s.ran, land(lo <= i, i < lo + size)), "a batch is the vials from its start to before its end")
    check(s.ran == sorted(set(s.ran)), "each once and in order")
    check([r.vial_uuid for r in rs] == [vs[i].uuid for i in s.ran], "a batch returns its results in order")
    for r, i in zip(rs, s.ran): good(r, vs[i], i)
    room.done()
    reach("some" if s.ran else "nothing")

@harness
def p_batches():
    """all batches together run every vial once"""
    n, size = choice("vials", 7), sym_int("size", 1, 8)
    room, vs = Room(), vials(n)
    s = Solver(vs)
    nb = labm.get_nbatches(n, size)
    order = list(range(nb))
    if choice("backwards", 2): order.reverse()
    for b in order: room.lab().run_batch(experiment(vs), b * size, size)
    check(sorted(s.ran) == list(range(n)), "every vial is in exactly one batch")
    check(room.lab().missing_vials(experiment(vs), vs) == [], "nothing is missing when all batches are done")
    room.done()
    reach("end")

# ---------------------------------------------------------------- P48: results on disk
def stale(lab, exp, v, i, state):
    """the result file of a vial: absent, cut off somewhere by a crash, or complete"""
    if state == "absent": return
    d = lab.get_vial_dir(exp.name, v.uuid)
    p = vial.Result(vial_uuid=v.uuid, objective=PAY[i % 2], prize=WORTH[i % 2], edge_list=answer(i), start_time=datetime(2024, 1, 2, 3), end_time=datetime(2024, 1, 2, 4)).write_to_json_file(d)
    if state == "cut":
        t = p.read_text()
        p.write_text(t[:choice("cut%d" % i, len(t))])
STATES = ["absent", "cut", "complete"]

@harness
def p_missing():
    """a result counts exactly when it was written completely, wherever a crash cut it off"""
    room, vs = Room(), vials(2, lambda i: sym_int("quota%d" % i, 0, 40))
    exp, lab = experiment(vs), room.lab()
    first = choice("which", 2)
    st = {first: pick("state", STATES), 1 - first: pick("other", ["absent", "complete"])}
    for i in (0, 1): stale(lab, exp, vs[i], i, st[i])
    lab = room.lab()
    whole = [i for i in (0, 1) if st[i] == "complete"]
    miss = [str(v.uuid) for v in lab.missing_vials(exp, vs)]
    check(miss == [str(vs[i].uuid) for i in (0, 1) if i not in whole], "missing are the vials without a complete result")
    rs = lab.read_results_from_file(exp)
    check([r.vial_uuid for r in rs] == [vs[i].uuid for i in whole], "the complete results are read")
    for r, i in zip(rs, whole): good(r, vs[i], i)
    bad = [str(v.uuid) for v in lab.infeasible_vials(exp, vs)]
    for i in (0, 1):
        check(iff(str(vs[i].uuid) in bad, land(i in whole, WORTH[i] < vs[i].data_config.quota)), "infeasible are the results below their quota")
    room.done()
    reach(st[first])

@harness
def p_onlymissing():
    """batches restricted to missing results: whatever is there already, all of them together complete the experiment and no result is made twice"""
    n = 3
    room, vs = Room(), vials(n)
    exp, lab = experiment(vs), room.lab()
    st = [pick("state%d" % i, ["absent", "complete", "empty"]) for i in range(n)]
    for i in range(n):
        stale(lab, exp, vs[i], i, "absent" if st[i] == "absent" else "complete")
        if st[i] == "empty": (lab.get_vial_dir(exp.name, vs[i].uuid) / (str(vs[i].uuid) + ".json")).write_text("")
    size = sym_int("size", 1, 4)
    s = Solver(vs)
    for b in range(labm.get_nbatches(n, size)): room.lab().run_batch(exp, b * size, size, only_missing_results=True)
    check(sorted(s.ran) == [i for i in range(n) if st[i] != "complete"], "exactly the missing vials are run")
    check(lab.missing_vials(exp, vs) == [], "nothing is missing afterwards")
    room.done()
    reach("end")

class Odd(Exception): pass
ERRORS = [RuntimeError, ValueError, KeyError, AssertionError, TypeError, OSError, FileNotFoundError, NotImplementedError, ZeroDivisionError, networkx.NetworkXError, Odd]
@harness
def p_isolation():
    """a vial that fails does not touch the others, a repetition replaces results"""
    n = choice("vials", 3) + 1
    room, vs = Room(), vials(n)
    exp, lab = experiment(vs), room.lab()
    bits = [sym_bool("fails%d" % i) for i in range(n)]
    for i in range(n): stale(lab, exp, vs[i], i + 1, pick("before%d" % i, ["absent", "complete"]) if i < 2 else "absent")
    old = {i for i in range(n) if lab.missing_vials(exp, [vs[i]]) == []}
    s = Solver(vs, lambda i: bits[i])
    kind = []
    def error():       # every failing vial of a path fails in the same way
        if not kind: kind.append(pick("error", ERRORS))
        return kind[0]("the solver fails")
    s.error = error
    rs = lab.run_experiment(exp)
    ok = [i for i in range(n) if not bits[i]]
    check(s.ran == list(range(n)), "every vial is tried, in order")
    check([r.vial_uuid for r in rs] == [vs[i].uuid for i in ok], "the results of the vials that worked")
    for r, i in zip(rs, ok):
        good(r, vs[i], i)
        again = vial.Result.read_from_json_file(lab.get_vial_dir(exp.name, vs[i].uuid), vs[i].uuid)
        check(again == r, "a result reads back as it was")
    dirs = [s.dirs[i] for i in s.ran]
    check(len(set(dirs)) == n, "every vial has a directory of its own")
    miss = [v.uuid for v in room.lab().missing_vials(exp, vs)]
    check(miss == [vs[i].uuid for i in range(n) if i not in ok and i not in old], "missing are the vials that never worked")
    lab.write_results_to_file(exp.name, rs)
    back = json.loads((lab.get_experiment_dir(exp.name) / labm.RESULT_FILENAME).read_text())
    check([vial.Result(**b) for b in back] == rs, "the copy of all results is complete")
    room.done()
    reach("all" if len(ok) == n else "some failed")

@harness
def p_expfile():
    """an experiment reads back as it was written; the list of the missing ones does not replace it"""
    room = Room()
    quotas = [pick("quota", [0, 1, 7, 10 ** 15]), 4]
    vs = vials(choice("vials", 3), lambda i: quotas[i])
    exp = vial.Experiment(name=pick("name", list(ExperimentName)), vials=vs, timestamp=datetime(2024, 1, 2, 3, 4, 5, 678))
    part = vial.Experiment(name=exp.name, vials=[v for i, v in enumerate(vs) if choice("keep%d" % i, 2)], timestamp=exp.timestamp)
    lab = room.lab()
    for later in ([False, True], [True, False])[choice("order", 2)]:
        lab.write_experiment_to_file(part if later else exp, only_missing_results=later)
    lab = room.lab()
    check(lab.read_experiment_from_file(exp.name) == exp, "the experiment reads back")
    check(lab.read_experiment_from_file(exp.name, only_missing_results=True) == part, "the missing part reads back")
    other = [n for n in ExperimentName if n != exp.name][0]
    try: lab.read_experiment_from_file(other)
    except FileNotFoundError: reach("none")
    else: check(False, "an experiment that was never written is read")
    room.done()
    reach("end")
