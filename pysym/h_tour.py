"""Start tours: from vertex disjoint paths, at random."""
from harness import harness
from fix import *
import random, itertools
import pctsp.algorithms.heuristic as heuristic
import h_suurballe

BIG = 10 ** 12

def cyc_equal(t, w):
    """the closed tours t and w visit the same edges"""
    return sorted(map(sorted, edges_of(t))) == sorted(map(sorted, edges_of(w)))

def joined(p): return p[0] + p[1][::-1][1:]
def simple(t): return len(set(t)) == len(t) - 1

def prize_of(prize, t): return total(prize[v] for v in sorted(set(t)))

# ---- joining two disjoint paths
PATHS = [[], [0], [0, 1], [0, 2, 1], [0, 3, 2, 1], [0, 2], [3, 1], [1, 0]]
@harness
def p_join():
    p, q = list(pick("first", PATHS)), list(pick("second", PATHS))
    p0, q0 = list(p), list(q)
    bad = len(p) <= 1 or len(q) <= 1 or p[0] != q[0] or p[-1] != q[-1]
    try:
        t = heuristic.tour_from_vertex_disjoint_paths((p, q))
    except ValueError:
        check(bad, "two paths with the same ends are refused")
        reach("refused")
        return
    check(not bad, "paths that are empty or end differently are joined")
    check(list(t) == joined((p0, q0)), "the tour is the first path followed by the second one backwards")
    check(p == p0 and q == q0, "the given paths are changed")
    reach("joined")

# ---- Suurballe's heuristic over arbitrary maps
def maps(n, root_entry, extra=()):
    """pairs of disjoint paths from 0 to some of the others, symbolic costs"""
    cyc = list(cycles_through(list(range(n)), 0))
    pm, cm = {}, {}
    order = [0] + list(range(1, n)) if choice("root_first", 2) else list(range(1, n)) + [0]
    for v in order:
        if v == 0:
            if not root_entry: continue
            k = choice("root_entry", 3)
            if not k: continue
            pm[0] = ([0, k, 0], [0, n - 1 if k == 1 else 1, 0])
        else:
            mine = [c for c in cyc if v in c]
            mine = mine[:2] + mine[-1:] if n > 3 else mine
            k = choice("pair_%d" % v, len(mine) + 1)
            if not k: continue
            c = mine[k - 1]
            i = c.index(v)
            pm[v] = (c[:i + 1], c[i:][::-1])
        cm[v] = sym_int("cost_%d" % v, 0, BIG)
    return cm, pm

def verify_heuristic(t, prize, quota, cm, pm):
    good = [v for v in pm if simple(joined(pm[v]))]
    feas = {v: prize_of(prize, joined(pm[v])) >= quota for v in good}
    if not t:
        check(lnot(lor(list(feas.values()))), "no tour although a pair of disjoint paths makes a feasible one")
        return
    check(is_cycle(t, 0), "the result is not a closed simple tour of the root")
    same = [v for v in good if cyc_equal(joined(pm[v]), t)]
    check(lor([land(feas[v], land([implies(feas[w], cm[v] <= cm[w]) for w in good])) for v in same]), "the result is not a cheapest feasible tour among the pairs")

def sbl(n):
    prize = {v: sym_int("prize_%d" % v, 0, BIG) for v in range(n)}
    quota = sym_int("quota", 0, 10 * BIG)
    cm, pm = maps(n, True)
    pm0 = {v: (list(p), list(q)) for v, (p, q) in pm.items()}
    t = heuristic.suurballes_heuristic(prize, quota, cm, pm)
    observe("tour", list(t))
    reach("tour" if t else "none")
    verify_heuristic(t, prize, quota, cm, pm0)
    check(pm == pm0, "the map of paths is changed")

@harness
def p_sbl3(): sbl(3)
@harness
def p_sbl4(): sbl(4)

def sbi(n):
    prize = {v: sym_int("prize_%d" % v, 0, BIG) for v in range(n)}
    quota = sym_int("quota", 0, 10 * BIG)
    cm, pm = maps(n, True)
    verify_init(heuristic.suurballes_tour_initialization(prize, quota, cm, pm), prize, quota, cm, pm)

def verify_init(t, prize, quota, cm, pm):
    good = [joined(pm[v]) for v in pm if simple(joined(pm[v]))]
    worth = [prize_of(prize, x) for x in good]
    some = lor([w >= quota for w in worth])
    observe("tour", list(t))
    if not t:
        check(lnot(lor([w > 0 for w in worth])), "no start tour although a pair of disjoint paths makes one")
        reach("none")
        return
    check(is_cycle(t, 0), "the start tour is not a closed simple tour of the root")
    check(lor([cyc_equal(x, t) for x in good]), "the start tour is not one of the pairs")
    mine = prize_of(prize, t)
    check(land([implies(lnot(some), w <= mine) for w in worth]), "when no pair reaches the quota the start tour collects the most prize")
    if bool(mine >= quota):
        reach("feasible")
        verify_heuristic(t, prize, quota, cm, pm)
    else:
        reach("short")
        check(lnot(some), "the start tour misses the quota although a pair reaches it")

@harness
def p_init3(): sbi(3)
@harness
def p_init4(): sbi(4)

def chain(g, cost):
    """the real maps of a graph with fixed costs, symbolic edges and prizes"""
    quota = sym_int("quota", 0, 10 * BIG)
    prize = g.prize
    cm, pm = h_suurballe.maps(g, 0)
    t = heuristic.suurballes_tour_initialization(prize, quota, cm, pm)
    verify_init(t, prize, quota, cm, pm)
    if t: check(present(g, t), "the start tour uses an edge the graph lacks")

@harness
def p_start4():
    chain(graph(range(4), cost=lambda u, v: 3 + (5 * u + 7 * v) % 11, prize=(0, BIG)), None)
@harness
def p_start5():     # two triangles that share the root, with optional chords
    chain(graph(range(5), cost=lambda u, v: 3 + (5 * u + 7 * v) % 11, prize=(0, BIG), fixed=[(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (3, 4)]), None)

# ---- random tours: the generator's answers are solver variables
class Dice:
    """stands for the module random: the i-th answer after seeding is a variable of its own, the same one for the same seed"""
    def __init__(self): self.s, self.i, self.memo = None, 0, {}
    def seed(self, a=None, version=2): self.s, self.i = a, 0
    def pick(self, n):
        k = (self.s, self.i, n)
        self.i += 1
        if k not in self.memo: self.memo[k] = choice("draw_%s_%d_%d" % k, n)
        return self.memo[k]
    def choice(self, xs):
        if not len(xs): raise IndexError("Cannot choose from an empty sequence")
        return xs[self.pick(len(xs))]
    def randrange(self, a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        if not len(r): raise ValueError("empty range for randrange()")
        return r[self.pick(len(r))]
    def randint(self, a, b): return self.randrange(a, b + 1)
    def sample(self, xs, k):
        xs, r = list(xs), []
        if k > len(xs): raise ValueError("Sample larger than population or is negative")
        for _ in range(k): r.append(xs.pop(self.pick(len(xs))))
        return r
    def shuffle(self, xs): xs[:] = self.sample(xs, len(xs))
    def choices(self, xs, k=1): return [self.choice(xs) for _ in range(k)]
DICE = [None]
class Rng:
    def __init__(self, seed=None):
        self.d = Dice()
        self.d.memo = DICE[0].memo
        self.d.seed(seed)
    def __getattr__(self, n): return getattr(self.d, n)
def roll():
    DICE[0] = Dice()
    for f in ("seed", "choice", "randrange", "randint", "sample", "shuffle", "choices"):
        setattr(random, f, lambda *a, _f=f, **k: getattr(DICE[0], _f)(*a, **k))
    random.Random = Rng

def randtour(n):
    roll()
    g = shape(range(n), [(u, v) for u in range(n) for v in range(u)], prize=(0, BIG))
    root, quota = choice("root", n), sym_int("quota", 0, 10 * BIG)
    t = heuristic.random_tour_complete_graph(g.nx, root, quota, seed=choice("seed", 2))
    observe("tour", list(t))
    check(is_cycle(t, root), "the result is not a closed simple tour of the root")
    check(set(t) <= set(range(n)), "a vertex the graph lacks is visited")
    full = prize_of(g.prize, t) >= quota
    check(lor(full, len(t) == n + 1), "the tour misses the quota although vertices are left")
    if len(t) > 4: check(prize_of(g.prize, t[:-2]) < quota, "the tour goes on although the quota is reached")
    reach("full" if len(t) == n + 1 else "part")
@harness
def p_rand4(): randtour(4)
@harness
def p_rand5(): randtour(5)

@harness
def p_randpair():
    roll()
    n = 4
    pm = {}
    for v in range(n):
        k = choice("entry_%d" % v, 4 if v else 2)
        if k == 1: pm[v] = ([0, v, 0], [0, 1 + v % 3, 0]) if v == 0 else ([0, v], [0, 1 + v % 3, v])
        if k == 2: pm[v] = ([0, v], [0, v])
        if k == 3: pm[v] = ([0, 1 + v % 3, v], [0, 1 + (v + 1) % 3, v])
    pm0 = {v: (list(p), list(q)) for v, (p, q) in pm.items()}
    good = [joined(pm[v]) for v in pm if v and len(pm[v][0]) + len(pm[v][1]) >= 5]
    try: t = heuristic.random_tour_from_disjoint_paths_map(pm, 0, seed=0)
    except ValueError:
        check(not good, "refused although there is a pair of disjoint paths that makes a tour")
        reach("refused")
        return
    observe("tour", list(t))
    check(is_cycle(t, 0), "the result is not a closed simple tour of the root")
    check(any(cyc_equal(t, x) for x in good), "the result is not the tour of one of the pairs")
    check(pm == pm0, "the map of paths is changed")
    reach("tour")
