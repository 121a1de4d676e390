from harness import harness
from fix import *
import pctsp.algorithms.heuristic as heuristic
import pctsp.preprocessing.preprocessing as pre

def find_cycle(n, root, loops=False):
    g = graph(range(n), loops=loops)
    r = heuristic.find_cycle_from_bfs(g.nx, root)
    observe("cycle", list(r))
    if r:
        reach("cycle")
        check(is_cycle(r, root), "the result is not a closed simple cycle through the root")
        check(present(g, r), "the cycle uses an edge the graph lacks")
    else:
        reach("none")
        check(lnot(lor([present(g, c) for c in cycles_through(list(range(n)), root)])), "no cycle returned although one passes through the root")

@harness
def p_cycle4(): find_cycle(4, choice("root", 4))
@harness
def p_cycle4l(): find_cycle(4, choice("root", 4), loops=True)
@harness
def p_cycle5(): find_cycle(5, choice("root", 5))
def cycles_of(edges, r):
    """every simple cycle through r of the graph with these edges, in both directions"""
    near = {}
    for u, v in edges:
        near.setdefault(u, []).append(v)
        near.setdefault(v, []).append(u)
    def go(walk):
        for v in near[walk[-1]]:
            if v == r and len(walk) > 2: yield walk + [r]
            elif v not in walk: yield from go(walk + [v])
    return go([r])
def ring(n, chords):
    """any part of a long ring with chords: cycles of many vertices"""
    names = list(range(n))
    edges = [tuple(sorted((i, (i + 1) % n))) for i in names] + chords
    g = G(names, {e: sym_bool("e_%d_%d" % e) for e in edges})
    r = heuristic.find_cycle_from_bfs(g.nx, 0)
    observe("cycle", list(r))
    if r:
        reach("cycle")
        check(is_cycle(r, 0), "the result is not a closed simple cycle through the root")
        check(present(g, r), "the cycle uses an edge the graph lacks")
        if len(r) > 8: reach("long")
    else:
        reach("none")
        check(lnot(lor([present(g, c) for c in cycles_of(edges, 0)])), "no cycle returned although one passes through the root")
@harness
def p_ring8(): ring(8, [(2, 6)])
@harness
def p_ring9(): ring(9, [(1, 4), (3, 7)])
@harness
def p_cycle6(): find_cycle(6, choice("root", 6))

def subsets(names):
    names = list(names)
    for m in range(1 << len(names)):
        yield [v for i, v in enumerate(names) if m >> i & 1]

def induced(g, h, kept):
    """h is exactly the subgraph of g induced by kept, with its attributes"""
    check(set(h.nodes()) == set(kept), "vertex set")
    for i, u in enumerate(g.names):
        for v in g.names[i:]:
            if u in kept and v in kept:
                check(iff(g.bit(u, v), h.has_edge(u, v)), "an edge between kept vertices is lost or invented")
                if h.has_edge(u, v) and g.cost:
                    check(h.edges[u, v]["cost"] == g.c(u, v), "the cost of a kept edge changed")
    if g.prize:
        for v in kept: check(h.nodes[v]["prize"] == g.prize[v], "the prize of a kept vertex changed")

def leaves(n, loops):
    g = graph(range(n), loops=loops, cost=(0, None), prize=(0, None))
    h = pre.remove_leaves(g.nx)
    kept = sorted(h.nodes())
    observe("kept", kept)
    reach("some" if kept else "none")
    deg = lambda v, s: count(g.bit(v, w) for w in s if w != v)
    for v in kept: check(deg(v, kept) >= 2, "a leaf is left")
    check(land([lnot(land([deg(v, s) >= 2 for v in s])) for s in subsets(g.names) if s and not set(s) <= set(kept)]), "a vertex of a subgraph without leaves was removed")
    induced(g, h, kept)

@harness
def p_leaves4(): leaves(4, True)
@harness
def p_leaves5(): leaves(5, False)

def components(n):
    g = graph(range(n), loops=True if n < 5 else False, cost=(0, None), prize=(0, None))
    root = choice("root", n)
    h = pre.remove_components_disconnected_from_vertex(g.nx, root)
    kept = sorted(h.nodes())
    observe("kept", kept)
    reach("all" if len(kept) == n else "some")
    check(root in kept, "the vertex itself was removed")
    out = lambda s: lor([g.bit(u, v) for u in s for v in g.names if v not in s])
    check(lnot(out(kept)), "a vertex connected to the given one was removed")
    for s in subsets(kept):
        if root in s and len(s) < len(kept):
            check(lor([g.bit(u, v) for u in s for v in kept if v not in s]), "a vertex not connected to the given one was kept")
    induced(g, h, kept)

@harness
def p_components4(): components(4)
@harness
def p_components5(): components(5)

def oneconn(n, roots, cost=None, loops=False):
    g = graph(range(n), cost=cost, prize=cost, loops=loops)
    root = choice("root", roots)
    before = None
    h = pre.remove_one_connected_components(g.nx, root)
    kept = sorted(h.nodes())
    observe("kept", kept)
    reach("some" if len(kept) > 1 else "root only")
    check(root in kept, "the root was removed")
    cyc = list(cycles_through(g.names, root))
    for v in g.names:
        if v == root: continue
        on = lor([present(g, c) for c in cyc if v in c])
        check(iff(on, v in kept), "a vertex is kept exactly when a simple cycle runs through it and the root")
    induced(g, h, kept)

@harness
def p_oneconn4(): oneconn(4, 4, (0, None))
@harness
def p_oneconn5(): oneconn(5, 5)
@harness
def p_oneconn4l(): oneconn(4, 4, (0, None), loops=True)
