from harness import harness
from fix import *
import itertools, sys
from tspwplib import asymmetric_from_undirected, biggest_vertex_id_from_graph, split_head
import pctsp.suurballe.suurballe as sb
import pctsp.preprocessing.preprocessing as pre
import pctsp.algorithms.heuristic as heuristic

BIG = 10 ** 12
def maps(g, root):
    big = biggest_vertex_id_from_graph(g.nx)
    tree = sb.suurballe_shortest_vertex_disjoint_paths(asymmetric_from_undirected(g.nx), split_head(big, root), weight="cost")
    return pre.vertex_disjoint_cost_map(tree, big), pre.undirected_vertex_disjoint_paths_map(tree, big)

def disjoint(g, root):
    """the maps that run_algorithm builds, against all cycles through the root and each vertex"""
    cm, pm = maps(g, root)
    observe("cost", cm)
    observe("paths", pm)
    check(set(cm) == set(pm), "the cost map and the path map have different vertices")
    cyc = [c for c in cycles_through(g.names, root) if present(g, c) is not False]
    for v in g.names:
        if v == root: continue
        mine = [c for c in cyc if v in c]
        check(iff(v in cm, lor([present(g, c) for c in mine])), "a vertex has a pair of disjoint paths exactly when a cycle runs through it and the root")
        if v not in cm: continue
        reach("pair")
        check(land([implies(present(g, c), cm[v] <= cost_of(g, c)) for c in mine]), "the pair of disjoint paths is not a cheapest one")
        p, q = pm[v]
        check(len(p) > 1 and len(q) > 1 and p[0] == q[0] == root and p[-1] == q[-1] == v, "both paths run from the root to the vertex")
        check(len(set(p)) == len(p) and len(set(q)) == len(q) and not set(p[1:-1]) & set(q[1:-1]) and p != q, "the paths are simple and share only their ends")
        check(land(present(g, p), present(g, q)), "a path uses an edge the graph lacks")
        check(cost_of(g, p) + cost_of(g, q) == cm[v], "the cost of the pair is not the cost of its edges")

@harness
def p_sb4():
    disjoint(graph(range(4), cost=(1, BIG)), choice("root", 4))
@harness
def p_sb4z():
    disjoint(graph(range(4), cost=(0, BIG)), choice("root", 4))
@harness
def p_sb5w():   # wheel-like: 5 vertices, 7 edges
    disjoint(shape(range(5), [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (2, 4), (1, 4)], cost=(1, BIG)), choice("root", 5))
@harness
def p_sb6():    # prism without an edge
    disjoint(shape(range(6), [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)], cost=(1, BIG)), choice("root", 6))
K4 = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
@harness
def p_k4(): disjoint(shape(range(4), K4, cost=(1, BIG)), 0)
@harness
def p_k4e(): disjoint(shape(range(4), K4[:5], cost=(1, BIG)), choice("root", 4))
@harness
def p_c5c(): disjoint(shape(range(5), [(0,1),(1,2),(2,3),(3,4),(4,0),(1,3)], cost=(1, BIG)), choice("root", 5))
@harness
def p_c5r(): disjoint(shape(range(5), [(0,1),(1,2),(2,3),(3,4),(4,0),(1,3)], cost=(1, BIG)), 0)

# larger graphs: costs spread out and fixed, except for two edges that take every cost
def spread(n, seed, drop):
    """a connected graph on n vertices with unlike fixed costs"""
    x, es = seed, {}
    for u in range(n):
        for v in range(u + 1, n):
            x = (x * 1103515245 + 12345) % 2 ** 31
            if (x >> 8) % 100 >= drop or v == u + 1: es[u, v] = 1 + (x >> 16) % 97
    return es

def two(n, seeds, drop, pairs, hi=BIG):
    es = spread(n, seeds[choice("graph", len(seeds))], drop)
    ks = sorted(es)
    a = choice("edge", pairs)
    one, other = ks[(5 * a) % len(ks)], ks[(5 * a + 1 + a // len(ks) * 3 + a % 3) % len(ks)]
    c1, c2 = sym_int("c1", 1, hi), sym_int("c2", 1, hi)
    disjoint(shape(range(n), ks, cost=lambda u, v: c1 if (u, v) == one else c2 if (u, v) == other else es[u, v]), 0)
@harness
def p_sb6s(): two(6, range(1, 4), 30, 10)
@harness
def p_sb6t(): two(6, range(1, 25), 30, 15)
@harness
def p_sb7t(): two(7, range(50, 70), 40, 20)

# the graphs of the data sets have a self loop without cost at every vertex
def looped(n, es): return list(es) + [(v, v) for v in range(n)]
@harness
def p_k4el():
    c = {}
    def cost(u, v): return 0 if u == v else sym_int("c_%s_%s" % (u, v), 1, BIG)
    disjoint(shape(range(4), looped(4, K4[:5]), cost=cost), choice("root", 4))
@harness
def p_sb6sl():
    es = spread(6, 2 + choice("graph", 2), 30)
    ks = sorted(es)
    one, c1 = ks[choice("edge", len(ks))], sym_int("c1", 1, BIG)
    disjoint(shape(range(6), looped(6, ks), cost=lambda u, v: 0 if u == v else c1 if (u, v) == one else es[u, v]), 0)
