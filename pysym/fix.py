"""Fixtures: graphs whose edges are solver variables, the stubbed extension module, tours and cycles."""
import itertools, sys, types, os
from collections.abc import MutableMapping
import networkx as nx
import engine as E
from engine import *

# ---------------------------------------------------------------- the extension module
# The compiled module needs SCIP, which is not installed; its behaviour is the subject of P36 and P37.
# Here a recording stand-in takes its place.
BINDINGS = ["collapse_bind", "extension_unitary_gain_bind", "extension_until_prize_feasible_bind", "path_extension_bind", "path_extension_collapse_bind",
    "path_extension_until_prize_feasible_bind", "solve_pctsp_bind", "basic_solve_pctsp_bind", "unitary_gain_bind", "unitary_loss_bind"]
lib = types.ModuleType("pctsp.libpypctsp")
def _unset(*a, **k): raise RuntimeError("extension module called unexpectedly")
lib.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith("__") else _unset
sys.modules["pctsp.libpypctsp"] = lib

def bind(**fs):
    """install stand-ins for exported functions, wherever they were imported to"""
    for name, f in fs.items():
        setattr(lib, name, f)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("pctsp.") and name in getattr(m, "__dict__", {}):
                setattr(m, name, f)

# ---------------------------------------------------------------- lazily decided graphs
class Nbrs(MutableMapping):
    def __init__(self, g, v): self.g, self.v = g, v
    def __contains__(self, w): return w in self.g.pos and self.g.has(self.v, w)
    def __getitem__(self, w):
        if w in self: return self.g.data_of(self.v, w)
        raise KeyError(w)
    def __iter__(self):
        for w in self.g.names:
            if self.g.has(self.v, w): yield w
    def __len__(self): return sum(1 for _ in self)
    def __setitem__(self, w, d): raise NotImplementedError
    def __delitem__(self, w): raise NotImplementedError
    def copy(self): return {w: self[w] for w in self}

class Adj(MutableMapping):
    def __init__(self, g): self.g = g
    def __contains__(self, v): return v in self.g.pos
    def __getitem__(self, v):
        if v not in self.g.pos: raise KeyError(v)
        return Nbrs(self.g, v)
    def __iter__(self): return iter(self.g.names)
    def __len__(self): return len(self.g.names)
    def __setitem__(self, w, d): raise NotImplementedError
    def __delitem__(self, w): raise NotImplementedError

class LazyGraph(nx.Graph):
    """an undirected graph in which the presence of every edge is a solver variable, decided only when looked at"""
    def __init__(self, names=(), bits=None, edge_data=None, node_data=None):
        super().__init__()
        self.names = list(names)
        self.pos = {v: i for i, v in enumerate(self.names)}
        self.bits = bits or {}
        self.edge_data = edge_data or {}
        self._node = {v: (node_data or {}).get(v, {}) for v in self.names}
        self._adj = Adj(self)
    def key(self, u, v): return (u, v) if self.pos[u] <= self.pos[v] else (v, u)
    def has(self, u, v):
        b = self.bits.get(self.key(u, v), False)
        return bool(b)
    def data_of(self, u, v): return self.edge_data.setdefault(self.key(u, v), {})
    def plain(self):
        g = nx.Graph()
        for v, d in self._node.items(): g.add_node(v, **d)
        for u, nbrs in self._adj.items():
            for v, d in nbrs.items(): g.add_edge(u, v, **d)
        return g
    def to_directed(self, as_view=False): return self.plain().to_directed()
    def copy(self, as_view=False): return self.plain()
    def __deepcopy__(self, m): return self.plain()
    def to_undirected_class(self): return nx.Graph

class G:
    """harness view: names, bits (conditions), costs, prizes; .nx is what the code under test sees"""
    def __init__(self, names, bits, cost=None, prize=None):
        self.names, self.bits, self.cost, self.prize = list(names), bits, cost or {}, prize or {}
        ed = {k: ({"cost": self.cost[k]} if k in self.cost else {}) for k in bits}
        nd = {v: ({"prize": self.prize[v]} if v in self.prize else {}) for v in self.names}
        if E.SYM and any(issym(b) for b in bits.values()):
            self.nx = LazyGraph(self.names, bits, ed, nd)
        else:
            g = nx.Graph()
            for v in self.names: g.add_node(v, **nd[v])
            for u, v in itertools.combinations_with_replacement(self.names, 2):
                if bits.get((u, v)): g.add_edge(u, v, **ed[(u, v)])
            self.nx = g
    def bit(self, u, v): return self.bits.get((u, v), self.bits.get((v, u), False))
    def c(self, u, v): return self.cost[(u, v)] if (u, v) in self.cost else self.cost.get((v, u), 0)

def graph(names, cost=None, prize=None, loops=False, fixed=None, pre=""):
    """every graph on the given names; fixed: edges that are always there (others variable) or None;
    cost/prize: (lo, hi) ranges of symbolic weights, or (cost) a function of the edge"""
    names = list(names)
    bits, cs, ps = {}, {}, {}
    for i, u in enumerate(names):
        for v in names[i if loops else i + 1:]:
            k = (u, v)
            if fixed is not None and (k in fixed): bits[k] = True
            else: bits[k] = sym_bool("%se_%s_%s" % (pre, u, v))
            if callable(cost): cs[k] = cost(u, v)
            elif cost: cs[k] = sym_int("%sc_%s_%s" % (pre, u, v), *cost)
    if prize:
        for v in names: ps[v] = sym_int("%sp_%s" % (pre, v), *prize)
    return G(names, bits, cs, ps)

def shape(names, edges, cost=None, prize=None, pre=""):
    """one fixed graph with symbolic weights"""
    bits = {tuple(e): True for e in edges}
    order = {v: i for i, v in enumerate(names)}
    bits = {(u, v) if order[u] <= order[v] else (v, u): True for u, v in bits}
    cs = {k: cost(*k) if callable(cost) else sym_int("%sc_%s_%s" % (pre, k[0], k[1]), *cost) for k in bits} if cost else {}
    ps = {v: sym_int("%sp_%s" % (pre, v), *prize) for v in names} if prize else {}
    return G(names, bits, cs, ps)

# ---------------------------------------------------------------- cycles and paths of the complete graph
def cycles_through(names, r):
    """every simple cycle through r of the complete graph (3 vertices or more), one orientation"""
    others = [v for v in names if v != r]
    for k in range(2, len(others) + 1):
        for p in itertools.permutations(others, k):
            if names.index(p[0]) < names.index(p[-1]):
                yield [r] + list(p) + [r]

def edges_of(walk): return list(zip(walk[:-1], walk[1:]))

def present(g, walk): return land([g.bit(u, v) for u, v in edges_of(walk)])

def cost_of(g, walk): return total(g.c(u, v) for u, v in edges_of(walk))

def is_cycle(walk, r):
    return len(walk) >= 4 and walk[0] == r and walk[-1] == r and len(set(walk)) == len(walk) - 1

def scratch(tag):
    """a fresh directory for this path"""
    import tempfile
    from pathlib import Path
    return Path(tempfile.mkdtemp(prefix=tag, dir=os.environ["PYSYM_TMP"]))

import tspwplib.converter
shim(tspwplib.converter)
