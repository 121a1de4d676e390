"""Symbolic execution of real Python code: proxies over z3 terms, re-execution path exploration.

Symbolic mode (SYM true, under the z3 interpreter): inputs are z3 integers; a condition on one that the
code under test turns into a bool is decided by the solver, and when both outcomes are possible the path
is split.  Concrete mode (the project's own interpreter, no z3): inputs are the recorded values, so the
same harness replays a path on the real code with ordinary ints.
"""
import os, signal, sys, time, traceback

SYM = False
z3 = None

class Stop(BaseException):
    """ends the current path"""

class Infeasible(Stop): pass
class Violated(Stop):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg
class Slow(Stop): pass
class Unknown(Stop): pass

class State:
    """one path"""
    def __init__(self, prefix, deadline=0):
        self.prefix, self.i, self.trace, self.pending = prefix, 0, [], []
        self.vars, self.order, self.model = {}, [], None
        self.known = {}      # decided atoms
        self.range = {}      # linear form -> [lo, hi] known on this path
        self.obs, self.reach = [], {}
        if SYM:
            self.solver = z3.SimpleSolver()
            self.solver.set("timeout", 120000)
    def add(self, f):
        self.solver.add(to_z3(f))
    def check(self, *a):
        t0 = time.time()
        r = self.solver.check(*[to_z3(f) for f in a])
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t0
        if r == z3.unknown:
            STATS["unknowns"] += 1
            raise Unknown()
        return r == z3.sat
    def take_model(self):
        m = self.solver.model()
        self.model = {d.name(): m[d].as_long() for d in m.decls() if z3.is_int_value(m[d])}
        for n in self.order:
            self.model.setdefault(n, 0)
        self.zmodel = m
    def need_model(self):
        if self.model is None:
            if not self.check():
                raise Infeasible()
            self.take_model()

STATS = {}
def reset_stats():
    STATS.clear()
    STATS.update(queries=0, solver_s=0.0, unknowns=0, forks=0, asserts=0, assert_queries=0)
reset_stats()
S = None           # current path
CONC = None        # concrete inputs

def sym_init():
    global SYM, z3
    import z3 as _z
    z3, SYM = _z, True
    z3.set_param("smt.random_seed", 1)

# ---------------------------------------------------------------- formulas
# linear form: (((atom, coefficient), ...) sorted, constant); an atom is an input's name or a z3 term
# formula: True/False, ("le", form) form <= 0, ("eq", form) form == 0, ("not", f), ("and", fs), ("or", fs), ("z", term)
ZC = {}            # z3 translations
ATOM = {}          # name of an opaque atom -> z3 term
def atom_of(e):
    """a linear form standing for an integer z3 term"""
    e = z3.simplify(e)
    if z3.is_int_value(e): return ((), e.as_long())
    n = "#%d" % e.get_id()
    ATOM[n] = e
    return (((n, 1),), 0)

def zvar(n):
    return ATOM[n] if n[0] == "#" else z3.Int(n)

def form_z3(f):
    r = ZC.get(f)
    if r is None:
        t, k = f
        xs = [zvar(n) if c == 1 else c * zvar(n) for n, c in t]
        if k or not xs: xs.append(z3.IntVal(k))
        r = ZC[f] = xs[0] if len(xs) == 1 else z3.Sum(xs)
    return r

def to_z3(f):
    if isinstance(f, bool): return z3.BoolVal(f)
    r = ZC.get(f)
    if r is None:
        o = f[0]
        if o == "le": r = form_z3((f[1][0], 0)) <= -f[1][1]
        elif o == "eq": r = form_z3((f[1][0], 0)) == -f[1][1]
        elif o == "not": r = z3.Not(to_z3(f[1]))
        elif o == "and": r = z3.And([to_z3(x) for x in f[1]])
        elif o == "or": r = z3.Or([to_z3(x) for x in f[1]])
        else: r = ATOM[f[1]]
        ZC[f] = r
    return r

def f_add(a, b, m=1):
    """a + m*b"""
    if not b[0]: return (a[0], a[1] + m * b[1])
    if not a[0]: return (tuple((n, c * m) for n, c in b[0]) if m else (), a[1] + m * b[1])
    d = dict(a[0])
    for n, c in b[0]:
        v = d.get(n, 0) + m * c
        if v: d[n] = v
        else: d.pop(n, None)
    return (tuple(sorted(d.items())), a[1] + m * b[1])

def f_scale(a, m):
    return (tuple((n, c * m) for n, c in a[0]) if m else (), a[1] * m)

from math import gcd
def f_le(f):
    """form <= 0 in canonical shape"""
    t, k = f
    if not t: return k <= 0
    g = 0
    for _, c in t: g = gcd(g, c)
    if g != 1:
        t = tuple((n, c // g) for n, c in t)
        k = -((-k) // g)                       # t <= -k  ->  t/g <= floor(-k/g)
    if t[0][1] < 0:                            # t <= -k  <->  not (-t <= k - 1)
        return ("not", ("le", (tuple((n, -c) for n, c in t), 1 - k)))
    return ("le", (t, k))

def f_eq(f):
    t, k = f
    if not t: return k == 0
    g = 0
    for _, c in t: g = gcd(g, c)
    if k % g: return False
    if t[0][1] < 0: g = -g
    if g != 1: t, k = tuple((n, c // g) for n, c in t), k // g
    return ("eq", (t, k))

def f_not(f):
    if isinstance(f, bool): return not f
    return f[1] if f[0] == "not" else ("not", f)

def f_nary(op, fs):
    unit = op == "and"
    out = []
    for f in fs:
        if isinstance(f, bool):
            if f != unit: return f
        elif f[0] == op: out.extend(f[1])
        else: out.append(f)
    if not out: return unit
    out = list(dict.fromkeys(out))
    return out[0] if len(out) == 1 else (op, tuple(out))

def f_z(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    n = "#%d" % e.get_id()
    ATOM[n] = e
    return ("z", n)

def ev_form(f):
    r = f[1]
    m = S.model
    for n, c in f[0]:
        v = m.get(n)
        if v is None:
            v = S.zmodel.eval(zvar(n), model_completion=True).as_long()
            if n[0] == "#": m[n] = v
        r += c * v
    return r

def ev(f):
    """value of a formula in the current model"""
    if isinstance(f, bool): return f
    o = f[0]
    if o == "le": return ev_form(f[1]) <= 0
    if o == "eq": return ev_form(f[1]) == 0
    if o == "not": return not ev(f[1])
    if o == "and": return all(ev(x) for x in f[1])
    if o == "or": return any(ev(x) for x in f[1])
    return z3.is_true(S.zmodel.eval(ATOM[f[1]], model_completion=True))

def decided(f):
    """True/False when the decisions of this path already fix the formula, else None"""
    if isinstance(f, bool): return f
    o = f[0]
    if o in ("le", "eq"):
        t, k = f[1]
        r = S.range.get(t)
        if r is not None:
            if o == "le":
                if r[1] is not None and r[1] <= -k: return True
                if r[0] is not None and r[0] > -k: return False
            else:
                if (r[0] is not None and r[0] > -k) or (r[1] is not None and r[1] < -k): return False
                if r[0] == r[1] == -k: return True
        return S.known.get(f)
    if o == "not":
        d = decided(f[1])
        return None if d is None else not d
    if f in S.known: return S.known[f]
    if o in ("and", "or"):
        unit = o == "and"
        ds = [decided(x) for x in f[1]]
        if (not unit) in ds: return not unit
        if None not in ds: return unit
    return None

def learn(f, d):
    """remember a decision"""
    o = f[0]
    if o == "not": return learn(f[1], not d)
    S.known[f] = d
    if o in ("le", "eq"):
        t, k = f[1]
        r = S.range.setdefault(t, [None, None])
        if o == "le":
            if d: r[1] = -k if r[1] is None else min(r[1], -k)
            else: r[0] = 1 - k if r[0] is None else max(r[0], 1 - k)
        elif d: r[0] = r[1] = -k
        else:
            if r[0] == -k: r[0] += 1
            if r[1] == -k: r[1] -= 1
        # excluded values at the ends
        ch = True
        while ch and r[0] != r[1]:
            ch = False
            if r[0] is not None and S.known.get(("eq", (t, -r[0]))) is False: r[0] += 1; ch = True
            elif r[1] is not None and S.known.get(("eq", (t, -r[1]))) is False: r[1] -= 1; ch = True
    elif (o == "and" and d) or (o == "or" and not d):
        for x in f[1]: learn(x, d)

def branch(f):
    """decide a formula on the current path, splitting the path when both outcomes are possible"""
    s = S
    d = decided(f)
    if d is not None: return d
    flip = False
    if f[0] == "not": f, flip = f[1], True
    if s.i < len(s.prefix):
        d = s.prefix[s.i]
        s.i += 1
        s.trace.append(d)
        s.add(f if d else ("not", f))
        s.model = None
    else:
        s.need_model()
        d = ev(f)
        if s.check(("not", f) if d else f):
            STATS["forks"] += 1
            s.pending.append(s.trace + [not d])
            s.add(f if d else ("not", f))
        s.i += 1
        s.trace.append(d)
    learn(f, d)
    return d != flip

# ---------------------------------------------------------------- proxies
def lin(x):
    """linear form of an integer-like value, or None"""
    if isinstance(x, SymInt): return x.f
    if isinstance(x, SymBool): return atom_of(z3.If(to_z3(x.f), z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, (bool, int)): return ((), int(x))
    if type(x).__module__ == "numpy":
        v = x.item()
        if isinstance(v, int): return ((), int(v))
    if isinstance(x, float) and x.is_integer(): return ((), int(x))
    return None

def real(x):
    """z3 real term of a number, or None"""
    if isinstance(x, SymReal): return x.e
    if isinstance(x, (SymInt, SymBool)): return z3.ToReal(form_z3(lin(x)))
    if type(x).__module__ == "numpy": x = x.item()
    if isinstance(x, (bool, int)): return z3.RealVal(int(x))
    if isinstance(x, float) and x == x and abs(x) != float("inf"):
        n, d = x.as_integer_ratio()
        return z3.RealVal("%d/%d" % (n, d))
    return None

def mkint(f): return f[1] if not f[0] else SymInt(f)
def mkbool(f): return f if isinstance(f, bool) else SymBool(f)
def mkreal(e):
    e = z3.simplify(e)
    return SymReal(e)

def formula(x): return x.f if isinstance(x, SymBool) else bool(x)

class SymBool:
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
    def __bool__(self): return branch(self.f)
    def __and__(self, o): return mkbool(f_nary("and", (self.f, formula(o)))) if isinstance(o, (bool, SymBool)) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return mkbool(f_nary("or", (self.f, formula(o)))) if isinstance(o, (bool, SymBool)) else NotImplemented
    __ror__ = __or__
    def __xor__(self, o): return lnot(self == o) if isinstance(o, (bool, SymBool)) else NotImplemented
    __rxor__ = __xor__
    def __invert__(self): return mkbool(f_not(self.f))
    def __eq__(self, o):
        if isinstance(o, bool): return self if o else mkbool(f_not(self.f))
        if isinstance(o, SymBool):
            return mkbool(f_nary("or", (f_nary("and", (self.f, o.f)), f_nary("and", (f_not(self.f), f_not(o.f))))))
        return self._n() == o
    def __ne__(self, o): return lnot(self == o)
    def __int__(self): return int(bool(self))
    __index__ = __int__
    def __float__(self): return float(bool(self))
    def __hash__(self): return hash(bool(self))
    def _n(self): return mkint(lin(self))
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self._n() / o
    def __rtruediv__(self, o): return o / self._n()
    def __floordiv__(self, o): return self._n() // o
    def __rfloordiv__(self, o): return o // self._n()
    def __mod__(self, o): return self._n() % o
    def __rmod__(self, o): return o % self._n()
    def __neg__(self): return -self._n()
    def __pos__(self): return +self._n()
    def __abs__(self): return self._n()
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o
    def __repr__(self): return repr(bool(self))
    def __format__(self, spec): return format(bool(self), spec)
    def __deepcopy__(self, m): return self
    def __copy__(self): return self
    def __reduce__(self): return (bool, (bool(self),))

def _cmp(a, b, op):
    x, y = lin(a), lin(b)
    if x is not None and y is not None:
        d = f_add(x, y, -1)
        if op == "lt": return mkbool(f_le((d[0], d[1] + 1)))
        if op == "le": return mkbool(f_le(d))
        if op == "eq": return mkbool(f_eq(d))
        d = f_scale(d, -1)
        return mkbool(f_le((d[0], d[1] + 1) if op == "gt" else d))
    x, y = real(a), real(b)
    if x is None or y is None:
        inf = b if isinstance(b, float) and b == b else None
        if inf is not None: return {"lt": inf > 0, "le": inf > 0, "gt": inf < 0, "ge": inf < 0, "eq": False}[op]
        if isinstance(b, float): return False       # nan
        return False if op == "eq" else NotImplemented
    return mkbool(f_z({"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y, "eq": lambda: x == y}[op]()))

def _arith(op, a, b):
    if op == "/":
        x, y = real(a), real(b)
        if x is None or y is None: return NotImplemented
        if (b == 0) if not issym(b) else branch(f_z(y == 0)): raise ZeroDivisionError("division by zero")
        return mkreal(x / y)
    x, y = lin(a), lin(b)
    if isinstance(a, float) or isinstance(b, float): x = None
    if x is None or y is None:
        x, y = real(a), real(b)
        if x is None or y is None: return NotImplemented
        return mkreal(x + y if op == "+" else x - y if op == "-" else x * y)
    if op == "+": return mkint(f_add(x, y))
    if op == "-": return mkint(f_add(x, y, -1))
    if not y[0]: return mkint(f_scale(x, y[1]))
    if not x[0]: return mkint(f_scale(y, x[1]))
    return mkint(atom_of(form_z3(x) * form_z3(y)))

class _Num:
    __slots__ = ()
    def __add__(self, o): return _arith("+", self, o)
    def __radd__(self, o): return _arith("+", o, self)
    def __sub__(self, o): return _arith("-", self, o)
    def __rsub__(self, o): return _arith("-", o, self)
    def __mul__(self, o): return _arith("*", self, o)
    def __rmul__(self, o): return _arith("*", o, self)
    def __truediv__(self, o): return _arith("/", self, o)
    def __rtruediv__(self, o): return _arith("/", o, self)
    def __lt__(self, o): return _cmp(self, o, "lt")
    def __le__(self, o): return _cmp(self, o, "le")
    def __gt__(self, o): return _cmp(self, o, "gt")
    def __ge__(self, o): return _cmp(self, o, "ge")
    def __eq__(self, o): return _cmp(self, o, "eq")
    def __ne__(self, o): return lnot(_cmp(self, o, "eq"))
    def __neg__(self): return _arith("-", 0, self)
    def __pos__(self): return self
    def __abs__(self): return ite(self < 0, -self, self)
    def __bool__(self): return bool(self != 0)
    def __hash__(self): return hash(conc(self))
    def __deepcopy__(self, m): return self
    def __copy__(self): return self
    def __repr__(self): return repr(conc(self))
    def __str__(self): return str(conc(self))
    def __format__(self, spec): return format(conc(self), spec)
    def __float__(self): return float(conc(self))
    def __reduce__(self):
        v = conc(self)
        return (type(v), (v,))

class SymInt(_Num):
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
    def __index__(self): return conc(self)
    def __int__(self): return conc(self)
    def __trunc__(self): return self
    def __ceil__(self): return self
    def __floor__(self): return self
    def __round__(self, n=None): return self
    def __floordiv__(self, o): return _idiv(self, o)[0]
    def __rfloordiv__(self, o): return _idiv(o, self)[0]
    def __mod__(self, o): return _idiv(self, o)[1]
    def __rmod__(self, o): return _idiv(o, self)[1]
    def __divmod__(self, o): return _both(_idiv(self, o))
    def __rdivmod__(self, o): return _both(_idiv(o, self))
    # bit operations: over all values
    def __and__(self, o): return conc(self) & conc(o)
    def __rand__(self, o): return o & conc(self)
    def __or__(self, o): return conc(self) | conc(o)
    def __ror__(self, o): return o | conc(self)
    def __xor__(self, o): return conc(self) ^ conc(o)
    def __rxor__(self, o): return o ^ conc(self)
    def __lshift__(self, o): return conc(self) << conc(o)
    def __rlshift__(self, o): return o << conc(self)
    def __rshift__(self, o): return conc(self) >> conc(o)
    def __rrshift__(self, o): return o >> conc(self)
    def __invert__(self): return -1 - self
    def conjugate(self): return self
    def as_integer_ratio(self): return (self, 1)
    real = numerator = property(lambda self: self)
    imag = property(lambda self: 0)
    denominator = property(lambda self: 1)
    def __pow__(self, o): return conc(self) ** conc(o)
    def __rpow__(self, o): return o ** conc(self)
    def bit_length(self): return conc(self).bit_length()
    def is_integer(self): return True

def _idiv(a, b):
    """floor division and remainder (z3's div rounds so that the remainder is not negative)"""
    if isinstance(a, float) or isinstance(b, float): return divmod(conc(a), conc(b))
    x, y = lin(a), lin(b)
    if x is None or y is None: return NotImplemented, NotImplemented
    if branch(f_eq(y)): raise ZeroDivisionError("integer division or modulo by zero")
    p, q = form_z3(x), form_z3(y)
    d = mkint(atom_of(z3.If(q > 0, p / q, (-p) / (-q))))
    return d, a - b * d

def _both(p): return NotImplemented if p[0] is NotImplemented else p

class SymReal(_Num):
    """an exact real; stands for a float only where the harness states why rounding does not matter"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __int__(self): return int(conc(self))
    def __floordiv__(self, o): return conc(self) // conc(o)
    def __rfloordiv__(self, o): return o // conc(self)
    def __mod__(self, o): return conc(self) % conc(o)
    def __rmod__(self, o): return o % conc(self)
    def __divmod__(self, o): return divmod(conc(self), conc(o))
    def __rdivmod__(self, o): return divmod(o, conc(self))
    def __pow__(self, o): return conc(self) ** conc(o)
    def __rpow__(self, o): return o ** conc(self)
    def __trunc__(self): return mkint(atom_of(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))
    def __floor__(self): return mkint(atom_of(z3.ToInt(self.e)))
    def __ceil__(self): return mkint(atom_of(-z3.ToInt(-self.e)))
    def is_integer(self): return mkbool(f_z(z3.IsInt(self.e)))
    def __round__(self, n=None):       # halves go to the even neighbour, as in Python
        if n is not None:
            if n < 0: return round(conc(self), n)
            t = self * 10 ** n
            return t.__round__() / 10 ** n if isinstance(t, SymReal) else self
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        h = z3.RealVal("1/2")
        return mkint(atom_of(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))))

def fraction(v):
    from fractions import Fraction
    return Fraction(v)

def conc(x):
    """a concrete value of x on this path (the path is split over the values)"""
    if isinstance(x, SymBool): return bool(x)
    if not isinstance(x, (SymInt, SymReal)): return x
    while True:
        if S.i < len(S.prefix):
            v = S.prefix[S.i]              # the value tried, then the decision
        else:
            S.need_model()
            v = ev_form(x.f) if isinstance(x, SymInt) else str(S.zmodel.eval(x.e, model_completion=True))
        S.i += 1
        S.trace.append(v)
        if isinstance(x, SymInt):
            if branch(f_eq(f_add(x.f, ((), v), -1))): return v
        elif branch(f_z(x.e == z3.RealVal(v))):
            return float(fraction(v))

# ---------------------------------------------------------------- harness interface
def declare(name, lo, hi):
    s = S
    assert name not in s.vars, name
    f = (((name, 1),), 0)
    s.vars[name] = f
    s.order.append(name)
    if lo is not None: s.add(f_le((((name, -1),), lo)))
    if hi is not None: s.add(f_le((((name, 1),), -hi)))
    s.range[f[0]] = [lo, hi]
    if s.model is not None:        # a fresh variable: any value in its range extends the model
        if (lo is None or lo <= 0) and (hi is None or hi >= 0): s.model[name] = 0
        else: s.model = None
    return SymInt(f)

def given(name):
    if name not in CONC: raise Infeasible()    # the recorded path did not get here
    return CONC[name]

def sym_int(name, lo=None, hi=None):
    if SYM: return declare(name, lo, hi)
    return given(name)

def sym_bool(name):
    if SYM: return declare(name, 0, 1) == 1
    return bool(given(name))

def choice(name, n):
    """one of range(n), split over the values when used"""
    if SYM: return conc(declare(name, 0, n - 1))
    return given(name)

def pick(name, xs):
    xs = list(xs)
    return xs[choice(name, len(xs))]

def assume(c):
    if isinstance(c, SymBool):
        d = decided(c.f)
        if d is False: raise Infeasible()
        if d is None:
            S.add(c.f)
            learn(c.f, True)
            if S.model is not None and not ev(c.f): S.model = None
            if S.i >= len(S.prefix): S.need_model()
    elif not c:
        raise Infeasible()

def check(c, msg):
    STATS["asserts"] += 1
    if isinstance(c, SymBool):
        s = S
        d = decided(c.f)
        if d is True: return
        if s.i < len(s.prefix):        # decided on the path that pushed this prefix
            s.add(c.f)
            learn(c.f, True)
            return
        STATS["assert_queries"] += 1
        if s.check(f_not(c.f)):
            s.take_model()
            raise Violated("assertion", msg)
        learn(c.f, True)
        return
    if not c:
        raise Violated("assertion", msg)

def observe(name, v):
    S.obs.append((name, v))

def reach(label):
    S.reach[label] = S.reach.get(label, 0) + 1

def lnot(a):
    return mkbool(f_not(a.f)) if isinstance(a, SymBool) else not a

def _flat(xs):
    return list(xs[0]) if len(xs) == 1 and not isinstance(xs[0], (bool, SymBool)) and type(xs[0]).__module__ != "numpy" else list(xs)

def land(*xs): return mkbool(f_nary("and", [formula(x) for x in _flat(xs)]))
def lor(*xs): return mkbool(f_nary("or", [formula(x) for x in _flat(xs)]))
def implies(a, b): return lor(lnot(a), b)
def iff(a, b):
    if not issym(a): a, b = b, a
    return a == b if issym(b) else (a if b else lnot(a))

def ite(c, a, b):
    if isinstance(c, SymBool):
        if decided(c.f) is not None: return a if decided(c.f) else b
        x, y = lin(a), lin(b)
        if x is None or y is None: return mkreal(z3.If(to_z3(c.f), real(a), real(b)))
        return mkint(atom_of(z3.If(to_z3(c.f), form_z3(x), form_z3(y))))
    return a if c else b

def total(xs):
    r = 0
    for x in xs: r = r + x
    return r

def count(bs):
    return total(ite(b, 1, 0) for b in bs)

def issym(x): return isinstance(x, (SymInt, SymBool, SymReal))

def evalm(v):
    if isinstance(v, SymBool): return ev(v.f)
    if isinstance(v, SymInt): return ev_form(v.f)
    if isinstance(v, SymReal): return float(fraction(str(S.zmodel.eval(v.e, model_completion=True))))
    return v

def normal(v):
    """a JSON value for an observation"""
    v = evalm(v)
    if isinstance(v, dict): return sorted(([normal(a), normal(b)] for a, b in v.items()), key=repr)
    if isinstance(v, (set, frozenset)): return sorted((normal(a) for a in v), key=repr)
    if isinstance(v, (list, tuple)): return [normal(a) for a in v]
    if type(v).__module__ == "numpy": return normal(v.item())
    if v is None or isinstance(v, (bool, int, str)): return v
    if isinstance(v, float): return "nan" if v != v else repr(float(v))
    return str(v)

# ---------------------------------------------------------------- running one path
REPO = "/repo"
FUNCS = set()
def watch():
    """record which functions of the project run (and nothing else)"""
    m = sys.monitoring
    m.use_tool_id(3, "pysym")
    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + "/") and code.co_name != "<module>":
            FUNCS.add(f[len(REPO) + 1:] + ":" + code.co_qualname)
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)

def alarm(*a): raise Slow()

def inputs_of():
    return {n: S.model[n] for n in S.order}

def guilty(e):
    """where an exception came from: the innermost frame"""
    return "%s: %s" % (type(e).__name__, str(e)[:200])

def run_path(h, prefix, path_s):
    """-> dict(status, ...)"""
    global S
    S = State(prefix)
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, path_s)
    out = dict(status="ok")
    try:
        try:
            h()
            S.need_model()
        except Stop as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if isinstance(e, Infeasible): out["status"] = "infeasible"
            elif isinstance(e, Unknown): out["status"] = "unknown"
            elif isinstance(e, Slow):
                out.update(status="bad", kind="hang", msg="does not finish")
                S.need_model()
            else:
                out.update(status="bad", kind=e.kind, msg=e.msg)
                S.need_model()
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            out.update(status="bad", kind="exception", msg="raises " + guilty(e), trace=traceback.format_exc()[-1500:])
            S.need_model()
    except Unknown:
        out["status"] = "unknown"
    except Infeasible:
        out["status"] = "infeasible"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["pending"] = S.pending
    out["depth"] = len(S.trace)
    out["reach"] = S.reach
    if out["status"] in ("ok", "bad"):
        out["inputs"] = inputs_of()
        if out["status"] == "ok":
            out["obs"] = [[n, normal(v)] for n, v in S.obs]
    return out

def run_concrete(h, inputs, limit):
    """-> dict(status ok|bad|infeasible, msg, obs); ordinary ints, the project's interpreter"""
    global S, CONC
    S, CONC = State([]), inputs
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        h()
        r = dict(status="ok")
    except Infeasible: r = dict(status="infeasible")
    except Slow: r = dict(status="bad", msg="does not finish")
    except Violated as e: r = dict(status="bad", msg=e.msg)
    except Exception as e: r = dict(status="bad", msg="raises " + guilty(e), trace=traceback.format_exc()[-1500:])
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    r["obs"] = [[n, normal(v)] for n, v in S.obs]
    return r

# ---------------------------------------------------------------- number types inside the code under test
class _IntM(type):
    def __instancecheck__(c, x): return isinstance(x, (int, SymInt))
class IntShim(int, metaclass=_IntM):
    """int(x) keeps a symbolic number symbolic"""
    def __new__(c, *a):
        if len(a) == 1 and isinstance(a[0], SymInt): return a[0]
        if len(a) == 1 and isinstance(a[0], SymReal): return a[0].__trunc__()
        return int(*a)
class _FloatM(type):
    def __instancecheck__(c, x): return isinstance(x, (float, SymReal))
class FloatShim(float, metaclass=_FloatM):
    def __new__(c, *a):
        if len(a) == 1 and isinstance(a[0], SymReal): return a[0]
        if len(a) == 1 and isinstance(a[0], SymInt): return mkreal(real(a[0]))
        return float(*a)
def shim(*modules):
    """in these modules the names int and float accept symbolic numbers (symbolic runs only)"""
    if SYM:
        for m in modules:
            m.int, m.float = IntShim, FloatShim
