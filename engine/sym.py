"""Symbolic values and the path context.

The code under test runs in the ordinary CPython interpreter, but on these proxy
values.  Every operation builds an SMT term; every time a *truth value* is needed the
path context asks the solver which outcomes are feasible and explores all of them by
re-execution (see explore.py).  Nothing here samples: a branch outcome is dropped only
when the solver proves it infeasible under the path condition.
"""

import time
import z3
from fractions import Fraction

MAXCP = 0x10FFFF


class EngineSignal(BaseException):
    """Control flow of the engine; never visible to `except Exception`."""


class DeadPath(EngineSignal):
    """The path condition is unsatisfiable (assumption failed)."""


class Unsupported(EngineSignal):
    """An operation the encoding cannot express."""


class Violated(EngineSignal):
    def __init__(self, label, detail=None):
        super().__init__(label)
        self.label = label
        self.detail = detail


class PathBudget(EngineSignal):
    """Too many decisions or too much time on one path (a candidate non-termination)."""


class _Cur:
    ctx = None


cur = _Cur()

_IntVal = z3.IntVal
_cache_iv = {}


def IV(n):
    r = _cache_iv.get(n)
    if r is None:
        r = _cache_iv[n] = z3.IntVal(n)
    return r


def RV(x):
    """Exact real constant of a python number."""
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Stats:
    FIELDS = (
        "paths", "completed", "dead", "decisions", "forks", "queries", "sat", "unsat",
        "unknown", "solver_s", "obligations", "discharged", "raised",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])


class PathCtx:
    def __init__(self, prefix, stats, max_decisions=4000, query_ms=20000, deadline=None):
        self.s = z3.SimpleSolver()
        self.s.set("timeout", query_ms)
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.model = None
        self.stats = stats
        self.max_decisions = max_decisions
        self.inputs = {}
        self.notes = set()
        self.covers = set()
        self.observations = []
        self.fresh = 0
        self.mono = {}
        self.unknowns = 0
        self.asserted = 0
        self.deadline = deadline

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.s.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def check_with(self, e):
        self.s.push()
        self.s.add(e)
        r = self._check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        return r, m

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise DeadPath()
            if r == z3.unknown:
                raise Unsupported("solver unknown on the path condition")
            self.model = self.s.model()
        return self.model

    def add(self, e):
        """Adds a constraint that is known to keep at least the current path alive."""
        self.s.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None

    def assume(self, c):
        if isinstance(c, SymBool):
            self.add(c.e)
            self.get_model()
        elif not c:
            raise DeadPath()

    def _tick(self):
        self.stats.decisions += 1
        if len(self.trace) > self.max_decisions:
            raise PathBudget("too many decisions on one path")

    def branch(self, e):
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d is not True and d is not False:
                raise Unsupported("non-deterministic replay")
            self.trace.append(d)
            self.s.add(e if d else z3.Not(e))
            self.model = None
            return d
        self._tick()
        v = self.get_model().eval(e, model_completion=True)
        if z3.is_true(v):
            val = True
        elif z3.is_false(v):
            val = False
        else:
            r, m = self.check_with(e)
            if r == z3.unsat:
                self.trace.append(False)
                return False
            val = True
            if r == z3.sat:
                self.model = m
        other = z3.Not(e) if val else e
        r, m = self.check_with(other)
        if r == z3.unsat:
            self.trace.append(val)
            return val
        if r == z3.unknown:
            self.unknowns += 1
        self.stats.forks += 1
        self.alts.append(self.trace + [not val])
        self.trace.append(val)
        self.s.add(e if val else z3.Not(e))
        return val

    def realize(self, e, cap=400):
        """Enumerates, by forking, every feasible value of an integer term."""
        tried = 0
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                if not isinstance(d, tuple):
                    raise Unsupported("non-deterministic replay")
                self.trace.append(d)
                self.model = None
                if d[2]:
                    self.s.add(e == d[1])
                    return d[1]
                self.s.add(e != d[1])
                tried += 1
                continue
            self._tick()
            if tried > cap:
                raise Unsupported("realised a value with a large domain")
            v = self.get_model().eval(e, model_completion=True)
            val = v.as_long()
            r, m = self.check_with(e != val)
            if r != z3.unsat:
                if r == z3.unknown:
                    self.unknowns += 1
                self.stats.forks += 1
                self.alts.append(self.trace + [("v", val, False)])
            self.trace.append(("v", val, True))
            self.s.add(e == val)
            return val

    def prove(self, cond, label):
        """The property assertion: solver shows it for every value, or a model breaks it."""
        self.asserted += 1
        self.stats.obligations += 1
        if isinstance(cond, SymBool):
            r, m = self.check_with(z3.Not(cond.e))
            if r == z3.unsat:
                self.stats.discharged += 1
                self.s.add(cond.e)
                return
            if r == z3.unknown:
                raise Unsupported(f"solver unknown on assertion {label!r}")
            self.model = m
            self.s.add(z3.Not(cond.e))
            raise Violated(label)
        if cond is True or (not isinstance(cond, Sym) and bool(cond)):
            self.stats.discharged += 1
            return
        if isinstance(cond, Sym):
            if bool(cond):
                self.stats.discharged += 1
                return
        raise Violated(label)

    def fresh_name(self, base):
        self.fresh += 1
        return f"{base}!{self.fresh}"

    def define(self, y, cs):
        """Constraints that fix the fresh variable `y` (satisfiable whatever the rest is)."""
        self.s.add(*cs)
        self.model = None

    def settle(self):
        pass

    def full_solver(self):
        return self.s


class Group:
    """Constraints over one set of connected variables."""

    __slots__ = ("vars", "cons", "solver", "dirty")

    def __init__(self):
        self.vars = set()
        self.cons = []
        self.solver = None
        self.dirty = False

    def get(self, ms):
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set("timeout", ms)
            self.solver.add(*self.cons)
        return self.solver


class _Facade:
    def __init__(self, owner):
        self.owner = owner

    def add(self, *cs):
        for c in cs:
            self.owner._assert(c)


class SlicedCtx(PathCtx):
    """A path context that keeps independent constraints apart.

    A query is decided together with the constraints it shares variables with (directly
    or through others); the remaining ones are satisfiable on their own, as the path is
    alive.  Definitions of fresh variables take part once something mentions them."""

    def __init__(self, *a, **kw):
        self._vals = z3.Model()
        super().__init__(*a, **kw)
        self.query_ms = kw.get("query_ms", 20000)
        self.s = _Facade(self)
        self.groupof = {}
        self.defs = {}
        self.dirty = set()
        self.ground = []
        self._fv = {}

    # the composite model; assigning a solver model updates the values it mentions
    @property
    def model(self):
        return self._vals

    @model.setter
    def model(self, m):
        if m is None:
            return
        for d in m.decls():
            self._vals.update_value(d, m[d])

    def _vars(self, e):
        i = e.get_id()
        r = self._fv.get(i)
        if r is not None:
            return r[1]
        if z3.is_const(e):
            vs = frozenset((i,)) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            vs = frozenset().union(*[self._vars(c) for c in e.children()])
        self._fv[i] = (e, vs)
        return vs

    def _touch(self, e):
        """Variables of e, with the definitions they need asserted."""
        vs = self._vars(e)
        if self.defs:
            for v in vs:
                cs = self.defs.pop(v, None)
                if cs is not None:
                    for c in cs:
                        self._assert(c)
        return vs

    def define(self, y, cs):
        self.defs[self._vars(y).__iter__().__next__()] = cs

    def settle(self):
        while self.defs:
            _, cs = self.defs.popitem()
            for c in cs:
                self._assert(c)

    def _assert(self, e):
        vs = self._touch(e)
        if not vs:
            e = z3.simplify(e)
            if not z3.is_true(e):
                self.ground.append(e)
            return
        gs = []
        for v in vs:
            g = self.groupof.get(v)
            if g is not None and g not in gs:
                gs.append(g)
        if not gs:
            g = Group()
        else:
            g = max(gs, key=lambda x: len(x.cons))
            for o in gs:
                if o is not g:
                    g.cons += o.cons
                    g.vars |= o.vars
                    if g.solver is not None:
                        g.solver.add(*o.cons)
                    for v in o.vars:
                        self.groupof[v] = g
                    if o in self.dirty:
                        self.dirty.discard(o)
                        self.dirty.add(g)
        for v in vs:
            if v not in g.vars:
                g.vars.add(v)
                self.groupof[v] = g
        g.cons.append(e)
        if g.solver is not None:
            g.solver.add(e)
        if g not in self.dirty and not z3.is_true(self._vals.eval(e, model_completion=True)):
            self.dirty.add(g)

    def _run(self, solver):
        t = time.perf_counter()
        r = solver.check()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def check_with(self, e):
        vs = self._touch(e)
        gs = []
        for v in vs:
            g = self.groupof.get(v)
            if g is not None and g not in gs:
                gs.append(g)
        if len(gs) == 1:
            s = gs[0].get(self.query_ms)
            s.push()
            s.add(e)
            r = self._run(s)
            m = s.model() if r == z3.sat else None
            s.pop()
            return r, m
        s = z3.SimpleSolver()
        s.set("timeout", self.query_ms)
        for g in gs:
            s.add(*g.cons)
        s.add(e)
        r = self._run(s)
        return r, (s.model() if r == z3.sat else None)

    def get_model(self):
        if self.ground:
            raise DeadPath()
        while self.dirty:
            g = next(iter(self.dirty))
            s = g.get(self.query_ms)
            r = self._run(s)
            if r == z3.unsat:
                raise DeadPath()
            if r == z3.unknown:
                raise Unsupported("solver unknown on the path condition")
            self.model = s.model()
            self.dirty.discard(g)
        return self._vals

    def branch(self, e):
        self._touch(e)
        return super().branch(e)

    def realize(self, e, cap=400):
        self._touch(e)
        return super().realize(e, cap)

    def full_solver(self):
        self.settle()
        s = z3.SimpleSolver()
        s.set("timeout", self.query_ms)
        s.add(*self.ground)
        for g in {id(g): g for g in self.groupof.values()}.values():
            s.add(*g.cons)
        return s


class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_sym(x):
    return isinstance_real(x, Sym)


def isinstance_real(x, t):
    return issubclass(type(x), t)


# ----------------------------------------------------------------- booleans
def mk_bool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(b):
    if isinstance_real(b, SymBool):
        return b.e
    return z3.BoolVal(bool(b))


def b_and(items):
    es = []
    for b in items:
        if isinstance_real(b, SymBool):
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return SymBool(es[0] if len(es) == 1 else z3.And(*es))


def b_or(items):
    es = []
    for b in items:
        if isinstance_real(b, SymBool):
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return SymBool(es[0] if len(es) == 1 else z3.Or(*es))


def b_not(b):
    if isinstance_real(b, SymBool):
        return SymBool(z3.Not(b.e))
    return not b


def b_ite(c, a, b):
    """Value-level if-then-else without forking (numbers and booleans only)."""
    if not isinstance_real(c, SymBool):
        return a if c else b
    if isinstance_real(a, (bool, SymBool)) and isinstance_real(b, (bool, SymBool)):
        return mk_bool(z3.If(c.e, bexpr(a), bexpr(b)))
    x, y = to_int(a), to_int(b)
    if x is not None and y is not None:
        return SymInt(z3.If(c.e, x.e, y.e), min(x.lo, y.lo), max(x.hi, y.hi))
    return a if bool(c) else b


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return cur.ctx.branch(self.e)

    def as_int(self):
        return SymInt(z3.If(self.e, IV(1), IV(0)), 0, 1)

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def __and__(self, o):
        if isinstance_real(o, (bool, SymBool)):
            return b_and([self, o])
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance_real(o, (bool, SymBool)):
            return b_or([self, o])
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance_real(o, (bool, SymBool)):
            return mk_bool(z3.Xor(self.e, bexpr(o)))
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self.as_int()

    def __eq__(self, o):
        if isinstance_real(o, (bool, SymBool)):
            return mk_bool(self.e == bexpr(o))
        return self.as_int() == o

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def _delegate(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)

    f.__name__ = name
    return f


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv truediv rtruediv mod rmod lt le gt ge "
           "neg pos abs pow rpow lshift rlshift rshift rrshift").split():
    setattr(SymBool, f"__{_n}__", _delegate(f"__{_n}__"))


# ----------------------------------------------------------------- integers
def to_int(x):
    t = type(x)
    if issubclass(t, SymInt):
        return x
    if t is int or t is bool:
        n = int(x)
        return _ConstInt(n)
    if t is SymBool:
        return x.as_int()
    if t is SymFin:
        return x.to_symint()
    if issubclass(t, int):
        return _ConstInt(int(x))
    return None


class _ConstInt:
    __slots__ = ("e", "lo", "hi", "var")

    def __init__(self, n):
        self.e = IV(n)
        self.lo = self.hi = n
        self.var = None


def mk_int(e, lo, hi):
    if lo == hi:
        return lo
    return SymInt(e, lo, hi)


def _decline(o):
    """True when the operation must be left to the other operand."""
    return not isinstance_real(o, (int, float, Fraction, Sym)) or isinstance_real(o, (SymStrBase, Lazy))


class SymStrBase(Sym):
    __slots__ = ()


class Lazy(Sym):
    """The result of a pure call on symbolic arguments, computed when first looked at."""

    __slots__ = ("f", "a", "v", "done", "kind")

    def __init__(self, f, a, kind):
        self.f, self.a, self.kind = f, a, kind
        self.v = None
        self.done = False

    __class__ = property(lambda self: self.kind)

    def force(self):
        if not self.done:
            self.v = self.f(*self.a)
            if isinstance_real(self.v, Lazy):
                self.v = self.v.force()
            self.done = True
        return self.v

    def __getattr__(self, n):
        return getattr(self.force(), n)

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        return self.force()[k]

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return bool(self.force())

    def __hash__(self):
        return hash(self.force())

    def __float__(self):
        return float(self.force())

    def __int__(self):
        return int(self.force())

    def __str__(self):
        return str(self.force())

    def __format__(self, spec):
        return format(self.force(), spec)

    def __round__(self, *a):
        return round(self.force(), *a)

    def __neg__(self):
        return -self.force()

    def __pos__(self):
        return self.force()

    def __abs__(self):
        return abs(self.force())


def force(x):
    return x.force() if isinstance_real(x, Lazy) else x


def _lazy_ops():
    import operator as op
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
        f = getattr(op, n)
        setattr(Lazy, f"__{n}__", (lambda f: lambda self, o: f(self.force(), force(o)))(f))
        setattr(Lazy, f"__r{n}__", (lambda f: lambda self, o: f(force(o), self.force()))(f))
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        f = getattr(op, n)
        setattr(Lazy, f"__{n}__", (lambda f: lambda self, o: f(self.force(), force(o)))(f))


_lazy_ops()


class SymInt(Sym):
    """An unbounded python int with a static interval [lo, hi]."""

    __slots__ = ("e", "lo", "hi", "var")

    def __init__(self, e, lo, hi, var=None):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.var = var

    __class__ = property(lambda self: int)

    def __repr__(self):
        return f"<SymInt {self.e}>"

    # conversions
    def realize(self):
        return cur.ctx.realize(self.e)

    __index__ = realize
    __int__ = realize

    def __hash__(self):
        return hash(self.realize())

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return cur.ctx.branch(self.e != 0)

    def __str__(self):
        return str(self.realize())

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __float__(self):
        return float(self.realize())

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        return round(self.realize(), nd)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def fin(self):
        if self.var is not None and self.hi - self.lo <= 1100:
            dom = list(range(self.lo, self.hi + 1))
            return SymFin(self.e, dom, dom)
        return None

    def to_float(self):
        f = max(abs(self.lo), abs(self.hi))
        return SymFloat(z3.ToReal(self.e), Fraction(self.lo), Fraction(self.hi), 0)

    # arithmetic
    def _num(self, o, op, rev=False):
        """Dispatch to floats / finite tables."""
        if isinstance_real(o, SymFin) and o.isfloat():
            f = self.fin()
            if f is not None and f.same(o):
                return op(f, o) if not rev else op(o, f)
            a, b = self.to_float(), o.to_symfloat()
        else:
            a, b = self.to_float(), to_float(o)
        return op(a, b) if not rev else op(b, a)

    def _isflt(self, o):
        return isinstance_real(o, (float, Fraction, SymFloat, SymSqrt)) or (isinstance_real(o, SymFin) and o.isfloat())

    def __add__(self, o):
        if _decline(o):
            return NotImplemented
        if self._isflt(o):
            return self._num(o, lambda a, b: a + b)
        if type(o) is int and o == 0:
            return self
        o = to_int(o)
        return mk_int(self.e + o.e, self.lo + o.lo, self.hi + o.hi)

    __radd__ = __add__

    def __sub__(self, o):
        if _decline(o):
            return NotImplemented
        if self._isflt(o):
            return self._num(o, lambda a, b: a - b)
        if type(o) is int and o == 0:
            return self
        o = to_int(o)
        return mk_int(self.e - o.e, self.lo - o.hi, self.hi - o.lo)

    def __rsub__(self, o):
        if _decline(o):
            return NotImplemented
        if self._isflt(o):
            return self._num(o, lambda a, b: a - b, True)
        o = to_int(o)
        return mk_int(o.e - self.e, o.lo - self.hi, o.hi - self.lo)

    def __mul__(self, o):
        if isinstance_real(o, (str, bytes, list, tuple, SymStrBase)):
            return o * self.realize()
        if _decline(o):
            return NotImplemented
        if self._isflt(o):
            return self._num(o, lambda a, b: a * b)
        if type(o) is int and o == 1:
            return self
        o = to_int(o)
        c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return mk_int(self.e * o.e, min(c), max(c))

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e, -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return SymInt(z3.If(self.e >= 0, self.e, -self.e), 0, max(-self.lo, self.hi))

    def __floordiv__(self, o):
        if _decline(o):
            return NotImplemented
        if self._isflt(o):
            return self._num(o, lambda a, b: a // b)
        if isinstance_real(o, Sym):
            o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return (-self) // (-o)
        return mk_int(self.e / o, self.lo // o, self.hi // o)

    def __rfloordiv__(self, o):
        if _decline(o):
            return NotImplemented
        return o // self.realize()

    def __mod__(self, o):
        if _decline(o):
            return NotImplemented
        if self._isflt(o):
            return self._num(o, lambda a, b: a % b)
        if isinstance_real(o, Sym):
            o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return -((-self) % (-o))
        if 0 <= self.lo and self.hi < o:
            return self
        return SymInt(self.e % o, 0, o - 1)

    def __rmod__(self, o):
        if _decline(o):
            return NotImplemented
        return o % self.realize()

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return divmod(o, self.realize())

    def __truediv__(self, o):
        if _decline(o):
            return NotImplemented
        if not isinstance_real(o, Sym):
            if o == 0:
                raise ZeroDivisionError("division by zero")
            f = self.fin()
            if f is not None:
                return f / o
        return to_float(self) / to_float(o)

    def __rtruediv__(self, o):
        if _decline(o):
            return NotImplemented
        return to_float(o) / to_float(self)

    def __pow__(self, o, m=None):
        if isinstance_real(o, float) or m is not None:
            f = self.fin()
            if f is not None and m is None:
                return f ** o
            return pow(self.realize(), o, m)
        n = int(o)
        if n == 2:
            e = self * self
            if isinstance_real(e, SymInt):
                e.lo = 0 if self.lo <= 0 <= self.hi else min(self.lo ** 2, self.hi ** 2)
            return e
        if 0 <= n <= 4:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        return self.realize() ** n

    def __rpow__(self, o):
        return o ** self.realize()

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << self.realize()

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rrshift__(self, o):
        return o >> self.realize()

    def __and__(self, o):
        if type(o) is int and o >= 0:
            # sum of bits for a constant mask, exact for any sign (floor semantics)
            r = 0
            bit = 1
            while bit <= o:
                if o & bit:
                    # merge runs of set bits
                    run = bit
                    k = 0
                    while o & (bit << k):
                        k += 1
                    r = r + ((self // bit) % (1 << k)) * bit
                    bit <<= k
                else:
                    bit <<= 1
            return r
        return self.realize() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is int and o >= 0:
            return self + o - (self & o)
        return self.realize() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is int and o >= 0:
            return self + o - 2 * (self & o)
        return self.realize() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # comparisons
    def _cmp(self, o, op):
        if _decline(o):
            return NotImplemented
        if self._isflt(o):
            f = self.fin()
            if f is not None and not isinstance_real(o, Sym):
                return op(f, o)
            return op(to_float(self), to_float(o))
        return None

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        if r is not None:
            return r
        o = to_int(o)
        if self.hi < o.lo:
            return True
        if self.lo >= o.hi:
            return False
        return SymBool(self.e < o.e)

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        if r is not None:
            return r
        o = to_int(o)
        if self.hi <= o.lo:
            return True
        if self.lo > o.hi:
            return False
        return SymBool(self.e <= o.e)

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        if r is not None:
            return r
        o = to_int(o)
        if self.lo > o.hi:
            return True
        if self.hi <= o.lo:
            return False
        return SymBool(self.e > o.e)

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        if r is not None:
            return r
        o = to_int(o)
        if self.lo >= o.hi:
            return True
        if self.hi < o.lo:
            return False
        return SymBool(self.e >= o.e)

    def __eq__(self, o):
        if self is o:
            return True
        if _decline(o):
            return NotImplemented
        if self._isflt(o):
            return to_float(self) == to_float(o)
        o = to_int(o)
        if self.hi < o.lo or self.lo > o.hi:
            return False
        if self.e.eq(o.e):
            return True
        return SymBool(self.e == o.e)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(r)

    def bit_length(self):
        return self.realize().bit_length()

    def to_bytes(self, *a, **k):
        return self.realize().to_bytes(*a, **k)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def is_integer(self):
        return True


# --------------------------------------------- functions of one finite variable
class SymFin(Sym):
    """table[i] is the *exact CPython value* when the variable equals dom[i]."""

    __slots__ = ("v", "dom", "tab", "_z")

    def __init__(self, v, dom, tab):
        self.v = v
        self.dom = dom
        self.tab = tab
        self._z = None

    __class__ = property(lambda self: float if self.isfloat() else int)

    def __repr__(self):
        return f"<SymFin {self.v}>"

    def isfloat(self):
        return any(type(x) is float for x in self.tab)

    def same(self, o):
        return self.v.eq(o.v) and len(self.dom) == len(o.dom) and self.dom[0] == o.dom[0]

    def _coerce(self, o):
        """-> list of values pointwise, or None"""
        if type(o) is SymFin:
            return o.tab if self.same(o) else None
        if isinstance_real(o, SymInt):
            f = o.fin()
            return f.tab if f is not None and self.same(f) else None
        if type(o) is SymBool:
            return None
        if isinstance_real(o, (int, float)):
            return [o] * len(self.tab)
        return None

    def _bin(self, o, f, generic, rev=False):
        if _decline(o):
            return NotImplemented
        other = self._coerce(o)
        if other is not None:
            tab = self._table(f, zip(self.tab, other) if not rev else zip(other, self.tab))
            if all(type(t) is bool for t in tab):
                return self._pred(tab)
            return mk_fin(self.v, self.dom, tab)
        a = self.generic()
        b = o.generic() if type(o) is SymFin else o
        return generic(a, b) if not rev else generic(b, a)

    def _table(self, f, args):
        """Pointwise f.  Where it raises, the path forks: the raising values raise, and on
        the other path they are excluded by the path condition (their entry is then moot)."""
        tab, bad = [], {}
        for i, a in enumerate(args):
            try:
                tab.append(f(*a))
            except Exception as e:
                bad[i] = e
                tab.append(None)
        if not bad:
            return tab
        if bool(self._pred([i in bad for i in range(len(tab))])):
            raise next(iter(bad.values()))
        good = next(t for i, t in enumerate(tab) if i not in bad)
        return [good if i in bad else t for i, t in enumerate(tab)]

    def _runs(self, tab):
        runs = []
        start = 0
        for i in range(1, len(tab) + 1):
            if i == len(tab) or tab[i] != tab[start]:
                runs.append((self.dom[start], self.dom[i - 1], tab[start]))
                start = i
        return runs

    def _pred(self, tab):
        if all(tab):
            return True
        if not any(tab):
            return False
        return SymBool(z3.Or(*[
            z3.And(self.v >= lo, self.v <= hi) if lo != hi else self.v == lo
            for lo, hi, t in self._runs(tab) if t
        ]))

    def generic(self):
        return self.to_symfloat() if self.isfloat() else self.to_symint()

    def _ite(self, conv):
        runs = self._runs(self.tab)

        def build(rs):
            if len(rs) == 1:
                return conv(rs[0][2])
            mid = len(rs) // 2
            return z3.If(self.v < rs[mid][0], build(rs[:mid]), build(rs[mid:]))

        return build(runs)

    def to_symint(self):
        if self._z is None:
            self._z = self._ite(lambda x: IV(int(x)))
        return SymInt(self._z, min(self.tab), max(self.tab))

    def to_symfloat(self):
        if self._z is None:
            self._z = self._ite(RV)
        return SymFloat(self._z, Fraction(min(self.tab)), Fraction(max(self.tab)), None)

    def _un(self, f):
        return mk_fin(self.v, self.dom, self._table(f, ((a,) for a in self.tab)))

    def __neg__(self):
        return self._un(lambda a: -a)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._un(abs)

    def __round__(self, nd=None):
        return self._un(lambda a: round(a, nd) if nd is not None else round(a))

    def trunc(self):
        return self._un(int)

    def __floor__(self):
        import math
        return self._un(math.floor)

    def __ceil__(self):
        import math
        return self._un(math.ceil)

    def __trunc__(self):
        return self._un(int)

    def realize(self):
        d = cur.ctx.realize(self.v, cap=1200)
        return self.tab[self.dom.index(d)]

    def __float__(self):
        return float(self.realize())

    def __int__(self):
        return int(self.realize())

    def __index__(self):
        x = self.realize()
        if type(x) is float:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return x

    def __hash__(self):
        return hash(self.realize())

    def __bool__(self):
        r = self._pred([bool(x) for x in self.tab])
        return bool(r)

    def __str__(self):
        return str(self.realize())

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b, lambda a, b: a != b)

    def __pow__(self, o):
        if _decline(o):
            return NotImplemented
        if self._coerce(o) is not None:
            return self._bin(o, lambda a, b: a ** b, None)
        return self.generic() ** o

    def is_integer(self):
        return self._pred([float(x).is_integer() for x in self.tab])


def mk_fin(v, dom, tab):
    first = tab[0]
    if all(type(x) is type(first) and x == first for x in tab):
        return first
    return SymFin(v, dom, tab)


def _fin_op(name, f):
    def fwd(self, o):
        return self._bin(o, f, f)

    def rev(self, o):
        return self._bin(o, f, f, True)

    setattr(SymFin, f"__{name}__", fwd)
    setattr(SymFin, f"__r{name}__", rev)


import operator as _op

for _n, _f in (("add", _op.add), ("sub", _op.sub), ("mul", _op.mul), ("truediv", _op.truediv),
               ("floordiv", _op.floordiv), ("mod", _op.mod)):
    _fin_op(_n, _f)
for _n, _f in (("lt", _op.lt), ("le", _op.le), ("gt", _op.gt), ("ge", _op.ge)):
    setattr(SymFin, f"__{_n}__", (lambda f: lambda self, o: self._bin(o, f, f))(_f))


# ------------------------------------------------------------------- floats
U = Fraction(1, 2 ** 53)


def to_float(x):
    if isinstance_real(x, SymFloat):
        return x
    if isinstance_real(x, SymSqrt):
        return x.materialize()
    if isinstance_real(x, SymFin):
        return x.to_symfloat() if x.isfloat() else x.to_symint().to_float()
    if isinstance_real(x, SymInt):
        return x.to_float()
    if isinstance_real(x, SymBool):
        return x.as_int().to_float()
    f = Fraction(x)
    d = f.denominator
    k = d.bit_length() - 1 if d & (d - 1) == 0 else None
    return SymFloat(RV(f), f, f, k)


def _rounded(e, lo, hi, grid):
    """The double nearest to the real term `e`, over-approximated soundly.

    If every possible value is a multiple of 2**-grid below 2**53 the result is exact.
    Otherwise: relative error at most 2**-53 and rounding never crosses an integer.
    """
    if lo is None or hi is None:
        cur.ctx.notes.add("float division by a symbolic value treated as exact real arithmetic")
        return SymFloat(e, lo, hi, None)
    m = max(abs(lo), abs(hi))
    if grid is not None and m * 2 ** grid < 2 ** 53:
        return SymFloat(e, lo, hi, grid)
    if lo == hi:
        v = float(lo)
        return SymFloat(RV(v), Fraction(v), Fraction(v), None)
    ctx = cur.ctx
    y = z3.Real(ctx.fresh_name("fl"))
    err = m * U + Fraction(1, 2 ** 1074)
    cs = [y - e <= RV(err), e - y <= RV(err)]
    if m < 2 ** 53:
        n = z3.ToInt(e)
        cs += [y >= z3.ToReal(n), y <= z3.ToReal(n + 1), z3.Implies(z3.ToReal(n) == e, y == e)]
    ctx.define(y, cs)
    import math
    nlo = Fraction(math.floor(lo)) if lo >= 0 and lo.denominator == 1 else lo - err
    nhi = hi if hi.denominator == 1 else hi + err
    return SymFloat(y, nlo, nhi, None)


class SymFloat(Sym):
    __slots__ = ("e", "lo", "hi", "grid")

    def __init__(self, e, lo, hi, grid):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.grid = grid

    __class__ = property(lambda self: float)

    def __repr__(self):
        return f"<SymFloat {self.e}>"

    def _g(self, o, f):
        return f(self.grid, o.grid) if self.grid is not None and o.grid is not None else None

    def _ok(self, o):
        return self.lo is not None and self.hi is not None and o.lo is not None and o.hi is not None

    def __add__(self, o):
        if _decline(o):
            return NotImplemented
        o = to_float(o)
        b = self._ok(o)
        return _rounded(self.e + o.e, self.lo + o.lo if b else None, self.hi + o.hi if b else None,
                        self._g(o, max))

    __radd__ = __add__

    def __sub__(self, o):
        if _decline(o):
            return NotImplemented
        o = to_float(o)
        b = self._ok(o)
        return _rounded(self.e - o.e, self.lo - o.hi if b else None, self.hi - o.lo if b else None,
                        self._g(o, max))

    def __rsub__(self, o):
        if _decline(o):
            return NotImplemented
        return to_float(o) - self

    def __mul__(self, o):
        if _decline(o):
            return NotImplemented
        o = to_float(o)
        if self._ok(o):
            c = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
            lo, hi = min(c), max(c)
        else:
            lo = hi = None
        return _rounded(self.e * o.e, lo, hi, self._g(o, lambda a, b: a + b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _decline(o):
            return NotImplemented
        o = to_float(o)
        zero = o == 0
        if zero is True or (isinstance_real(zero, SymBool) and bool(zero)):
            raise ZeroDivisionError("float division by zero")
        lo = hi = None
        grid = None
        if self._ok(o) and (o.lo > 0 or o.hi < 0):
            c = [self.lo / o.lo, self.lo / o.hi, self.hi / o.lo, self.hi / o.hi]
            lo, hi = min(c), max(c)
            if o.lo == o.hi and self.grid is not None:
                d = o.lo
                if d.denominator == 1 and d > 0 and d.numerator & (d.numerator - 1) == 0:
                    grid = self.grid + d.numerator.bit_length() - 1
        e = self.e / o.e if o.lo != o.hi or o.lo is None else self.e * RV(1 / o.lo)
        return _rounded(e, lo, hi, grid)

    def __rtruediv__(self, o):
        if _decline(o):
            return NotImplemented
        return to_float(o) / self

    def __neg__(self):
        return SymFloat(-self.e, None if self.hi is None else -self.hi,
                        None if self.lo is None else -self.lo, self.grid)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        m = None if self.lo is None or self.hi is None else max(abs(self.lo), abs(self.hi))
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e), Fraction(0), m, self.grid)

    def __mod__(self, o):
        if _decline(o):
            return NotImplemented
        if isinstance_real(o, Sym) or o <= 0:
            raise Unsupported("float modulo")
        q = z3.ToInt(self.e * RV(Fraction(1) / Fraction(o)))
        f = Fraction(o)
        return SymFloat(self.e - z3.ToReal(q) * RV(f), Fraction(0), f, self.grid)

    def __floordiv__(self, o):
        if _decline(o):
            return NotImplemented
        if isinstance_real(o, Sym) or o <= 0:
            raise Unsupported("float floor division")
        q = z3.ToInt(self.e * RV(Fraction(1) / Fraction(o)))
        return SymFloat(z3.ToReal(q), None, None, 0)

    def __pow__(self, o):
        if isinstance_real(o, int) and not isinstance_real(o, Sym) and 0 <= o <= 4:
            r = 1.0
            for _ in range(o):
                r = self * r
            return r
        if isinstance_real(o, Sym):
            raise Unsupported("symbolic exponent")
        return mono_pow(self, float(o))

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    # conversion
    def _toint(self, e):
        lo = None if self.lo is None else int(self.lo // 1) - 1
        hi = None if self.hi is None else int(-((-self.hi) // 1)) + 1
        return SymInt(e, lo if lo is not None else -10 ** 30, hi if hi is not None else 10 ** 30)

    def trunc(self):
        if self.lo is not None and self.lo >= 0:
            r = self._toint(z3.ToInt(self.e))
            r.lo = max(r.lo, 0)
            return r
        return self._toint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    __trunc__ = trunc

    def __floor__(self):
        return self._toint(z3.ToInt(self.e))

    def __ceil__(self):
        return self._toint(-z3.ToInt(-self.e))

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round to digits")
        h = z3.ToInt(self.e + RV(Fraction(1, 2)))
        tie = z3.ToReal(h) == self.e + RV(Fraction(1, 2))
        return self._toint(z3.If(z3.And(tie, h % 2 == 1), h - 1, h))

    def is_integer(self):
        return SymBool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def __bool__(self):
        return cur.ctx.branch(self.e != 0)

    def __hash__(self):
        raise TypeError("unhashable symbolic float")

    def __float__(self):
        raise Unsupported("float() on a symbolic float at a C boundary")

    def __str__(self):
        raise Unsupported("str() on a symbolic float")

    def __format__(self, spec):
        raise Unsupported("format() on a symbolic float")

    # comparisons
    def _rel(self, o, op, t, f):
        if _decline(o):
            return NotImplemented
        o = to_float(o)
        if self._ok(o):
            if t(self, o):
                return True
            if f(self, o):
                return False
        return mk_bool(op(self.e, o.e))

    def __lt__(self, o):
        return self._rel(o, _op.lt, lambda a, b: a.hi < b.lo, lambda a, b: a.lo >= b.hi)

    def __le__(self, o):
        return self._rel(o, _op.le, lambda a, b: a.hi <= b.lo, lambda a, b: a.lo > b.hi)

    def __gt__(self, o):
        return self._rel(o, _op.gt, lambda a, b: a.lo > b.hi, lambda a, b: a.hi <= b.lo)

    def __ge__(self, o):
        return self._rel(o, _op.ge, lambda a, b: a.lo >= b.hi, lambda a, b: a.hi < b.lo)

    def __eq__(self, o):
        if self is o:
            return True
        return self._rel(o, _op.eq, lambda a, b: a.lo == a.hi == b.lo == b.hi,
                         lambda a, b: a.hi < b.lo or a.lo > b.hi)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(r)


def mono_pow(x, p):
    """x ** p for 0 <= x, p > 0: a monotone function known at anchor points."""
    if p <= 0:
        raise Unsupported("power with non-positive exponent")
    neg = x < 0
    if neg is True or (isinstance_real(neg, SymBool) and bool(neg)):
        raise Unsupported("power of a negative number")
    ctx = cur.ctx
    y = z3.Real(ctx.fresh_name("pow"))
    hi = None if x.hi is None else Fraction(float(x.hi) ** p) * (1 + 4 * U)
    cs = [y >= 0]
    if hi is not None:
        cs.append(y <= RV(hi))
    anchors = [Fraction(i, 32) for i in range(0, 33)]
    for a in anchors:
        v = Fraction(float(a) ** p)
        cs.append(z3.Implies(x.e <= RV(a), y <= RV(v)))
        cs.append(z3.Implies(x.e >= RV(a), y >= RV(v)))
    prev = ctx.mono.setdefault(p, [])
    for px, py in prev:
        cs.append(z3.Implies(x.e <= px, y <= py))
        cs.append(z3.Implies(x.e >= px, y >= py))
    prev.append((x.e, y))
    ctx.define(y, cs)
    ctx.notes.add(f"x**{p:.4g} abstracted as a monotone function with exact anchors")
    return SymFloat(y, Fraction(0), hi, None)


class SymSqrt(Sym):
    """sqrt(x); comparisons between roots compare the radicands."""

    __slots__ = ("x", "_m")

    def __init__(self, x):
        self.x = x
        self._m = None

    __class__ = property(lambda self: float)

    def materialize(self):
        if self._m is None:
            ctx = cur.ctx
            y = z3.Real(ctx.fresh_name("sqrt"))
            ctx.define(y, [y >= 0, y * y == self.x.e])
            import math
            hi = None if self.x.hi is None else Fraction(math.sqrt(self.x.hi)) + 1
            self._m = SymFloat(y, Fraction(0), hi, None)
        return self._m

    def _c(self, o, op):
        if isinstance_real(o, SymSqrt):
            return op(self.x, o.x)
        if isinstance_real(o, (int, float)) and not isinstance_real(o, Sym):
            if o < 0:
                return op(1, 0)
            f = Fraction(o)
            return op(self.x, SymFloat(RV(f * f), f * f, f * f, None))
        return op(self.materialize(), o)

    def __hash__(self):
        raise TypeError("unhashable symbolic float")

    def __bool__(self):
        return bool(self.x != 0)


for _n, _f in (("lt", _op.lt), ("le", _op.le), ("gt", _op.gt), ("ge", _op.ge), ("eq", _op.eq), ("ne", _op.ne)):
    setattr(SymSqrt, f"__{_n}__", (lambda f: lambda self, o: self._c(o, f))(_f))
for _n, _f in (("add", _op.add), ("sub", _op.sub), ("mul", _op.mul), ("truediv", _op.truediv)):
    setattr(SymSqrt, f"__{_n}__", (lambda f: lambda self, o: f(self.materialize(), o))(_f))
    setattr(SymSqrt, f"__r{_n}__", (lambda f: lambda self, o: f(o, self.materialize()))(_f))
for _n in ("round", "trunc", "floor", "ceil", "pow"):
    setattr(SymSqrt, f"__{_n}__", (lambda n: lambda self, *a: getattr(self.materialize(), n)(*a))(f"__{_n}__"))
setattr(SymSqrt, "trunc", lambda self: self.materialize().trunc())
