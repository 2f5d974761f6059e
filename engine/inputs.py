"""The harness-facing API, in a symbolic and a concrete flavour with the same methods."""

import z3

from .sym import (
    IV, DeadPath, Sym, SymBool, SymFin, SymFloat, SymInt, Violated, b_and, b_ite, b_not, b_or, cur,
    force, isinstance_real, mk_bool,
)
from .symstr import Atom, SCh, SymStr, cs_expr, cs_norm, cs_of, els, mkstr

SURR = ((0xD800, 0xDFFF),)


def cs(*parts):
    """Character set from 'a-z' style ranges, or single characters."""
    out = []
    for p in parts:
        if isinstance(p, tuple):
            out.append(p)
        elif len(p) == 3 and p[1] == "-":
            out.append((ord(p[0]), ord(p[2])))
        else:
            out.extend((ord(c), ord(c)) for c in p)
    return cs_norm(out)


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class SymInputs:
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx

    # ---- inputs
    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.ctx.inputs[name] = ("int", v)
        self.ctx.add(z3.And(v >= lo, v <= hi))
        if lo == hi:
            return lo
        return SymInt(v, lo, hi, var=v)

    def bool(self, name):
        v = z3.Bool(name)
        self.ctx.inputs[name] = ("bool", v)
        return SymBool(v)

    def cint(self, name, lo, hi):
        """An integer whose every feasible value becomes its own path."""
        x = self.int(name, lo, hi)
        return x if type(x) is int else x.realize()

    def cbool(self, name):
        return bool(self.bool(name))

    def choice(self, name, options):
        return options[self.cint(name, 0, len(options) - 1)]

    def char(self, name, dom):
        v = z3.Int(name)
        self.ctx.inputs[name] = ("char", v)
        self.ctx.add(cs_expr(v, dom))
        return SymStr([SCh(v, dom)])

    def text(self, name, lo, hi, dom):
        n = self.cint(name + "#", lo, hi)
        out = ""
        for i in range(n):
            out = out + self.char(f"{name}[{i}]", dom)
        return out

    def frac(self, name, lo, hi, den):
        """k / den as a CPython float, lo <= k <= hi; an exact table."""
        v = z3.Int(name)
        self.ctx.inputs[name] = ("int", v)
        self.ctx.add(z3.And(v >= lo, v <= hi))
        dom = list(range(lo, hi + 1))
        return SymFin(v, dom, [k / den for k in dom])

    def tab(self, name, lo, hi):
        """An integer kept as an exact table over its range: non-linear arithmetic and
        floats on it stay exact (one such variable per expression)."""
        v = z3.Int(name)
        self.ctx.inputs[name] = ("int", v)
        self.ctx.add(z3.And(v >= lo, v <= hi))
        dom = list(range(lo, hi + 1))
        return SymFin(v, dom, list(dom))

    # ---- logic
    def assume(self, c):
        self.ctx.assume(force(c))

    def check(self, cond, label):
        self.ctx.prove(force(cond), label)

    def fail(self, label):
        raise Violated(label)

    def cover(self, label):
        self.ctx.covers.add(label)

    def observe(self, value):
        self.ctx.observations.append(value)

    def all(self, items):
        return b_and([force(x) for x in items])

    def any(self, items):
        return b_or([force(x) for x in items])

    def not_(self, b):
        return b_not(b)

    def implies(self, a, b):
        return b_or([b_not(a), b])

    def iff(self, a, b):
        return self.any([self.all([a, b]), self.all([b_not(a), b_not(b)])])

    def ite(self, c, a, b):
        return b_ite(c, a, b)

    def max(self, a, b):
        return b_ite(a >= b, a, b)

    def min(self, a, b):
        return b_ite(a <= b, a, b)

    # ---- strings as element lists (numbers may stay symbolic)
    def elements(self, s):
        """A list of one-character strings; the decimal rendering of a symbolic number
        is one element, the number itself."""
        out = []
        for x in els(s):
            if type(x) is str:
                out.append(x)
            elif type(x) is Atom:
                out.append(x.n)
            else:
                out.append(SymStr([x]))
        return out

    def is_sym(self, x):
        return isinstance_real(x, Sym)


class ConcInputs:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.failed = None
        self.observations = []
        self.covers = set()

    def _get(self, name):
        if name not in self.values:
            raise KeyError(f"input {name!r} missing from the replay")
        return self.values[name]

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self._get(name)

    cint = int
    tab = int

    def bool(self, name):
        return bool(self._get(name))

    cbool = bool

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def char(self, name, dom):
        return chr(self._get(name))

    def text(self, name, lo, hi, dom):
        n = self.int(name + "#", lo, hi)
        return "".join(self.char(f"{name}[{i}]", dom) for i in range(n))

    def frac(self, name, lo, hi, den):
        return self._get(name) / den

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, cond, label):
        if not cond:
            raise CheckFailed(label)

    def fail(self, label):
        raise CheckFailed(label)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, value):
        self.observations.append(value)

    def all(self, items):
        return all(list(items))

    def any(self, items):
        return any(list(items))

    def not_(self, b):
        return not b

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def elements(self, s):
        return list(s)

    def is_sym(self, x):
        return False


def evaluate(x, model, depth=6):
    """The concrete value of a (possibly symbolic) observation under a model."""
    x = force(x)
    if isinstance_real(x, SymStr):
        out = []
        for c in x.el:
            if type(c) is str:
                out.append(c)
            elif type(c) is Atom:
                out.append(str(model.eval(c.n.e, model_completion=True).as_long()))
            else:
                out.append(chr(model.eval(c.e, model_completion=True).as_long()))
        return "".join(out)
    if isinstance_real(x, SymInt):
        return model.eval(x.e, model_completion=True).as_long()
    if isinstance_real(x, SymBool):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance_real(x, SymFin):
        d = model.eval(x.v, model_completion=True).as_long()
        return x.tab[x.dom.index(d)]
    if isinstance_real(x, Sym):
        return "<real>"
    if isinstance(x, (tuple, list)) and depth:
        return [evaluate(y, model, depth - 1) for y in x]
    if isinstance(x, dict) and depth:
        return {str(k): evaluate(v, model, depth - 1) for k, v in x.items()}
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return f"<{type(x).__name__}>"


def plain(x, depth=6):
    """The same normal form for concrete observations."""
    if isinstance(x, (tuple, list)) and depth:
        return [plain(y, depth - 1) for y in x]
    if isinstance(x, dict) and depth:
        return {str(k): plain(v, depth - 1) for k, v in x.items()}
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return f"<{type(x).__name__}>"


def obs_equal(a, b):
    if a == "<real>" or b == "<real>":
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(obs_equal(a[k], b[k]) for k in a)
    return a == b
