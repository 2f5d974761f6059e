"""Run-time support for instrumented code: the operations the AST rewriting redirects
(method calls, f-strings, `in`, subscripts, `%`) and the builtins it shadows."""

import builtins
import functools as _functools
import io as _io
from itertools import chain as _chain
import math as _math
import sys
import types

from .sym import (
    Lazy, force,
    DeadPath, EngineSignal, Sym, SymBool, SymFin, SymFloat, SymInt, SymSqrt, Unsupported, b_and, b_not,
    b_ite, b_or, cur, is_sym, isinstance_real, mk_bool, mk_fin, to_float,
)
from .symstr import (
    Atom, CS_DIGITS, SCh, SymStr, _truth, ch_eq, ch_in, cs_compl, cs_inter, cs_of, cs_pred, el_len, contains as str_contains, cs_norm, dec_str, els, is_strlike,
    mkstr, parse_float, parse_int, str_join, xels,
)
from .resym import ReShim, SymPattern

import z3

ENTERED = set()


def enter(name):
    ENTERED.add(name)


def has_sym(x, depth=3):
    if isinstance_real(x, Sym):
        return True
    if depth and isinstance_real(x, (tuple, list)):
        return any(has_sym(y, depth - 1) for y in x)
    return False


# ------------------------------------------------------------ conversions
def to_str(x):
    x = force(x)
    t = type(x)
    if t is str or t is SymStr:
        return x
    if isinstance_real(x, SymInt):
        return dec_str(x)
    if t is SymFin:
        return fin_str(x, str)
    if t is SymBool:
        return "True" if bool(x) else "False"
    if isinstance_real(x, (SymFloat, SymSqrt)):
        raise Unsupported("str() of a symbolic float")
    f = getattr(t, "__str__", None)
    if isinstance_real(f, types.FunctionType):
        r = f(x)
        if not is_strlike(r):
            raise TypeError(f"__str__ returned non-string (type {type(r).__name__})")
        return r
    if f is object.__str__:
        return to_repr(x)
    if isinstance_real(x, BaseException):
        if len(x.args) == 1:
            return to_str(x.args[0]) if not isinstance_real(x, KeyError) else to_repr(x.args[0])
        return "" if not x.args else to_repr(x.args)
    if isinstance_real(x, (tuple, list, dict, set)):
        return to_repr(x)
    return str(x)


def str_repr(s):
    """repr of symbolic text: forks only on the characters it escapes."""
    plain = cs_inter(cs_pred("isprintable"), cs_compl(cs_of("'\\")))
    el = []
    for c in s.el:
        if type(c) is not Atom and type(c) is not str and not _truth(ch_in(c, plain)):
            c = chr(cur.ctx.realize(c.e))
        el.append(c)
    quote = "'"
    if "'" in [c for c in el if type(c) is str] and not any(
            _truth(ch_eq(c, '"')) for c in el if type(c) is not Atom):
        quote = '"'
    out = []
    for c in el:
        if type(c) is str:
            r = builtins.repr(c)[1:-1]
            out.extend("\\'" if c == "'" and quote == "'" else ("'" if c == "'" else r))
        else:
            out.append(c)
    return mkstr([quote] + out + [quote])


def to_repr(x):
    t = type(x)
    if t is SymStr:
        return str_repr(x)
    if isinstance_real(x, Sym):
        return to_str(x)
    if t is tuple:
        if not has_sym(x, 5):
            return builtins.repr(x)
        inner = str_join(", ", [to_repr(y) for y in x])
        return "(" + inner + (",)" if len(x) == 1 else ")")
    if t is list:
        return "[" + str_join(", ", [to_repr(y) for y in x]) + "]"
    if t is dict:
        return "{" + str_join(", ", [to_repr(k) + ": " + to_repr(v) for k, v in x.items()]) + "}"
    if t is set and x:
        return "{" + str_join(", ", [to_repr(k) for k in x]) + "}"
    f = getattr(t, "__repr__", None)
    if isinstance_real(f, types.FunctionType):
        return f(x)
    return builtins.repr(x)


def fin_str(x, f):
    """Fork over the distinct renderings of a finite table."""
    groups = {}
    for d, v in zip(x.dom, x.tab):
        groups.setdefault(f(v), []).append(d)
    keys = list(groups)
    for k in keys[:-1]:
        if bool(SymBool(z3.Or(*[x.v == d for d in groups[k]]))):
            return k
    return keys[-1]


def _hexdigits(n, upper, k=1):
    """Forks on the number of digits beyond k."""
    while n.hi >= 16 ** k and not (n < 16 ** k):
        k += 1
    out = []
    off = 55 if upper else 87
    for i in range(k - 1, -1, -1):
        d = (n // 16 ** i) % 16 if i else n % 16
        if isinstance_real(d, int):
            out.append(format(d, "X" if upper else "x"))
        else:
            a = 65 if upper else 97
            out.append(SCh(z3.If(d.e < 10, d.e + 48, d.e + off), cs_norm([(48, 57), (a, a + 5)])))
    return out


def _pad(s, fill, align, width):
    if not width:
        return s
    n = len(s)
    if n >= width:
        return s
    if align == "<":
        return s + fill * (width - n)
    if align == "^":
        left = (width - n) // 2
        return fill * left + s + fill * (width - n - left)
    return fill * (width - n) + s


import re as _re

_SPEC = _re.compile(r"(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,|_)?(?:\.(\d+))?([a-zA-Z%])?", _re.S)


def fmt(x, spec=""):
    if isinstance_real(spec, SymStr):
        spec = spec.realize()
    x = force(x)
    t = type(x)
    if not isinstance_real(x, Sym):
        f = getattr(t, "__format__", None)
        if isinstance_real(f, types.FunctionType):
            return f(x, spec)
        if spec == "":
            return to_str(x)
        return builtins.format(x, spec)
    if t is SymBool:
        return builtins.format(bool(x), spec)
    if spec == "":
        return to_str(x)
    m = _SPEC.fullmatch(spec)
    if m is None:
        raise Unsupported(f"format spec {spec!r}")
    fill, align, sign, alt, zero, width, sep, prec, typ = m.groups()
    width = int(width) if width else 0
    if t is SymStr:
        if prec is not None:
            x = x[: int(prec)]
        return _pad(x, fill or " ", align or "<", width)
    if (sign not in (None, "-") or alt or sep) and isinstance_real(x, (SymInt, SymFin)):
        return builtins.format(x.realize(), spec)
    if t is SymFin and x.isfloat():
        return fin_str(x, lambda v: builtins.format(v, spec))
    if t is SymFin:
        x = x.to_symint()
        t = SymInt
    if isinstance_real(x, SymInt):
        if typ in (None, "d"):
            s = dec_str(x)
        elif typ in ("x", "X"):
            neg = bool(x < 0)
            k = width if zero and not align and width and not neg else 1
            s = mkstr((["-"] if neg else []) + _hexdigits(-x if neg else x, typ == "X", k))
        elif typ == "f":
            return fmt(x.to_float(), spec)
        else:
            return builtins.format(x.realize(), spec)
        if zero and not align:
            align, fill = "=", "0"
        if align == "=":
            if bool(x < 0):
                return builtins.format(x.realize(), spec)
            align = ">"
        return _pad(s, fill or " ", align or ">", width)
    if isinstance_real(x, (SymFloat, SymSqrt)):
        if typ == "f" and prec == "0" and not width:
            r = round(to_float(x))
            s = to_str(r)
            return s
        raise Unsupported(f"format spec {spec!r} of a symbolic float")
    raise Unsupported("format")


def fstr(parts):
    out = ""
    for p in parts:
        if type(p) is str:
            out = out + p
            continue
        v, conv, spec = p
        if conv == "r" or conv == "a":
            v = to_repr(v)
        elif conv == "s":
            v = to_str(v)
        out = out + fmt(v, spec)
    return out


def str_format(s, args, kwargs):
    import string
    if isinstance_real(s, SymStr):
        s = s.realize()
    out = ""
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None:
            continue
        first, rest = __import__("_string").formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else getitem(v, i)
        if conv == "r":
            v = to_repr(v)
        elif conv == "s":
            v = to_str(v)
        if spec and "{" in spec:
            spec = str_format(spec, args, kwargs)
        out = out + fmt(v, spec or "")
    return out


def plain_args(b):
    """Whether CPython can format these itself."""
    if isinstance_real(b, tuple):
        return all(plain_args(x) for x in b)
    return b is None or isinstance_real(b, (str, int, float, bytes, dict))


_PCT = _re.compile(r"%(?:\(([^)]*)\))?([-#0 +]*)(\*|\d*)(?:\.(\*|\d*))?[hlL]?([diouxXeEfFgGcrsa%])|([^%]+)|(%)")


def mod(a, b):
    if isinstance_real(a, SymStr):
        a = a.realize()
    if type(a) is str and (has_sym(b) or not plain_args(b)):
        args = list(b) if isinstance_real(b, tuple) else [b]
        out = ""
        i = 0
        for m in _PCT.finditer(a):
            name, flags, width, prec, conv, lit, bad = m.groups()
            if bad:
                raise ValueError("incomplete format")
            if lit is not None:
                out = out + lit
                continue
            if conv == "%":
                out = out + "%"
                continue
            if name is not None:
                v = getitem(b, name)
            else:
                if width == "*":
                    width = str(args[i].__index__())
                    i += 1
                if prec == "*":
                    prec = str(args[i].__index__())
                    i += 1
                if i >= len(args):
                    raise TypeError("not enough arguments for format string")
                v = args[i]
                i += 1
            v = force(v)
            if conv in "sr":
                v = to_repr(v) if conv == "r" else to_str(v)
                if prec is not None:
                    v = v[:int(prec or 0)]
                spec = ("<" if "-" in flags else ">") + width if width else ""
                out = out + fmt(v, spec)
            elif conv in "diuxX" and prec is None and not set(flags) - set("-0") and isinstance_real(v, (SymInt, SymFin)) and not (
                    isinstance_real(v, SymFin) and v.isfloat()):
                spec = ("<" if "-" in flags else ("0" if "0" in flags else ">")) + width if width else ""
                out = out + fmt(v, spec + (conv if conv in "xX" else "d"))
            elif conv == "f" and isinstance_real(v, Sym) and not flags and not width:
                out = out + fmt(v, "." + (prec if prec is not None else "6") + "f")
            else:
                s = "%" + flags + width + ("" if prec is None else "." + prec) + conv
                out = out + s % (hashable(v) if is_sym(v) else v,)
        if i < len(args) and isinstance_real(b, tuple):
            raise TypeError("not all arguments converted during string formatting")
        return out
    return a % b


# ---------------------------------------------------------------- dict keys
_MISSING = object()


def sym_key(k):
    if isinstance_real(k, Sym):
        return True
    return isinstance_real(k, tuple) and any(sym_key(x) for x in k)


def dict_find(d, key):
    """The stored key equal to a symbolic key (forks), or _MISSING."""
    for k in list(d):
        if isinstance_real(key, SymStr):
            if not isinstance_real(k, (str, SymStr)):
                continue
        r = k == key
        if r is NotImplemented or r is False:
            continue
        if r is True or bool(r):
            return k
    return _MISSING


def getitem(o, k):
    if isinstance_real(o, dict) and sym_key(k):
        f = dict_find(o, k)
        if f is _MISSING:
            m = getattr(type(o), "__missing__", None)
            if m is not None:
                return m(o, k)
            raise KeyError(k)
        return o[f]
    if type(o) in (list, tuple):
        kf = k.fin() if isinstance_real(k, SymInt) else k
        if type(kf) is SymFin and not kf.isfloat() and all(-len(o) <= i < len(o) for i in kf.tab):
            vals = [o[i] for i in kf.tab]
            if all(type(x) in (int, float) for x in vals):
                return mk_fin(kf.v, kf.dom, vals)
    return o[k]


def setitem(o, k, v):
    if isinstance_real(o, dict) and sym_key(k):
        f = dict_find(o, k)
        if f is not _MISSING:
            o[f] = v
            return
        k = hashable(k)
    o[k] = v


def delitem(o, k):
    if isinstance_real(o, dict) and sym_key(k):
        f = dict_find(o, k)
        if f is _MISSING:
            raise KeyError(k)
        k = f
    del o[k]


def hashable(k):
    """A concrete version of a symbolic key: enumerates its feasible values by forking."""
    if isinstance_real(k, (SymStr, SymInt, SymFin)):
        return k.realize()
    if isinstance_real(k, SymBool):
        return bool(k)
    if isinstance_real(k, Sym):
        raise Unsupported("symbolic float as a key")
    if isinstance_real(k, tuple):
        return tuple(hashable(x) for x in k)
    return k


def contains(a, c):
    t = type(c)
    if t is str or t is SymStr:
        if is_sym(a) or t is SymStr:
            return str_contains(c, a)
        return a in c
    if t is range and isinstance_real(a, (SymInt, SymFin)):
        if isinstance_real(a, SymFin):
            a = a.to_symint()
        if len(c) == 0:
            return False
        lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
        conds = [a >= lo, a <= hi]
        if abs(c.step) != 1:
            conds.append((a - lo) % abs(c.step) == 0)
        return b_and(conds)
    if t is _chain and isinstance_real(a, SymInt):
        c = list(c)
        t = list
        if all(type(x) is int for x in c):
            return b_or([b_and([a >= lo, a <= hi]) for lo, hi in cs_norm([(x, x) for x in c])])
    if t in (list, tuple):
        if not is_sym(a) and not any(is_sym(x) for x in c):
            return a in c
        res = []
        for x in c:
            if x is a:
                return True
            r = x == a
            if r is True:
                return True
            if r is False or r is NotImplemented:
                continue
            res.append(r)
        return b_or(res)
    if isinstance_real(c, (dict, set, frozenset, type({}.keys()))) and sym_key(a):
        return dict_find(c, a) is not _MISSING
    return a in c


def not_contains(a, c):
    return b_not(contains(a, c))


def deep_eq(a, b):
    """a == b for tuples and lists with symbolic members, without forking on each."""
    ta, tb = type(a), type(b)
    if ta is tb and (ta is tuple or ta is list):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = deep_eq(x, y)
            if r is False:
                return False
            if r is True:
                continue
            if not isinstance_real(r, SymBool):
                if not r:
                    return False
                continue
            out.append(r)
        return b_and(out)
    return a == b


def deep_ne(a, b):
    ta, tb = type(a), type(b)
    if ta is tb and (ta is tuple or ta is list):
        return b_not(deep_eq(a, b))
    return a != b


def and_(a, *rest):
    """`a and b and ...` where the later operands are side-effect free: joined into one
    term instead of forking, as long as they evaluate to booleans."""
    for i, f in enumerate(rest):
        if type(a) is SymBool:
            try:
                b = f()
            except Exception:
                if not bool(a):
                    return False
                b = f()
            if type(b) is bool or type(b) is SymBool:
                a = b_and([a, b])
                if a is False:
                    return False
                continue
            if not bool(a):
                return False
            a = b
        else:
            if not a:
                return a
            a = f()
    return a


def or_(a, *rest):
    for i, f in enumerate(rest):
        if type(a) is SymBool:
            try:
                b = f()
            except Exception:
                if bool(a):
                    return True
                b = f()
            if type(b) is bool or type(b) is SymBool:
                a = b_or([a, b])
                if a is True:
                    return True
                continue
            if bool(a):
                return True
            a = b
        else:
            if a:
                return a
            a = f()
    return a


def is_const(a, const):
    """`a is True` / `a is False` for a possibly symbolic bool."""
    if type(a) is SymBool:
        return a == const
    return a is const


def callm(obj, name, /, *a, **k):
    t = type(obj)
    if t is str:
        if name == "join":
            if len(a) == 1:
                items = list(a[0])
                if any(type(x) is SymStr for x in items):
                    return str_join(obj, items)
                return obj.join(items)
        elif name == "format" or name == "format_map":
            if any(is_sym(x) or not isinstance_real(x, (str, int, float)) for x in (*a, *k.values())):
                return str_format(obj, a, k) if name == "format" else str_format(obj, (), a[0])
        elif a and any(is_sym(x) or (type(x) is tuple and has_sym(x)) for x in a):
            return getattr(SymStr(list(obj)), name)(*a, **k)
    elif isinstance_real(obj, dict) and a and sym_key(a[0]):
        key = a[0]
        if name == "get":
            f = dict_find(obj, key)
            return (a[1] if len(a) > 1 else k.get("default")) if f is _MISSING else obj[f]
        if name == "pop":
            f = dict_find(obj, key)
            if f is _MISSING:
                if len(a) > 1:
                    return a[1]
                raise KeyError(key)
            return obj.pop(f)
        if name == "setdefault":
            f = dict_find(obj, key)
            if f is _MISSING:
                obj[hashable(key)] = a[1] if len(a) > 1 else None
                return obj[hashable(key)]
            return obj[f]
        if name == "__getitem__":
            return getitem(obj, key)
        if name == "__setitem__":
            return setitem(obj, key, a[1])
        if name == "__contains__":
            return contains(key, obj)
    elif (t is set) and a and sym_key(a[0]) and name in ("add", "remove", "discard"):
        f = dict_find(obj, a[0])
        key = hashable(a[0]) if f is _MISSING else f
        return getattr(obj, name)(key)
    return getattr(obj, name)(*a, **k)


def reraise_engine():
    e = sys.exc_info()[1]
    if isinstance_real(e, EngineSignal):
        raise e


# ------------------------------------------------------------ shadow builtins
class _ShadowMeta(type):
    def __instancecheck__(cls, x):
        return issubclass(type(x), cls._types)

    def __subclasscheck__(cls, c):
        return c is cls or builtins.issubclass(c, cls._real)

    def __getattr__(cls, name):
        attr = getattr(cls._real, name)
        if cls._real is str and name not in ("maketrans", "__name__", "__qualname__", "__module__"):
            return lambda self, *a, **k: callm(self, name, *a, **k)
        return attr

    __name__ = property(lambda cls: cls._real.__name__)

    def __repr__(cls):
        return repr(cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class ShadowStr(metaclass=_ShadowMeta):
    _real = str
    _types = (str, SymStr)

    def __new__(cls, x="", *a):
        if a:
            return str(x, *a)
        if isinstance_real(x, SymBytes):
            return str(bytes(x.realize()))
        return to_str(x)


class ShadowInt(metaclass=_ShadowMeta):
    _real = int
    _types = (int, SymInt, SymBool)

    def __new__(cls, x=0, base=None):
        x = force(x)
        if isinstance_real(x, SymStr):
            return parse_int(x, 10 if base is None else base)
        if base is not None:
            return int(x, base)
        if isinstance_real(x, SymInt):
            return x
        if isinstance_real(x, SymBool):
            return x.as_int()
        if isinstance_real(x, (SymFin, SymFloat, SymSqrt)):
            return x.trunc()
        return int(x)

    @classmethod
    def from_bytes(cls, *a, **k):
        return int.from_bytes(*a, **k)


class ShadowFloat(metaclass=_ShadowMeta):
    _real = float
    _types = (float, SymFloat, SymSqrt)

    def __new__(cls, x=0.0):
        x = force(x)
        if isinstance_real(x, SymStr):
            return parse_float(x)
        if isinstance_real(x, (SymFloat, SymSqrt)):
            return x
        if isinstance_real(x, SymFin):
            return mk_fin(x.v, x.dom, [float(t) for t in x.tab])
        if isinstance_real(x, (SymInt, SymBool)):
            return to_float(x)
        return float(x)


_TYPE_MAP = {SymStr: ShadowStr, SymInt: ShadowInt, SymBool: bool, SymFloat: ShadowFloat,
             str: ShadowStr, int: ShadowInt, float: ShadowFloat}


def shadow_type(*a, **k):
    if len(a) != 1 or k:
        return type(*a, **k)
    t = type(a[0])
    if t is SymFin:
        return ShadowFloat if a[0].isfloat() else ShadowInt
    return _TYPE_MAP.get(t, t)


def s_ord(c):
    if isinstance_real(c, SymStr):
        el = c.expanded()
        if len(el) != 1:
            raise TypeError(f"ord() expected a character, but string of length {len(el)} found")
        x = el[0]
        if type(x) is str:
            return ord(x)
        return SymInt(x.e, x.dom[0][0], x.dom[-1][1])
    return ord(c)


def s_chr(n):
    if isinstance_real(n, SymInt):
        lo, hi = max(n.lo, 0), min(n.hi, 0x10FFFF)
        if bool(n < 0) or bool(n > 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr([SCh(n.e, ((lo, hi),))])
    return chr(n)


def s_range(*a):
    return range(*[x.__index__() for x in a])


def s_len(x):
    if type(x) is SymStr:
        return el_len(x.el)
    f = getattr(type(x), "__len__", None)
    if isinstance_real(f, types.FunctionType) and not isinstance_real(x, Sym):
        n = f(x)
        if isinstance_real(n, SymInt):
            if bool(n < 0):
                raise ValueError("__len__() should return >= 0")
            return n
        if type(n) is int and n >= 0:
            return n
    return len(x)


def s_hex(x):
    if isinstance_real(x, (SymInt, SymFin)):
        return "-0x" + fmt(-x, "x") if bool(x < 0) else "0x" + fmt(x, "x")
    return hex(x)


def s_ascii(x):
    x = to_repr(x)
    x = x.realize() if isinstance_real(x, SymStr) else x
    return x.encode("ascii", "backslashreplace").decode()


def s_pow(b, e, m=None):
    if m is None:
        return b ** e
    return pow(*[x.__index__() for x in (b, e, m)])


def truth(x):
    """What a __bool__ of the code under test answers."""
    return bool(x) if type(x) is SymBool else x


class HashTok:
    def __init__(self, s):
        self.s = s


_HASHMODE = [False]


def hash_struct(x):
    if isinstance_real(x, Sym) or x is None or isinstance_real(x, (str, int, float, bytes)):
        return x
    if isinstance_real(x, (tuple, frozenset)):
        return tuple(hash_struct(y) for y in x)
    f = type(x).__hash__
    if f is None:
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    if isinstance_real(f, types.FunctionType):
        old = _HASHMODE[0]
        _HASHMODE[0] = True
        try:
            r = f(x)
        finally:
            _HASHMODE[0] = old
        return r.s if isinstance_real(r, HashTok) else r
    if isinstance_real(x, (list, dict, set)):
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    return ("id", id(x))


def s_hash(x):
    if _HASHMODE[0]:
        return HashTok(hash_struct(x))
    return hash(x)


def tok_eq(a, b):
    if isinstance_real(a, Lazy) or isinstance_real(b, Lazy):
        return True  # a function of the other members of the same key
    if isinstance_real(a, tuple) or isinstance_real(b, tuple):
        if not (isinstance_real(a, tuple) and isinstance_real(b, tuple)) or len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = tok_eq(x, y)
            if r is False:
                return False
            out.append(r)
        return b_and(out)
    if a is b:
        return True
    if (a is None) or (b is None):
        return False
    if is_strlike(a) != is_strlike(b):
        return False
    r = a == b
    return False if r is NotImplemented else r


class LruShim:
    """functools.lru_cache with symbolic keys: same hash structure and equal."""

    def __init__(self, f, maxsize=128, typed=False):
        self.f = f
        self.maxsize = maxsize
        self.entries = []
        self.__wrapped__ = f
        _functools.update_wrapper(self, f)
        self.hits = self.misses = 0

    def __call__(self, *a, **k):
        key = (tuple(a), tuple(sorted(k.items())))
        st = tuple(hash_struct(x) for x in a), tuple((n, hash_struct(v)) for n, v in key[1])
        for i, (okey, ost, res) in enumerate(self.entries):
            if len(okey[0]) != len(a) or [n for n, _ in okey[1]] != [n for n, _ in key[1]]:
                continue
            same = all(x is y for x, y in zip(okey[0], a)) and all(
                x[1] is y[1] for x, y in zip(okey[1], key[1]))
            if not same:
                r = tok_eq(ost, st)
                if r is False or not bool(r):
                    continue
                eq = True
                for x, y in zip(list(okey[0]) + [v for _, v in okey[1]], list(a) + [v for _, v in key[1]]):
                    if x is not y and not bool(x == y):
                        eq = False
                        break
                if not eq:
                    continue
            self.hits += 1
            if self.maxsize is not None:
                self.entries.append(self.entries.pop(i))
            return res
        self.misses += 1
        res = self.f(*a, **k)
        if self.maxsize != 0:
            self.entries.append((key, st, res))
            if self.maxsize is not None and len(self.entries) > self.maxsize:
                self.entries.pop(0)
        return res

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def cache_clear(self):
        self.entries.clear()

    def cache_info(self):
        return _functools._CacheInfo(self.hits, self.misses, self.maxsize, len(self.entries))


class FunctoolsShim:
    def __getattr__(self, n):
        return getattr(_functools, n)

    @staticmethod
    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize) and not isinstance_real(maxsize, int):
            return LruShim(maxsize)
        return lambda f: LruShim(f, maxsize, typed)

    @staticmethod
    def cache(f):
        return LruShim(f, None)


class MathShim:
    def __getattr__(self, n):
        f = getattr(_math, n)
        if callable(f):
            def g(*a):
                if len(a) == 1 and isinstance_real(a[0], SymInt) and a[0].fin() is not None:
                    a = (a[0].fin(),)
                if len(a) == 1 and isinstance_real(a[0], SymFin):
                    return a[0]._un(f)
                if any(isinstance_real(x, (SymFloat, SymSqrt)) for x in a):
                    raise Unsupported(f"math.{n} of a symbolic float")
                return f(*a)
            return g
        return f

    @staticmethod
    def sqrt(x):
        if isinstance_real(x, SymFin):
            return x._un(_math.sqrt)
        if isinstance_real(x, SymInt):
            f = x.fin()
            if f is not None:
                return f._un(_math.sqrt)
        if isinstance_real(x, Sym):
            x = to_float(x)
            if bool(x < 0):
                raise ValueError("math domain error")
            return SymSqrt(x)
        return _math.sqrt(x)

    @staticmethod
    def floor(x):
        return x.__floor__() if isinstance_real(x, Sym) else _math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if isinstance_real(x, Sym) else _math.ceil(x)

    @staticmethod
    def trunc(x):
        return x.__trunc__() if isinstance_real(x, Sym) else _math.trunc(x)

    @staticmethod
    def pow(x, y):
        return float(x) ** y if not isinstance_real(x, Sym) else ShadowFloat(x) ** y

    @staticmethod
    def fabs(x):
        return abs(ShadowFloat(x))

    @staticmethod
    def prod(xs, start=1):
        for x in xs:
            start = start * x
        return start

    @staticmethod
    def fsum(xs):
        return sum(xs)


class SymStringIO:
    """io.StringIO over possibly symbolic text."""

    def __init__(self, initial="", newline="\n"):
        self._s = initial
        self._p = 0
        self.closed = False
        self.encoding = None

    def write(self, t):
        if not is_strlike(t):
            raise TypeError(f"string argument expected, got {type(t).__name__!r}")
        n = len(t)
        s = self._s
        if len(s) < self._p:
            s = s + "\0" * (self._p - len(s))
        self._s = s[: self._p] + t + s[self._p + n:]
        self._p += n
        return n

    def writelines(self, it):
        for t in it:
            self.write(t)

    def read(self, n=-1):
        r = self._s[self._p:] if n is None or n < 0 else self._s[self._p:self._p + n]
        self._p += len(r)
        return r

    def readline(self, n=-1):
        out = ""
        while self._p < len(self._s) and (n is None or n < 0 or len(out) < n):
            c = self._s[self._p]
            self._p += 1
            out = out + c
            if bool(c == "\n"):
                break
        return out

    def readlines(self):
        return list(self)

    def __iter__(self):
        while self._p < len(self._s):
            yield self.readline()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def getvalue(self):
        return self._s

    def seek(self, p, whence=0):
        if whence == 0:
            self._p = p.__index__()
        elif whence == 2:
            self._p = len(self._s)
        return self._p

    def tell(self):
        return self._p

    def truncate(self, n=None):
        n = self._p if n is None else n.__index__()
        self._s = self._s[:n]
        return n

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def isatty(self):
        return False

    def fileno(self):
        raise _io.UnsupportedOperation("fileno")

    def readable(self):
        return True

    writable = seekable = readable


class IoShim:
    def __getattr__(self, n):
        return getattr(_io, n)

    StringIO = SymStringIO


class SymBytes(Sym):
    """A byte string with symbolic bytes (each int or SymInt)."""

    __slots__ = ("b",)

    def __init__(self, b):
        self.b = list(b)

    __class__ = property(lambda self: bytes)

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(self.b)

    def __bool__(self):
        return len(self.b) > 0

    def __getitem__(self, k):
        if isinstance_real(k, slice):
            return SymBytes(self.b[k])
        return self.b[k]

    def __add__(self, o):
        return SymBytes(self.b + list(o))

    def __radd__(self, o):
        return SymBytes(list(o) + self.b)

    def __eq__(self, o):
        if not isinstance_real(o, (bytes, bytearray, SymBytes)):
            return NotImplemented
        if len(o) != len(self.b):
            return False
        return b_and([x == y for x, y in zip(self.b, o)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        raise TypeError("unhashable symbolic bytes")

    def realize(self):
        return bytes([x.realize() if isinstance_real(x, SymInt) else x for x in self.b])

    def decode(self, encoding="utf-8", errors="strict"):
        name = encoding.lower().replace("_", "-")
        if name in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1"):
            out = ""
            for b in self.b:
                out = out + s_chr(b)
            return out
        if name in ("ascii", "us-ascii"):
            out = ""
            for b in self.b:
                if bool(b >= 0x80):
                    if errors != "strict":
                        raise Unsupported("decoder error handler")
                    raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
                out = out + s_chr(b)
            return out
        if name not in ("utf-8", "utf8"):
            return self.realize().decode(encoding, errors)
        d = Utf8Decoder(errors)
        return d.decode(self, True)


class Utf8Decoder:
    """Incremental UTF-8 decoder over symbolic bytes (strict)."""

    def __init__(self, errors="strict"):
        self.errors = errors
        self.buf = []
        self.need = 0

    def reset(self):
        self.buf = []

    def getstate(self):
        return (SymBytes(self.buf), 0)

    def _bad(self, why):
        self.buf = []
        raise UnicodeDecodeError("utf-8", b"?", 0, 1, why)

    def decode(self, data, final=False):
        out = ""
        for b in data:
            if not self.buf:
                if bool(b < 0x80):
                    out = out + s_chr(b)
                    continue
                if bool(b < 0xC2) or bool(b > 0xF4):
                    if self.errors != "strict":
                        raise Unsupported("decoder error handler")
                    self._bad("invalid start byte")
                self.need = 2 if bool(b < 0xE0) else (3 if bool(b < 0xF0) else 4)
                self.buf = [b]
                continue
            if bool(b < 0x80) or bool(b > 0xBF):
                if self.errors != "strict":
                    raise Unsupported("decoder error handler")
                self._bad("invalid continuation byte")
            self.buf.append(b)
            if len(self.buf) == self.need:
                lead = self.buf[0]
                v = lead - {2: 0xC0, 3: 0xE0, 4: 0xF0}[self.need]
                for c in self.buf[1:]:
                    v = v * 64 + (c - 0x80)
                lo = {2: 0x80, 3: 0x800, 4: 0x10000}[self.need]
                if bool(v < lo) or bool(v > 0x10FFFF) or (bool(v >= 0xD800) and bool(v <= 0xDFFF)):
                    self._bad("invalid sequence")
                self.buf = []
                if isinstance_real(v, SymInt):
                    v = SymInt(v.e, lo, {2: 0x7FF, 3: 0xFFFF, 4: 0x10FFFF}[self.need])
                out = out + s_chr(v)
        if final and self.buf:
            self._bad("unexpected end of data")
        return out


class RealizeShim:
    """A module of pure functions that take no proxies: the arguments are enumerated."""

    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        import importlib
        f = getattr(importlib.import_module(self._name), n)
        if not callable(f) or isinstance_real(f, type):
            return f
        return lambda *a, **k: f(*[hashable(force(x)) if is_sym(x) else x for x in a], **k)


class CodecsShim:
    def __getattr__(self, n):
        import codecs
        return getattr(codecs, n)

    @staticmethod
    def getincrementaldecoder(encoding):
        import codecs
        real = codecs.getincrementaldecoder(encoding)
        name = encoding.lower().replace("_", "-")
        if name in ("utf-8", "utf8"):
            return Utf8Decoder

        class Decoder:
            """Other encodings: byte by byte where the bytes are symbolic."""

            def __init__(self, errors="strict"):
                self.errors = errors
                self.real = real(errors)

            def decode(self, data, final=False):
                if not isinstance_real(data, SymBytes):
                    return self.real.decode(data, final)
                if name in ("latin-1", "latin1", "iso-8859-1", "iso8859-1", "l1", "ascii", "us-ascii"):
                    return data.decode(encoding, self.errors)
                return self.real.decode(data.realize(), final)

            def __getattr__(self, n):
                return getattr(self.real, n)

        return Decoder


def s_min(*a, **k):
    return builtins.min(*a, **k)


def s_abs(x):
    return abs(x)


def s_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def s_round(x, nd=None):
    x = force(x)
    if isinstance_real(x, Sym):
        return x.__round__(nd) if nd is not None else x.__round__()
    return round(x) if nd is None else round(x, nd)


def s_print(*a, **k):
    f = k.get("file") or sys.stdout
    out = str_join(to_str(k.get("sep", " ")), [to_str(x) for x in a]) + k.get("end", "\n")
    f.write(out)
    if k.get("flush"):
        f.flush()


def lazily(f, kind):
    """Defers a pure computation on an object whose `rgb` (or arguments) are symbolic."""
    @_functools.wraps(f)
    def g(*a, **k):
        if not k and any(has_sym(x) or has_sym(getattr(x, "rgb", None)) for x in a):
            return Lazy(f, a, kind)
        return f(*a, **k)
    return g


def shadow_builtins():
    d = dict(vars(builtins))
    d.update(
        str=ShadowStr, int=ShadowInt, float=ShadowFloat, repr=to_repr, ascii=s_ascii, format=fmt, ord=s_ord,
        chr=s_chr, range=_RangeShadow, len=s_len, hash=s_hash, hex=s_hex, pow=s_pow, sum=s_sum, round=s_round, print=s_print,
        type=_TypeShadow,
    )
    return d


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance_real(x, range)


class _RangeShadow(metaclass=_RangeMeta):
    def __new__(cls, *a):
        return s_range(*a)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance_real(x, type)

    def __getattr__(cls, n):
        return getattr(type, n)


class _TypeShadow(metaclass=_TypeMeta):
    def __new__(cls, *a, **k):
        return shadow_type(*a, **k)
