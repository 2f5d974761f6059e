"""Symbolic strings: concrete length, each element a concrete character, a symbolic
character (an integer code point with a static domain), or an *atom* - the decimal
rendering of a symbolic non-negative integer, kept unexpanded until something needs
its digits."""

import sys
import z3
from .sym import (
    IV, MAXCP, Sym, SymBool, SymFin, SymFloat, SymInt, SymStrBase, Unsupported, b_and, b_ite, b_not,
    b_or, cur, isinstance_real, mk_bool, mk_int,
)

# --------------------------------------------------------------- code-point sets


def cs_norm(iv):
    out = []
    for lo, hi in sorted(iv):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def cs_inter(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            lo, hi = max(l1, l2), min(h1, h2)
            if lo <= hi:
                out.append((lo, hi))
    return cs_norm(out)


def cs_compl(a):
    out = []
    p = 0
    for lo, hi in a:
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def cs_of(chars):
    return cs_norm([(ord(c), ord(c)) for c in chars])


def cs_has(cs, cp):
    return any(lo <= cp <= hi for lo, hi in cs)


_pred_cache = {}


def cs_pred(name):
    """Code points whose one-character string satisfies the str predicate `name`."""
    r = _pred_cache.get(name)
    if r is None:
        out = []
        start = None
        f = getattr(str, name)
        for cp in range(MAXCP + 1):
            if f(chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                out.append((start, cp - 1))
                start = None
        if start is not None:
            out.append((start, MAXCP))
        r = _pred_cache[name] = tuple(out)
    return r


CS_ANY = ((0, MAXCP),)
CS_DIGITS = ((48, 57),)
CS_ASCII = ((0, 127),)


def cs_expr(e, cs):
    parts = [e == lo if lo == hi else z3.And(e >= lo, e <= hi) for lo, hi in cs]
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


class SCh:
    __slots__ = ("e", "dom")

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom

    def __repr__(self):
        return f"<{self.e}>"


class Atom:
    """str(n) for a symbolic n >= 0."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<dec {self.n.e}>"

    def expand(self):
        n = self.n
        k = 1
        while n.hi >= 10 ** k and not (n < 10 ** k):
            k += 1
        out = []
        for i in range(k - 1, -1, -1):
            d = (n // 10 ** i) % 10 if i else n % 10
            if isinstance_real(d, int):
                out.append(chr(48 + d))
            else:
                out.append(SCh(d.e + 48, CS_DIGITS))
        return out


def ch_in(c, cs):
    """Membership of one element in a code-point set: bool or SymBool."""
    if type(c) is str:
        return cs_has(cs, ord(c))
    inter = cs_inter(c.dom, cs)
    if not inter:
        return False
    if inter == c.dom:
        return True
    # use the set relative to the domain: fewer pieces
    neg = cs_inter(c.dom, cs_compl(cs))
    if len(neg) < len(inter):
        return SymBool(z3.Not(cs_expr(c.e, neg)))
    return SymBool(cs_expr(c.e, inter))


def ch_eq(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        cp = ord(b)
        if not cs_has(a.dom, cp):
            return False
        if len(a.dom) == 1 and a.dom[0][0] == a.dom[0][1]:
            return True
        return SymBool(a.e == cp)
    if a is b or a.e.eq(b.e):
        return True
    if not cs_inter(a.dom, b.dom):
        return False
    return SymBool(a.e == b.e)


def mkstr(el):
    el = list(el)
    for x in el:
        if type(x) is not str:
            return SymStr(el)
    return "".join(el)


def els(s):
    """Elements of a str or SymStr."""
    if isinstance_real(s, SymStr):
        return s.el
    if isinstance_real(s, str):
        return list(s)
    raise TypeError(f"expected str, got {type(s).__name__}")


def xels(s):
    """Elements with atoms expanded into digits."""
    if isinstance_real(s, SymStr):
        return s.expanded()
    if isinstance_real(s, str):
        return list(s)
    raise TypeError(f"expected str, got {type(s).__name__}")


def is_strlike(x):
    return isinstance_real(x, (str, SymStr))


class SymPos(SymInt):
    """An index into a string that contains decimal renderings: a symbolic number that
    remembers which element of which string it points at."""

    __slots__ = ("owner", "idx")


def pos_of(el, idx):
    """The character index of element idx."""
    if not any(type(x) is Atom for x in el[:idx]):
        return idx
    n = el_len(el[:idx])
    if isinstance_real(n, int) and not isinstance_real(n, SymInt):
        return n
    p = SymPos(n.e, n.lo, n.hi)
    p.owner, p.idx = el, idx
    return p


def el_len(el):
    """The number of characters; that of a decimal rendering stays symbolic."""
    n = 0
    for c in el:
        n = n + 1
        if type(c) is Atom:
            k = 1
            while c.n.hi >= 10 ** k:
                n = n + b_ite(c.n >= 10 ** k, 1, 0)
                k += 1
    return n


class SymStr(SymStrBase):
    __slots__ = ("el", "x")

    def __init__(self, el):
        self.el = el
        self.x = None

    __class__ = property(lambda self: str)

    def __repr__(self):
        return "SymStr[" + " ".join(repr(x) for x in self.el) + "]"

    def expanded(self):
        if self.x is None:
            if any(type(x) is Atom for x in self.el):
                out = []
                for x in self.el:
                    if type(x) is Atom:
                        out.extend(x.expand())
                    else:
                        out.append(x)
                self.x = out
            else:
                self.x = self.el
        return self.x

    def _elem_index(self, k):
        """Element position of a character index, or -1 if that needs the digit counts."""
        el = self.el
        if type(k) is SymPos:
            return k.idx if k.owner is el else -1
        if isinstance_real(k, SymInt) or not hasattr(k, "__index__"):
            return -1
        k = k.__index__()
        if k >= 0:
            return k if k <= len(el) and not any(type(x) is Atom for x in el[:k]) else -1
        return len(el) + k if -k <= len(el) and not any(type(x) is Atom for x in el[k:]) else -1

    def __len__(self):
        return len(self.expanded())

    def __bool__(self):
        return len(self.el) > 0

    def __iter__(self):
        for c in list(self.expanded()):
            yield c if type(c) is str else SymStr([c])

    def __getitem__(self, k):
        if self.x is not self.el and any(type(x) is Atom for x in self.el):
            if isinstance_real(k, slice):
                if k.step is None:
                    a = 0 if k.start is None else self._elem_index(k.start)
                    b = len(self.el) if k.stop is None else self._elem_index(k.stop)
                    if a >= 0 and b >= 0:
                        return mkstr(self.el[a:b])
            else:
                i = self._elem_index(k)
                if 0 <= i < len(self.el) and type(self.el[i]) is not Atom:
                    c = self.el[i]
                    return c if type(c) is str else SymStr([c])
        el = self.expanded()
        if isinstance_real(k, slice):
            return mkstr(el[k])
        c = el[k.__index__()]
        return c if type(c) is str else SymStr([c])

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mkstr(self.el + els(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mkstr(els(o) + self.el)

    def __mul__(self, n):
        return mkstr(self.el * n.__index__())

    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_strlike(o):
            return NotImplemented
        if self is o:
            return True
        return str_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(r)

    def __hash__(self):
        return hash(self.realize())

    def _cmp(self, o, strict_lt, eqval):
        if not is_strlike(o):
            return NotImplemented
        a, b = xels(self), xels(o)
        for x, y in zip(a, b):
            if not _truth(ch_eq(x, y)):
                return mk_bool(cp(x) < cp(y)) if strict_lt else mk_bool(cp(x) > cp(y))
        if len(a) == len(b):
            return eqval
        return (len(a) < len(b)) if strict_lt else (len(a) > len(b))

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, True, True)

    def __gt__(self, o):
        return self._cmp(o, False, False)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __contains__(self, o):
        return _truth(contains(self, o))

    def __str__(self):
        return self.realize()

    def __format__(self, spec):
        raise Unsupported("format() on a symbolic string at a C boundary")

    def __mod__(self, args):
        return self.realize() % args

    def realize(self):
        out = []
        for c in self.expanded():
            if type(c) is str:
                out.append(c)
            else:
                out.append(chr(cur.ctx.realize(c.e)))
        return "".join(out)

    def __getattr__(self, name):
        """Any other method of str: on each feasible value."""
        if name.startswith("__") or not callable(getattr(str, name, None)):
            raise AttributeError(f"'str' object has no attribute {name!r}")
        return lambda *a, **k: getattr(self.realize(), name)(*a, **k)

    # -- methods mirrored from str ------------------------------------------
    def join(self, it):
        return str_join(self, it)

    def startswith(self, p, start=0, end=None):
        return str_startswith(self, p, start, end)

    def endswith(self, p, start=0, end=None):
        return str_endswith(self, p, start, end)

    def split(self, sep=None, maxsplit=-1):
        return str_split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        return str_rsplit(self, sep, maxsplit)

    def partition(self, sep):
        i = str_find(self, sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = str_rfind(self, sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def find(self, sub, start=0, end=None):
        return str_find(self, sub, start, end)

    def rfind(self, sub, start=0, end=None):
        return str_rfind(self, sub, start, end)

    def index(self, sub, start=0, end=None):
        i = str_find(self, sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=0, end=None):
        i = str_rfind(self, sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=0, end=None):
        return str_count(self, sub, start, end)

    def replace(self, old, new, count=-1):
        return str_replace(self, old, new, count)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars) if True else None

    def lstrip(self, chars=None):
        return str_strip(self, chars, True, False)

    def rstrip(self, chars=None):
        return str_strip(self, chars, False, True)

    def removeprefix(self, p):
        if _truth(str_startswith(self, p)):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if len(p) and _truth(str_endswith(self, p)):
            return self[:-len(p)]
        return self

    def lower(self):
        return str_case(self, True)

    casefold = lower

    def upper(self):
        return str_case(self, False)

    def _allpred(self, name):
        if not self.el:
            return False
        if name in ("isdigit", "isdecimal", "isnumeric", "isalnum", "isascii", "isprintable"):
            items = [c for c in self.el if type(c) is not Atom]
        else:
            items = self.expanded()
        return b_and([ch_in(c, cs_pred(name)) for c in items])

    def isdigit(self):
        return self._allpred("isdigit")

    def isdecimal(self):
        return self._allpred("isdecimal")

    def isnumeric(self):
        return self._allpred("isnumeric")

    def isalpha(self):
        return self._allpred("isalpha")

    def isalnum(self):
        return self._allpred("isalnum")

    def isspace(self):
        return self._allpred("isspace")

    def isascii(self):
        return self._allpred("isascii") if self.el else True

    def isprintable(self):
        return self._allpred("isprintable") if self.el else True

    def isupper(self):
        if len(self) == 1:
            return self._allpred("isupper")
        return self.realize().isupper()

    def islower(self):
        if len(self) == 1:
            return self._allpred("islower")
        return self.realize().islower()

    def isidentifier(self):
        return self.realize().isidentifier()

    def ljust(self, w, fill=" "):
        n = len(self)
        return self + fill * max(0, w.__index__() - n)

    def rjust(self, w, fill=" "):
        n = len(self)
        return fill * max(0, w.__index__() - n) + self

    def center(self, w, fill=" "):
        n = len(self)
        w = w.__index__()
        if w <= n:
            return self
        pad = w - n
        left = pad // 2 + (pad & w & 1)
        return fill * left + self + fill * (pad - left)

    def zfill(self, w):
        n = len(self)
        if n and ch_truth(self.expanded()[0], "+-"):
            return self[0] + self[1:].zfill(w - 1) if n > 1 else self
        return "0" * max(0, w.__index__() - n) + self

    def splitlines(self, keepends=False):
        brk = cs_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        el = self.expanded()
        out = []
        start = 0
        i = 0
        while i < len(el):
            if _truth(ch_in(el[i], brk)):
                j = i + 1
                if j < len(el) and _truth(ch_eq(el[i], "\r")) and _truth(ch_eq(el[j], "\n")):
                    j += 1
                out.append(mkstr(el[start:j] if keepends else el[start:i]))
                start = i = j
            else:
                i += 1
        if start < len(el):
            out.append(mkstr(el[start:]))
        return out

    def translate(self, table):
        out = []
        for c in self.expanded():
            if type(c) is str:
                out.extend(els(c.translate(table)))
                continue
            hit = False
            for k, v in table.items():
                if _truth(ch_eq(c, chr(k))):
                    hit = True
                    if v is None:
                        pass
                    elif isinstance_real(v, int):
                        out.append(chr(v))
                    else:
                        out.extend(els(v))
                    break
            if not hit:
                out.append(c)
        return mkstr(out)

    def expandtabs(self, n=8):
        return self.realize().expandtabs(n)

    def encode(self, encoding="utf-8", errors="strict"):
        return self.realize().encode(encoding, errors)

    def title(self):
        return self.realize().title()

    def capitalize(self):
        return self[:1].upper() + self[1:].lower() if len(self) else self

    def swapcase(self):
        return self.realize().swapcase()

    def format(self, *a, **k):
        from .rt import str_format
        return str_format(self, a, k)


def _truth(b):
    return bool(b)


def ch_truth(c, chars):
    return _truth(ch_in(c, cs_of(chars)))


def cp(c):
    return IV(ord(c)) if type(c) is str else c.e


def _nondigit(el, i):
    """No digit can stand at position i."""
    if i >= len(el):
        return True
    x = el[i]
    return type(x) is not Atom and ch_in(x, CS_DIGITS) is False


def _aligned_eq(ea, eb):
    """Equality of two element lists with decimal renderings, walked from the left; None
    where the alignment depends on digit counts."""
    out = []
    i = j = 0
    while i < len(ea) and j < len(eb):
        x, y = ea[i], eb[j]
        xa, ya = type(x) is Atom, type(y) is Atom
        if not xa and not ya:
            r = ch_eq(x, y)
            i += 1
            j += 1
        elif xa and ya:
            if not (_nondigit(ea, i + 1) and _nondigit(eb, j + 1)):
                return None
            r = x.n == y.n
            i += 1
            j += 1
        else:
            at, k, el = (x, j, eb) if xa else (y, i, ea)
            if not (_nondigit(ea, i + 1) if xa else _nondigit(eb, j + 1)):
                return None
            run = []
            while not _nondigit(el, k):
                if type(el[k]) is Atom:
                    return None
                run.append(el[k])
                k += 1
            if not run:
                return False
            if all(type(c) is str for c in run):
                d = "".join(run)
                r = (len(d) == 1 or d[0] != "0") and at.n == int(d)
            elif len(run) == 1:
                r = b_and([ch_in(run[0], CS_DIGITS), mk_bool(run[0].e - 48 == at.n.e)])
            else:
                return None
            if xa:
                i, j = i + 1, k
            else:
                i, j = k, j + 1
        if r is False:
            return False
        out.append(r)
    if i < len(ea) or j < len(eb):
        return False
    return b_and(out)


def _len_range(el):
    lo = hi = 0
    for x in el:
        if type(x) is Atom:
            lo += len(str(max(0, x.n.lo)))
            hi += len(str(max(0, x.n.hi)))
        else:
            lo += 1
            hi += 1
    return lo, hi


def str_eq(a, b):
    ea, eb = els(a), els(b)
    if any(type(x) is Atom for x in ea) or any(type(x) is Atom for x in eb):
        la, lb = _len_range(ea), _len_range(eb)
        if la[0] > lb[1] or lb[0] > la[1]:
            return False
        for seq in (zip(ea, eb), zip(reversed(ea), reversed(eb))):
            for x, y in seq:
                if type(x) is Atom or type(y) is Atom:
                    z = y if type(x) is Atom else x
                    if type(z) is not Atom and ch_in(z, CS_DIGITS) is False:
                        return False
                    break
                if ch_eq(x, y) is False:
                    return False
        r = _aligned_eq(ea, eb)
        if r is not None:
            return r
        ea, eb = xels(a), xels(b)
    if len(ea) != len(eb):
        return False
    out = []
    for x, y in zip(ea, eb):
        r = ch_eq(x, y)
        if r is False:
            return False
        out.append(r)
    return b_and(out)


def _match_at(el, i, sub):
    if i + len(sub) > len(el):
        return False
    out = []
    for k, y in enumerate(sub):
        r = ch_eq(el[i + k], y)
        if r is False:
            return False
        out.append(r)
    return b_and(out)


def contains(hay, needle):
    if not is_strlike(needle):
        raise TypeError(f"'in <string>' requires string as left operand, not {type(needle).__name__}")
    if len(needle) == 0:
        return True
    nd = els(needle)
    h = els(hay)
    if any(type(x) is Atom for x in h):
        if len(nd) == 1 and type(nd[0]) is not Atom and ch_in(nd[0], CS_DIGITS) is False:
            h = [x for x in h if type(x) is not Atom]
            return b_or([ch_eq(x, nd[0]) for x in h])
        h = xels(hay)
    nd = xels(needle)
    return b_or([_match_at(h, i, nd) for i in range(len(h) - len(nd) + 1)])


def _bounds(n, start, end):
    s, e, _ = slice(start, end).indices(n)
    return s, e


def str_find(s, sub, start=0, end=None):
    h, nd = xels(s), xels(sub)
    a, b = _bounds(len(h), start, end)
    for i in range(a, b - len(nd) + 1):
        if _truth(_match_at(h, i, nd)):
            return i
    return -1


def str_rfind(s, sub, start=0, end=None):
    h, nd = xels(s), xels(sub)
    a, b = _bounds(len(h), start, end)
    for i in range(b - len(nd), a - 1, -1):
        if _truth(_match_at(h, i, nd)):
            return i
    return -1


def _elems_for(s, sub):
    """Elements for scanning for `sub`: atoms stay whole if sub cannot occur in digits."""
    nd = els(sub)
    if any(type(x) is Atom for x in els(s)):
        if len(nd) == 1 and type(nd[0]) is not Atom and ch_in(nd[0], CS_DIGITS) is False:
            return els(s), nd
        return xels(s), xels(sub)
    return els(s), xels(sub)


def _ateq(h, i, nd):
    if type(h[i]) is Atom:
        return False
    return _match_at(h, i, nd)


def str_count(s, sub, start=0, end=None):
    if start != 0 or end is not None:
        return str_count(s[start:end], sub)
    h, nd = _elems_for(s, sub)
    if not nd:
        return len(s) + 1
    if len(nd) == 1:
        total = 0
        for i in range(len(h)):
            r = _ateq(h, i, nd)
            if r is True:
                total = total + 1
            elif r is not False:
                total = total + r.as_int()
        return total
    n = i = 0
    while i <= len(h) - len(nd):
        if _truth(_ateq(h, i, nd)):
            n += 1
            i += len(nd)
        else:
            i += 1
    return n


def str_replace(s, old, new, count=-1):
    h, nd = _elems_for(s, old)
    nw = els(new)
    count = count.__index__()
    if not nd:
        out = []
        for i in range(len(h) + 1):
            if count < 0 or i < count:
                out.extend(nw)
            out.extend(h[i:i + 1])
        return mkstr(out)
    out = []
    i = 0
    while i < len(h):
        if count != 0 and i + len(nd) <= len(h) and _truth(_ateq(h, i, nd)):
            out.extend(nw)
            i += len(nd)
            count -= 1
        else:
            out.append(h[i])
            i += 1
    return mkstr(out)


def str_split(s, sep=None, maxsplit=-1):
    maxsplit = maxsplit.__index__()
    if sep is None:
        ws = cs_pred("isspace")
        h = els(s)
        out = []
        curr = []
        i = 0
        while i < len(h):
            c = h[i]
            if type(c) is not Atom and _truth(ch_in(c, ws)):
                if curr:
                    out.append(mkstr(curr))
                    curr = []
                i += 1
                continue
            if not curr and maxsplit >= 0 and len(out) >= maxsplit:
                rest = mkstr(h[i:])
                r = str_strip(rest, None, False, True)
                out.append(r)
                return out
            curr.append(c)
            i += 1
        if curr:
            out.append(mkstr(curr))
        return out
    h, nd = _elems_for(s, sep)
    if not nd:
        raise ValueError("empty separator")
    out = []
    curr = []
    i = 0
    while i < len(h):
        if maxsplit != 0 and i + len(nd) <= len(h) and _truth(_ateq(h, i, nd)):
            out.append(mkstr(curr))
            curr = []
            i += len(nd)
            maxsplit -= 1
        else:
            curr.append(h[i])
            i += 1
    out.append(mkstr(curr))
    return out


def str_rsplit(s, sep=None, maxsplit=-1):
    maxsplit = maxsplit.__index__()
    if maxsplit < 0:
        return str_split(s, sep)
    if sep is None:
        raise Unsupported("rsplit on whitespace")
    out = []
    rest = s
    while maxsplit != 0:
        i = str_rfind(rest, sep)
        if i < 0:
            break
        out.append(rest[i + len(sep):])
        rest = rest[:i]
        maxsplit -= 1
    out.append(rest)
    return out[::-1]


def str_strip(s, chars, left, right):
    cs = cs_pred("isspace") if chars is None else None
    cl = None if chars is None else xels(chars)
    digits_possible = cl is not None and any(ch_in(c, CS_DIGITS) is not False for c in cl)
    el = list(xels(s) if digits_possible else els(s))

    def hit(c):
        if type(c) is Atom:
            return False
        if cs is not None:
            return _truth(ch_in(c, cs))
        return _truth(b_or([ch_eq(c, x) for x in cl]))

    a, b = 0, len(el)
    if left:
        while a < b and hit(el[a]):
            a += 1
    if right:
        while b > a and hit(el[b - 1]):
            b -= 1
    return mkstr(el[a:b])


def str_join(sep, it):
    out = []
    sp = els(sep)
    first = True
    for i, x in enumerate(it):
        if not is_strlike(x):
            raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
        if not first:
            out.extend(sp)
        first = False
        out.extend(els(x))
    return mkstr(out)


def _never(h, nd):
    """Certainly no match, seen before the first decimal rendering is passed."""
    for x, y in zip(h, nd):
        if type(x) is Atom or type(y) is Atom:
            z = y if type(x) is Atom else x
            return type(z) is not Atom and ch_in(z, CS_DIGITS) is False
        if ch_eq(x, y) is False:
            return True
    return False


def str_startswith(s, p, start=0, end=None):
    if isinstance_real(p, tuple):
        return b_or([str_startswith(s, q, start, end) for q in p])
    if not is_strlike(p):
        raise TypeError("startswith first arg must be str or a tuple of str")
    h = els(s)
    if start != 0 or end is not None:
        h = els(s[start:end])
    nd = els(p)
    if len(nd) and any(type(x) is Atom for x in h[:len(nd)]) or any(type(x) is Atom for x in nd):
        if _never(h, nd):
            return False
        h, nd = xels(mkstr(h)), xels(p)
    return _match_at(h, 0, nd)


def str_endswith(s, p, start=0, end=None):
    if isinstance_real(p, tuple):
        return b_or([str_endswith(s, q, start, end) for q in p])
    if not is_strlike(p):
        raise TypeError("endswith first arg must be str or a tuple of str")
    h = els(s)
    if start != 0 or end is not None:
        h = els(s[start:end])
    nd = els(p)
    if not nd:
        return True
    if any(type(x) is Atom for x in h[-len(nd):]) or any(type(x) is Atom for x in nd):
        if _never(reversed(h), reversed(nd)):
            return False
        h, nd = xels(mkstr(h)), xels(p)
    if len(nd) > len(h):
        return False
    return _match_at(h, len(h) - len(nd), nd)


def str_case(s, lower):
    out = []
    for c in els(s):
        if type(c) is Atom:
            out.append(c)
        elif type(c) is str:
            out.extend(list(c.lower() if lower else c.upper()))
        elif not cs_inter(c.dom, cs_pred("isupper" if lower else "islower")) and cs_inter(c.dom, cs_compl(CS_ASCII)) == ():
            out.append(c)
        else:
            if cs_inter(c.dom, cs_compl(CS_ASCII)):
                if not _truth(ch_in(c, CS_ASCII)):
                    x = chr(cur.ctx.realize(c.e))
                    out.extend(list(x.lower() if lower else x.upper()))
                    continue
            a, z, d = (65, 90, 32) if lower else (97, 122, -32)
            e = z3.If(z3.And(c.e >= a, c.e <= z), c.e + d, c.e)
            ad = cs_inter(c.dom, CS_ASCII)
            moved = tuple((lo + d, hi + d) for lo, hi in cs_inter(ad, ((a, z),)))
            kept = cs_inter(ad, cs_compl(((a, z),)))
            out.append(SCh(e, cs_norm(moved + kept)))
    return mkstr(out)


# ------------------------------------------------------------------ numbers
def dec_str(n):
    """str(n) for a SymInt."""
    if n.lo < 0:
        if n < 0:
            m = -n
            if isinstance_real(m, SymInt):
                m.lo = max(m.lo, 1)
                return SymStr(["-", Atom(m)])
            return "-" + str(m)
        n = SymInt(n.e, 0, n.hi)
    return SymStr([Atom(n)])


def digit_value(c, base):
    """Value of a digit element, or None when it is not a digit (forks)."""
    ranges = [(48, min(57, 48 + base - 1), 48)]
    if base > 10:
        ranges += [(65, 65 + base - 11, 55), (97, 97 + base - 11, 87)]
    cs = cs_norm([(lo, hi) for lo, hi, _ in ranges])
    if not _truth(ch_in(c, cs)):
        return None
    e = None
    for lo, hi, off in ranges:
        if cs_inter(c.dom, ((lo, hi),)):
            t = c.e - off
            e = t if e is None else z3.If(z3.And(c.e >= lo, c.e <= hi), t, e)
    return SymInt(e, 0, base - 1)


def parse_int(s, base=10):
    el = els(s)
    if base == 10 and len(el) == 1 and type(el[0]) is Atom:
        return el[0].n
    stripped = str_strip(s, None, True, True)
    if not is_strlike(stripped) or not isinstance_real(stripped, SymStr):
        return int(stripped, base)
    el = stripped.expanded()
    neg = False
    if type(el[0]) is str and el[0] in "+-" or type(el[0]) is not str and _truth(ch_in(el[0], cs_of("+-"))):
        neg = _truth(ch_eq(el[0], "-"))
        el = el[1:]
    val = 0
    if not el:
        raise ValueError(f"invalid literal for int() with base {base}")
    exotic = cs_norm(tuple(r for r in cs_pred("isdecimal") if r[0] > 127) + ((95, 95),))
    for c in el:
        if type(c) is str:
            try:
                d = int(c, base)
            except ValueError:
                if c == "_":
                    raise Unsupported("underscore in int literal")
                raise ValueError(f"invalid literal for int() with base {base}") from None
        else:
            d = digit_value(c, base)
            if d is None:
                if _truth(ch_in(c, exotic)):
                    raise Unsupported("non-ASCII digit or underscore in int literal")
                raise ValueError(f"invalid literal for int() with base {base}")
        val = val * base + d
    return -val if neg else val


def parse_float(s):
    x = s
    return float(x.realize())
