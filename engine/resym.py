"""A backtracking regular-expression matcher over symbolic strings, driven by CPython's
own regex parser, so the pattern semantics come from the pattern in the source."""

import re as _re
from re import _parser, _constants as C

from .sym import Unsupported, isinstance_real
from .symstr import (
    Atom, CS_ANY, CS_DIGITS, SymStr, ch_eq, ch_in, cs_compl, cs_inter, cs_norm, cs_pred, els,
    is_strlike, mkstr, pos_of, xels, _truth,
)

_WORD = None


def cs_word():
    global _WORD
    if _WORD is None:
        _WORD = cs_norm(cs_pred("isalnum") + ((95, 95),))
    return _WORD


def category(av, flags):
    asc = flags & _re.ASCII
    name = str(av).lower()
    if "not_" in name:
        return cs_compl(category_pos(name.replace("not_", ""), asc))
    return category_pos(name, asc)


def category_pos(name, asc):
    if "digit" in name:
        return CS_DIGITS if asc else cs_pred("isdecimal")
    if "space" in name:
        return cs_norm([(9, 13), (32, 32)]) if asc else cs_pred("isspace")
    if "word" in name:
        return cs_norm([(48, 57), (65, 90), (95, 95), (97, 122)]) if asc else cs_word()
    raise Unsupported(f"regex category {name}")


def _fold(cs):
    out = list(cs)
    for lo, hi in cs:
        if hi - lo > 70000:
            continue
        for c in range(lo, min(hi, 127) + 1):
            ch = chr(c)
            for o in (ch.lower(), ch.upper()):
                out.append((ord(o), ord(o)))
    return cs_norm(out)


def charset(op, av, flags):
    """The code-point set of a single-character node, or None."""
    if op is C.LITERAL:
        cs = ((av, av),)
    elif op is C.NOT_LITERAL:
        cs = ((av, av),)
        if flags & _re.IGNORECASE:
            cs = _fold(cs)
        return cs_compl(cs)
    elif op is C.ANY:
        return CS_ANY if flags & _re.DOTALL else cs_compl(((10, 10),))
    elif op is C.CATEGORY:
        return category(av, flags)
    elif op is C.IN:
        neg = False
        iv = []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                iv.append((a, a))
            elif o is C.RANGE:
                iv.append(a)
            elif o is C.CATEGORY:
                iv.extend(category(a, flags))
            else:
                raise Unsupported(f"regex set item {o}")
        cs = cs_norm(iv)
        if flags & _re.IGNORECASE:
            cs = _fold(cs)
        return cs_compl(cs) if neg else cs
    else:
        return None
    if flags & _re.IGNORECASE:
        cs = _fold(cs)
    return cs


def _in(c, cs):
    if type(c) is Atom:      # only reached for atom-safe patterns
        return cs_inter(cs, CS_DIGITS) == CS_DIGITS
    return ch_in(c, cs)


def atom_safe(tree, flags):
    """Decimal renderings can be matched as one element: digits are only consumed by
    unbounded repeats that are followed by something that is not a digit."""

    def digits(cs):
        i = cs_inter(cs, CS_DIGITS)
        return True if i == CS_DIGITS else False if i == () else None

    def stops(nodes):
        """What follows certainly starts with a non-digit (or is the end, greedy only)."""
        if not nodes:
            return "end"
        op, av = nodes[0]
        cs = charset(op, av, flags)
        if cs is not None:
            return "stop" if digits(cs) is False else None
        if op is C.SUBPATTERN and not av[1] and not av[2]:
            return stops(list(av[3]) + nodes[1:])
        return None

    def ok(nodes, follow):
        for k, (op, av) in enumerate(nodes):
            rest = nodes[k + 1:] + follow
            cs = charset(op, av, flags)
            if cs is not None:
                if digits(cs) is not False:
                    return False
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, sub = av
                if len(sub) != 1:
                    return False
                single = charset(sub[0][0], sub[0][1], flags)
                if single is None:
                    return False
                d = digits(single)
                if d is None:
                    return False
                if d:
                    if lo > 1 or hi is not C.MAXREPEAT:
                        return False
                    st = stops(rest)
                    if st is None or (st == "end" and op is C.MIN_REPEAT and lo > 0):
                        return False
            elif op is C.SUBPATTERN:
                if av[1] or av[2] or not ok(list(av[3]), rest):
                    return False
            elif op is C.BRANCH:
                if not all(ok(list(alt), rest) for alt in av[1]):
                    return False
            elif op is C.AT:
                if av not in (C.AT_BEGINNING, C.AT_BEGINNING_STRING, C.AT_END, C.AT_END_STRING):
                    return False
            else:
                return False
        return True

    return ok(tree, [])


class _M:
    """One matching attempt: subject elements plus group positions."""

    def __init__(self, el, flags, endpos):
        self.el = el
        self.flags = flags
        self.end = endpos

    def match(self, nodes, k, i, groups, cont):
        """Tries nodes[k:] at i; calls cont(i, groups) -> result or None."""
        if k == len(nodes):
            return cont(i, groups)
        op, av = nodes[k]
        nxt = lambda j, g: self.match(nodes, k + 1, j, g, cont)
        cs = charset(op, av, self.flags)
        if cs is not None:
            if i < self.end and _truth(_in(self.el[i], cs)):
                return nxt(i + 1, groups)
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            hi = None if hi is C.MAXREPEAT else hi
            if op is C.POSSESSIVE_REPEAT:
                raise Unsupported("possessive repeat")
            single = None
            if len(sub) == 1:
                single = charset(sub[0][0], sub[0][1], self.flags)
            if single is not None:
                return self.rep_single(single, lo, hi, op is C.MAX_REPEAT, i, groups, nxt)
            return self.rep(list(sub), 0, lo, hi, op is C.MAX_REPEAT, i, groups, nxt)
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                old = self.flags
                self.flags = (self.flags | add) & ~rem
                try:
                    res = self.match(list(sub), 0, i, groups, lambda j, g: (j, g))
                finally:
                    self.flags = old
                if res is None:
                    return None
                j, g = res
                return nxt(j, self._set(g, gid, i, j))
            return self.match(list(sub), 0, i, groups, lambda j, g: nxt(j, self._set(g, gid, i, j)))
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.match(list(alt), 0, i, groups, nxt)
                if r is not None:
                    return r
            return None
        if op is C.ASSERT or op is C.ASSERT_NOT:
            direction, sub = av
            if direction < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Unsupported("variable look-behind")
                j = i - w[0]
                r = None if j < 0 else self.match(list(sub), 0, j, groups, lambda q, g: (q, g))
            else:
                r = self.match(list(sub), 0, i, groups, lambda q, g: (q, g))
            if op is C.ASSERT:
                return None if r is None else nxt(i, r[1])
            return nxt(i, groups) if r is None else None
        if op is C.AT:
            return nxt(i, groups) if self.at(av, i) else None
        if op is C.GROUPREF:
            span = groups.get(av)
            if span is None:
                return None
            a, b = span
            for q in range(a, b):
                if i >= self.end or not _truth(ch_eq(self.el[q], self.el[i])):
                    return None
                i += 1
            return nxt(i, groups)
        if op is C.ATOMIC_GROUP:
            r = self.match(list(av), 0, i, groups, lambda q, g: (q, g))
            return None if r is None else nxt(*r)
        raise Unsupported(f"regex node {op}")

    @staticmethod
    def _set(g, gid, i, j):
        if gid is None:
            return g
        g = dict(g)
        g[gid] = (i, j)
        return g

    def rep_single(self, cs, lo, hi, greedy, i, groups, nxt):
        n = 0
        j = i

        def more():
            return (hi is None or n < hi) and j < self.end and _truth(_in(self.el[j], cs))

        while n < lo:
            if not more():
                return None
            n += 1
            j += 1
        if greedy:
            start = j
            while more():
                n += 1
                j += 1
            while j >= start:
                r = nxt(j, groups)
                if r is not None:
                    return r
                j -= 1
            return None
        while True:
            r = nxt(j, groups)
            if r is not None:
                return r
            if not more():
                return None
            n += 1
            j += 1

    def rep(self, sub, n, lo, hi, greedy, i, groups, nxt):
        def again():
            if hi is not None and n >= hi:
                return None
            return self.match(sub, 0, i, groups,
                              lambda j, g: None if j == i and n >= lo else
                              self.rep(sub, n + 1, lo, hi, greedy, j, g, nxt))

        if n < lo:
            return again()
        if greedy:
            r = again()
            return r if r is not None else nxt(i, groups)
        r = nxt(i, groups)
        return r if r is not None else again()

    def at(self, av, i):
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if i == 0:
                return True
            return bool(av is C.AT_BEGINNING and self.flags & _re.MULTILINE and _truth(ch_eq(self.el[i - 1], "\n")))
        if av is C.AT_END_STRING:
            return i == self.end
        if av is C.AT_END:
            if i == self.end:
                return True
            if self.flags & _re.MULTILINE:
                return _truth(ch_eq(self.el[i], "\n"))
            return i == self.end - 1 and _truth(ch_eq(self.el[i], "\n"))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and _truth(ch_in(self.el[i - 1], cs_word()))
            b = i < self.end and _truth(ch_in(self.el[i], cs_word()))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported(f"regex anchor {av}")


class SymMatch:
    def __init__(self, pattern, subject, el, i, j, groups):
        self.re = pattern
        self.string = subject
        self._el = el
        self._span = {0: (i, j), **groups}
        order = pattern.close_order if groups else {}
        self.lastindex = max((g for g in groups), key=lambda g: (groups[g][1], order.get(g, 0)), default=None)
        self.pos = 0
        self.endpos = pos_of(el, len(el))

    @property
    def lastgroup(self):
        for n, g in self.re.groupindex.items():
            if g == self.lastindex:
                return n
        return None

    @property
    def regs(self):
        return tuple(self.span(g) for g in range(self.re.groups + 1))

    def expand(self, template):
        return self.re._expand(template, self)

    def _gid(self, g):
        if isinstance_real(g, str):
            return self.re.groupindex[g]
        return g

    def span(self, g=0):
        s = self._span.get(self._gid(g))
        if s is None:
            return (-1, -1)
        return (pos_of(self._el, s[0]), pos_of(self._el, s[1]))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        g = self._gid(g)
        if g > self.re.groups:
            raise IndexError("no such group")
        s = self._span.get(g)
        return None if s is None else mkstr(self._el[s[0]:s[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        out = []
        for g in range(1, self.re.groups + 1):
            v = self._one(g)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {n: (default if self._one(g) is None else self._one(g)) for n, g in self.re.groupindex.items()}

    def __bool__(self):
        return True


class SymPattern:
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self._tree = None
        self._safe = None
        self._close = None

    def __eq__(self, o):
        return isinstance_real(o, SymPattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    def __repr__(self):
        return repr(self.real)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def tree(self):
        if self._tree is None:
            p = self.pattern
            self._tree = list(_parser.parse(p, self.flags))
        return self._tree

    @property
    def close_order(self):
        """Groups by the position of their closing parenthesis."""
        if self._close is None:
            self._close = out = {}

            def walk(x):
                if isinstance_real(x, tuple) and len(x) == 2 and x[0] is C.SUBPATTERN:
                    walk(x[1][3])
                    if x[1][0] is not None:
                        out[x[1][0]] = len(out)
                elif isinstance_real(x, (tuple, list)) or type(x) is _parser.SubPattern:
                    for y in x:
                        walk(y)

            walk(self.tree)
        return self._close

    def _sym(self, s):
        return isinstance_real(s, SymStr)

    def _at(self, s, el, i, end, full=False):
        m = _M(el, self.flags, end)
        if full:
            cont = lambda j, g: (j, g) if j == end else None
        else:
            cont = lambda j, g: (j, g)
        r = m.match(self.tree, 0, i, {}, cont)
        if r is None:
            return None
        return SymMatch(self, s, el, i, r[0], r[1])

    @property
    def safe(self):
        if self._safe is None:
            self._safe = atom_safe(self.tree, self.flags)
        return self._safe

    def _elements(self, s):
        return els(s) if self.safe else xels(s)

    def _prep(self, s, pos, endpos):
        if pos == 0 and endpos is None:
            el = self._elements(s)
            return el, 0, len(el)
        el = list(xels(s))
        n = len(el)
        pos = min(max(pos.__index__(), 0), n)
        endpos = n if endpos is None else min(max(endpos.__index__(), 0), n)
        return el, pos, endpos

    def match(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self.real.match(string, pos, *([] if endpos is None else [endpos]))
        el, pos, endpos = self._prep(string, pos, endpos)
        return self._at(string, el, pos, endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self.real.fullmatch(string, pos, *([] if endpos is None else [endpos]))
        el, pos, endpos = self._prep(string, pos, endpos)
        return self._at(string, el, pos, endpos, True)

    def search(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self.real.search(string, pos, *([] if endpos is None else [endpos]))
        el, pos, endpos = self._prep(string, pos, endpos)
        for i in range(pos, endpos + 1):
            m = self._at(string, el, i, endpos)
            if m is not None:
                return m
        return None

    def finditer(self, string, pos=0, endpos=None):
        if not self._sym(string):
            yield from self.real.finditer(string, pos, *([] if endpos is None else [endpos]))
            return
        el, i, endpos = self._prep(string, pos, endpos)
        while i <= endpos:
            m = self._at(string, el, i, endpos)
            if m is None:
                i += 1
                continue
            a, b = m._span[0] if type(m) is SymMatch else m.span()
            yield m
            i = b if b > a else b + 1

    def findall(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self.real.findall(string, pos, *([] if endpos is None else [endpos]))
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups("")[0])
            else:
                out.append(m.groups(""))
        return out

    def _expand(self, repl, m):
        if callable(repl):
            return repl(m)
        if isinstance_real(repl, SymStr):
            return repl
        if "\\" not in repl:
            return repl
        tmpl = _parser.parse_template(repl, self.real)
        out = ""
        for part in tmpl:
            if isinstance_real(part, int):
                v = m._one(part)
                out = out + ("" if v is None else v)
            else:
                out = out + part
        return out

    def subn(self, repl, string, count=0):
        if not self._sym(string) and not isinstance_real(repl, SymStr):
            if not callable(repl):
                return self.real.subn(repl, string, count)
            # a callback may return symbolic text
            last = 0
            res = ""
            n = 0
            for m in self.real.finditer(string):
                if count and n >= count:
                    break
                res = res + string[last:m.start()] + repl(m)
                last = m.end()
                n += 1
            return res + string[last:], n
        el = self._elements(string)
        last = 0
        out = []
        n = 0
        for m in self.finditer(string if self._sym(string) else SymStr(el)):
            if count and n >= count:
                break
            a, b = m._span[0] if type(m) is SymMatch else m.span()
            out.extend(el[last:a])
            out.extend(els(self._expand(repl, m)))
            last = b
            n += 1
        out.extend(el[last:])
        return mkstr(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        if not self._sym(string):
            return self.real.split(string, maxsplit)
        el = self._elements(string)
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            a, b = m._span[0] if type(m) is SymMatch else m.span()
            out.append(mkstr(el[last:a]))
            out.extend(m.groups())
            last = b
            n += 1
        out.append(mkstr(el[last:]))
        return out


class ReShim:
    """Stand-in for the `re` module inside the code under test."""

    def __getattr__(self, name):
        return getattr(_re, name)

    def compile(self, pattern, flags=0):
        if isinstance_real(pattern, SymPattern):
            return pattern
        if not isinstance_real(pattern, str):
            return _re.compile(pattern, flags)
        return SymPattern(pattern, flags)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def sub(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).subn(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def escape(self, s):
        return _re.escape(s)
