"""C08: spans are immutable values: slicing, splitting and mutating keep everything else."""

from slate import Color, Span

from engine.inputs import cs
from props.model import ALL_STYLES, TEXT, rgb

FLAGS = ALL_STYLES + ("opaque",)
FIELDS = ("text", "foreground", "background", "hyperlink", "reset_after") + FLAGS

BOUNDS = "texts of 0-4 (thorough: 6) characters, every combination of the 10 style flags and reset_after, every RGB foreground/background, optional hyperlink; every index and slice in -6..6 with steps -2..2; texts of 40 and 70 characters cut at and around every power of two"
OUTSIDE = "longer texts"
COVERS = ("handed out", "sliced", "indexed", "split", "index out of range")
BUDGET = {"quick": 75, "thorough": 1000}


def tasks(tier):
    n = 6 if tier == "thorough" else 4
    out = [
        ("slice", "slicing", {"n": n, "step": False}),
        ("slice step", "slicing", {"n": 3, "step": True}),
        ("index", "indexing", {"n": n}),
        ("split", "splitting", {"n": n}),
        ("split default", "splitting", {"n": n, "default": True}),
        ("mutate flags", "mutating", {}),
        ("mutate colors", "mutate_colors", {}),
        ("as_*", "as_methods", {}),
        ("as_color", "as_color", {}),
        ("flags survive", "flags", {}),
        ("frozen", "frozen", {}),
        ("equality", "equality", {"n": 2}),
        ("attrs", "attrs", {}),
        ("long", "long_text", {"n": 40}),
        ("long 70", "long_text", {"n": 70}),
        ("contains", "contains", {"n": 4}),
        ("lists", "lists", {}),
        ("many parts", "many_parts", {"n": 24}),
    ]
    return out


def noop(inp):
    pass


def some_span(inp, lo, hi, dom=TEXT, name="s"):
    k = inp.choice(name + ".look", ("plain", "styled", "colored", "all"))
    kw = {}
    if k in ("styled", "all"):
        kw.update(bold=True, strike=True)
    if k in ("colored", "all"):
        kw["foreground"] = Color(rgb(inp, name + ".fg"))
        kw["background"] = Color(rgb(inp, name + ".bg"), is_background=True, alpha=0.5 if k == "all" else 1.0)
    if k == "all":
        kw.update(opaque=True, reset_after=False, hyperlink="https://x.y")
    t = inp.text(name, lo, hi, dom)
    return Span(t, **kw), t, kw


def values(s):
    return {f: getattr(s, f) for f in FIELDS}


def same_but(inp, s, old, label, **changed):
    """s has the old values except for the changed ones."""
    conds = []
    for f in FIELDS:
        want = changed[f] if f in changed else old[f]
        got = getattr(s, f)
        if f in ("foreground", "background"):
            if (want is None) != (got is None):
                inp.fail(f"{label}: {f}")
            if want is not None:
                conds += [a == b for a, b in zip(want.rgb, got.rgb)]
                conds += [want.alpha == got.alpha, want.is_background == got.is_background]
        else:
            conds.append(want == got)
    inp.check(inp.all(conds), label)


def unchanged(inp, s, old):
    same_but(inp, s, old, "the original span is unchanged")


def slicing(inp, n, step):
    s, t, kw = some_span(inp, 0, n)
    old = values(s)
    lim = n + 2
    a = inp.choice("a", [None] + list(range(-lim, lim + 1)))
    b = inp.choice("b", [None] + list(range(-lim, lim + 1)))
    sl = slice(a, b, inp.choice("c", (-2, -1, 1, 2))) if step else slice(a, b)
    r = s[sl]
    inp.cover("sliced")
    same_but(inp, r, old, "a slice has the sliced text and everything else", text=t[sl])
    inp.check(len(r) == len(t[sl]), "len counts characters")
    unchanged(inp, s, old)


def indexing(inp, n):
    s, t, kw = some_span(inp, 0, n)
    old = values(s)
    i = inp.cint("i", -n - 1, n)
    try:
        r = s[i]
    except IndexError:
        inp.cover("index out of range")
        inp.check(not -len(t) <= i < len(t), "indexing inside the text works")
        return
    inp.cover("indexed")
    inp.check(-len(t) <= i < len(t), "indexing outside the text fails")
    same_but(inp, r, old, "an index has one character and everything else", text=t[i])
    unchanged(inp, s, old)


def splitting(inp, n, default=False):
    s, t, kw = some_span(inp, 0, n, dom=cs("a-c", " -", "-"))
    old = values(s)
    sep = " " if default else "-"
    parts = s.split() if default else s.split(sep)
    inp.cover("split")
    # reference split
    want, curr = [], ""
    for ch in t:
        if ch == sep:
            want.append(curr)
            curr = ""
        else:
            curr = curr + ch
    want.append(curr)
    inp.check(len(parts) == len(want), "splitting yields one span per part")
    for p, w in zip(parts, want):
        same_but(inp, p, old, "every part has its text and everything else", text=w)
    unchanged(inp, s, old)


def contains(inp, n):
    dom = cs("a-c", " -", "-")
    s, t, kw = some_span(inp, 0, n, dom=dom)
    old = values(s)
    part = inp.text("part", 0, 2, dom)
    k = len(part)
    want = inp.any([t[i:i + k] == part for i in range(len(t) - k + 1)])
    got = part in s
    inp.check(want if got else inp.not_(want), "a text is in a span when it is in its text")
    unchanged(inp, s, old)


def long_text(inp, n):
    k = inp.choice("k", (0, 1, n // 2, n - 1))
    t = "".join([inp.char("c", TEXT) if i == k else "abcdefghij"[i % 10] for i in range(n)])
    s = Span(t, bold=True, foreground=Color((1, 2, 3)), hyperlink="u")
    old = values(s)
    inp.check(len(s) == n, "len counts characters")
    cuts = [0, 1, 2, 4, 8, 9, 10, 15, 16, 17, 31, 32, 33, n - 1, n, n + 1, -1, -2, -16, -n, -n - 1]
    a = inp.choice("a", [None] + cuts)
    b = inp.choice("b", [None] + cuts)
    same_but(inp, s[a:b], old, "a slice of a long text has the sliced text and everything else", text=t[a:b])
    if a is not None and -n <= a < n:
        same_but(inp, s[a], old, "an index has one character and everything else", text=t[a])
    unchanged(inp, s, old)


def many_parts(inp, n):
    sep = inp.choice("sep", (" ", "-", ",", "|", "xy"))
    k = inp.cint("k", 0, n - 1)
    w = inp.text("w", 0, 2, cs("a-c"))
    want = [w if i == k else "p" * (i % 3) for i in range(n)]
    s = Span(sep.join(want), italic=True, background=Color((9, 8, 7), is_background=True))
    old = values(s)
    parts = list(s.split() if sep == " " else s.split(sep))
    inp.check(len(parts) == n, "splitting yields one span per part")
    for p, t in zip(parts, want):
        same_but(inp, p, old, "every part has its text and everything else", text=t)
    unchanged(inp, s, old)


def lists(inp):
    """What a span hands out is the caller's own: changing it changes no span."""
    s, t, kw = some_span(inp, 1, 2)
    twin = Span(t, **kw)
    old, text = values(s), str(s)
    asked = {"exclude_color": inp.cbool("exclude"), "always_include_sequence": inp.cbool("always")}
    first = list(s.get_characters(**asked))
    for out in (s.get_characters(**asked), s.split(), s.attrs, s.get_svg_styles()):
        if isinstance(out, list):
            out.append("changed")
            out[0] = "changed"
        elif isinstance(out, dict):
            out["text"] = "changed"
    inp.cover("handed out")
    for x in (s, twin):
        again = list(x.get_characters(**asked))
        inp.check(inp.all([len(again) == len(first)] + [a == b for a, b in zip(again, first)]), "changing the characters handed out changes no span")
        inp.check(x.attrs["text"] == t and "text" not in x.get_svg_styles(), "nor its attributes")
        unchanged(inp, x, old)
    inp.check(str(s) == text, "nor how it prints")


def mutating(inp):
    flags = {f: inp.cbool(f) for f in ("bold", "italic", "opaque", "strike")}
    ra = inp.cbool("reset_after")
    s = Span("ab", reset_after=ra, **flags)
    old = values(s)
    for f in FLAGS:
        for v in (True, False):
            same_but(inp, s.mutate(**{f: v}), old, f"mutate({f}) changes only that", **{f: v})
    same_but(inp, s.mutate(), old, "mutate() copies")
    t = inp.text("t", 0, 2, TEXT)
    same_but(inp, s.mutate(text=t), old, "mutate(text) changes only that", text=t)
    same_but(inp, s.mutate(reset_after=not ra), old, "mutate(reset_after) changes only that", reset_after=not ra)
    same_but(inp, s.mutate(hyperlink="h"), old, "mutate(hyperlink) changes only that", hyperlink="h")
    unchanged(inp, s, old)


def mutate_colors(inp):
    s, t, kw = some_span(inp, 1, 1)
    old = values(s)
    c = Color(rgb(inp, "c"), alpha=inp.choice("al", (1.0, 0.25)))
    d = c.as_background()
    same_but(inp, s.mutate(foreground=c), old, "mutate(foreground)", foreground=c)
    same_but(inp, s.mutate(background=d), old, "mutate(background)", background=d)
    same_but(inp, s.mutate(foreground=None), old, "mutate(foreground=None)", foreground=None)
    unchanged(inp, s, old)


def as_methods(inp):
    s, t, kw = some_span(inp, 0, 2)
    old = values(s)
    for f in ALL_STYLES:
        m = getattr(s, "as_" + f)
        same_but(inp, m(), old, f"as_{f}() sets it", **{f: True})
        same_but(inp, m(False), old, f"as_{f}(False) unsets it", **{f: False})
        same_but(inp, m(True), old, f"as_{f}(True) sets it", **{f: True})
    same_but(inp, s.as_hyperlink("u"), old, "as_hyperlink", hyperlink="u")
    same_but(inp, s.as_hyperlink(), old, "as_hyperlink()", hyperlink="")
    unchanged(inp, s, old)


def as_color(inp):
    s, t, kw = some_span(inp, 1, 1)
    old = values(s)
    v = rgb(inp, "c")
    c = Color(v, is_background=inp.cbool("isbg"), alpha=inp.choice("al", (1.0, 0.25)))
    key = "background" if c.is_background else "foreground"
    same_but(inp, s.as_color(c), old, "as_color sets the colour's layer", **{key: c})
    same_but(inp, s.as_color(v), old, "as_color takes descriptors", foreground=Color(v))
    same_but(inp, s.as_color(c.hex), old, "as_color takes hex", foreground=Color(v))
    unchanged(inp, s, old)


def flags(inp):
    """All 2^10 combinations survive slicing and splitting."""
    kw = {f: inp.cbool(f) for f in FLAGS}
    s = Span("a b", **kw)
    old = values(s)
    same_but(inp, s[1:], old, "a slice keeps every flag", text=" b")
    for p, w in zip(s.split(), ("a", "b")):
        same_but(inp, p, old, "a part keeps every flag", text=w)
    for f in FLAGS:
        inp.check(getattr(s, f) == kw[f], "a flag has the value it was given")


def frozen(inp):
    s, t, kw = some_span(inp, 1, 1)
    old = values(s)
    f = inp.choice("f", FIELDS)
    try:
        setattr(s, f, "x" if f in ("text", "hyperlink") else True)
    except AttributeError:
        unchanged(inp, s, old)
        inp.check(True, "frozen")
        return
    inp.fail("a span can't be modified")


def equality(inp, n):
    """Equal spans are those of equal text and look; equal spans hash alike."""
    a, ta, ka = some_span(inp, 0, n, name="a")
    b, tb, kb = some_span(inp, 0, n, name="b")
    same = inp.all([ta == tb, sorted(ka) == sorted(kb)] + [
        inp.all([x == y for x, y in zip(ka[k].rgb, kb[k].rgb)])
        for k in ("foreground", "background") if k in ka and k in kb])
    e = a == b
    inp.check(inp.iff(e, same), "spans are equal iff text and look are")


def attrs(inp):
    s, t, kw = some_span(inp, 0, 2)
    d = s.attrs
    conds = []
    for f in FLAGS + ("text", "hyperlink"):
        conds.append(d[f] == getattr(s, f))
    for f in ("foreground", "background"):
        conds.append(d[f] is getattr(s, f) or d[f] == getattr(s, f))
    inp.check(inp.all(conds), "attrs lists the attributes")
    old = values(s)
    d["text"] = "changed"
    d["bold"] = not s.bold
    unchanged(inp, s, old)
