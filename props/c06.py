"""C06: translucent layers in one bulk are composited from the bottom up."""

from slate import Color, Screen, Span

from props.model import INK, rgb
from props.term import Terminal, rgb_of

BOUNDS = ("one cell (and a neighbour) of a 3x1 screen, layers of 1-3 cells over a line of three; bulks of 1-3 layers, and of 5 (thorough: 8) of which one, and of 12 of which the top one, has any red; every RGB colour of "
          "layers, text and terminal background; alpha in {0, 0.1, 0.25, 0.5, 0.8, 0.9, 0.95}; blank and non-blank layers, opaque=True spans")
OUTSIDE = "other alpha values; more layers of arbitrary colours; consecutive layers of exactly the same colour and alpha (composited once)"
ASSUMES = ["the strength of a layer is its alpha, or up to 0.1 more (slate adds 0.1); channels may be rounded by 1"]
COVERS = ("over the terminal's background", "over an opaque layer", "hidden by an opaque layer", "text shows through",
          "text covered", "translucent text")
BUDGET = {"quick": 150, "thorough": 1200}
PATH_S = 60.0
SLICE = True

ALPHAS = (0.5, 0.25, 0.8, 0.1, 0.95)


def tasks(tier):
    out = []
    al = ALPHAS if tier == "thorough" else (0.5, 0.25, 0.95)
    for a in al:
        out.append((f"base {a}", "base", {"alpha": a}))
        out.append((f"over {a}", "over", {"alpha": a, "blank": True}))
        out.append((f"over styled {a}", "over", {"alpha": a, "blank": True, "style": True}))
        out.append((f"over ink {a}", "over", {"alpha": a, "blank": False}))
        out.append((f"text {a}", "text", {"alpha": a}))
    out.append(("opaque blank", "over", {"alpha": 0.5, "blank": True, "opaque": True}))
    out.append(("hidden", "hidden", {"alpha": 0.5}))
    out.append(("stack 2", "stack", {"alphas": [0.5, 0.25]}))
    out.append(("stack 2 tint", "stack", {"alphas": [0.5, 0.25], "tint": True}))
    out.append(("stack 2 bare", "stack", {"alphas": [0.5, 0.8], "bare": True}))
    for a in (0.0, 0.9):
        out.append((f"over {a}", "over", {"alpha": a, "blank": True}))
        out.append((f"base {a}", "base", {"alpha": a}))
    for n in (5, 8) if tier == "thorough" else (5,):
        out.append((f"many {n}", "many", {"n": n}))
        out.append((f"many {n} bare", "many", {"n": n, "bare": True}))
    out.append(("many 12 top", "many", {"n": 12, "top": True}))
    out.append(("many 12 top bare", "many", {"n": 12, "top": True, "bare": True}))
    out.append(("row", "row", {"alpha": 0.5}))
    out.append(("row 0.25", "row", {"alpha": 0.25, "ink": True}))
    out.append(("untouched", "untouched", {"alpha": 0.5}))
    if tier == "thorough":
        out.append(("stack 2b", "stack", {"alphas": [0.8, 0.95]}))
        out.append(("stack 3", "stack", {"alphas": [0.5, 0.25, 0.8]}))
        out.append(("stack 3 tint", "stack", {"alphas": [0.25, 0.5, 0.8], "tint": True}))
        out.append(("stack 3 bare", "stack", {"alphas": [0.1, 0.5, 0.5], "bare": True}))
    return out


def noop(inp):
    pass


def blended(inp, lo, hi, c, alpha):
    """Interval of a channel after a layer of colour c: integer numerators over 1000."""
    a = int(round(alpha * 1000))
    b = min(1000, a + 100)
    los, his = [], []
    for s in (a, b):
        los.append(lo * (1000 - s) + c * s * 1)
        his.append(hi * (1000 - s) + c * s * 1)
    return inp.min(los[0], los[1]) - 1000, inp.max(his[0], his[1]) + 1000


def within(inp, value, lo, hi):
    """lo <= value <= hi with bounds scaled by 1000."""
    return inp.all([value * 1000 >= lo, value * 1000 <= hi])


def between(inp, v, a, b):
    """Never beyond either colour (up to rounding)."""
    return inp.all([v >= inp.min(a, b) - 1, v <= inp.max(a, b) + 1])


def show(inp, screen, w=3):
    t = Terminal(inp, w, 1)
    t.feed(screen.render(origin=(1, 1)))
    for e in t.errors:
        inp.check(inp.not_(e), "the drawn sequences are valid")
    return t


def bg(c, a=1.0):
    return Color(tuple(c), is_background=True, alpha=a)


def check_layer(inp, shown, base, c, alpha, label):
    got = rgb_of(inp, shown)
    for g, b, k in zip(got, base, c):
        lo, hi = blended(inp, b, b, k, alpha)
        inp.check(within(inp, g, lo, hi), label)
        inp.check(between(inp, g, b, k), label + ": no overshoot")


def base(inp, alpha):
    tb, c = rgb(inp, "tb"), rgb(inp, "c")
    isbg = inp.cbool("tb.bg")
    screen = Screen(3, 1)
    ch = inp.char("t", INK)
    screen.write_bulk([((1, 0), [Span(ch, background=bg(c, alpha))])], terminal_background=Color(tb, is_background=isbg))
    cell = show(inp, screen).grid[0][1]
    inp.cover("over the terminal's background")
    inp.check(cell[0] == ch, "the text is shown")
    inp.check(cell[3] is not None, "the layer is painted as a background")
    check_layer(inp, cell[3], tb, c, alpha, "a translucent background is blended over the terminal's background")


def over(inp, alpha, blank, opaque=False, style=False):
    under, c, ufg = rgb(inp, "u"), rgb(inp, "c"), rgb(inp, "ufg")
    screen = Screen(3, 1)
    a = inp.char("a", INK)
    b = " " if blank else inp.char("b", INK)
    tfg = None if blank else rgb(inp, "tfg")
    kw = {}
    if style:
        kw[inp.choice("style", ("bold", "underline", "strike", "dim", "italic", "blink"))] = True
    top = Span(b, background=bg(c, alpha), foreground=None if blank else Color(tfg), opaque=opaque, **kw)
    screen.write_bulk([((1, 0), [Span(a, foreground=Color(ufg), background=bg(under))]), ((1, 0), [top])])
    cell = show(inp, screen).grid[0][1]
    inp.cover("over an opaque layer")
    inp.check(cell[3] is not None, "the layer is painted as a background")
    check_layer(inp, cell[3], under, c, alpha, "a translucent background is blended over the layer below")
    if blank and not opaque:
        inp.cover("text shows through")
        inp.check(cell[0] == a, "the text below shows through a blank translucent layer")
        check_layer(inp, cell[2], ufg, c, alpha, "text below a translucent layer is tinted by it")
    else:
        inp.cover("text covered")
        inp.check(cell[0] == b, "the text of the upper layer covers the text below")
        if not blank:
            inp.check(inp.all([x == y for x, y in zip(rgb_of(inp, cell[2]), tfg)]), "the text on top keeps its colour")


def text(inp, alpha):
    """A translucent foreground."""
    f, b = rgb(inp, "f"), rgb(inp, "b")
    screen = Screen(3, 1)
    ch = inp.char("t", INK)
    screen.write_bulk([((1, 0), [Span(ch, foreground=Color(f, alpha=alpha), background=bg(b))])])
    cell = show(inp, screen).grid[0][1]
    inp.cover("translucent text")
    inp.check(cell[0] == ch, "the text is shown")
    inp.check(inp.all([x == y for x, y in zip(rgb_of(inp, cell[3]), b)]), "the background keeps its colour")
    check_layer(inp, cell[2], b, f, alpha, "translucent text is blended onto its background")


def hidden(inp, alpha):
    """An opaque layer on top determines the cell alone."""
    a, b, c, f = rgb(inp, "a"), rgb(inp, "b"), rgb(inp, "c"), rgb(inp, "f")
    screen = Screen(3, 1)
    ch = inp.char("t", INK)
    items = [((1, 0), [Span("x", background=bg(a))]), ((1, 0), [Span("y", background=bg(b, alpha))])]
    if inp.cbool("bare"):
        items = items[1:]
    nobg = inp.cbool("nobg")
    items.append(((1, 0), [Span(ch, foreground=Color(f), background=None if nobg else bg(c))]))
    screen.write_bulk(items)
    cell = show(inp, screen).grid[0][1]
    inp.cover("hidden by an opaque layer")
    inp.check(cell[0] == ch, "an opaque layer's text is shown")
    inp.check(inp.all([x == y for x, y in zip(rgb_of(inp, cell[2]), f)]), "an opaque layer's text keeps its colour")
    if nobg:
        inp.check(cell[3] is None, "a layer without background hides what is below")
    else:
        inp.check(cell[3] is not None and inp.all([x == y for x, y in zip(rgb_of(inp, cell[3]), c)]),
                  "an opaque background hides what is below")


def stack(inp, alphas, bare=False, tint=False):
    under = rgb(inp, "u")
    screen = Screen(3, 1)
    a = inp.char("a", INK)
    items = []
    tb = (20, 20, 20)
    if not bare:
        if tint:
            # the text, not the background, is followed
            items.append(((1, 0), [Span(a, foreground=Color(under), background=bg((90, 90, 90)))]))
        else:
            items.append(((1, 0), [Span(a, background=bg(under))]))
        iv = [(c * 1, c * 1) for c in under]
    else:
        iv = [(c, c) for c in tb]
    scale = 1
    cols = []
    prev = None
    for j, al in enumerate(alphas):
        c = rgb(inp, f"c{j}")
        if prev is not None and prev[1] == al:
            inp.assume(inp.any([inp.not_(x == y) for x, y in zip(prev[0], c)]))
        prev = (c, al)
        cols.append(c)
        ch = a if bare and j == 0 else " "
        items.append(((1, 0), [Span(ch, background=bg(c, al))]))
        n = []
        for (lo, hi), k in zip(iv, c):
            s1, s2 = int(round(al * 1000)), min(1000, int(round(al * 1000)) + 100)
            los = [lo * (1000 - s) + k * s * scale for s in (s1, s2)]
            his = [hi * (1000 - s) + k * s * scale for s in (s1, s2)]
            n.append((inp.min(los[0], los[1]) - 1000 * scale, inp.max(his[0], his[1]) + 1000 * scale))
        iv = n
        scale *= 1000
    screen.write_bulk(items, terminal_background=bg(tb))
    cell = show(inp, screen).grid[0][1]
    inp.check(cell[0] == a, "the text shows through blank translucent layers")
    inp.check(cell[3] is not None, "the layers are painted as a background")
    for g, (lo, hi) in zip(rgb_of(inp, cell[2 if tint else 3]), iv):
        inp.check(inp.all([g * scale >= lo, g * scale <= hi]),
                  "text is tinted by each layer above it" if tint else "stacked layers are composited from the bottom up")


def many(inp, n, bare=False, top=False):
    """Many layers, one of them (any) of any colour: each counts."""
    screen = Screen(3, 1)
    a = inp.char("a", INK)
    k = n - 1 if top else inp.cint("k", 0, n - 1)
    c = (inp.int("c", 0, 255), 77, 230)
    tb = (20, 20, 20)
    items = []
    iv = [(x, x) for x in tb]
    if not bare:
        items.append(((1, 0), [Span(a, background=bg((200, 30, 90)))]))
        iv = [(200, 200), (30, 30), (90, 90)]
    scale = 1
    for j in range(n):
        al = (0.1, 0.25, 0.1)[j % 3] if j != k else 0.5
        col = c if j == k else ((37 * j + 11) % 256, (91 * j + 200) % 256, 255 - 20 * j)
        items.append(((1, 0), [Span(a if bare and j == 0 else " ", background=bg(col, al))]))
        out = []
        for (lo, hi), x in zip(iv, col):
            s1 = int(round(al * 20))                # twentieths
            s2 = s1 + 2
            los = [lo * (20 - s) + x * s * scale for s in (s1, s2)]
            his = [hi * (20 - s) + x * s * scale for s in (s1, s2)]
            out.append((inp.min(los[0], los[1]) - 20 * scale, inp.max(his[0], his[1]) + 20 * scale))
        iv = out
        scale *= 20
    screen.write_bulk(items, terminal_background=bg(tb))
    cell = show(inp, screen).grid[0][1]
    inp.check(cell[0] == a, "the text shows through blank translucent layers")
    inp.check(cell[3] is not None, "the layers are painted as a background")
    for g, (lo, hi) in zip(rgb_of(inp, cell[3]), iv):
        inp.check(inp.all([g * scale >= lo, g * scale <= hi]), "many layers are composited from the bottom up")


def row(inp, alpha, ink=False):
    """A translucent layer of several cells over a line of differently coloured texts."""
    w = 4
    fgs = [(200, 10, 30), (0, 90, inp.int("f1.b", 0, 255)), (0, 90, 255)]
    bgs = [(inp.int("b0.r", 0, 255), 140, 77), (12, 140, 77), (250, 0, 3)]
    c = rgb(inp, "c")
    text = [inp.char(f"t{i}", INK) for i in range(3)]
    x = inp.cint("x", 0, 2)
    n = inp.cint("n", 1, 3)
    top = [" "] * n
    if ink:
        top[inp.cint("k", 0, n - 1)] = "#"
    screen = Screen(w, 1)
    spans = [Span(text[i], foreground=Color(fgs[i]), background=bg(bgs[i])) for i in range(3)]
    layer = Span("".join(top), foreground=Color((1, 2, 3)) if ink else None, background=bg(c, alpha))
    screen.write_bulk([((0, 0), spans), ((x, 0), [layer])], terminal_background=bg((20, 20, 20)), force_overwrite=inp.cbool("force"))
    t = show(inp, screen, w)
    for i in range(w):
        cell = t.grid[0][i]
        k = i - x
        if 0 <= k < n:
            if i > 2:
                check_layer(inp, cell[3], (20, 20, 20), c, alpha, "beside the text the layer lies over the terminal's background")
                continue
            check_layer(inp, cell[3], bgs[i], c, alpha, "each cell's background is blended with the layer")
            if top[k] == " ":
                inp.check(cell[0] == text[i], "each cell's text shows through")
                check_layer(inp, cell[2], fgs[i], c, alpha, "each cell's text is tinted by the layer")
            else:
                inp.check(cell[0] == "#", "the layer's text covers the text below")
        elif i < 3:
            inp.check(cell[0] == text[i], "cells beside the layer keep their text")
            inp.check(inp.all([u == v for u, v in zip(rgb_of(inp, cell[2]), fgs[i])]), "cells beside the layer keep their text colour")
            inp.check(inp.all([u == v for u, v in zip(rgb_of(inp, cell[3]), bgs[i])]), "cells beside the layer keep their background")


def untouched(inp, alpha):
    """Cells next to a translucent layer keep their content, also across bulks."""
    a, b = rgb(inp, "a"), rgb(inp, "b")
    screen = Screen(3, 1)
    x = inp.cint("x", 0, 2)
    screen.write_bulk([((0, 0), [Span("abc", foreground=Color(a), background=bg(a))])])
    screen.render(origin=(1, 1))
    screen.write_bulk([((0, 0), [Span("abc", foreground=Color(a), background=bg(a))]),
                       ((x, 0), [Span(" ", background=bg(b, alpha))])])
    t = show(inp, screen)
    full = Terminal(inp, 3, 1)
    full.feed(screen.render(origin=(1, 1), redraw=True))
    for i in range(3):
        c = full.grid[0][i]
        inp.check(c[0] == "abc"[i], "the text stays")
        if i != x:
            inp.check(inp.all([u == v for u, v in zip(rgb_of(inp, c[2]), a)]), "other cells keep their text colour")
            inp.check(inp.all([u == v for u, v in zip(rgb_of(inp, c[3]), a)]), "other cells keep their background")
        else:
            check_layer(inp, c[3], a, b, alpha, "the layer is blended over the cell")
