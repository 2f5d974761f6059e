"""C09: printing a span shows exactly its text in its look, and nothing leaks behind it."""

from slate import Color, Span

from props.model import ALL_STYLES, TEXT, rgb
from props.term import Line, same_cell

BOUNDS = "texts of 0-3 (thorough: 5) characters; every combination of the 10 style flags; every RGB foreground and background; reset_after on and off; with and without hyperlink; texts of 9-70 characters"
OUTSIDE = "longer texts; other colour spaces (C14)"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)"]
COVERS = ("styled", "plain", "left open", "link")
BUDGET = {"quick": 75, "thorough": 1000}


def tasks(tier):
    n = 5 if tier == "thorough" else 3
    out = [
        ("flags", "shown", {"n": 1, "flags": list(ALL_STYLES) + ["opaque"], "colors": False}),
        ("colors", "shown", {"n": n, "flags": ["bold"], "colors": True}),
        ("colors strike", "shown", {"n": 2, "flags": ["strike", "opaque"], "colors": True, "link": True}),
        ("characters", "characters", {"n": n, "flags": ["bold", "underline"], "colors": True}),
        ("characters flags", "characters", {"n": 2, "flags": list(ALL_STYLES), "colors": False}),
        ("characters colorless", "characters", {"n": 2, "flags": ["dim", "opaque"], "colors": True, "exclude": True}),
        ("twice", "twice", {"n": 2}),
        ("in a row", "row", {"n": 2}),
        ("long", "long_text", {}),
    ]
    return out


def noop(inp):
    pass


def make(inp, n, flags, colors, link=False, lo=0):
    kw = {f: inp.cbool(f) for f in flags}
    fg = bg = None
    if colors:
        if inp.cbool("hasfg"):
            fg = rgb(inp, "fg")
            kw["foreground"] = Color(fg)
        if inp.cbool("hasbg"):
            bg = rgb(inp, "bg")
            kw["background"] = Color(bg, is_background=True)
    kw["reset_after"] = inp.cbool("reset_after")
    if link and inp.cbool("link"):
        kw["hyperlink"] = inp.text("url", 1, 3, TEXT)
        inp.cover("link")
    t = inp.text("t", lo, n, TEXT)
    styles = tuple(sorted(f for f in flags if kw[f] and f != "opaque"))
    return Span(t, **kw), t, styles, fg, bg, kw


def expect_line(inp, line, t, styles, fg, bg, label):
    conds = [inp.not_(e) for e in line.errors]
    conds.append(len(line.grid[0]) == len(t))
    if len(line.grid[0]) == len(t):
        for cell, ch in zip(line.grid[0], t):
            conds.append(same_cell(inp, cell, (ch, styles, fg, bg), default_fg=None))
    inp.check(inp.all(conds), label)


def expect_pen(inp, line, styles, fg, bg, label):
    pen = line.pen.snapshot()
    inp.check(same_cell(inp, ("x", pen[0], pen[1], pen[2]), ("x", styles, fg, bg), default_fg=None), label)


def shown(inp, n, flags, colors, link=False):
    s, t, styles, fg, bg, kw = make(inp, n, flags, colors, link)
    line = Line(inp)
    line.feed(str(s))
    expect_line(inp, line, t, styles, fg, bg, "a printed span shows its text in its look")
    if kw["reset_after"]:
        expect_pen(inp, line, (), None, None, "a printed span leaves no style behind")
    else:
        expect_pen(inp, line, styles, fg, bg, "a span without reset leaves its style on")
        inp.cover("left open")
    url = inp.elements(kw.get("hyperlink", ""))
    for got in line.links:
        inp.check(inp.all([len(got) == len(url)] + [a == b for a, b in zip(got, url)]), "each character links to the span's target, and to none without one")
    inp.check(len(line.link) == 0, "a printed span leaves no hyperlink open")
    inp.cover("styled" if styles else "plain")
    inp.observe(str(s))


def characters(inp, n, flags, colors, exclude=False):
    s, t, styles, fg, bg, kw = make(inp, n, flags, colors)
    if exclude:
        fg = bg = None
    always = inp.cbool("always")
    cells = s.get_characters(exclude_color=exclude, always_include_sequence=always)
    inp.check(len(cells) == len(t), "one item per character")
    line = Line(inp)
    for c in cells:
        line.feed(c)
    expect_line(inp, line, t, styles, fg, bg, "the characters in a row show the span")
    if len(t) and kw["reset_after"]:
        expect_pen(inp, line, (), None, None, "the last character resets the style")
    if always:
        for c, ch in zip(cells, t):
            one = Line(inp)
            one.feed(c)
            expect_line(inp, one, ch, styles, fg, bg, "each character alone has the span's look")
    again = s.get_characters(exclude_color=exclude, always_include_sequence=always)
    inp.check(inp.all([len(again) == len(cells)] + [a == b for a, b in zip(again, cells)]), "asking again gives the same characters")


def long_text(inp):
    n = inp.choice("n", (9, 10, 16, 17, 32, 33, 64, 70))
    k = inp.choice("k", (0, n // 2, n - 1))
    t = "".join([inp.char("c", TEXT) if i == k else "abcdefghij"[i % 10] for i in range(n)])
    fg = rgb(inp, "fg")
    reset = inp.cbool("reset")
    s = Span(t, underline=True, foreground=Color(fg), reset_after=reset, hyperlink=inp.choice("url", ("", "https://example.org/a/very/long/address?with=parts")))
    line = Line(inp)
    line.feed(str(s))
    expect_line(inp, line, t, ("underline",), fg, None, "a long span shows its text in its look")
    inp.check(len(line.link) == 0, "a printed span leaves no hyperlink open")
    always = inp.cbool("always")
    cells = s.get_characters(always_include_sequence=always)
    inp.check(len(cells) == n, "one item per character")
    line = Line(inp)
    for c in cells:
        line.feed(c)
    expect_line(inp, line, t, ("underline",), fg, None, "the characters in a row show the span")
    if reset:
        expect_pen(inp, line, (), None, None, "the last character resets the style")


def twice(inp, n):
    """Two different spans never show each other's look (cached characters)."""
    a, b = inp.text("a", 1, n, TEXT), inp.text("b", 1, n, TEXT)
    c = rgb(inp, "c")
    d = rgb(inp, "d")
    spans = [(Span(a, foreground=Color(c)), a, (), c, None), (Span(b, foreground=Color(d)), b, (), d, None),
             (Span(a, background=Color(c, is_background=True)), a, (), None, c), (Span(a, bold=True), a, ("bold",), None, None)]
    for excl in (False, True):
        for s, t, st, fg, bg in spans:
            line = Line(inp)
            for x in s.get_characters(exclude_color=excl):
                line.feed(x)
            expect_line(inp, line, t, st, None if excl else fg, None if excl else bg, "a span's characters have its own look")


def row(inp, n):
    """Spans printed in a row each show their own look."""
    t1, t2, t3 = (inp.text(k, 0, n, TEXT) for k in ("t1", "t2", "t3"))
    c = rgb(inp, "c")
    f1, f2 = inp.cbool("bold"), inp.cbool("invert")
    spans = [(Span(t1, foreground=Color(c), bold=f1), t1, ("bold",) if f1 else (), c), (Span(t2), t2, (), None),
             (Span(t3, invert=f2), t3, ("invert",) if f2 else (), None)]
    line = Line(inp)
    for s, t, st, fg in spans:
        line.feed(str(s))
    conds = [inp.not_(e) for e in line.errors]
    i = 0
    for s, t, st, fg in spans:
        for ch in t:
            conds.append(i < len(line.grid[0]) and same_cell(inp, line.grid[0][i], (ch, st, fg, None), default_fg=None))
            i += 1
    conds.append(i == len(line.grid[0]))
    inp.check(inp.all(conds), "spans in a row each show their own look")
