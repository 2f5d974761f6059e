"""C10: parsing a styled line gives spans that show the same line."""

from slate import Color, Span

from engine.inputs import cs
from props.model import ALL_STYLES, INK, TEXT, rgb
from props.term import Line, Pen, rgb_of, same_cell

BOUNDS = ("printed spans: 1-3 spans of 0-2 characters, every style combination, every RGB / 8-bit / 16-colour; "
          "arbitrary lines: up to 4 segments, each text or an SGR sequence with 0-3 parameters out of every style "
          "code, its unset code, resets, all 16-colour codes, every 8-bit index and every RGB triplet; lines of 12 styled texts of up to 40 characters, sequences of 8 parameters")
OUTSIDE = "sequences other than SGR; malformed sequences; longer lines; hyperlinks"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)",
           "an unset code after slate's parsing may leave a style flag False or missing (same look)"]
COVERS = ("leading text", "trailing text", "reset", "unset", "16 colours", "8 bit", "rgb", "two sequences in a row")
BUDGET = {"quick": 240, "thorough": 1500}


def tasks(tier):
    th = tier == "thorough"
    out = [
        ("printed flags", "printed", {"n": 1, "flags": list(ALL_STYLES), "spans": 1}),
        ("printed colors", "printed", {"n": 2, "flags": ["bold"], "spans": 1, "colors": True}),
        ("printed two", "printed", {"n": 1, "flags": ["bold"], "spans": 2, "colors": True, "kinds": ["none", "fg", "bg"], "kinds2": ["none", "8bit", "std"]}),
        ("printed two b", "printed", {"n": 1, "flags": ["bold"], "spans": 2, "colors": True, "kinds2": ["none", "fg", "bg"], "kinds": ["none", "8bit", "std"]}),
        ("printed three", "printed", {"n": 1, "flags": ["italic"], "spans": 3, "colors": False}),
        ("one sequence", "line", {"shape": "S T"}),
        ("text sequence", "line", {"shape": "T S T"}),
        ("two params", "line", {"shape": "SL T"}),
        ("two params b", "line", {"shape": "LS T"}),
        ("two sequences b", "line", {"shape": "L T S T"}),
        ("adjacent b", "line", {"shape": "L S T"}),
        ("two sequences", "line", {"shape": "S T L T"}),
        ("adjacent", "line", {"shape": "S L T"}),
        ("ends open", "line", {"shape": "T S"}),
        ("rgb pair", "line", {"shape": "C C T"}),
        ("color then unset", "line", {"shape": "C T L T"}),
        ("plain", "line", {"shape": "T"}),
        ("empty", "line", {"shape": ""}),
        ("first", "first", {}),
        ("long", "long_line", {}),
        ("long params", "long_params", {}),
        ("alpha", "alpha", {}),
    ]
    if th:
        out += [("printed colors 2", "printed", {"n": 2, "flags": ["bold"], "spans": 2, "colors": True}),
                ("rgb pair 2", "line", {"shape": "C S T C T"}), ("three params", "line", {"shape": "SSL T"}), ("2+1", "line", {"shape": "SL T S T"}),
                ("C2", "line", {"shape": "C T SL T"}), ("CC", "line", {"shape": "C C T S L T"})]
    return out


def noop(inp):
    pass


def show_spans(inp, spans):
    """What the spans look like one after the other, each on a clean pen."""
    out = []
    for s in spans:
        line = Line(inp)
        line.feed(str(s))
        for e in line.errors:
            inp.check(inp.not_(e), "a parsed span prints valid sequences")
        out += line.grid[0]
    return out


def rgbs(inp, cell):
    return (cell[0], cell[1], None if cell[2] is None else rgb_of(inp, cell[2]), None if cell[3] is None else rgb_of(inp, cell[3]))


def compare(inp, got, want, label):
    inp.check(len(got) == len(want), label + ": the same characters")
    conds = []
    for g, w in zip(got, want):
        conds.append(same_cell(inp, g, w, default_fg=None))
    inp.check(inp.all(conds), label)


KINDS = ("none", "fg", "bg", "both", "8bit", "std")


def printed(inp, n, flags, spans, colors=False, kinds=KINDS, kinds2=None):
    text = ""
    want = []
    for i in range(spans):
        kw = {f: inp.cbool(f"{f}{i}") for f in flags}
        fg = bg = None
        if colors:
            k = inp.choice(f"color{i}", kinds2 if i and kinds2 else kinds)
            if k in ("fg", "both"):
                fg = rgb(inp, f"fg{i}")
                kw["foreground"] = Color(fg)
            if k in ("bg", "both"):
                bg = rgb(inp, f"bg{i}")
                kw["background"] = Color(bg, is_background=True)
            if k == "8bit":
                kw["background"] = Color.from_ansi("48;5;%d" % 77)
                bg = kw["background"].rgb
            if k == "std":
                kw["foreground"] = Color.from_ansi("95")
                fg = kw["foreground"].rgb
        t = inp.text(f"t{i}", 0, n, TEXT)
        s = Span(t, **kw)
        text = text + str(s)
        styles = tuple(sorted(f for f in flags if kw[f]))
        want += [(c, styles, fg, bg) for c in t]
    got = show_spans(inp, list(Span.yield_from(text)))
    compare(inp, got, want, "parsing printed spans gives spans of the same look")
    joined = "".join(s.text for s in Span.yield_from(text))
    inp.observe(joined)


CODES = ["0", ""] + [str(i) for i in range(1, 10)] + [str(i) for i in range(22, 30)] + ["39", "49"]


LITE = ("0", "1", "4", "22", "24", "39", "49", "31", "102", "48;5;200")


def param(inp, name, lite=False):
    """One SGR parameter (a colour counts as one): (string, numbers)."""
    if lite:
        return inp.choice(name + ".c", LITE)
    k = inp.choice(name + ".k", ("code", "std", "bit8", "rgb"))
    if k == "code":
        c = inp.choice(name + ".c", CODES)
        inp.cover("reset" if c in ("0", "") else "unset" if int(c) > 9 else "set")
        return c
    if k == "std":
        base = inp.choice(name + ".b", (30, 40, 90, 100))
        inp.cover("16 colours")
        return str(base + inp.cint(name + ".i", 0, 7))
    lead = inp.choice(name + ".l", ("38", "48"))
    if k == "bit8":
        inp.cover("8 bit")
        return lead + ";5;" + str(inp.choice(name + ".n", (0, 7, 15, 16, 200, 231, 255)))
    inp.cover("rgb")
    r, g, b = rgb(inp, name)
    return f"{lead};2;{r};{g};{b}"


def line(inp, shape):
    text = ""
    parts = shape.split()
    for i, p in enumerate(parts):
        if p == "T":
            text = text + inp.text(f"t{i}", 1, 1, INK)
            inp.cover("leading text" if i == 0 else "trailing text" if i == len(parts) - 1 else "text")
        elif p == "C":
            r, g, b = rgb(inp, f"c{i}")
            text = text + f"\x1b[{inp.choice(f'l{i}', ('38', '48'))};2;{r};{g};{b}m"
        else:
            seq = ";".join([param(inp, f"p{i}.{j}", kind == "L") for j, kind in enumerate(p)])
            text = text + "\x1b[" + seq + "m"
            if i and parts[i - 1] != "T":
                inp.cover("two sequences in a row")
    ref = Line(inp)
    ref.feed(text)
    want = [rgbs(inp, c) for c in ref.grid[0]]
    spans = list(Span.yield_from(text))
    compare(inp, show_spans(inp, spans), want, "parsing a styled line gives spans of the same look")
    inp.check(inp.all([len(s.text) > 0 for s in spans]), "no empty spans")


def long_line(inp):
    """Many styled texts in one line, one of them arbitrary."""
    k = inp.cint("k", 0, 11)
    looks = ("1", "3;31", "0", "4;48;5;77", "22", "38;2;1;2;3", "9", "24;39", "7;2", "0;1", "49", "102")
    text = ""
    for i in range(12):
        if i == k:
            r, g, b = rgb(inp, "c")
            text = text + f"\x1b[{inp.choice('l', ('38', '48'))};2;{r};{g};{b}m" + inp.char("t", INK) * inp.choice("n", (1, 40))
        else:
            text = text + f"\x1b[{looks[i]}m" + "text number twelve and so on"[: 1 + 2 * i]
    ref = Line(inp)
    ref.feed(text)
    want = [rgbs(inp, c) for c in ref.grid[0]]
    spans = list(Span.yield_from(text))
    compare(inp, show_spans(inp, spans), want, "parsing a long line gives spans of the same look")


def long_params(inp):
    """Many parameters in one sequence, two of them arbitrary."""
    base = ["1", "31", "4", "44", "38;5;99", "3", "9", "7"]
    i, j = inp.cint("i", 0, 7), inp.cint("j", 0, 7)
    base[i] = param(inp, "p", True)
    base[j] = param(inp, "q", True)
    text = "\x1b[" + ";".join(base) + "m" + inp.char("t", INK) + "\x1b[22;24;39m" + "x"
    ref = Line(inp)
    ref.feed(text)
    want = [rgbs(inp, c) for c in ref.grid[0]]
    compare(inp, show_spans(inp, list(Span.yield_from(text))), want, "parsing a long sequence gives spans of the same look")


def first(inp):
    """first_from is the first span, or None for a line without text."""
    t = inp.text("t", 0, 2, INK)
    styled = inp.cbool("styled")
    text = "\x1b[1m" + t + "\x1b[0m" if styled else t
    s = Span.first_from(text)
    if len(t) == 0:
        inp.check(s is None, "no text, no span")
    else:
        inp.check(s is not None and inp.all([s.text == t, s.bold == styled]), "the first span of the line")


def alpha(inp):
    """slate's own notation of a colour with an alpha value."""
    r, g, b = rgb(inp, "c")
    lead = inp.choice("l", ("38", "48"))
    a = inp.choice("a", ("0.5", "0.25", "1.0"))
    t = inp.char("t", INK)
    spans = list(Span.yield_from(f"\x1b[{lead};2;{r};{g};{b};{a}m{t}\x1b[0m"))
    inp.check(len(spans) == 1, "one span")
    c = spans[0].foreground if lead == "38" else spans[0].background
    inp.check(c is not None and c.alpha == float(a), "the alpha value is parsed")
    inp.check(inp.all([x == y for x, y in zip(c.rgb, (r, g, b))] + [spans[0].text == t]), "the colour is parsed")
