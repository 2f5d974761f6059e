"""C11: width() counts the cells a text occupies."""

from slate import Color, Span, width

from props.model import ALL_STYLES, INK, TEXT, rgb
from props.term import Line

BOUNDS = "lines of up to 5 segments: text of 0-2 characters, SGR sequences (every RGB colour, style codes), cursor positions (every row/column), hyperlinks; spans of 0-4 characters in every look; texts of up to 100 characters, addresses with every printable character"
OUTSIDE = "double-width and combining characters; other control sequences; longer texts"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)"]
COVERS = ("sgr", "cup", "osc", "text")
BUDGET = {"quick": 75, "thorough": 900}


def tasks(tier):
    shapes = ["T", "", "S T", "T S T", "P T", "L T E", "S T P T", "T L S T E", "S S T S", "P S T S L"]
    if tier == "thorough":
        ops = "TSPLE"
        shapes += [" ".join((a, b, c)) for a in ops for b in ops for c in ops]
        shapes = list(dict.fromkeys(shapes))
    out = [(s or "empty", "strings", {"shape": s}) for s in shapes]
    out.append(("long", "long_text", {}))
    out.append(("addresses", "addresses", {}))
    out.append(("spans", "spans", {"n": 4, "flags": ["bold", "opaque"]}))
    out.append(("flags", "spans", {"n": 1, "flags": list(ALL_STYLES)}))
    return out


def noop(inp):
    pass


def strings(inp, shape):
    text = ""
    n = 0
    for i, p in enumerate(shape.split()):
        if p == "T":
            t = inp.text(f"t{i}", 0, 2, TEXT)
            n += len(t)
            text = text + t
            inp.cover("text")
        elif p == "S":
            k = inp.choice(f"s{i}", ("0", "", "1", "rgb", "48;5;9"))
            if k == "rgb":
                r, g, b = rgb(inp, f"c{i}")
                k = f"38;2;{r};{g};{b};1"
            text = text + "\x1b[" + k + "m"
            inp.cover("sgr")
        elif p == "P":
            y, x = inp.int(f"y{i}", 1, 400), inp.int(f"x{i}", 1, 400)
            text = text + f"\x1b[{y};{x}H"
            inp.cover("cup")
        elif p == "L":
            text = text + "\x1b]8;;" + inp.text(f"u{i}", 0, 2, ((33, 91),)) + "\x1b\\"
            inp.cover("osc")
        elif p == "E":
            text = text + "\x1b]8;;\x1b\\"
    inp.check(width(text) == n, "width counts the visible characters")
    inp.observe(n)


def long_text(inp):
    n = inp.choice("n", (9, 10, 31, 64, 100))
    r, g, b = rgb(inp, "c")
    t = inp.char("a", TEXT) + "m[0;" * (n // 4) + inp.char("b", TEXT)
    text = "\x1b[1m" + t + f"\x1b[38;2;{r};{g};{b}m" + t + "\x1b[0m"
    inp.check(width(text) == 2 * len(t), "width counts every visible character of a long text")
    inp.check(width(Span(t, bold=True)) == len(t), "a long span is as wide as its text")


def addresses(inp):
    """Whatever a hyperlink's address contains, it takes no room."""
    u = inp.text("u", 1, 3, ((33, 126),))
    pre, post = inp.choice("around", (("", ""), ("http://[", "]:8080/?a=1;b#m"), ("mailto:", "H")))
    t = inp.text("t", 0, 2, INK)
    inp.check(width("\x1b]8;;" + pre + u + post + "\x1b\\" + t + "\x1b]8;;\x1b\\") == len(t), "a hyperlink's address takes no room")
    inp.check(width(Span(t, hyperlink=pre + u + post, italic=True)) == len(t), "a linked span is as wide as its text")


def spans(inp, n, flags):
    kw = {f: inp.cbool(f) for f in flags}
    if inp.cbool("hasfg"):
        kw["foreground"] = Color(rgb(inp, "fg"))
    if inp.cbool("hasbg"):
        kw["background"] = Color(rgb(inp, "bg"), is_background=True)
    if len(flags) < 4:
        kw["reset_after"] = inp.cbool("reset")
        if inp.cbool("link"):
            kw["hyperlink"] = "https://x"
    t = inp.text("t", 0, n, TEXT)
    s = Span(t, **kw)
    inp.check(width(s) == len(t), "a span is as wide as its text")
    inp.check(len(s) == len(t), "a span is as long as its text")
    inp.check(width(str(s)) == len(t), "a printed span is as wide as its text")
    line = Line(inp)
    line.feed(str(s))
    inp.check(line.printed == width(s), "a span is as wide as what it prints")
