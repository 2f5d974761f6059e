"""C12: the SVG export shows the screen: every cell's character, place, colours and style."""

from slate import Color, Screen, Span
from slate.terminal import Terminal as SlateTerminal

from engine import env as E
from props.svg import css_rules, inline as inline_css, markup_free, number, same_hex, same_space, scan, unescape
from props.model import ALL_STYLES, INK, TEXT, Model, piece, rgb

BOUNDS = "screens of 1-3 x 1-2 cells holding 1-2 spans of 1-3 characters (every printable, markup characters included) with every RGB foreground and background, bold/dim/italic/underline/strike/invert; one span on its own with every style combination; both default colours any RGB; font sizes 10, 15, 16; screens of 14x3 and 3x12 with 14 differently styled texts"
OUTSIDE = "larger screens; glyph shapes; hyperlinks; underline and strike at once (one CSS property)"
ASSUMES = ["a cell is 0.60167 em wide and 1.265 em tall (the monospace metrics the exporter is built on)",
           "a cell written without a foreground may show the default foreground or white",
           "class rules override fill attributes, later rules override earlier ones (CSS)"]
COVERS = ("escaped", "block", "inverted", "default fg", "default bg", "second row")
BUDGET = {"quick": 150, "thorough": 1500}

CW, CH = 0.60167, 1.265
CSS = {"bold": ("font-weight", "bold"), "italic": ("font-style", "italic"), "dim": ("opacity", "0.7"),
       "underline": ("text-decoration", "underline"), "strike": ("text-decoration", "line-through")}
MARK = ((0x20, 0x3F), (0x41, 0x42), (0xA0, 0xA1), (0x2580, 0x259F))


def tasks(tier):
    out = [
        ("span flags", "span", {"flags": ["bold", "dim", "italic", "underline", "strike", "invert"], "n": 1, "colors": False}),
        ("span colors", "span", {"flags": ["invert"], "n": 2, "colors": True}),
        ("span inline", "span", {"flags": ["invert", "bold"], "n": 1, "colors": True, "inline": True}),
        ("one cell", "screen", {"w": 1, "h": 1, "spans": ["1f"]}),
        ("one write", "screen", {"w": 3, "h": 1, "spans": ["2b"]}),
        ("bold beside plain", "screen", {"w": 3, "h": 2, "spans": ["1s", "2p"]}),
        ("colours", "screen", {"w": 2, "h": 1, "spans": ["1f", "1F"]}),
        ("backgrounds", "screen", {"w": 2, "h": 2, "spans": ["1c", "1C"]}),
        ("inverted", "screen", {"w": 2, "h": 1, "spans": ["2i"]}),
        ("classes", "screen", {"w": 2, "h": 1, "spans": ["1s", "1t"]}),
        ("terminal", "export", {"w": 2, "h": 1, "font": 20}),
        ("terminal 3x2", "export", {"w": 3, "h": 2, "font": 15}),
        ("terminal 11x1", "export", {"w": 11, "h": 1, "font": 12}),
        ("defaults", "defaults", {}),
        ("large wide", "large", {"w": 14, "h": 3}),
        ("large tall", "large", {"w": 3, "h": 12}),
    ]
    if tier == "thorough":
        kinds = "pfbsti"
        for a in kinds:
            for b in kinds:
                out.append((f"{a} {b}", "screen", {"w": 3, "h": 2, "spans": ["1" + a, "2" + b]}))
    return out


def noop(inp):
    pass


def text_style(inp, attrs, rules):
    """Effective fill and CSS declarations of a <text>."""
    decl = {}
    if "class" in attrs:
        decl.update(rules.get("".join(attrs["class"]), {}))
    if "style" in attrs:
        decl.update(inline_css(inp, attrs["style"]))
    fill = decl.get("fill", attrs.get("fill"))
    return fill, decl


def check_style(inp, decl, styles, label):
    want = {}
    for s in styles:
        if s in CSS:
            want[CSS[s][0]] = CSS[s][1]
    for prop in ("font-weight", "font-style", "opacity", "text-decoration"):
        got = "".join(decl[prop]) if prop in decl else None
        if got in ("normal", "none", "1"):
            got = None
        if prop == "text-decoration" and "underline" in styles and "strike" in styles:
            inp.check(got is not None, label + ": decoration")
            continue
        inp.check(got == want.get(prop), f"{label}: {prop}")


def near(a, b, tol=0.02):
    return abs(a - b) <= tol


def paint(inp, body, rules, font, origin, model_rows, dfg, dbg, label, white_ok=True):
    """Lay the runs out on a grid and compare every cell with what it should show."""
    tags = [t for t in scan(inp, body) if t[0] in ("rect", "text")]
    grid = {}
    cover = {}
    conds = []
    for tag, attrs, content in tags:
        x = number(inp, attrs["x"]) - origin[0]
        y = number(inp, attrs["y"]) - origin[1]
        if tag == "rect":
            row = round((y + 0.1 * font) / (CH * font))
            width = number(inp, attrs["width"])
            height = number(inp, attrs["height"])
            inp.check(height >= CH * font - 0.01, label + ": a background is as tall as a row, so that those of two rows meet")
            inp.check(abs(y - row * CH * font) <= 0.3 * font, label + ": a background starts at its row")
            col = round(x / (CW * font))
            inp.check(near(x, col * CW * font), label + ": a background starts at a cell")
            n = round(width / (CW * font))
            inp.check(n * CW * font - 0.02 <= width <= n * CW * font + 1, label + ": a background spans whole cells")
            for k in range(n):
                cover[col + k, row] = attrs["fill"]
                grid.pop((col + k, row), None)
        else:
            row = round((y - font) / (CH * font))
            inp.check(near(y - font, row * CH * font), label + ": text sits on its row")
            inp.check(markup_free(inp, content), label + ": text is escaped")
            if any(not inp.is_sym(c) and c == "&" for c in content):
                inp.cover("escaped")
            fill, decl = text_style(inp, attrs, rules)
            chars = unescape(inp, content)
            col = round(x / (CW * font))
            inp.check(near(x, col * CW * font), label + ": text starts at its cell")
            for k, c in enumerate(chars):
                inp.check((col + k, row) not in grid, label + ": no cell is written twice")
                grid[col + k, row] = (c, fill, decl, cover.get((col + k, row)))
    h = len(model_rows)
    w = len(model_rows[0])
    inp.check(sorted(grid) == sorted((x, y) for y in range(h) for x in range(w)), label + ": every cell is drawn once, none outside")
    for y in range(h):
        for x in range(w):
            ch, styles, fg, bg = model_rows[y][x]
            c, fill, decl, back = grid[x, y]
            if fg is None:
                inp.cover("default fg")
            if bg is None:
                inp.cover("default bg")
            if y:
                inp.cover("second row")
            f = dfg if fg is None else fg
            b = dbg if bg is None else bg
            if "invert" in styles:
                f, b = b, f
                inp.cover("inverted")
            inp.check(fill is not None and back is not None, label + ": filled")
            front_ok, back_ok = same_hex(inp, fill, f), same_hex(inp, back, b)
            if fg is None and white_ok:
                # a written cell without foreground may have become white
                if "invert" in styles:
                    back_ok = inp.any([back_ok, same_hex(inp, back, (255, 255, 255))])
                else:
                    front_ok = inp.any([front_ok, same_hex(inp, fill, (255, 255, 255))])
            conds += [same_space(inp, c, ch), front_ok, back_ok]
            check_style(inp, decl, styles, label)
    inp.check(inp.all(conds), label + ": the characters and colours of every cell")


def span(inp, flags, n, colors, inline=False):
    kw = {f: inp.cbool(f) for f in flags}
    fg = bg = None
    if colors:
        if inp.cbool("hasfg"):
            fg = rgb(inp, "fg")
            kw["foreground"] = Color(fg)
        if inp.cbool("hasbg"):
            bg = rgb(inp, "bg")
            kw["background"] = Color(bg, is_background=True)
    t = inp.text("t", 1, n, MARK)
    dfg, dbg = (1, 200, 3), (250, 6, 70)
    s = Span(t, **kw)
    font = inp.choice("font", (10, 15, 16))
    origin = inp.choice("origin", ((0, 0), (12, 40.5)))
    body = s.as_svg(font_size=font, origin=origin, default_foreground=Color(dfg), default_background=Color(dbg),
                    **({"inline_styles": True} if inline else {"cls": "k"}))
    css = s.get_svg_styles()
    own = bg if kw.get("invert") else fg
    if own is not None:
        inp.check("fill" in css and same_hex(inp, inp.elements(css["fill"]), own), "the styles by themselves name the text colour")
    if not inline:
        body_rules = {"k": {k: inp.elements(v) for k, v in css.items()}}
    else:
        body_rules = {}
    styles = tuple(f for f in flags if kw[f])
    texts = [a for tag, a, c in scan(inp, body) if tag == "text"]
    inp.check(len(texts) == 1, "one text")
    if not inline:
        inp.check("".join(texts[0]["class"]) == "k", "the class is put on the text")
    if inp.any([inp.all([c >= "\u2580", c <= "\u259f"]) for c in t]):
        inp.cover("block")
    paint(inp, body, body_rules, font, origin, [[(c, styles, fg, bg) for c in t]], dfg, dbg, "span", white_ok=False)


def make(inp, i, spec):
    n, k = int(spec[0]), spec[1]
    kw = {"p": {}, "f": {"fg": "sym"}, "F": {"fg": (7, 8, 9)}, "b": {"fg": "sym", "bg": "sym"}, "s": {"styles": ("bold",)}, "c": {"bg": "sym"}, "C": {"bg": (7, 8, 9)},
          "t": {"styles": ("italic", "strike")}, "i": {"styles": ("invert",), "fg": "sym", "bg": (9, 9, 90)}}[k]
    return piece(inp, f"t{i}", n, n, dom=MARK, **kw)


def screen(inp, w, h, spans):
    scr, model = Screen(w, h), Model(w, h)
    for i, sp in enumerate(spans):
        p = make(inp, i, sp)
        pos = (inp.cint(f"x{i}", 0, max(0, w - int(sp[0]))), inp.cint(f"y{i}", 0, h - 1))
        scr.write([p.span], cursor=pos)
        model.write([p], pos)
    dfg, dbg = (221, 220, 219), (33, 34, 35)
    font = 15
    body, css = scr.export_svg_with_styles(font_size=font, origin=(4, 6), default_foreground=Color(dfg), default_background=Color(dbg))
    again = scr.export_svg_with_styles(font_size=font, origin=(4, 6), default_foreground=Color(dfg), default_background=Color(dbg))
    inp.check(inp.all([again[0] == body, again[1] == css]), "exporting changes nothing")
    paint(inp, body, css_rules(inp, css), font, (4, 6), model.cells, dfg, dbg, "screen")


def large(inp, w, h):
    """Many differently styled texts, one of them arbitrary."""
    scr, model = Screen(w, h), Model(w, h)
    flags = (("bold",), ("italic",), (), ("underline",), ("dim", "bold"), ("strike", "italic"), ("invert",))
    k = inp.cint("k", 0, 13)
    for i in range(14):
        kw = {"styles": flags[i % 7], "fg": (i, 10 * i, 255 - i) if i % 3 else None, "bg": (200, i, 3 * i) if i % 4 == 1 else None}
        pos = ((5 * i) % w, (5 * i // w) % h)
        text = "ab&" if i % 2 else "z"
        if i == k:
            pos = (inp.choice("x", (0, w - 1)), inp.choice("y", (0, h - 1)))
            text = inp.char("t", MARK)
            kw["fg"] = rgb(inp, "fg")
        p = piece(inp, f"t{i}", text=text, **kw)
        scr.write([p.span], cursor=pos)
        model.write([p], pos)
    dfg, dbg = (221, 220, 219), (33, 34, 35)
    body, css = scr.export_svg_with_styles(font_size=15, origin=(4, 6), default_foreground=Color(dfg), default_background=Color(dbg))
    paint(inp, body, css_rules(inp, css), 15, (4, 6), model.cells, dfg, dbg, "large screen")


def export(inp, w, h, font):
    """The whole document: size, background, and the same cells."""
    e = E.Env(size=(w, h), stdin_tty=False, stdout_tty=False, variables={"COLORTERM": "truecolor"})
    given = inp.choice("given", ("both", "fg", "bg", "none"))
    model = Model(w, h)
    with E.active(e):
        t = SlateTerminal(stream=E.Stream(e, tty=False))
        p = make(inp, 0, "2f")
        pos = (0, inp.cint("y", 0, h - 1))
        t.write([p.span], cursor=pos)
        model.write([p], pos)
        # what is not given is the terminal's own
        dfg, dbg = t.foreground_color.rgb, t.background_color.rgb
        inp.check((tuple(dfg), tuple(dbg)) == ((0xDE, 0xDE, 0xDE), (0x14, 0x14, 0x14)), "the fallback colours")
        kw = {}
        if given in ("both", "fg"):
            dfg = rgb(inp, "dfg")
            kw["default_foreground"] = Color(dfg)
        if given in ("both", "bg"):
            dbg = rgb(inp, "dbg")
            kw["default_background"] = Color(dbg)
        if font != 15:
            kw["font_size"] = font
        doc = t.export_svg(**kw)
        inp.check(e.log == [] and t.export_svg(**kw) == doc, "exporting changes nothing")
    tags = scan(inp, doc)
    root = tags[0]
    inp.check(root[0] == "svg", "an svg document")
    tw, th = number(inp, root[1]["width"]), number(inp, root[1]["height"])
    shift = "".join([a["transform"] for tag, a, c in tags if tag == "g"][0])
    mx, my = (float(x) for x in shift[shift.index("(") + 1:shift.index(")")].replace(",", " ").split())
    inp.check(mx > 0 and my > 0, "the screen has margins")
    inp.check(near(tw, w * CW * font + 2 * mx, 1) and near(th, h * CH * font + 2 * my, 1), "the image is as large as the screen with its margins")
    if "viewBox" in root[1]:
        inp.check([float(x) for x in "".join(root[1]["viewBox"]).replace(",", " ").split()] == [0, 0, tw, th], "all of it is in view")
    rects = [a for tag, a, c in tags if tag == "rect"]
    inp.check(inp.all([same_hex(inp, rects[0]["fill"], dbg)]), "the background is the default background")
    inp.check(number(inp, rects[0]["width"]) >= tw - 0.1 and number(inp, rects[0]["height"]) >= th - 0.1, "and fills the image")
    style = doc[doc.index("<style"):doc.index("</style")] if "<style" in doc else ""
    inp.check(("font-size: %dpx" % font) in style or ("font-size:%dpx" % font) in style, "the text has the font size")
    body = doc[doc.index("<g"):]
    paint(inp, body, css_rules(inp, doc), font, (0, 0), model.cells, dfg, dbg, "document")


def defaults(inp):
    """A span's image without further wishes."""
    t = inp.text("t", 1, 2, MARK)
    s = Span(t, bold=inp.cbool("bold"))
    c, d = (0xDD, 0xDD, 0xDD), (0x21, 0x21, 0x21)
    body = s.as_svg()
    inp.check(body == s.as_svg(15, (0, 0), Color(c), Color(d), False), "at the top left, in the default size and colours")
