"""C03: where written characters land: wrapping, newlines, clipping; every other cell is untouched."""

from slate import Screen

from engine.inputs import cs
from props.model import Model, TEXT, piece
from props.term import Terminal, same_screen

# characters including the newline
NLTEXT = cs("\n", (0x21, 0x7E), (0xA1, 0xAC))

BOUNDS = ("screens of 1-3 x 1-3 cells; one write of 1-3 spans with up to 4 (thorough: 6) characters each drawn from "
          "every printable character and newline; every start column -1..width and row -1..height-1; "
          "one text up to two characters longer than the row on screens of 12x3, 81x2, 132x2, 1x40 and 5x26")
OUTSIDE = "writes of which a span starts below the last row (scrolling), longer texts, other screen sizes"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)"]
COVERS = ("wrapped", "newline", "clipped at the bottom", "dropped: starts outside", "line break then wrap")
BUDGET = {"quick": 75, "thorough": 1200}


def tasks(tier):
    out = []
    th = tier == "thorough"
    for w, h in ((3, 2), (2, 3), (1, 2), (3, 1), (2, 2)):
        out.append((f"one {w}x{h}", "place", {"w": w, "h": h, "spans": [[1, 4]], "styled": False}))
        out.append((f"styled {w}x{h}", "place", {"w": w, "h": h, "spans": [[1, 3]], "styled": True}))
    out.append(("two 3x2", "place", {"w": 3, "h": 2, "spans": [[1, 2], [1, 2]], "styled": False}))
    out.append(("two styled 2x3", "place", {"w": 2, "h": 3, "spans": [[1, 2], [1, 1]], "styled": True}))
    out.append(("three 2x2", "place", {"w": 2, "h": 2, "spans": [[0, 1], [1, 1], [1, 2]], "styled": False}))
    out.append(("redraw 3x3", "place", {"w": 3, "h": 3, "spans": [[3, 4]], "styled": False, "redraw": True, "nl": False}))
    out.append(("long 3x3", "place", {"w": 3, "h": 3, "spans": [[8, 10]], "styled": False, "nl": False}))
    for w, h in ((12, 3), (81, 2), (132, 2), (1, 40), (5, 26)):
        out.append((f"large {w}x{h}", "large", {"w": w, "h": h}))
    if th:
        out.append(("long nl 3x3", "place", {"w": 3, "h": 3, "spans": [[5, 6]], "styled": False}))
        out.append(("long nl styled 2x3", "place", {"w": 2, "h": 3, "spans": [[4, 5]], "styled": True}))
        out.append(("three 3x3", "place", {"w": 3, "h": 3, "spans": [[1, 2], [1, 2], [1, 2]], "styled": False}))
        out.append(("long 4x4", "place", {"w": 4, "h": 4, "spans": [[1, 17]], "styled": False, "nl": False}))
    return out


def noop(inp):
    pass


def large(inp, w, h):
    """A text longer than a row of a large screen."""
    screen, model = Screen(w, h), Model(w, h)
    term = Terminal(inp, w, h)
    term.feed(screen.render(origin=(1, 1)))
    pos = (inp.choice("x", sorted({0, 1 % w, w // 2, w - 1})), inp.choice("y", sorted({0, h // 2, h - 1})))
    a, b = inp.char("a", TEXT), inp.char("b", TEXT)
    n = inp.choice("n", sorted({1, w - 1, w, w + 1}))
    p = piece(inp, "t", text=a + "." * n + b)
    screen.write([p.span], cursor=pos)
    model.write([p], pos)
    inp.check(screen.cursor == model.cursor, "the cursor ends behind the last character")
    term.feed(screen.render(origin=(1, 1)))
    inp.check(same_screen(inp, term, model.cells), "every character is in its cell on a large screen")


def place(inp, w, h, spans, styled, redraw=False, nl=True):
    screen, model = Screen(w, h), Model(w, h)
    fill = inp.char("fill", ((33, 126),))
    screen.clear(fill)
    model.clear(fill)
    term = Terminal(inp, w, h)
    term.feed(screen.render(origin=(1, 1)))
    pos = (inp.cint("x", -1, w), inp.cint("y", -1, h - 1))
    ps = []
    for j, (lo, hi) in enumerate(spans):
        look = {"styles": ("bold",), "fg": (10, 20, 30 + j)} if styled else {}
        ps.append(piece(inp, f"t{j}", lo, hi, dom=NLTEXT if nl else TEXT, **look))
    # a span that would start below the last row scrolls the screen: not claimed
    for k in range(1, len(ps)):
        end = model.copy().place(pos, ps[:k])[1]
        inp.assume(end[1] < h)
    n = screen.write([p.span for p in ps], cursor=pos)
    cells = model.write(ps, pos)
    inp.check(screen.cursor == model.cursor, "the cursor ends behind the last character")
    if not cells:
        if not (0 <= pos[0] < w and 0 <= pos[1] < h):
            inp.cover("dropped: starts outside")
    rows = {y for x, y, ch, p in cells}
    if any(c[0] == 0 and pos[0] != 0 for c in cells):
        inp.cover("wrapped")
    chars = [ch for p in ps for ch in p.chars]
    if any(ch == "\n" for ch in chars):
        inp.cover("newline")
        if len(rows) > 2:
            inp.cover("line break then wrap")
    elif len(cells) < len(chars) and cells:
        inp.cover("clipped at the bottom")
    term.feed(screen.render(origin=(1, 1), redraw=redraw))
    inp.check(same_screen(inp, term, model.cells), "every character is in its cell and every other cell is untouched")
    inp.observe([c[0] for r in model.cells for c in r])
    inp.observe(n)
