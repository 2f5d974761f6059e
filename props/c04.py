"""C04: the cursor: writes without a position continue where the last one ended."""

from slate import Screen

from props.c01 import LOOKS
from props.model import Model, TEXT, piece
from props.term import Terminal, same_screen

BOUNDS = "3x2 and 2x3 screens; up to 4 operations: write at a position, write at the cursor, bulk write, clear, resize, set cursor; texts of 1-3 characters and empty ones; 12x3 and 90x3 screens with texts one character shorter or longer than a row"
OUTSIDE = "continuing below the last row (scrolling); longer histories"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)"]
COVERS = ("continued", "continued on the next row", "set", "cleared")
BUDGET = {"quick": 75, "thorough": 1200}

QUICK = ["Wp Np", "Np Nb", "Wp Np Nf", "S Np", "Bpp Np", "C Np", "Wp C Np", "Wp R Np", "I Np", "Wp S Nc Np", "Wp D Np D", "Np X Np"]


def tasks(tier):
    out = [(s, "run", {"script": s.split(), "w": 3, "h": 2, "n": 2}) for s in QUICK]
    out += [(s + " 2x3", "run", {"script": s.split(), "w": 2, "h": 3, "n": 3}) for s in ("Wp Np", "Np Np Np", "Bpp Np")]
    out += [("empty", "empty", {})]
    out += [(f"large {w}x3", "large", {"w": w, "h": 3}) for w in (12, 90)]
    if tier == "thorough":
        ops = ["Wp", "Np", "S", "Bpp", "C", "R", "D"]
        for a in ops:
            for b in ops:
                for c in ("Np", "Wb"):
                    out.append((f"{a} {b} {c} Np", "run", {"script": [a, b, c, "Np"], "w": 3, "h": 2, "n": 1}))
    return out


def noop(inp):
    pass


def large(inp, w, h):
    """Texts about as long as a row, one after the other."""
    screen, model = Screen(w, h), Model(w, h)
    pos = (inp.choice("x", (0, 9, w - 1)), 0)
    p = piece(inp, "a", text=inp.char("a", TEXT) + "." * inp.choice("n", (1, w - 2, w - 1, w)))
    if inp.cbool("bulk"):
        screen.write_bulk([(pos, [p.span])])
    else:
        screen.write([p.span], cursor=pos)
    model.write([p], pos)
    inp.check(screen.cursor == model.cursor, "the cursor is behind the last character of a long text")
    q = piece(inp, "b", text="+" * inp.choice("m", (1, 10)) + inp.char("b", TEXT))
    screen.write([q.span])
    model.write([q])
    inp.check(screen.cursor == model.cursor, "the cursor is behind the text that continued")
    term = Terminal(inp, w, h)
    term.feed(screen.render(origin=(1, 1), redraw=True))
    inp.check(same_screen(inp, term, model.cells), "a long text continues where the last one ended")


def empty(inp):
    """Writing nothing at a position moves the cursor there."""
    screen, model = Screen(3, 2), Model(3, 2)
    if inp.cbool("before"):
        p = piece(inp, "a", 1, 2)
        screen.write([p.span], cursor=(0, 0))
        model.write([p], (0, 0))
    pos = (inp.cint("x", 0, 2), inp.cint("y", 0, 1))
    p = piece(inp, "e", text="", **LOOKS[inp.choice("look", ("p", "b", "f"))])
    spans = inp.choice("spans", (0, 1, 2))
    how = inp.choice("how", ("write", "bulk", "set"))
    if how == "write":
        screen.write([p.span] * spans, cursor=pos)
    elif how == "bulk":
        screen.write_bulk([((0, 1), []), (pos, [p.span] * spans)])
    else:
        screen.cursor = pos
        screen.write([p.span] * spans)
    inp.check(tuple(screen.cursor) == pos, "writing nothing at a position moves the cursor there")
    q = piece(inp, "b", 1, 1)
    screen.write([q.span])
    model.write([q], pos)
    term = Terminal(inp, 3, 2)
    term.feed(screen.render(origin=(1, 1), redraw=True))
    inp.check(same_screen(inp, term, model.cells), "and what follows starts there")


def run(inp, script, w, h, n):
    start = (0, 0)
    if script[0] == "I":
        start = (inp.cint("ix", 0, w - 1), inp.cint("iy", 0, h - 1))
    screen = Screen(w, h, cursor=start)
    model = Model(w, h)
    model.cursor = start
    for i, op in enumerate(script):
        if op[0] == "W":
            pos = (inp.cint(f"x{i}", 0, model.width - 1), inp.cint(f"y{i}", 0, model.height - 1))
            p = piece(inp, f"t{i}", 1, n, **LOOKS[op[1:]])
            screen.write([p.span], cursor=pos)
            model.write([p], pos)
        elif op[0] == "N":
            if model.cursor[1] >= model.height:
                return
            p = piece(inp, f"t{i}", 1, n, **LOOKS[op[1:]])
            at = model.cursor
            screen.write([p.span])
            cells = model.write([p])
            inp.cover("continued" if at[0] else "continued on the next row")
        elif op[0] == "B":
            items = []
            for j, l in enumerate(op[1:]):
                pos = (inp.cint(f"x{i}.{j}", 0, model.width - 1), inp.cint(f"y{i}.{j}", 0, model.height - 1))
                p = piece(inp, f"t{i}.{j}", 1, n, **LOOKS[l])
                items.append((pos, [p.span]))
                model.write([p], pos)
            screen.write_bulk(items)
        elif op == "S":
            pos = (inp.cint(f"x{i}", 0, model.width - 1), inp.cint(f"y{i}", 0, model.height - 1))
            screen.cursor = pos
            model.cursor = pos
            inp.cover("set")
        elif op == "C":
            screen.clear()
            model.clear()
            inp.cover("cleared")
        elif op == "R":
            w2, h2 = inp.cint(f"w{i}", 2, 4), inp.cint(f"h{i}", 1, 3)
            screen.resize((w2, h2))
            model.resize(w2, h2)
        elif op == "D":
            screen.render(origin=(1, 1))
        elif op == "X":
            screen.render(origin=(1, 1), redraw=True)
        inp.check(screen.cursor == model.cursor, f"after {op} (step {i} of {script}) the cursor is behind the last character")
    term = Terminal(inp, model.width, model.height)
    term.feed(screen.render(origin=(1, 1), redraw=True))
    inp.check(same_screen(inp, term, model.cells), f"{script}: text written at the cursor is where the cursor was")
    inp.observe(list(screen.cursor))
