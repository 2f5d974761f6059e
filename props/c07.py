"""C07: resizing keeps what fits, fills the rest; clearing erases everything."""

from slate import Screen

from props.c01 import LOOKS
from props.model import Model, piece
from props.term import Terminal, same_screen

BOUNDS = "screens and sizes of 1-4 x 1-3 cells; up to 2 writes, up to 2 resizes (every size, every ASCII fill, keep_original on and off) and clears, drawn incrementally and completely; resizes between 1x1, 12x2, 3x12, 101x1 and 82x25"
OUTSIDE = "larger screens; longer histories"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)",
           "after a resize the terminal's content is unknown until redrawn"]
COVERS = ("wider", "narrower", "taller", "shorter", "cleared", "not kept")
BUDGET = {"quick": 75, "thorough": 1200}

QUICK = ["Wc R", "Wp r", "Wp D R", "Wf R Wp", "R Wp R", "Wp C", "Wc D C", "Wp R C", "C R", "Wk K", "Wp Wc R", "R R", "K R"]


def tasks(tier):
    out = [(s, "run", {"script": s.split(), "w": 3, "h": 2}) for s in QUICK]
    out.append(("large", "large", {"kept": True}))
    out.append(("large not kept", "large", {"kept": False}))
    if tier == "thorough":
        ops = ["Wp", "Wc", "R", "r", "C", "K", "D"]
        for a in ops:
            for b in ops:
                for c in ops:
                    out.append((f"{a} {b} {c}", "run", {"script": [a, b, c], "w": 2, "h": 2}))
    return out


def noop(inp):
    pass


SIZES = ((1, 1), (12, 2), (3, 12), (101, 1), (82, 25))


def large(inp, kept):
    """Resizing between sizes of every order of magnitude."""
    w, h = inp.choice("from", SIZES)
    screen, model = Screen(w, h), Model(w, h)
    for i in range(2):
        pos = (inp.choice(f"x{i}", sorted({0, w // 2, w - 1})), inp.choice(f"y{i}", sorted({0, h - 1})))
        p = piece(inp, f"t{i}", 1, 1, **LOOKS["fp"[i]])
        screen.write([p.span], cursor=pos)
        model.write([p], pos)
    w2, h2 = inp.choice("to", SIZES)
    f = inp.char("f", ((33, 126),))
    screen.resize((w2, h2), f, keep_original=kept)
    model.resize(w2, h2, f, keep=kept)
    inp.check((screen.width, screen.height) == (w2, h2), "the size is the new size")
    term = Terminal(inp, w2, h2)
    term.feed(screen.render(origin=(1, 1)))
    inp.check(same_screen(inp, term, model.cells), "a draw of a large screen shows what was kept and the filling")


def run(inp, script, w, h):
    screen, model = Screen(w, h), Model(w, h)
    term = Terminal(inp, w, h)
    for i, op in enumerate(script):
        if op[0] == "W":
            pos = (inp.cint(f"x{i}", 0, model.width - 1), inp.cint(f"y{i}", 0, model.height - 1))
            p = piece(inp, f"t{i}", 1, 2, **LOOKS[op[1:]])
            screen.write([p.span], cursor=pos)
            model.write([p], pos)
        elif op in "RrK":
            w2, h2 = inp.cint(f"w{i}", 1, 4), inp.cint(f"h{i}", 1, 3)
            inp.cover("wider" if w2 > model.width else "narrower")
            inp.cover("taller" if h2 > model.height else "shorter")
            if op == "R":
                screen.resize((w2, h2))
                model.resize(w2, h2)
            else:
                f = inp.char(f"f{i}", ((33, 126),))
                screen.resize((w2, h2), f, keep_original=op == "r")
                model.resize(w2, h2, f, keep=op == "r")
                if op == "K":
                    inp.cover("not kept")
            term.resize(w2, h2)
            inp.check((screen.width, screen.height) == (w2, h2), "the size is the new size")
        elif op == "C":
            f = inp.char(f"f{i}", ((33, 126),))
            screen.clear(f)
            model.clear(f)
            inp.cover("cleared")
            inp.check((screen.width, screen.height) == (model.width, model.height), "clearing keeps the size")
            inp.check(screen.cursor == (0, 0), "clearing moves the cursor home")
        elif op == "D":
            term.feed(screen.render(origin=(1, 1)))
    term.feed(screen.render(origin=(1, 1)))
    inp.check(same_screen(inp, term, model.cells), f"{script}: an incremental draw shows what was kept and the filling")
    full = Terminal(inp, model.width, model.height)
    full.feed(screen.render(origin=(1, 1), redraw=True))
    inp.check(same_screen(inp, full, model.cells), f"{script}: a redraw shows what was kept and the filling")
    inp.observe([c[0] for r in model.cells for c in r])
