"""C01: what the terminal shows after a draw is the screen's content, for every history."""

from slate import Screen

from props.model import INK, Model, piece
from props.term import Terminal, same_screen

LOOKS = {
    "p": {},
    "b": {"styles": ("bold",)},
    "f": {"fg": "sym"},
    "c": {"fg": "sym", "bg": "sym", "styles": ("underline",)},
    "k": {"bg": "sym", "styles": ("invert", "strike")},
    "g": {"bg": "sym"},
    "h": {"fg": "sym", "bg": "sym"},
    "s": {"styles": "any"},
    "q": {"fg": "palette"},
}

BOUNDS = ("screens of 3x2 (thorough: up to 4x3) cells; histories of up to 5 (thorough: 6) operations out of write "
          "(every start cell, every text of 1-2 characters, with and without force_overwrite, at the cursor, in "
          "bulk), clear(every ASCII fill), resize(every size of 2-3 x 1-3), draw and redraw; every RGB colour; "
          "every render origin 1..400; two screens in one program; fourteen writes and draws in turn; two single-cell changes on screens of 12x1, 1x12, 130x1, 81x2 and 2x101 "
          "(edge columns and rows; thorough: every cell of 130x1, 1x110 and 27x3)")
OUTSIDE = ("larger screens and longer histories; double-width and combining characters; writes that scroll "
           "(start below the last row); hyperlinks; origin 0")
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)", "terminal colour space: true colour",
           "after a resize the terminal's content is unknown until redrawn"]
COVERS = ("drawn", "redrawn", "nothing to draw", "resized larger", "resized smaller", "cleared")
BUDGET = {"quick": 120, "thorough": 1500}

QUICK = [
    "Wp D Wp D",
    "Wf D Wp D X",
    "Wb Wc D X",
    "Wf D C Wp D",
    "Wk D R D X",
    "Wp R Wb D",
    "Wp X Wb D D",
    "Wc C D",
    "R C Wp R D",
    "Wp D Fp D",
    "Wf X R X",
    "Wp Nc D X",
    "Bpf D X",
    "Wp D Bbp D",
    "C D R D",
    "Wc R R D",
    "Wp D Wg D X",
    "Wh D Wp D X",
    "Wp Wg X D",
    "Lfb D Wp D X",
    "Wp D Lgp D",
    "Lpc C Lbp D",
    "Ws D X",
    "Wq D X",
]

# (width, height, columns, rows): wider and taller than the histories' screens
LARGE = ((12, 1, None, (0,)), (1, 12, (0,), None), (130, 1, (0, 9, 99), (0,)), (81, 2, (0, 8, 79, 80), (0, 1)), (2, 101, (0, 1), (0, 9, 98, 99, 100)))


def tasks(tier):
    out = [(s, "history", {"script": s.split(), "size": [3, 2], "n": 2}) for s in QUICK]
    ops = ["Wp", "Wg", "Wc", "C", "R", "D", "X", "Nk", "Fb", "Bpf", "Lbh"]
    for a in ops:
        for b in ops:
            for tail in ("D X", "X D"):
                s = f"{a} {b} {tail}"
                if s not in QUICK:
                    out.append((s, "history", {"script": s.split(), "size": [2, 2], "n": 1}))
    for w, h, xs, ys in LARGE:
        out.append((f"large {w}x{h}", "large", {"w": w, "h": h, "xs": xs or list(range(w)), "ys": ys or list(range(h))}))
    out += [(f"two screens {m}", "two", {"middle": m}) for m in ("nothing", "draw", "redraw", "clear", "resize", "new")]
    out += [("many frames", "frames", {"n": 14})]
    if tier == "thorough":
        for w, h in ((130, 1), (1, 110), (27, 3)):
            out.append((f"large all {w}x{h}", "large", {"w": w, "h": h, "xs": list(range(w)), "ys": list(range(h))}))
        ops = ["Wp", "Wc", "C", "R", "D", "X", "Nk", "Fb", "Bpf"]
        seen = set(QUICK)
        for a in ops:
            for b in ops:
                for c in ops:
                    s = f"{a} {b} {c} D X"
                    if s not in seen:
                        seen.add(s)
                        out.append((s, "history", {"script": s.split(), "size": [2, 2], "n": 1}))
        for s in ("Wp D Wp D Wp D", "Wf D Wb R D X", "Bcp D Wk D", "Wp Wp Wp D"):
            out.append((s + " 4x3", "history", {"script": s.split(), "size": [4, 3], "n": 2}))
        for s in ("Wp D Wb D", "Wf Nc D X"):
            out.append((s + " long", "history", {"script": s.split(), "size": [3, 3], "n": 6}))
    return out


def noop(inp):
    pass


def large(inp, w, h, xs, ys):
    """Two changes anywhere on a large screen, drawn incrementally and completely."""
    screen, model = Screen(w, h), Model(w, h)
    term = Terminal(inp, w, h)
    term.feed(screen.render(origin=(1, 1)))
    for i in range(2):
        pos = (inp.choice(f"x{i}", xs), inp.choice(f"y{i}", ys))
        p = piece(inp, f"t{i}", 1, 1, **LOOKS["f" if i else "p"])
        screen.write([p.span], cursor=pos)
        model.write([p], pos)
    term.feed(screen.render(origin=(1, 1)))
    inp.check(same_screen(inp, term, model.cells), "after a draw a large terminal shows the screen's content")
    full = Terminal(inp, w, h)
    full.feed(screen.render(origin=(1, 1), redraw=True))
    inp.check(same_screen(inp, full, model.cells), "after a redraw a large terminal shows the screen's content")


def two(inp, middle):
    """Two screens of one program: what happens to one is not seen on the other."""
    a, ma, ta = Screen(3, 2), Model(3, 2), Terminal(inp, 3, 2)
    b, mb, tb = Screen(3, 2), Model(3, 2), Terminal(inp, 3, 2)
    if inp.cbool("drawn before"):
        ta.feed(a.render(origin=(1, 1)))
        tb.feed(b.render(origin=(1, 1)))
    pos = (inp.cint("x", 0, 2), inp.cint("y", 0, 1))
    p = piece(inp, "p", 1, 2, **LOOKS["f"])
    a.write([p.span], cursor=pos)
    ma.write([p], pos)
    if middle == "draw":
        tb.feed(b.render(origin=(1, 1)))
    elif middle == "redraw":
        tb.feed(b.render(origin=(1, 1), redraw=True))
    elif middle == "clear":
        b.clear("c")
        mb.clear("c")
    elif middle == "resize":
        b.resize((2, 2))
        mb.resize(2, 2)
        tb.resize(2, 2)
    elif middle == "new":
        b, mb, tb = Screen(3, 2), Model(3, 2), Terminal(inp, 3, 2)
    pos = (inp.cint("x2", 0, 1), inp.cint("y2", 0, 1))
    q = piece(inp, "q", 1, 2, **LOOKS["g"])
    b.write([q.span], cursor=pos)
    mb.write([q], pos)
    for s, m, t in ((a, ma, ta), (b, mb, tb)) if inp.cbool("order") else ((b, mb, tb), (a, ma, ta)):
        t.feed(s.render(origin=(1, 1)))
        inp.check(same_screen(inp, t, m.cells), "of two screens each shows its own content")


def frames(inp, n):
    """Many writes and draws in turn."""
    screen, model, term = Screen(3, 2), Model(3, 2), Terminal(inp, 3, 2)
    at = inp.cint("at", 0, n - 1)
    c, pos = inp.char("c", INK), (inp.cint("x", 0, 2), inp.cint("y", 0, 1))
    for i in range(n):
        p = piece(inp, f"t{i}", text=c if i == at else "abc"[i % 3], **LOOKS["b" if i % 2 else "p"])
        where = pos if i == at else ((i * 2) % 3, (i // 3) % 2)
        screen.write([p.span], cursor=where)
        model.write([p], where)
        if i % 3 != 1:
            term.feed(screen.render(origin=(1, 1), redraw=i == 11))
            inp.check(same_screen(inp, term, model.cells), f"after draw {i} the terminal shows the screen's content")


def history(inp, script, size, n):
    w, h = size
    origin = (inp.int("ox", 1, 400), inp.int("oy", 1, 400))
    screen = Screen(w, h)
    model = Model(w, h)
    term = Terminal(inp, w, h, origin=origin)
    for i, op in enumerate(script):
        k, looks = op[0], op[1:]
        if k in "WF":
            pos = (inp.cint(f"x{i}", 0, model.width - 1), inp.cint(f"y{i}", 0, model.height - 1))
            p = piece(inp, f"t{i}", 1, n, **LOOKS[looks])
            screen.write([p.span], cursor=pos, force_overwrite=k == "F")
            model.write([p], pos)
        elif k == "N":
            p = piece(inp, f"t{i}", 1, n, **LOOKS[looks])
            if model.cursor[1] < model.height:
                screen.write([p.span])
                model.write([p])
        elif k == "L":
            # a line of two spans; the second must not start below the last row (that scrolls)
            at = inp.cint(f"at{i}", 0, model.width * model.height - 2)
            pos = (at % model.width, at // model.width)
            ps = [piece(inp, f"t{i}.{j}", 1, 1, **LOOKS[l]) for j, l in enumerate(looks)]
            screen.write([p.span for p in ps], cursor=pos)
            model.write(ps, pos)
        elif k == "B":
            items = []
            for j, l in enumerate(looks):
                pos = (inp.cint(f"x{i}.{j}", 0, model.width - 1), inp.cint(f"y{i}.{j}", 0, model.height - 1))
                p = piece(inp, f"t{i}.{j}", 1, 1, **LOOKS[l])
                items.append((pos, [p.span]))
                model.write([p], pos)
            screen.write_bulk(items)
        elif k == "C":
            f = inp.char(f"f{i}", ((33, 126),))
            screen.clear(f)
            model.clear(f)
            inp.cover("cleared")
        elif k == "R":
            w2, h2 = inp.cint(f"w{i}", 2, 3), inp.cint(f"h{i}", 1, 3)
            inp.cover("resized larger" if w2 * h2 > model.width * model.height else "resized smaller")
            screen.resize((w2, h2))
            model.resize(w2, h2)
            term.resize(w2, h2)
        else:
            before = term.printed
            term.feed(screen.render(origin=origin, redraw=k == "X"))
            inp.cover("redrawn" if k == "X" else "drawn" if term.printed > before else "nothing to draw")
            what = "redraw" if k == "X" else "draw"
            inp.check(same_screen(inp, term, model.cells),
                      f"after the {what} at step {i} of {' '.join(script)} the terminal shows the screen's content")
    inp.observe([c[0] for r in model.cells for c in r])
