"""C05: a bulk write of opaque layers shows what the single writes in order show; the last one wins."""

from slate import Screen

from props.c01 import LOOKS
from props.model import Model, TEXT, piece
from props.term import Terminal, same_screen

BOUNDS = "3x2 screens; bulks of 0-3 (thorough: 4) items at every position with texts of 1-2 characters, every RGB colour, over a filled or written screen, with and without force_overwrite, drawn incrementally or completely; bulks of 12 items on 12x2 screens"
OUTSIDE = "larger screens and bulks; translucent layers (C06); scrolling writes"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)"]
COVERS = ("overlap", "disjoint", "restored")
BUDGET = {"quick": 75, "thorough": 1200}


def tasks(tier):
    out = []
    for looks in ("", "p", "pp", "fp", "ck", "kc", "bf", "ppp", "g", "gp", "hg"):
        for force in (False, True):
            if force and looks in ("bf", "ppp", "kc", "hg", "gp"):
                continue
            out.append((f"{looks}{'!' if force else ''}", "bulk", {"looks": looks, "force": force, "n": 1 if len(looks) > 2 else 2}))
    out.append(("lines", "lines", {"n": 1}))
    out.append(("many", "many", {"k": 12, "force": False}))
    out.append(("many!", "many", {"k": 12, "force": True}))
    if tier == "thorough":
        for looks in ("cpk", "bfp", "kkp", "pppp"):
            out.append((f"{looks} t", "bulk", {"looks": looks, "force": False, "n": 1}))
        out.append(("lines 2", "lines", {"n": 2}))
    return out


def noop(inp):
    pass


def bulk(inp, looks, force, n):
    w, h = 3, 2
    screen, model = Screen(w, h), Model(w, h)
    p = piece(inp, "pre", 1, 1, fg=(1, 2, 3))
    pos = (inp.cint("px", 0, w - 1), 0)
    screen.write([p.span], cursor=pos)
    model.write([p], pos)
    term = Terminal(inp, w, h)
    term.feed(screen.render(origin=(1, 1)))
    items, seen = [], set()
    for j, l in enumerate(looks):
        pos = (inp.cint(f"x{j}", 0, w - 1), inp.cint(f"y{j}", 0, h - 1))
        q = piece(inp, f"t{j}", 1, n, **LOOKS[l])
        items.append((pos, [q.span]))
        cells = {(c[0], c[1]) for c in model.write([q], pos)}
        inp.cover("overlap" if cells & seen else "disjoint")
        seen |= cells
    c = screen.write_bulk(items, force_overwrite=force)
    if force:
        inp.check(c == len(seen), "every written cell is counted once")
    else:
        inp.check(c <= len(seen), "a cell is counted at most once")
    before = term.printed
    term.feed(screen.render(origin=(1, 1)))
    inp.check(term.printed - before == c, "every updated cell is drawn once")
    inp.check(same_screen(inp, term, model.cells), "a bulk write shows the last layer of every cell")
    full = Terminal(inp, w, h)
    full.feed(screen.render(origin=(1, 1), redraw=True))
    inp.check(same_screen(inp, full, model.cells), "a bulk write redraws the last layer of every cell")
    inp.observe(c)
    inp.check(screen.write_bulk(items) == 0, "the same bulk again changes nothing")
    before = full.printed
    full.feed(screen.render(origin=(1, 1)))
    inp.check(full.printed == before, "and draws nothing")


def many(inp, k, force):
    """A bulk of many items, one of them anywhere."""
    w, h = 12, 2
    screen, model = Screen(w, h), Model(w, h)
    pre = piece(inp, "pre", text="." * 14, fg=(1, 2, 3))
    screen.write([pre.span], cursor=(0, 0))
    model.write([pre], (0, 0))
    term = Terminal(inp, w, h)
    term.feed(screen.render(origin=(1, 1)))
    items, seen = [], set()
    odd = inp.cint("odd", 0, k - 1)
    for j in range(k):
        pos, look = ((j * 5) % w, j % h), "pfbk"[j % 4]
        kw = {**LOOKS[look]}
        for key in ("fg", "bg"):
            if kw.get(key) == "sym" and j != odd:
                kw[key] = (j, 2 * j, 250 - j)
        if j == odd:
            pos = (inp.choice("x", (0, 1, 9, 10, 11)), inp.cint("y", 0, 1))
        q = piece(inp, f"t{j}", text=inp.char("c", TEXT) + "z" if j == odd else "abcdefghijkl"[j], **kw)
        items.append((pos, [q.span]))
        seen |= {(c[0], c[1]) for c in model.write([q], pos)}
    c = screen.write_bulk(items, force_overwrite=force)
    inp.check(c == len(seen) if force else c <= len(seen), "every written cell is counted once")
    before = term.printed
    term.feed(screen.render(origin=(1, 1)))
    inp.check(term.printed - before == c, "every updated cell is drawn once")
    inp.check(same_screen(inp, term, model.cells), "a bulk of many items shows the last layer of every cell")
    inp.check(screen.write_bulk(items) == 0, "the same bulk again changes nothing")


def lines(inp, n):
    """Items with several spans each; an earlier item is restored by a later one."""
    w, h = 3, 2
    screen, model = Screen(w, h), Model(w, h)
    first = [piece(inp, "a", 1, 2, **LOOKS["f"])]
    screen.write([q.span for q in first], cursor=(0, 0))
    model.write(first, (0, 0))
    term = Terminal(inp, w, h)
    term.feed(screen.render(origin=(1, 1)))
    pos = (inp.cint("x", 0, w - 1), inp.cint("y", 0, 0))
    cover = [piece(inp, "b", 1, n, **LOOKS["b"]), piece(inp, "c", 1, n, **LOOKS["k"])]
    model.write(cover, pos)
    model.write(first, (0, 0))
    screen.write_bulk([(pos, [q.span for q in cover]), ((0, 0), [q.span for q in first])])
    inp.cover("restored")
    term.feed(screen.render(origin=(1, 1)))
    inp.check(same_screen(inp, term, model.cells), "a bulk of lines shows the last layer of every cell")
