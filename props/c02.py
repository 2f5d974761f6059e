"""C02: change counts are exact, writes are idempotent, draws emit only what changed."""

from slate import Screen

from props.c01 import LOOKS
from props.model import Model, TEXT, piece
from props.term import Terminal

BOUNDS = ("3x2 screens; up to 2 preparatory operations, then one write or bulk write (every start cell, every text "
          "of 1-3 characters, every RGB colour, with and without force_overwrite) whose count and draw are checked, "
          "then the same write again; 12x2 and 81x2 screens with texts up to two cells longer than the row, and bulks of 12 items")
OUTSIDE = "larger screens, longer histories, writes that scroll"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)"]
COVERS = ("a cell kept its content", "a cell changed", "forced")
BUDGET = {"quick": 75, "thorough": 1200}


def tasks(tier):
    out = []
    n = 3 if tier == "thorough" else 2
    for prep in ("", "Wp", "Wf", "Wk", "C", "Wp D", "Wc D", "Wb R", "Wg", "X", "Wh X"):
        for look in "pfckg":
            if tier == "quick" and ((look == "c" and prep in ("Wb R", "Wk", "Wh X")) or (look == "g" and prep not in ("", "Wg", "Wh X"))):
                continue
            out.append((f"{prep}|{look}", "count", {"prep": prep.split(), "look": look, "n": n, "force": False}))
    for prep in ("", "Wp", "Wp D"):
        for look in "pc":
            out.append((f"{prep}|{look}!", "count", {"prep": prep.split(), "look": look, "n": n, "force": True}))
    for a in ("pp", "pf", "bc"):
        for force in (False, True):
            out.append((f"bulk {a} {force}", "bulk", {"looks": a, "n": 2, "force": force}))
    for w in (12, 81):
        out.append((f"large {w}x2", "large", {"w": w, "h": 2}))
    out.append(("many", "many", {"k": 12}))
    return out


def noop(inp):
    pass


def setup(inp, prep, n, w=3, h=2):
    screen, model = Screen(w, h), Model(w, h)
    written = set()      # cells whose content came from a write (not from filling)
    for i, op in enumerate(prep):
        if op[0] == "W":
            pos = (inp.cint(f"x{i}", 0, model.width - 1), inp.cint(f"y{i}", 0, model.height - 1))
            p = piece(inp, f"t{i}", 1, n, **LOOKS[op[1:]])
            screen.write([p.span], cursor=pos)
            for x, y, ch, q in model.write([p], pos):
                written.add((x, y))
        elif op == "C":
            f = inp.char(f"f{i}", ((33, 126),))
            screen.clear(f)
            model.clear(f)
            written.clear()
        elif op in "DX":
            screen.render(origin=(1, 1), redraw=op == "X")
            idle = Terminal(inp, model.width, model.height)
            idle.feed(screen.render(origin=(1, 1)))
            inp.check(idle.printed == 0, "a draw without changes prints nothing")
        elif op == "R":
            w2, h2 = inp.cint(f"w{i}", 2, 3), inp.cint(f"h{i}", 1, 2)
            screen.resize((w2, h2))
            model.resize(w2, h2)
            written = {(x, y) for x, y in written if x < w2 and y < h2}
    return screen, model, written


def differs(inp, old, new, sure):
    """Condition: the cell certainly (sure) / possibly (not sure) changed its content.
    A cell filled by clear() may or may not count as already having the default colour."""
    if tuple(old[1]) != tuple(new[1]):
        return True
    conds = [inp.not_(old[0] == new[0])]
    for k, default in ((2, (255, 255, 255)), (3, None)):
        a, b = old[k], new[k]
        if a is None and b is None:
            continue
        if k == 2:
            a = a or default
            b = b or default
        if a is None or b is None:
            return True
        conds.append(inp.not_(inp.all([u == v for u, v in zip(a, b)])))
    return inp.any(conds)


def total(inp, conds):
    n = 0
    for c in conds:
        n = n + inp.ite(c, 1, 0)
    return n


def expect(inp, before, model, touched, written, styled):
    """Bounds on how many cells were updated."""
    lo = []
    hi = 0
    maybe = 0
    for x, y in sorted(touched):
        d = differs(inp, before.cells[y][x], model.cells[y][x], True)
        lo.append(d)
        if (x, y) not in written or styled:
            maybe += 1
    least = total(inp, lo)
    return least, maybe


def count(inp, prep, look, n, force):
    screen, model, written = setup(inp, prep, 1)
    pos = (inp.cint("x", 0, model.width - 1), inp.cint("y", 0, model.height - 1))
    p = piece(inp, "t", 1, n, **LOOKS[look])
    judge(inp, screen, model, written, [(pos, [p])], force, bool(p.styles))


def bulk(inp, looks, n, force):
    screen, model, written = setup(inp, ["Wp"], 1)
    items = []
    for j, l in enumerate(looks):
        pos = (inp.cint(f"x.{j}", 0, model.width - 1), inp.cint(f"y.{j}", 0, model.height - 1))
        items.append((pos, [piece(inp, f"t.{j}", 1, n if j == 0 else 1, **LOOKS[l])]))
    judge(inp, screen, model, written, items, force, any(LOOKS[l].get("styles") for l in looks))


def large(inp, w, h):
    screen, model = Screen(w, h), Model(w, h)
    pos = (inp.choice("px", (0, w // 2, w - 1)), 0)
    p = piece(inp, "pre", text=inp.char("a", TEXT) + "x" * (w // 2))
    screen.write([p.span], cursor=pos)
    written = {(x, y) for x, y, ch, q in model.write([p], pos)}
    pos = (inp.choice("x", (0, w // 2, w - 1)), 0)
    p = piece(inp, "t", text=inp.char("b", TEXT) + "x" * inp.choice("n", (w // 2, w)) + inp.char("c", TEXT))
    judge(inp, screen, model, written, [(pos, [p])], inp.cbool("force"), False)


def many(inp, k):
    screen, model, written = setup(inp, ["Wp"], 1, 12, 2)
    items = []
    odd = inp.cint("odd", 0, k - 1)
    for j in range(k):
        pos = (j, j % 2)
        text = "m"
        if j == odd:
            pos = (inp.choice("ox", (0, 5, 11)), inp.cint("oy", 0, 1))
            text = inp.char("oc", TEXT)
        items.append((pos, [piece(inp, f"t.{j}", text=text)]))
    judge(inp, screen, model, written, items, False, False)


def judge(inp, screen, model, written, items, force, styled):
    term = Terminal(inp, model.width, model.height)
    term.feed(screen.render(origin=(1, 1)))       # everything pending is out
    before = model.copy()
    touched = set()
    for pos, ps in items:
        for x, y, ch, q in model.write(ps, pos):
            touched.add((x, y))

    def go():
        if len(items) == 1:
            return screen.write([q.span for q in items[0][1]], cursor=items[0][0], force_overwrite=force)
        return screen.write_bulk([(pos, [q.span for q in ps]) for pos, ps in items], force_overwrite=force)

    n = go()
    inp.observe(n)
    least, maybe = expect(inp, before, model, touched, written, styled)
    if force:
        inp.check(n == len(touched), "force_overwrite counts every written cell")
        inp.cover("forced")
    else:
        inp.check(n >= least, "every cell whose content changed is counted")
        inp.check(n <= least + maybe, "a cell that kept its content is not counted")
        inp.check(n <= len(touched), "only written cells are counted")
        inp.cover("a cell changed" if n > 0 else "a cell kept its content")
    # the draw emits exactly the counted cells, all of them written ones
    drawn = Terminal(inp, model.width, model.height)
    drawn.feed(screen.render(origin=(1, 1)))
    inp.check(drawn.printed == n, "a draw emits exactly the cells that were counted")
    for y in range(model.height):
        for x in range(model.width):
            if drawn.grid[y][x] is not None and drawn.grid[y][x] != ("?unknown?",) and (x, y) not in touched:
                inp.fail("a draw emits only written cells")
    again = Terminal(inp, model.width, model.height)
    again.feed(screen.render(origin=(1, 1)))
    inp.check(again.printed == 0, "a second draw emits nothing")
    m = go()
    if force:
        inp.check(m == len(touched), "force_overwrite counts every written cell again")
    else:
        inp.check(m == 0, "writing the same again changes nothing")
        rest = Terminal(inp, model.width, model.height)
        rest.feed(screen.render(origin=(1, 1)))
        inp.check(rest.printed == 0, "after an identical write there is nothing to draw")
