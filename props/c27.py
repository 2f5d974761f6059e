"""C27: the terminal object: nothing shows before a draw, a draw shows everything at once."""

from slate import Color, Span
from slate.terminal import Terminal as SlateTerminal

from engine import env as E
from props.model import INK, Model, piece, rgb
from props.term import Line, Terminal, rgb_of, same_cell, same_screen

BOUNDS = ("a terminal of 3x2 cells at every origin 1..400; histories of up to 4 operations out of write (spans or a styled string, "
          "at every cell or at the cursor), write_bulk, clear, cursor moves, draw and redraw; every text of 1-2 characters and every RGB colour; "
          "every stream operation failing; two terminal objects; one or two texts, as long as a row or up to two cells longer, anywhere on terminals of 12x3 and 90x3; "
          " the terminal's background out of every RGB colour")
OUTSIDE = "longer histories, other terminals, writes that scroll, hyperlinks"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)", "a draw that failed may be repeated by a full redraw"]
COVERS = ("string", "spans", "bulk", "drawn", "redrawn", "cleared", "cursor", "failed", "mixed bulk")
BUDGET = {"quick": 120, "thorough": 1200}
PATH_S = 60.0

SCRIPTS = ("S D", "T D", "T D S D", "S T D X", "B D", "T D B D X", "T C D", "T D C D", "P N D", "T N D", "S N D X", "M D", "T X N X", "O D", "T D D", "S X D", "D D T D")
DEEP = ("T N D S D", "B N D X", "S D T D B D", "C S D N D", "M N D", "T D P N D X", "S C T D X", "M D M D", "O T D X", "T O D")


def tasks(tier):
    out = [(s, "history", {"script": s.split()}) for s in SCRIPTS + (DEEP if tier == "thorough" else ())]
    out += [("failing draw", "failing", {"script": ["T"]}), ("failing second draw", "failing", {"script": ["T", "D", "S"]}),
            ("translucent", "translucent", {}), ("translucent bulk", "translucent", {"bulk": True}),
            ("wide 12", "wide", {"w": 12}), ("wide 90", "wide", {"w": 90}),
            ("control", "control", {}), ("two terminals", "two", {}), ("count", "count", {})]
    return out


def noop(inp):
    pass


def new_terminal(e, **k):
    t = SlateTerminal(stream=e.out, **k)
    e.out.take()
    return t


class Plain:
    """A model piece without a span: what a styled string should show."""

    def __init__(self, chars, styles, fg, bg):
        self.chars, self.styles, self.fg, self.bg = chars, styles, fg, bg


def string(inp, name):
    """A styled string and the pieces it shows."""
    a, b = inp.char(name + ".a", INK), inp.char(name + ".b", INK)
    r, g, c = rgb(inp, name)
    lead = inp.choice(name + ".l", ("38", "48"))
    text = a + f"\x1b[1;{lead};2;{r};{g};{c}m" + b + "\x1b[0m"
    fg, bg = ((r, g, c), None) if lead == "38" else (None, (r, g, c))
    inp.cover("string")
    return text, [Plain([a], (), None, None), Plain([b], ("bold",), fg, bg)]


def position(inp, name, m, fit=False):
    if fit:      # a string's second span must not start below the last row (that scrolls)
        k = inp.cint(name + ".at", 0, m.width * m.height - 2)
        return (k % m.width, k // m.width)
    return (inp.cint(name + ".x", 0, m.width - 1), inp.cint(name + ".y", 0, m.height - 1))


def apply(inp, t, m, op, i):
    n = f"{op}{i}"
    if op == "T":
        p = piece(inp, n, 1, 2, fg="sym")
        pos = position(inp, n, m)
        t.write([p.span], cursor=pos)
        m.write([p], pos)
        inp.cover("spans")
    elif op == "S":
        text, ps = string(inp, n)
        pos = position(inp, n, m, fit=True)
        t.write(text, cursor=pos)
        m.write(ps, pos)
    elif op == "N":
        p = piece(inp, n, 1, 1, styles=("underline",))
        if m.cursor[1] < m.height:
            inp.check(tuple(t.cursor) == tuple(m.cursor), "the cursor is where the last write ended")
            t.write(iter([p.span]))
            m.write([p])
    elif op == "P":
        pos = position(inp, n, m)
        t.cursor = pos
        m.cursor = pos
        inp.cover("cursor")
    elif op in "BM":
        p = piece(inp, n, 1, 2, bg="sym")
        pos, pos2 = (inp.cint(n + ".x", 0, 2), 0), (inp.cint(n + ".x2", 0, 2), 0)
        if op == "M":
            text, ps = string(inp, n + "s")
            inp.cover("mixed bulk")
        else:
            q = piece(inp, n + "q", 1, 1)
            text, ps = [q.span], [q]
        t.write_bulk([(pos, [p.span]), (pos2, text)])
        m.write([p], pos)
        m.write(ps, pos2)
        inp.cover("bulk")
    elif op == "C":
        f = inp.char(n + ".f", INK) if inp.cbool(n + ".fill") else None
        if f is None:
            t.clear()
            m.clear()
        else:
            t.clear(f)
            m.clear(f)
        inp.cover("cleared")
    elif op == "O":
        p = piece(inp, n, 1, 2, fg="sym")
        pos = position(inp, n, m)
        t.write((s for s in [p.span]), pos, True)
        m.write([p], pos)


def history(inp, script):
    e = E.Env(stdin_tty=False, size=(3, 2), variables={"COLORTERM": "truecolor"})
    origin = (inp.int("ox", 1, 400), inp.int("oy", 1, 400))
    with E.active(e):
        t, m = new_terminal(e, origin=origin), Model(3, 2)
        screen = Terminal(inp, 3, 2, origin=origin)
        e.log.clear()
        for i, op in enumerate(script):
            if op in "DX":
                t.draw(redraw=True) if op == "X" else t.draw()
                inp.cover("redrawn" if op == "X" else "drawn")
                inp.check(not e.out.unflushed, "a draw is on its way when it returns")
                out = e.out.take()
                before = screen.printed
                screen.feed(out)
                if op == "D" and i and script[i - 1] in "DX":
                    inp.check(screen.printed == before, "a draw without changes prints nothing")
                inp.check(same_screen(inp, screen, m.cells), "a draw shows everything written so far")
                if op == "X":
                    other = Terminal(inp, 3, 2, origin=origin)
                    other.feed(out)
                    inp.check(same_screen(inp, other, m.cells), "a complete redraw shows everything on any terminal")
            else:
                apply(inp, t, m, op, i)
                inp.check(e.out.parts == [] and e.log == [], "nothing happens to the terminal before a draw")
            inp.check(all(x[0] == "write" for x in e.log) and e.opened == [], "no processes, no files")
            e.log.clear()


def wide(inp, w):
    """Long texts on a terminal of usual width, given as strings or spans, one after the other or in bulk."""
    e = E.Env(stdin_tty=False, size=(w, 3), variables={"COLORTERM": "truecolor"})
    with E.active(e):
        t, m = new_terminal(e), Model(w, 3)
        screen = Terminal(inp, w, 3)
        a, b = inp.char("a", INK), inp.char("b", INK)
        n = inp.choice("n", (w - 1, w, w + 2))
        x = inp.choice("x", (0, 1, w - 1))
        lead = [a] + ["x"] * (n - 2) + [b]
        tail = ["y"] * inp.choice("k", (1, 9))
        red = inp.int("r", 0, 255)
        first, second = "".join(lead), "".join(tail)
        ps = [Plain(lead, (), None, None), Plain(tail, ("bold",), (red, 7, 9), None)]
        kind = inp.choice("kind", ("string", "spans", "bulk", "continued"))
        if kind == "string":
            t.write(first + f"\x1b[1;38;2;{red};7;9m" + second + "\x1b[0m", cursor=(x, 0))
        else:
            spans = [Span(first), Span(second, bold=True, foreground=Color((red, 7, 9)))]
            if kind == "spans":
                t.write(spans, cursor=(x, 0))
            elif kind == "bulk":
                t.write_bulk([((x, 0), spans)])
            else:
                t.write([spans[0]], cursor=(x, 0))
                t.write([spans[1]])
        m.write(ps, (x, 0))
        inp.check(e.log == [], "nothing happens to the terminal before a draw")
        t.draw()
        screen.feed(e.out.take())
        inp.check(same_screen(inp, screen, m.cells), "a draw shows everything written so far")
        if kind != "bulk":
            inp.check(tuple(t.cursor) == tuple(m.cursor), "the cursor is where the last write ended")


def failing(inp, script):
    """A draw that fails says so; a full redraw afterwards shows everything."""
    e = E.Env(stdin_tty=False, size=(3, 2), variables={"COLORTERM": "truecolor"})
    with E.active(e):
        t, m = new_terminal(e), Model(3, 2)
        for i, op in enumerate(script):
            t.draw() if op == "D" else apply(inp, t, m, op, i)
        e.ops = 0
        e.fail_at = inp.cint("at", 0, 1)
        failed = False
        try:
            t.draw()
        except E.Fault:
            failed = True
        inp.check(failed == (e.ops > e.fail_at), "a failed draw is reported")
        inp.cover("failed" if failed else "not failed")
        e.fail_at = None
        e.out.take()
        screen = Terminal(inp, 3, 2)
        t.draw(redraw=True)
        screen.feed(e.out.take())
        inp.check(same_screen(inp, screen, m.cells), "a full redraw shows everything")


def translucent(inp, bulk=False):
    """A translucent background is blended with the terminal's own background."""
    e = E.Env(size=(3, 2), variables={"COLORTERM": "truecolor"})
    answer = inp.choice("answer", ("0000/0000/0000", "ffff/ffff/ffff", "8040/20c0/ff10"))
    back = [int(x[:2], 16) for x in answer.split("/")]
    write = e.out.write

    def answering(s):
        r = write(s)
        if type(s) is str and s in ("\x1b]10;?\x1b\\", "\x1b]11;?\x1b\\"):
            e.input = e.input + [ord(c) for c in "\x1b]" + s[2:4] + ";rgb:" + (answer if s[2:4] == "11" else "1234/1234/1234") + "\x1b\\"]
        return r

    e.out.write = answering
    with E.active(e):
        t = new_terminal(e)
        c = rgb(inp, "c")
        ch = inp.char("t", INK)
        span = Span(ch, background=Color(c, is_background=True, alpha=0.5))
        pos = (inp.cint("x", 0, 2), inp.cint("y", 0, 1))
        if bulk:
            t.write_bulk([(pos, [span])])
        else:
            t.write([span], cursor=pos)
        t.draw()
        screen = Terminal(inp, 3, 2)
        screen.feed(e.out.take())
        cell = screen.grid[pos[1]][pos[0]]
        inp.check(inp.all([inp.not_(x) for x in screen.errors] + [cell[0] == ch]), "the text is shown")
        inp.check(cell[3] is not None, "on a background")
        for g, b, k in zip(rgb_of(inp, cell[3]), back, c):
            inp.check(inp.all([g * 10 >= inp.min(b * 5 + k * 5, b * 4 + k * 6) - 10, g * 10 <= inp.max(b * 5 + k * 5, b * 4 + k * 6) + 10]),
                      "a translucent background is blended over the terminal's background")


def two(inp):
    """Two terminal objects: each draws its own content to its own stream."""
    e = E.Env(stdin_tty=False, size=(3, 2), variables={"COLORTERM": "truecolor"})
    with E.active(e):
        other = E.Stream()
        t, m = new_terminal(e), Model(3, 2)
        u, mu = SlateTerminal(stream=other, origin=(5, 9)), Model(3, 2)
        other.take()
        if inp.cbool("drawn before"):
            t.draw()
            u.draw()
        p, q = piece(inp, "p", 1, 2), piece(inp, "q", 1, 1, bg="sym")
        pos, pos2 = position(inp, "pp", m), position(inp, "qp", mu)
        t.write([p.span], cursor=pos)
        m.write([p], pos)
        u.write([q.span], cursor=pos2)
        mu.write([q], pos2)
        inp.check(tuple(t.cursor) == tuple(m.cursor) and tuple(u.cursor) == tuple(mu.cursor), "each has its own cursor")
        e.out.take()
        other.take()
        for x in (t, u) if inp.cbool("order") else (u, t):
            x.draw(redraw=True)
        for x, model, out, origin in ((t, m, e.out, (1, 1)), (u, mu, other, (5, 9))):
            screen = Terminal(inp, 3, 2, origin=origin)
            screen.feed(out.take())
            inp.check(same_screen(inp, screen, model.cells), "of two terminals each shows its own content")


def control(inp):
    """Control sequences go straight to the terminal, and touch nothing else."""
    e = E.Env(stdin_tty=False, size=(3, 2), variables={"COLORTERM": "truecolor"})
    with E.active(e):
        t, m = new_terminal(e), Model(3, 2)
        apply(inp, t, m, "T", 0)
        s = inp.text("s", 1, 3, ((0x20, 0x7E),))
        flush = inp.cbool("flush")
        t.write_control(s, flush=flush) if inp.cbool("given") else t.write_control(s)
        inp.check(e.out.take() == s, "a control sequence is written as it is")
        t.bell()
        inp.check(e.out.take() == "\a" and not e.out.unflushed, "the bell rings at once")
        t.draw()
        screen = Terminal(inp, 3, 2)
        screen.feed(e.out.take())
        inp.check(same_screen(inp, screen, m.cells), "a control sequence changes nothing on the screen")


def count(inp):
    """Writes report how many cells they changed, the string forms like the span forms."""
    e = E.Env(stdin_tty=False, size=(3, 2), variables={"COLORTERM": "truecolor"})
    with E.active(e):
        t, u = new_terminal(e), new_terminal(e)
        text, ps = string(inp, "s")
        pos = (inp.cint("x", 0, 2), 0)
        force = inp.cbool("force")
        if inp.cbool("bulk"):
            n = t.write_bulk([(pos, text)], force_overwrite=force)
            k = u.write_bulk([(pos, list(Span.yield_from(text)))], force_overwrite=force)
        else:
            n = t.write(text, cursor=pos, force_overwrite=force)
            k = u.write(list(Span.yield_from(text)), cursor=pos, force_overwrite=force)
        fit = 2
        inp.check(inp.all([n == k, n <= fit]), "a string counts like its spans")
        spans = inp.cbool("spans again")
        what = list(Span.yield_from(text)) if spans else text
        if inp.cbool("bulk again"):
            again = t.write_bulk([(pos, what)], force_overwrite=True) if force else t.write_bulk([(pos, what)])
        else:
            again = t.write(what, cursor=pos, force_overwrite=True) if force else t.write(what, cursor=pos)
        inp.check(again == (fit if force else 0), "writing the same again changes nothing unless forced")
