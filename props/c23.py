"""C23: the terminal always knows its size, and tells about every change once."""

from slate.terminal import Terminal as SlateTerminal

from engine import env as E
from props.model import Model, piece
from props.term import Terminal, same_screen

BOUNDS = "every history of up to 4 (thorough: 5) size answers of 1-3 x 1-3 cells, two of 1x1 to 300x90, eight of two sizes, with queries (size, width, height), writes and draws between them; listeners that query the size themselves"
OUTSIDE = "other sizes and longer histories; sizes changing during a query"
ASSUMES = ["a resize is noticed when the size is asked for (there is no signal handler)"]
COVERS = ("changed", "same", "drawn", "changed back")
BUDGET = {"quick": 100, "thorough": 900}


def tasks(tier):
    n = 5 if tier == "thorough" else 4
    return [(f"events {i}", "events", {"n": i}) for i in range(1, n + 1)] + [
        ("large", "events", {"n": 2, "sizes": "large"}), ("long", "events", {"n": 8, "sizes": "two", "hows": ["size"]}),
        ("query in listener", "nested", {"n": 2}),
        ("two listeners", "two", {"n": 2}),
        ("drawn", "drawn", {"n": 1}), ("drawn twice", "drawn", {"n": 2})]


def noop(inp):
    pass


LARGE = ((80, 24), (81, 24), (80, 25), (24, 80), (6, 1), (1, 6), (1, 1), (120, 40), (300, 90), (3, 2))
SIZES = ((3, 2), (2, 2), (3, 1), (2, 3))


def new_terminal(e):
    t = SlateTerminal(stream=e.out)
    e.out.take()
    return t


def ask(t, how):
    if how == "size":
        return t.size
    if how == "width":
        return (t.width, None)
    return (None, t.height)


def events(inp, n, sizes="small", hows=("size", "width", "height")):
    sizes = {"small": SIZES, "large": LARGE, "two": ((3, 2), (2, 3))}[sizes]
    e = E.Env(stdin_tty=False, size=(3, 2))
    with E.active(e):
        t = new_terminal(e)
        seen = []
        t.on_resize += lambda s: seen.append(s)
        last = (3, 2)
        expected = []
        for i in range(n):
            e.size = inp.choice(f"size{i}", sizes)
            if e.size != last:
                expected.append(e.size)
                inp.cover("changed")
                if e.size == (3, 2):
                    inp.cover("changed back")
            else:
                inp.cover("same")
            last = e.size
            got = ask(t, inp.choice(f"how{i}", hows))
            inp.check(all(a is None or a == b for a, b in zip(got, e.size)), "the size is the terminal's size now")
            inp.check([tuple(s) for s in seen] == expected, "every change is told once, with the new size")
        inp.check(tuple(t.size) == last and [tuple(s) for s in seen] == expected, "asking again tells nothing")


def nested(inp, n):
    e = E.Env(stdin_tty=False, size=(3, 2))
    with E.active(e):
        t = new_terminal(e)
        seen = []

        def listener(s):
            inp.check(len(seen) < 10, "a listener may ask for the size")
            seen.append((tuple(s), tuple(t.size), t.width, t.height))
            return inp.choice("answer", (True, False, None)) if len(seen) == 1 else None

        t.on_resize += listener
        for i in range(n):
            before = e.size
            e.size = inp.choice(f"size{i}", SIZES)
            seen.clear()
            t.size
            if e.size == before:
                inp.check(seen == [], "no change, no event")
            else:
                inp.check(seen == [(e.size, e.size, e.size[0], e.size[1])], "one event per change, the new size everywhere")


def two(inp, n):
    e = E.Env(stdin_tty=False, size=(3, 2))
    with E.active(e):
        t, other = new_terminal(e), new_terminal(e)
        a, b, c = [], [], []
        t.on_resize += a.append
        t.on_resize += b.append
        other.on_resize += c.append
        want = []
        for i in range(n):
            before = e.size
            e.size = inp.choice(f"size{i}", SIZES)
            if e.size != before:
                want.append(e.size)
            t.size
        inp.check([tuple(x) for x in a] == want and [tuple(x) for x in b] == want, "every listener is told")
        inp.check(c == [], "other terminals' listeners are not")


def drawn(inp, n):
    """What is drawn after a change is the content that still fits."""
    e = E.Env(stdin_tty=False, size=(3, 2), variables={"COLORTERM": "truecolor"})
    with E.active(e):
        t, model = new_terminal(e), Model(3, 2)
        screen = Terminal(inp, 3, 2)
        for i in range(n):
            p = piece(inp, f"t{i}", 2, 2)
            pos = (inp.cint(f"x{i}", 0, model.width - 1), inp.cint(f"y{i}", 0, model.height - 1))
            t.write([p.span], cursor=pos)
            model.write([p], pos)
            t.draw()
            screen.feed(e.out.take())
            e.size = inp.choice(f"size{i}", SIZES)
            if e.size != (model.width, model.height):
                model.resize(*e.size)
                screen.resize(*e.size)
            t.size
            t.draw()
            inp.cover("drawn")
            screen.feed(e.out.take())
            inp.check(same_screen(inp, screen, model.cells), "after a change the screen shows what still fits")
