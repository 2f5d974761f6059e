"""C22: the title is the one set last, and the original one once it is given back."""

from slate.terminal import Terminal

from engine import env as E
from engine.inputs import cs
from props.modes import Modes

BOUNDS = "every history of up to 5 (thorough: 7) title changes, resets and alternate-buffer visits (left normally or by an error); titles of 0-3 characters, and of up to 300; histories of 9 (thorough: 12) changes and resets"
OUTSIDE = "titles with control characters; two Terminal objects on one terminal"
ASSUMES = ["the terminal has xterm's title stack; restoring from an empty stack does nothing"]
COVERS = ("restored", "set twice", "left buffer", "empty title")
BUDGET = {"quick": 100, "thorough": 900}


def tasks(tier):
    n = 7 if tier == "thorough" else 5
    return [(f"history {i}", "history", {"n": i}) for i in range(1, n + 1)] + [("spelling", "spelling", {}), ("long title", "long_title", {}), ("long history", "long_history", {"n": 12 if tier == "thorough" else 9})]


def noop(inp):
    pass


class Stop(Exception):
    pass


def new_terminal(e):
    t = Terminal(stream=e.out)
    e.out.take()
    return t


def history(inp, n):
    e, m = E.Env(stdin_tty=False), Modes()
    with E.active(e):
        t = new_terminal(e)
        want = None
        set_before = False
        for i in range(n):
            op = inp.choice(f"op{i}", ("set", "empty", "none", "alt", "alt error"))
            if op in ("set", "empty"):
                title = "" if op == "empty" else f"T{i}"
                t.set_title(title)
                if want is not None:
                    inp.cover("set twice")
                if op == "empty":
                    inp.cover("empty title")
                want = title
            elif op == "none":
                t.set_title(None)
                inp.cover("restored")
                want = None
            else:
                try:
                    with t.alt_buffer():
                        t.set_title(f"inner{i}")
                        m.feed(e.out.take())
                        inp.check(m.title == f"inner{i}", "the title set in the alternate buffer")
                        if op == "alt error":
                            raise Stop()
                except Stop:
                    pass
                inp.cover("left buffer")
                want = None
            m.feed(e.out.take())
            inp.check(m.title == ("shell" if want is None else want), "the title is the one set last, or the original")
            inp.check(len(m.stack) == (0 if want is None else 1), "the original title is stored once, and given back once")
    inp.observe(m.title)


def spelling(inp):
    """The title is shown as given."""
    e = E.Env(stdin_tty=False)
    with E.active(e):
        t = new_terminal(e)
        s = inp.text("s", 0, 3, cs((0x20, 0x7E), (0xA1, 0x2FF)))
        t.set_title(s)
        out = e.out.take()
    inp.check(inp.any([out.endswith("\x1b]0;" + s + "\x07"), out.endswith("\x1b]2;" + s + "\x07"), out.endswith("\x1b]0;" + s + "\x1b\\")]), "the title is written as given")


def shown(inp, out, s):
    return inp.any([out.endswith("\x1b]0;" + s + "\x07"), out.endswith("\x1b]2;" + s + "\x07"), out.endswith("\x1b]0;" + s + "\x1b\\"),
                    out.endswith("\x1b]2;" + s + "\x1b\\")])


def long_title(inp):
    """However long it is."""
    e = E.Env(stdin_tty=False)
    n = inp.choice("n", (4, 8, 16, 17, 32, 33, 64, 65, 79, 80, 81, 128, 129, 255, 256, 300))
    k = inp.choice("k", (0, n // 2, n - 1))
    c = inp.char("c", cs((0x20, 0x7E), (0xA1, 0x2FF)))
    s = "x" * k + c + "y" * (n - k - 1)
    with E.active(e):
        t = new_terminal(e)
        if inp.cbool("again"):
            t.set_title("first")
            e.out.take()
        t.set_title(s)
        out = e.out.take()
    inp.check(shown(inp, out, s), "a long title is written as given")


def long_history(inp, n):
    e, m = E.Env(stdin_tty=False), Modes()
    with E.active(e):
        t = new_terminal(e)
        for i in range(n):
            if inp.cbool(f"set{i}"):
                t.set_title(f"T{i % 3}")
                want = f"T{i % 3}"
            else:
                t.set_title(None)
                want = "shell"
            m.feed(e.out.take())
            inp.check(m.title == want, "the title is the one set last, or the original")
            inp.check(len(m.stack) == (want != "shell"), "the original title is stored once, and given back once")
