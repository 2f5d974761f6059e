"""C28: a timed read gives the input that came in time, or the default, and leaves no timer behind."""

from slate.core import feed, getch, getch_timeout, timeout

from engine import env as E

BOUNDS = "every input of 0-3 printable characters, inputs of up to 300 characters, every duration of 1 ms to 10 minutes in ms, every default text of 0-3 characters (and none), raw or named; a failing read; given streams; interrupted blocks; nested use one after the other"
OUTSIDE = "timed reads inside timed blocks; other uses of SIGALRM; Windows; a timer firing between two reads of one input"
ASSUMES = ["the alarm fires while the read waits (the simulated clock only advances there)"]
COVERS = ("in time", "too late", "failed", "fed", "named", "block finished", "block timed out", "given")
BUDGET = {"quick": 60, "thorough": 600}

ASCII = ((0x21, 0x7E),)


def tasks(tier):
    n = 4 if tier == "thorough" else 3
    return [("in time", "in_time", {"n": n}), ("long", "long", {}), ("named", "named", {}), ("too late", "too_late", {}), ("failed", "failed", {}),
            ("fed", "fed", {}), ("twice", "twice", {}), ("block", "block", {}), ("after", "after", {}), ("given", "given", {})]


def noop(inp):
    pass


def tty_state(e):
    return (list(e.attrs[:6]), e.echo)


def duration(inp):
    return inp.int("ms", 1, 600000) / 1000


def settings(inp):
    k = {}
    if inp.cbool("raw"):
        k["raw"] = True
    if inp.cbool("has default"):
        k["default"] = inp.text("default", 0, 3, ASCII)
    return k



def in_time(inp, n):
    e = E.Env()
    before = tty_state(e)
    text = inp.text("s", 1, n, ASCII)
    e.input = [ord(c) for c in inp.elements(text)]
    with E.active(e):
        got = getch_timeout(duration(inp), **settings(inp))
    inp.cover("in time")
    inp.check(got == text, "the input that came in time is given")
    inp.check(not e.armed, "no timer is left")
    inp.check(tty_state(e) == before, "the terminal is as it was")
    inp.check(e.pos == len(e.input), "the input is taken")


def long(inp):
    """A long input that came in time is given whole."""
    e = E.Env()
    n = inp.choice("n", (5, 8, 9, 16, 17, 33, 65, 130, 257, 300))
    k = inp.choice("k", (0, n // 2, n - 1))
    c = inp.char("c", ASCII)
    text = "x" * k + c + "y" * (n - k - 1)
    e.input = [ord(x) for x in inp.elements(text)]
    with E.active(e):
        got = getch_timeout(duration(inp), default="d", raw=inp.cbool("raw"))
    inp.check(got == text, "a long input that came in time is given whole")
    inp.check(not e.armed, "no timer is left")
    inp.check(e.pos == n, "the input is taken")


def named(inp):
    e = E.Env()
    seq, name = inp.choice("key", (("\x1b[A", "up"), ("\x01", "ctrl-a"), ("\x1b[<0;3;4M", "mouse:left_click@3;4"), ("\x7f", "backspace")))
    raw = inp.cbool("raw")
    e.input = [ord(c) for c in seq]
    with E.active(e):
        got = getch_timeout(duration(inp), default="zz", raw=raw)
        e.input = e.input + [ord(c) for c in seq]
        same = getch(raw=raw)
    inp.cover("named")
    inp.check(list(got) == list(same), "a timed read names keys like any other")
    inp.check((got == seq) if raw else (got == name), "raw input is as it came, otherwise it is named")


def too_late(inp):
    e = E.Env()
    before = tty_state(e)
    k = settings(inp)
    d = duration(inp)
    with E.active(e):
        got = getch_timeout(d, **k)
    inp.cover("too late")
    inp.check(e.allowed is None or e.allowed == d, "it waited for the time given")
    if "default" in k:
        inp.check(got == k["default"], "the default if nothing came in time")
    else:
        inp.check(got is None, "nothing if nothing came in time and there is no default")
    inp.check(not e.armed, "no timer is left")
    inp.check(tty_state(e) == before, "the terminal is as it was")


def failed(inp):
    e = E.Env()
    before = tty_state(e)
    n = inp.cint("n", 1, 3)
    e.input = [0x61] * n
    kind = inp.choice("kind", ("os", "other", "interrupt"))
    exc = {"os": OSError(5, "io"), "other": RuntimeError("x"), "interrupt": KeyboardInterrupt()}[kind]
    e.read_faults = {inp.cint("at", 0, n - 1): exc}
    caught = got = None
    with E.active(e):
        try:
            got = getch_timeout(duration(inp), default="d")
        except (OSError, RuntimeError) as err:
            caught = err
    inp.cover("failed")
    if kind == "interrupt":
        inp.check(caught is None and got == "ctrl-c", "an interrupt is the key ctrl-c")
    else:
        inp.check(caught is exc, "a failure is passed on")
    inp.check(not e.armed, "no timer is left")
    inp.check(tty_state(e) == before, "the terminal is as it was")


def fed(inp):
    e = E.Env()
    t = inp.text("s", 1, 2, ASCII)
    with E.active(e):
        feed(t)
        got = getch_timeout(duration(inp), default="?")
        inp.check(got == t, "fed input counts as input")
        got = getch_timeout(duration2(inp), default="?!")
    inp.cover("fed")
    inp.check(got == "?!", "once")
    inp.check(not e.armed, "no timer is left")


def duration2(inp):
    return inp.int("ms2", 1, 9000) / 1000


def twice(inp):
    """A read that timed out takes nothing from the next one."""
    e = E.Env()
    text = inp.text("s", 1, 2, ASCII)
    with E.active(e):
        first = getch_timeout(duration(inp), default="first")
        e.input = [ord(c) for c in inp.elements(text)]
        second = getch_timeout(duration2(inp), default="second") if inp.cbool("timed") else getch()
    inp.check(first == "first", "the default if nothing came in time")
    inp.check(second == text, "the input that came in time is given")
    inp.check(not e.armed, "no timer is left")


def block(inp):
    """A timed block ends when its time is up, silently, or when it is done; its failures are passed on."""
    e = E.Env()
    how = inp.choice("how", ("done", "late", "raises"))
    d = duration(inp)
    steps = []
    with E.active(e):
        caught = None
        try:
            with timeout(d):
                steps.append("start")
                inp.check(e.armed, "the timer runs during the block")
                inp.check(e.timer == d, "for the time given")
                if how == "late":
                    getch()
                    steps.append("not reached")
                if how == "raises":
                    raise KeyError("x")
                steps.append("end")
        except KeyError as err:
            caught = err
        steps.append("after")
    inp.cover({"done": "block finished", "late": "block timed out", "raises": "block failed"}[how])
    inp.check((caught is not None) == (how == "raises"), "a failure is passed on, running out of time is silent")
    inp.check(steps == {"done": ["start", "end", "after"], "late": ["start", "after"], "raises": ["start", "after"]}[how], "the block ends where its time is up")
    inp.check(not e.armed, "no timer is left")


def given(inp):
    """The timed read of a given stream."""
    e, other = E.Env(), E.Env(stdin_tty=inp.cbool("tty"))
    stream = E.Input(other, e)
    e.input = [0x73]
    text = inp.text("s", 0, 2, ASCII)
    other.input = [ord(c) for c in inp.elements(text)]
    before = tty_state(e), tty_state(other)
    with E.active(e):
        got = getch_timeout(duration(inp), default="late", stream=stream, raw=inp.cbool("raw"))
    if not other.stdin_tty:
        inp.check(got == "", "without a terminal there is no input")
    elif len(text) == 0:
        inp.check(got == "late", "the default if nothing came in time")
    else:
        inp.check(got == text, "the given stream's input is read")
        inp.cover("given")
    inp.check(e.pos == 0, "the standard input is not touched")
    inp.check((tty_state(e), tty_state(other)) == before, "both terminals are as they were")
    inp.check(not e.armed and not other.armed, "no timer is left")


def after(inp):
    """An untimed read after a timed one waits for as long as it takes."""
    e = E.Env()
    with E.active(e):
        if inp.cbool("late"):
            getch_timeout(duration(inp), default="d")
        else:
            feed("x")
            getch_timeout(duration(inp), default="d")
        waited = False
        try:
            getch()
        except E.Blocked:
            waited = True
    inp.check(waited, "a timed read does not limit later ones")
