"""C19: getch hands over the input exactly once, whole characters, and leaves the terminal as it was."""

from slate.core import feed, getch

from engine import env as E

BOUNDS = "1-4 characters out of every Unicode scalar value (1-4 UTF-8 bytes), every readiness schedule, reads split over up to 4 calls; a read failing (OSError, KeyboardInterrupt) at any byte, and another read after it; up to 3 feeds of 1-2 characters; given streams of another terminal, in UTF-8 or Latin-1; pastes of up to 300 and feeds of up to 1100 characters"
OUTSIDE = "input that is not valid UTF-8; end of file; concurrent readers; Windows"
ASSUMES = ["a read of one byte returns it or fails; readiness is answered arbitrarily"]
COVERS = ("1 byte", "2 bytes", "3 bytes", "4 bytes", "split", "interrupted", "failed", "fed", "given")
BUDGET = {"quick": 100, "thorough": 1200}

TOPS = ((0x00, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF))


def tasks(tier):
    out = [
        ("one", "read", {"n": 1}),
        ("two", "read", {"n": 2}),
        ("three", "read", {"n": 3, "kinds": [0, 2]}),
        ("fault one", "fault", {"n": 1}),
        ("fault two", "fault", {"n": 2}),
        ("fault then", "fault_then", {}),
        ("feed", "fed", {"n": 2}),
        ("feed three", "fed", {"n": 3}),
        ("no tty", "no_tty", {}),
        ("long", "long_input", {}),
        ("feed long", "fed_long", {}),
        ("given", "given", {}),
        ("given feed", "given_feed", {}),
    ]
    if tier == "thorough":
        out += [("three all", "read", {"n": 3}), ("four", "read", {"n": 4, "kinds": [0, 3]}), ("fault three", "fault", {"n": 3})]
    return out


def noop(inp):
    pass


def symbol(inp, name, kinds=None):
    """A character and its UTF-8 bytes."""
    k = inp.choice(name + ".len", kinds or [0, 1, 2, 3])
    inp.cover(f"{k + 1} byte" + ("s" if k else ""))
    lo, hi = TOPS[k]
    dom = ((lo, 0xD7FF), (0xE000, hi)) if k == 2 else ((lo, hi),)
    c = inp.char(name, dom)
    o = ord(c)
    if k == 0:
        return c, [o]
    if k == 1:
        return c, [0xC0 + o // 64, 0x80 + o % 64]
    if k == 2:
        return c, [0xE0 + o // 4096, 0x80 + o // 64 % 64, 0x80 + o % 64]
    return c, [0xF0 + o // 262144, 0x80 + o // 4096 % 64, 0x80 + o // 64 % 64, 0x80 + o % 64]


def tty_state(e):
    return (list(e.attrs[:6]), e.echo)


def read(inp, n, kinds=None):
    want, data = "", []
    for i in range(n):
        c, b = symbol(inp, f"c{i}", kinds)
        want = want + c
        data += b
    e = E.Env()
    e.input = data
    e.ready = [inp.cbool(f"ready{i}") for i in range(n - 1)] + [False] * n
    before = tty_state(e)
    got, calls = "", 0
    with E.active(e):
        while e.pos < len(data) and calls <= n:
            k = getch(raw=True)
            values = list(k)
            inp.check(len(values) == 1, "raw input has one form")
            inp.check(len(values[0]) > 0, "a call waits for input")
            got = got + values[0]
            calls += 1
            inp.check(tty_state(e) == before, "after a call the terminal is as it was")
    if calls > 1:
        inp.cover("split")
    inp.check(calls <= n, "each call takes at least a character")
    inp.check(inp.all([len(got) == n, got == want]), "all input arrives once, in order, in whole characters")


def fault(inp, n):
    want, data = "", []
    for i in range(n):
        c, b = symbol(inp, f"c{i}")
        data += b
    e = E.Env()
    e.input = data
    at = inp.cint("at", 0, len(data) - 1)
    kind = inp.choice("kind", ("OSError", "KeyboardInterrupt", "Other"))
    exc = {"OSError": OSError(5, "io"), "KeyboardInterrupt": KeyboardInterrupt(), "Other": RuntimeError("x")}[kind]
    e.read_faults = {at: exc}
    before = tty_state(e)
    caught = None
    with E.active(e):
        try:
            k = getch(raw=inp.cbool("raw"))
        except (OSError, RuntimeError) as err:
            caught = err
    inp.check(tty_state(e) == before, "after a failed read the terminal is as it was")
    if kind == "KeyboardInterrupt":
        inp.cover("interrupted")
        inp.check(caught is None and (k == chr(3) or k == "ctrl-c"), "an interrupt is the key ctrl-c")
    else:
        inp.cover("failed")
        inp.check(caught is exc, "a failure is passed on")


def fault_then(inp):
    """A line that breaks off, within a character or not, does not garble what is typed afterwards."""
    _, half = symbol(inp, "c0")
    d, whole = symbol(inp, "c1")
    e = E.Env()
    half = half[:inp.cint("k", 0, len(half) - 1)]
    e.input = half + [0x61]
    kind = inp.choice("kind", ("OSError", "KeyboardInterrupt"))
    e.read_faults = {len(half): OSError(5, "io") if kind == "OSError" else KeyboardInterrupt()}
    before = tty_state(e)
    with E.active(e):
        try:
            getch(raw=inp.cbool("raw"))
        except OSError:
            pass
        e.input = half + whole
        got = list(getch(raw=True))
    inp.check(inp.all([len(got) == 1, got[0] == d]), "a failed read does not garble the next")
    inp.check(tty_state(e) == before, "after a call the terminal is as it was")


def fed(inp, n):
    """What was fed comes first, in order, once."""
    e = E.Env()
    want = ""
    with E.active(e):
        for i in range(n):
            t = inp.text(f"f{i}", 1, 2, ((0x20, 0x7E), (0xA1, 0x2FF)))
            feed(t)
            want = want + t
            if inp.cbool(f"get{i}"):
                got = list(getch(raw=True))
                inp.check(inp.all([len(got) == 1, got[0] == want]), "fed text is read whole")
                inp.cover("fed")
                want = ""
        c = inp.char("c", ((0x20, 0x7E),))
        e.input = [ord(c)]
        if len(want) > 0:
            got = list(getch(raw=True))
            inp.check(inp.all([len(got) == 1, got[0] == want, e.pos == 0]), "fed text is read first")
        got = list(getch(raw=True))
        inp.check(inp.all([len(got) == 1, got[0] == c]), "then the terminal's input")


def long_input(inp):
    """A long paste is handed over whole."""
    n = inp.choice("n", (9, 16, 64, 100, 300))
    c, b = symbol(inp, "c")
    k = inp.choice("k", (0, n // 2, n))
    e = E.Env()
    e.input = [0x61] * k + b + [0x62] * (n - k)
    before = tty_state(e)
    want, got = "a" * k + c + "b" * (n - k), ""
    with E.active(e):
        for i in range(n + 1):
            if e.pos < len(e.input):
                got = got + list(getch(raw=True))[0]
                inp.check(tty_state(e) == before, "after a call the terminal is as it was")
    inp.check(inp.all([len(got) == n + 1, got == want]), "a long paste arrives once, in order")


def fed_long(inp):
    e = E.Env()
    n, m = inp.choice("n", (10, 64, 128, 1100)), inp.choice("m", (1, 10, 65))
    a, b = inp.char("a", ((0x20, 0x7E), (0xA1, 0x2FF))), inp.char("b", ((0x20, 0x7E),))
    with E.active(e):
        feed(a + "x" * n)
        first = list(getch(raw=True))
        feed("y" * m + b)
        feed(a)
        second = list(getch(raw=True))
        e.input = [0x7A]
        third = list(getch(raw=True))
    inp.check(inp.all([len(first) == 1, first[0] == a + "x" * n]), "a long feed is read whole")
    inp.check(inp.all([len(second) == 1, second[0] == "y" * m + b + a]), "and only once")
    inp.check(third == ["z"], "then the terminal's input")


def given(inp):
    """A read of a given stream is one of that stream's terminal, in its encoding."""
    e, other = E.Env(stdin_tty=inp.cbool("stdin")), E.Env()
    encoding = inp.choice("encoding", ("utf-8", "latin-1"))
    stream = E.Input(other, e, encoding)
    e.input = [0x73, 0x74]
    if encoding == "utf-8":
        c, b = symbol(inp, "c")
    else:
        c = inp.char("c", ((0x00, 0xFF),))
        b = [ord(c)]
    other.input = b + [0x7A]
    fails = inp.cbool("fails")
    if fails:
        other.read_faults = {len(b): OSError(5, "io")}
    before = tty_state(e), tty_state(other)
    got = caught = None
    with E.active(e):
        try:
            got = list(getch(stream, raw=True))
        except OSError as err:
            caught = err
    inp.check((caught is not None) == fails, "a failure is passed on")
    if not fails:
        inp.check(inp.all([len(got) == 1, got[0] == c + "z"]), "the given stream's input is read")
    inp.check((tty_state(e), tty_state(other)) == before, "both terminals are as they were")
    inp.check(e.pos == 0 and not e.log, "the standard input is not touched")
    inp.cover("given")


def given_feed(inp):
    e, other = E.Env(), E.Env(stdin_tty=inp.cbool("tty"))
    stream = E.Input(other, e)
    other.input = [0x7A]
    t = inp.text("t", 1, 2, ((0x20, 0x7E),))
    with E.active(e):
        feed(t)
        got = list(getch(stream, raw=True))
    if other.stdin_tty:
        inp.check(inp.all([len(got) == 1, got[0] == t, other.pos == 0]), "fed text is read first")
    else:
        inp.check(got == [""] and other.pos == 0, "without a terminal there is no input")
    inp.check(e.pos == 0, "the standard input is not touched")


def no_tty(inp):
    e = E.Env(stdin_tty=False)
    e.input = [65]
    with E.active(e):
        k = getch(raw=inp.cbool("raw"))
    inp.check(str(k) == "" and e.pos == 0 and not e.log, "without a terminal there is no input and nothing is touched")
