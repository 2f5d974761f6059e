"""C30: on Windows, a read takes everything typed as one key, without waiting."""

from slate.core import feed, getch, getch_timeout, set_echo

from engine import env as E

NT = True

BOUNDS = "every pending input of 0-5 (thorough: 8) ASCII bytes, typed at once or in two goes, and of up to 300; every arrow, editing and function key F1-F12; raw or not, timed or not; console or not; a given stream"
OUTSIDE = "characters beyond ASCII (the console's code page); scan codes the library has no name for beyond one byte"
ASSUMES = ["the console is msvcrt's kbhit/getch, one byte at a time, special keys as 0x00 or 0xE0 and a scan code"]
COVERS = ("nothing", "text", "named", "special", "timed", "no console", "two goes")
BUDGET = {"quick": 75, "thorough": 600}

ARROWS = {0x4B: "left", 0x4D: "right", 0x48: "up", 0x50: "down"}
NAMED = {(0x1B,): "esc", (0x0D,): "return", (0x08,): "backspace", (0xE0, 0x85): "f11", (0xE0, 0x86): "f12"}
for _c, _n in ARROWS.items():
    NAMED[(0xE0, _c)] = _n
for _i in range(10):
    NAMED[(0x00, 0x3B + _i)] = f"f{_i + 1}"


def tasks(tier):
    n = 8 if tier == "thorough" else 5
    out = []
    for timed in (False, True):
        t = " timed" if timed else ""
        out += [("nothing" + t, "nothing", {"timed": timed}), ("text" + t, "text", {"n": n, "timed": timed}),
                ("named" + t, "named", {"timed": timed}), ("special" + t, "special", {"timed": timed})]
    out += [("two goes", "two_goes", {"n": 2}), ("no console", "no_console", {}), ("echo", "echo", {}), ("long", "long", {}), ("given", "given", {})]
    return out


def noop(inp):
    pass


def read(inp, e, raw, timed=False):
    before = (list(e.attrs[:6]), e.echo)
    with E.active(e):
        if timed:
            inp.cover("timed")
            k = getch_timeout(inp.choice("seconds", (0.05, 3)), default="nothing came", raw=raw)
        else:
            k = getch(raw=raw)
    inp.check((list(e.attrs[:6]), e.echo) == before and not e.armed, "the console is as it was")
    inp.check(not any(x[0] in ("shell", "signal", "setitimer", "write") for x in e.log), "no timers, processes or output")
    return k


def nothing(inp, timed):
    e = E.Env()
    k = read(inp, e, inp.cbool("raw"), timed)
    inp.cover("nothing")
    inp.check(k == "" and str(k) == "", "nothing was typed: the empty key, at once")


def text(inp, n, timed):
    t = inp.text("t", 1, n, ((0x01, 0x7F),))
    raw = inp.cbool("raw")
    e = E.Env()
    e.input = [ord(c) for c in inp.elements(t)]
    k = read(inp, e, raw, timed)
    inp.check(e.pos == len(e.input), "everything is taken")
    known = False
    if not raw:
        for codes, name in NAMED.items():
            if codes[0] != 0xE0 and t == "".join(chr(c) for c in codes):
                known = True
                inp.cover("named")
                inp.check(k == name, "a key by its name")
        for code, name in ARROWS.items():
            # how the library spells a special key
            if t == "\x1b" + chr(code):
                known = True
    if not known:
        inp.cover("text")
        inp.check(k == t, "text is itself")
        inp.check(str(k) == t, "text reads as itself")


def long(inp):
    """However much was typed."""
    n = inp.choice("n", (9, 16, 17, 33, 65, 130, 257, 300))
    k = inp.choice("k", (0, n // 2, n - 1))
    c = inp.char("c", ((0x20, 0x7E),))
    t = "x" * k + c + "y" * (n - k - 1)
    e = E.Env()
    e.input = [ord(x) for x in inp.elements(t)]
    key = read(inp, e, inp.cbool("raw"), inp.cbool("timed"))
    inp.check(e.pos == n, "everything is taken")
    inp.check(key == t, "text is itself")


def named(inp, timed):
    codes = inp.choice("key", sorted(NAMED))
    raw = inp.cbool("raw")
    e = E.Env()
    e.input = list(codes)
    k = read(inp, e, raw, timed)
    inp.check(e.pos == len(e.input), "the key is taken")
    if raw:
        want = "".join(chr(c) for c in codes)
        if codes[0] == 0xE0:
            want = "\x1b" + want[1:]
        inp.check(k == want, "the raw key is its bytes, with an escape for a lead")
        return
    inp.cover("special" if len(codes) > 1 else "named")
    inp.check(k == NAMED[codes], "a key by its name")
    for other in NAMED.values():
        inp.check(other == NAMED[codes] or not k == other, "and by no other's")


def special(inp, timed):
    """Every other special key of one ASCII scan code is itself."""
    lead = inp.choice("lead", (0x00, 0xE0))
    c = inp.char("c", ((0x20, 0x7E),))
    e = E.Env()
    e.input = [lead, ord(c)]
    raw = inp.cbool("raw")
    k = read(inp, e, raw, timed)
    inp.check(e.pos == 2, "the key is taken")
    s = ("\x1b" if lead else "\x00") + c
    for codes, name in NAMED.items():
        if len(codes) > 1 and codes[0] == lead and c == chr(codes[1]) and not raw:
            inp.cover("special")
            inp.check(k == name, "a special key by its name")
            return
    inp.check(k == s, "another special key is itself")


def two_goes(inp, n):
    """What is typed later is the next key."""
    a, b = inp.text("a", 1, n, ((0x20, 0x7E),)), inp.text("b", 1, n, ((0x20, 0x7E),))
    e = E.Env()
    e.input = [ord(c) for c in inp.elements(a)] + [ord(c) for c in inp.elements(b)]
    e.ready = [True] * len(a) + [False] + [True] * len(b) + [False]
    one = read(inp, e, inp.cbool("r1"))
    inp.check(one == a, "the first key is what was there")
    two = read(inp, e, inp.cbool("r2"))
    inp.cover("two goes")
    inp.check(two == b, "the second what came after")
    three = read(inp, e, False)
    inp.check(three == "", "then nothing")


def no_console(inp):
    e = E.Env(stdin_tty=False)
    t = inp.text("t", 0, 2, ((0x20, 0x7E),))
    e.input = [ord(c) for c in inp.elements(t)]
    k = read(inp, e, inp.cbool("raw"), inp.cbool("timed"))
    inp.cover("no console")
    inp.check(k == "" and e.pos == 0, "without a console nothing is read")


def given(inp):
    """A given stream that is no console is not read; one that is, is the console."""
    e = E.Env(stdin_tty=inp.cbool("console"))
    other = E.Env(stdin_tty=inp.cbool("tty"))
    stream = E.Input(other, e)
    t = inp.text("t", 1, 2, ((0x20, 0x7E),))
    e.input = [ord(c) for c in inp.elements(t)]
    raw = inp.cbool("raw")
    with E.active(e):
        k = getch_timeout(0.5, stream=stream, raw=raw) if inp.cbool("timed") else getch(stream, raw=raw)
    if other.stdin_tty:
        inp.check(k == t, "a given console is read")
    else:
        inp.check(k == "" and e.pos == 0, "what is no console is not read")


def echo(inp):
    e = E.Env(stdin_tty=inp.cbool("tty"))
    with E.active(e):
        set_echo(inp.cbool("value"))
    inp.check(not e.log and e.echo, "echo is left alone")
