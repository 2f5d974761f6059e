"""C18: mouse reports are decoded to the event, modifiers and cell they encode."""

from slate.core import getch, parse_mouse_event

from engine import env as E
from engine.inputs import cs

BOUNDS = "every SGR report with button codes 0-300, columns and rows 0-99999, press and release; every single-character corruption of a report; reads holding up to twelve reports"
OUTSIDE = "numbers with leading zeros; buttons slate has no name for (they are no event)"
ASSUMES = ["SGR (1006) encoding: +4 shift, +8 option, +16 ctrl, +32 motion, 64-67 wheel"]
COVERS = ("click", "release", "drag", "hover", "wheel", "unnamed", "modified")
BUDGET = {"quick": 100, "thorough": 600}


def tasks(tier):
    return [
        ("decode", "decode", {}),
        ("corrupt", "corrupt", {}),
        ("truncated", "truncated", {}),
        ("other", "other", {}),
        ("getch one", "through_getch", {"n": 1}),
        ("getch two", "through_getch", {"n": 2}),
        ("burst", "burst", {}),
    ] + ([("getch three", "through_getch", {"n": 3})] if tier == "thorough" else [])


def noop(inp):
    pass


def expected(b, press):
    """The name of an SGR button code, or None (written from the protocol)."""
    if not 0 <= b < 96:
        return None
    mod = ("shift_" if b & 4 else "") + ("ctrl_" if b & 16 else "") + ("option_" if b & 8 else "")
    base = b & ~28
    if base in (0, 2):
        return mod + ("left_" if base == 0 else "right_") + ("click" if press else "release")
    if base in (32, 34):
        return mod + ("left_" if base == 32 else "right_") + "drag"
    if base == 35:
        return mod + "hover"
    if base in (64, 65, 66, 67):
        return mod + "scroll_" + ("up", "down", "left", "right")[base - 64]
    return None


def decode(inp):
    b = inp.int("b", 0, 300)
    x, y = inp.int("x", 0, 99999), inp.int("y", 0, 99999)
    press = inp.cbool("press")
    got = parse_mouse_event(f"\x1b[<{b};{x};{y}{'M' if press else 'm'}")
    conds = []
    if got is None:
        inp.cover("unnamed")
        for k in range(96):
            if expected(k, press) is not None:
                conds.append(b != k)
        inp.check(inp.all(conds), "every named button is decoded")
        return
    k = b if type(b) is int else inp_value(inp, b)
    want = expected(k, press)
    inp.check(want is not None, "only named buttons are events")
    inp.cover(want.split("_")[-1] if "scroll" not in want else "wheel")
    if k & 28:
        inp.cover("modified")
    inp.check(got == f"mouse:{want}@{x};{y}", "the event, modifiers and cell of the report")


def inp_value(inp, b):
    """The one value b has on this path (forks if several are left)."""
    return int(b.realize()) if hasattr(b, "realize") else int(b)


VALID = "\x1b[<0;12;3M"


def corrupt(inp):
    """One character replaced by one that cannot stand there."""
    i = inp.cint("i", 0, len(VALID) - 1)
    c = inp.char("c", ((0x20, 0x7E), (0x1B, 0x1B)))
    inp.assume(c != VALID[i])
    if VALID[i].isdigit():
        inp.assume(inp.not_(inp.all([c >= "0", c <= "9"])))
        if VALID[i - 1].isdigit() or VALID[i + 1].isdigit():
            inp.assume(c != ";")
    if VALID[i] == "M":
        inp.assume(c != "m")
    if VALID[i] == ";":
        pass
    code = VALID[:i] + c + VALID[i + 1:]
    got = parse_mouse_event(code)
    inp.check(got is None, "a corrupted report is no event")


def truncated(inp):
    k = inp.cint("k", 0, len(VALID) - 1)
    inp.check(parse_mouse_event(VALID[:k]) is None, "half a report is no event")
    inp.check(parse_mouse_event(VALID[k + 1:]) is None, "the tail of a report is no event")
    t = inp.char("t", cs("0-9", "M", "m", ";", "a-f"))
    inp.check(parse_mouse_event(VALID + t) is None, "a report with a tail is no event")


def other(inp):
    """Ordinary key sequences are no mouse events."""
    t = inp.text("t", 0, 3, ((0x20, 0x7E),))
    inp.assume(inp.not_(t.startswith("[<")))
    inp.check(parse_mouse_event("\x1b" + t) is None, "a key is no event")


def burst(inp):
    """Many reports at once: the last one counts."""
    n = inp.choice("n", (3, 4, 5, 8, 12))
    text = ""
    for i in range(n):
        b, x, press = (0, 32, 35, 0)[i % 4], i + 1, i % 3 != 2
        if i == n - 1:
            b, x, press = inp.choice("b", (0, 2, 32, 35, 64, 66, 20)), inp.choice("x", (1, 10, 200)), inp.cbool("press")
        text += f"\x1b[<{b};{x};5{'M' if press else 'm'}"
    e = E.Env()
    e.input = [ord(c) for c in text]
    with E.active(e):
        got = getch()
    inp.check(got == f"mouse:{expected(b, press)}@{x};5", "getch names the last of many mouse events")
    inp.check(e.pos == len(e.input), "all reports are taken")


def through_getch(inp, n):
    """getch gives the last of the reports it read at once."""
    codes = (0, 2, 32, 35, 65, 20, 28)
    text = ""
    for i in range(n):
        b, x, press = inp.choice(f"b{i}", codes), inp.choice(f"x{i}", (1, 7, 23)), inp.cbool(f"press{i}")
        y = 5
        text += f"\x1b[<{b};{x};{y}{'M' if press else 'm'}"
    e = E.Env()
    e.input = [ord(c) for c in text]
    with E.active(e):
        got = getch()
    inp.check(got == f"mouse:{expected(b, press)}@{x};{y}", "getch names the mouse event")
    inp.check(str(got).startswith("mouse:"), "and nothing else")
