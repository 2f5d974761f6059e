"""C20: keys have their names, everything else is itself, and a key equals any of its names."""

from slate.core import Key, feed, getch

from engine import env as E
from engine.inputs import cs

BOUNDS = "every single character; every xterm sequence of arrows (5 modifiers), editing keys and function keys; every other escape sequence of up to 4 printable characters; pastes and sequences of 5-40 characters; keys with 1-3 names of 1-3 characters"
OUTSIDE = "longer unknown sequences with more than two arbitrary characters; Windows"
ASSUMES = ["key sequences are xterm's"]
COVERS = ("control", "printable", "named", "unknown")
BUDGET = {"quick": 100, "thorough": 600}

MODS = {"": "", ";2": "shift-", ";3": "alt-", ";4": "alt-shift-", ";5": "ctrl-", ";6": "ctrl-shift-"}
ARROWS = {"A": "up", "B": "down", "C": "right", "D": "left"}
NAMED = {"\x1b": "esc", "\x7f": "backspace", "\x1b\x7f": "alt-backspace", "\x1b[H": "home", "\x1b[F": "end", "\x1b[2~": "insert",
         "\x1b[3~": "delete", "\x1b[Z": "shift-tab", "\t": "tab", "\n": "return"}
for _m, _n in MODS.items():
    for _a, _d in ARROWS.items():
        if _m == ";6" and _a in "CD":
            continue
        NAMED[f"\x1b[1{_m}{_a}" if _m else f"\x1b[{_a}"] = _n + _d
for _i, _c in enumerate("PQRS"):
    NAMED[f"\x1bO{_c}"] = f"F{_i + 1}"
for _i, _c in enumerate((11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 23, 24)):
    NAMED[f"\x1b[{_c}~"] = f"F{_i + 1}"
ALIASES = {"\x1b": "escape", "\t": "ctrl-i", "\n": "ctrl-j", "\x08": "ctrl-h"}
for _s, _n in list(NAMED.items()):
    if _s[-1:] in ARROWS and _s.startswith("\x1b["):
        for _d in ARROWS.values():
            if _n.endswith(_d) and not _n.startswith("ctrl-" + _d):
                ALIASES[_s] = _n[:-len(_d)] + "arrow-" + _d


def tasks(tier):
    return [
        ("control", "control", {}),
        ("single", "single", {}),
        ("named", "named", {}),
        ("distinct", "distinct", {}),
        ("unknown", "unknown", {"n": 3 if tier == "quick" else 4}),
        ("text", "text", {}),
        ("long", "long", {}),
        ("raw", "raw", {}),
        ("key", "key", {}),
    ]


def noop(inp):
    pass


def press(text, raw=False):
    """What getch says when this arrives at once."""
    e = E.Env()
    with E.active(e):
        feed(text)
        return getch(raw=raw)


def control(inp):
    """Control characters are ctrl-<letter>."""
    n = inp.cint("n", 1, 26)
    k = press(chr(n))
    inp.cover("control")
    inp.check(k == "ctrl-" + chr(96 + n), "a control character is ctrl and its letter")
    for m in range(1, 27):
        if m != n:
            inp.check(not (k == "ctrl-" + chr(96 + m)), "and no other letter")
    s = str(k)
    inp.check(k == s and s in list(k), "its name is one of its names")


def single(inp):
    """Every other character is itself."""
    c = inp.char("c", ((0x20, 0x7E), (0x80, 0xD7FF), (0xE000, 0x10FFFF)))
    k = press(c)
    inp.cover("printable")
    inp.check(inp.all([str(k) == c, k == c, len(list(k)) == 1]), "a character is itself")
    d = inp.char("d", ((0x20, 0x7E),))
    inp.check(inp.iff(k == d, c == d), "and equals no other")


def named(inp):
    s = inp.choice("s", sorted(NAMED))
    k = press(s)
    inp.cover("named")
    inp.check(k == NAMED[s] and str(k) == NAMED[s], "a key has its name")
    if s in ALIASES:
        inp.check(k == ALIASES[s], "and its other name")
    inp.check(not (k == s) or s == NAMED[s], "a named key is not its sequence")
    for t, n in NAMED.items():
        if n != NAMED[s]:
            inp.check(not (k == n), "and no other key's name")


def distinct(inp):
    """The same sequence from the keyboard and fed give the same key."""
    s = inp.choice("s", sorted(NAMED))
    e = E.Env()
    e.input = [ord(c) for c in s]
    with E.active(e):
        k = getch()
    inp.check(str(k) == NAMED[s], "typed keys have their names")


def unknown(inp, n):
    """Sequences no key sends are handed through."""
    t = inp.text("t", 1, n, cs("a-z", "0-9", "[", "O", "A-F", "~", ";"))
    s = "\x1b" + t
    for known in NAMED:
        inp.assume(s != known)
    k = press(s)
    inp.cover("unknown")
    inp.check(inp.all([str(k) == s, k == s, len(list(k)) == 1]), "an unknown sequence is itself")


def text(inp):
    """Several characters at once are themselves."""
    t = inp.text("t", 2, 3, ((0x20, 0x7E), (0xA1, 0x2FF)))
    inp.assume(inp.not_(t.startswith("[<")))
    k = press(t)
    inp.check(inp.all([str(k) == t, k == t]), "pasted text is itself")


def long(inp):
    """Long input is itself, whatever it starts or ends with."""
    n = inp.choice("n", (4, 5, 6, 8, 9, 16, 17, 40))
    lead = inp.choice("lead", ("", "\x1b", "\x1b[", "\x1bO", "\x1b[1;5", "\x1b[A", "up", "\t", "\x01"))
    a, b = inp.char("a", ((0x20, 0x3B), (0x3D, 0x7E))), inp.char("b", ((0x20, 0x7E),))
    t = lead + a + "".join("qwertyuiop"[i % 10] for i in range(n - 2)) + b
    k = press(t)
    inp.check(inp.all([str(k) == t, k == t, len(list(k)) == 1]), "long input is itself")
    k = press(t, raw=True)
    inp.check(inp.all([str(k) == t, k == t]), "raw as well")


def raw(inp):
    s = inp.choice("s", sorted(NAMED) + ["\x01", "a", "\x1b[<0;1;1M"])
    k = press(s, raw=True)
    inp.check(str(k) == s and k == s and list(k) == [s], "raw input is not renamed")


def key(inp):
    n = inp.cint("n", 1, 3)
    names = tuple(inp.text(f"v{i}", 1, 2, cs("a-c")) for i in range(n))
    k = Key(names)
    o = inp.text("o", 1, 2, cs("a-c"))
    inp.check(inp.iff(k == o, inp.any([o == v for v in names])), "a key equals exactly its names")
    inp.check(inp.iff(k != o, inp.not_(inp.any([o == v for v in names]))), "and differs from all else")
    inp.check(str(k) == names[0], "its first name is its name")
    inp.check(len(list(k)) == n and inp.all([a == b for a, b in zip(k, names)]), "its names can be listed")
    inp.check(not (k == 1) and not (k == None), "a key is no number")
