"""C29: the command line tools print what the terminal is and what was typed."""

import sys

import slate.__main__ as cli
from slate.terminal import terminal

from engine import env as E
from props.c20 import ALIASES, NAMED
from props.model import ALL_STYLES
from props.term import Line, rgb_of

BOUNDS = "every terminal size out of 1-300 x 1-90 (six widths, five heights); every single character, control character and xterm key, raw or not; environment variables unset, empty or of 1-40 characters; every pair out of four terminal colours; all colour spaces"
OUTSIDE = "the exact hues of the colour strip; help texts; other sizes"
ASSUMES = ["the terminal is a VT100-style reference emulator (props/term.py)"]
COVERS = ("size", "named key", "character", "raw", "debug", "unknown command")
BUDGET = {"quick": 75, "thorough": 600}

WIDTHS = (1, 9, 10, 80, 132, 300)
HEIGHTS = (1, 9, 10, 24, 90)
COLORS = ((0, 0, 0), (255, 255, 255), (0x12, 0xAB, 0x07), (200, 30, 130))


def tasks(tier):
    out = [("size", "size", {}), ("character", "character", {"raw": False}), ("character raw", "character", {"raw": True}),
           ("named", "named", {"raw": False}), ("named raw", "named", {"raw": True}), ("control", "control", {}), ("commands", "commands", {})]
    for k in ("TERM", "COLORTERM", "NO_COLOR"):
        out.append((f"debug {k}", "debug", {"key": k}))
    out.append(("debug space", "debug", {"key": "SLATE_COLORSYS"}))
    out.append(("debug colors", "debug", {"key": None}))
    return out


def noop(inp):
    pass


def run(e, *args):
    """Runs the tool; what it printed, and how it ended."""
    argv = sys.argv
    sys.argv = ["slate", *args]
    err = sys.stderr
    sys.stderr = E.Stream(None, tty=False)
    code = None
    try:
        with E.active(e):
            try:
                cli.main()
            except SystemExit as end:
                code = end.code
            return e.out.take(), code
    finally:
        sys.argv = argv
        sys.stderr = err


def lines_of(inp, out):
    """The printed lines, as cells."""
    got, curr = [], []
    for ch in inp.elements(out):
        if ch == "\n":
            got.append(curr)
            curr = []
        else:
            curr.append(ch)
    if curr:
        got.append(curr)
    cells = []
    for parts in got:
        text = ""
        for p in parts:
            text = text + p
        line = Line(inp)
        line.feed(text)
        for x in line.errors:
            inp.check(inp.not_(x), "the tools print valid sequences")
        cells.append(line.grid[0])
    return cells


def text_of(cells):
    t = ""
    for c in cells:
        t = t + c[0]
    return t


def strip(t):
    n = len(t)
    while n and t[n - 1] == " ":
        n -= 1
    return t[:n]


def size(inp):
    w, h = inp.choice("w", WIDTHS), inp.choice("h", HEIGHTS)
    e = E.Env(size=(w, h), stdin_tty=inp.cbool("tty"))
    out, code = run(e, "size")
    inp.cover("size")
    inp.check(code in (None, 0), "size succeeds")
    inp.check(out.strip() == f"{w} x {h}", "size prints columns x rows")


def typed(inp, text, raw):
    e = E.Env(size=(2, 1))
    e.input = [ord(c) for c in inp.elements(text)] if type(text) is str else text
    before = (list(e.attrs[:6]), e.echo)
    out, code = run(e, "getch", *(["--raw"] if raw else []))
    inp.check(code in (None, 0), "getch succeeds")
    inp.check((list(e.attrs[:6]), e.echo) == before, "the terminal is as it was")
    inp.check(e.pos == len(e.input), "the key is taken")
    rows = [r for r in lines_of(inp, out) if len(r)]
    inp.check(len(rows) == 1, "one line is printed")
    shown = text_of(rows[0])
    prompt = "Waiting for input... "
    inp.check(shown[:len(prompt)] == prompt, "after the prompt")
    return shown[len(prompt):]


def character(inp, raw):
    c = inp.char("c", ((0x21, 0x26), (0x28, 0x5B), (0x5D, 0x7E)))
    inp.cover("raw" if raw else "character")
    inp.check(typed(inp, c, raw) == "'" + c + "'", "a character is printed quoted")


def control(inp):
    n = inp.cint("n", 1, 26)
    got = typed(inp, [n], False)
    names = got.split(" | ")
    inp.check("ctrl-" + chr(96 + n) in names, "a control character is printed by its name")


def named(inp, raw):
    s = inp.choice("s", sorted(NAMED))
    got = typed(inp, s, raw)
    if raw:
        inp.cover("raw")
        inp.check(got == repr(s), "raw input is printed as a literal")
        return
    inp.cover("named key")
    names = got.split(" | ")
    inp.check(names[0] == NAMED[s], "a key is printed by its name first")
    inp.check(s not in ALIASES or ALIASES[s] in names, "and by its other names")


def commands(inp):
    args = inp.choice("args", (("nothing",), (), ("size", "--raw"), ("getch", "--cooked"), ("--nothing",)))
    e = E.Env(size=(2, 1))
    out, code = run(e, *args)
    inp.cover("unknown command")
    inp.check(code not in (None, 0), "what is no command is refused")
    inp.check(not e.log or all(x[0] == "write" for x in e.log), "and nothing is done")


VALUES = {"TERM": ("xterm-256color", "linux"), "COLORTERM": ("truecolor", "24bit"), "NO_COLOR": ("1",),
          "SLATE_COLORSYS": ("true_color", "eight_bit", "standard", "no_color")}


def answering(inp, e, fore, back, sync):
    """The terminal answers what it is asked."""
    write = e.out.write

    def f(s):
        r = write(s)
        if type(s) is str:
            for q, a in (("\x1b]10;?", "\x1b]10;rgb:%02x00/%02xff/%02x77\x1b\\" % fore),
                         ("\x1b]11;?", "\x1b]11;rgb:%02x00/%02xff/%02x77\x1b\\" % back),
                         ("\x1b[?2026$p", "\x1b[?2026;%d$y" % sync)):
                if q in s:
                    e.input = e.input + [ord(c) for c in a]
        return r

    e.out.write = f


def debug(inp, key):
    w, h = (80, 24) if key else (inp.choice("w", WIDTHS), 10)
    env = {}
    if key:
        kind = inp.choice("kind", ("unset", "empty", "known", "text"))
        if kind == "empty" and key != "SLATE_COLORSYS":
            env[key] = ""
        elif kind == "known":
            env[key] = inp.choice("value", VALUES[key])
        elif kind == "text" and key != "SLATE_COLORSYS":
            env[key] = inp.text("v", 1, 2, ((0x21, 0x7E),)) + "y" * inp.choice("pad", (0, 38))
    fore = inp.choice("fore", COLORS) if not key else COLORS[2]
    back = inp.choice("back", COLORS) if not key else COLORS[0]
    sync = inp.choice("sync", (0, 1, 2, 4)) if not key else 2
    e = E.Env(size=(w, h), variables=dict(env))
    answering(inp, e, fore, back, sync)
    saved = dict(terminal.__dict__)
    try:
        with E.active(e):
            # as at the start of the program
            terminal.__dict__.clear()
            terminal.__init__(stream=e.out)
        before = (list(e.attrs[:6]), e.echo)
        out, code = run(e, "debug")
        with E.active(e):
            space = terminal.color_space
    finally:
        terminal.__dict__.clear()
        terminal.__dict__.update(saved)
    inp.cover("debug")
    inp.check(code in (None, 0), "debug succeeds")
    inp.check((list(e.attrs[:6]), e.echo) == before and not e.armed, "the terminal is as it was")
    out = answers_removed(inp, out)
    rows = lines_of(inp, out)
    table = []
    for name in ("TERM", "COLORTERM", "NO_COLOR", "SLATE_COLORSYS"):
        v = env.get(name, "")
        table.append(("$" + name, v if len(v) else "-"))
    table += [("size", f"{w}x{h}"), ("colorspace", str(space)), ("synchronized update support", str(sync in (1, 2))),
              ("foreground color", "#%02X%02X%02X" % fore), ("background color", "#%02X%02X%02X" % back)]
    widths = set()
    for label, value in table:
        hits = []
        for r in rows:
            t = text_of(r)
            if len(t) > len(label) and t[:len(label) + 1] == label + " ":
                hits.append(r)
        inp.check(len(hits) == 1, f"debug prints {label} once")
        t = text_of(hits[0])
        widths.add(len(t))
        rest = t[len(label):]
        n = len(rest)
        k = 0
        while k < n and rest[k] == " ":
            k += 1
        inp.check(rest[k:] == value, f"debug prints the value of {label}")
        if "ground color" in label and space.value == "true_color":
            want = fore if label[0] == "f" else back
            cell = hits[0][-1]
            inp.check(cell[2] is not None and tuple(rgb_of(inp, cell[2])) == want, "a colour is shown in itself")
            inp.check(cell[3] is not None and tuple(rgb_of(inp, cell[3])) in ((245, 245, 245), (35, 35, 35)), "over its contrast")
    inp.check(len(widths) == 1, "the rows of the table are equally wide")
    strip_rows = [r for r in rows if len(r) and all(c[3] is not None for c in r) and all(c[0] == " " for c in r)]
    inp.check(len(strip_rows) == 1 and len(strip_rows[0]) in widths, "the colour strip is as wide as the table")
    styles = {}
    for r in rows:
        for c in r:
            if len(c[1]) == 1:
                styles.setdefault(c[1][0], "")
                styles[c[1][0]] += "" if inp.is_sym(c[0]) else c[0]
    for s in ("italic", "underline", "blink", "invert", "strike"):
        inp.check(styles.get(s) == s, "each style is shown in itself")


def answers_removed(inp, out):
    """The queries, which print nothing."""
    for q in ("\x1b]10;?\x1b\\", "\x1b]11;?\x1b\\", "\x1b[?2026$p"):
        out = out.replace(q, "")
    return out
