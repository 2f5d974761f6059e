"""C26: the terminal's own colours and pixel size are the ones it answers, or the documented fallback."""

from slate.core import get_default_color
from slate.terminal import Terminal as SlateTerminal

from engine import env as E

BOUNDS = "every reply of three 4-digit lowercase hex channels, in either layer; every text reply of up to 7 (thorough: 12) characters; every pixel size of 1-5 (thorough: 1-7) digits; every fallback; outputs that are no terminal or are closed; replies that never come"
OUTSIDE = "replies mixed with typed keys; replies in other notations (upper case, 8-bit channels); a colour query that is never answered (it waits); replies arriving in several pieces"
ASSUMES = ["a terminal's answer is readable without a pause once its first byte is"]
COVERS = ("answered", "garbled", "no tty", "size", "size garbled", "no answer", "sync", "no sync", "closed")
BUDGET = {"quick": 100, "thorough": 900}

HEX = ((0x30, 0x39), (0x61, 0x66))
DIGIT = ((0x30, 0x39),)
ASCII = ((0x20, 0x7E),)
DEFAULTS = {"10": (0xDE, 0xDE, 0xDE), "11": (0x14, 0x14, 0x14)}


def tasks(tier):
    deep = tier == "thorough"
    out = [("reply", "reply", {}), ("attributes", "attributes", {}), ("no tty", "no_tty", {}), ("resolution none", "no_resolution", {}),
           ("resolution no tty", "resolution_no_tty", {}), ("sync", "sync", {}), ("sync none", "sync_none", {})]
    out += [(f"garbled {n}", "garbled", {"n": n}) for n in (range(1, 13) if deep else range(1, 8))]
    out += [(f"cut {n}", "cut", {"n": n}) for n in range(2, 25)]
    out += [(f"resolution {w}x{h}", "resolution", {"w": w, "h": h}) for w, h in
            ([(a, b) for a in range(1, 8) for b in range(1, 8)] if deep else [(a, b) for a in range(1, 6) for b in range(1, 6)])]
    out += [(f"resolution garbled {n}", "resolution_garbled", {"n": n}) for n in ((1, 2, 4, 6, 8) if deep else (1, 2, 3, 4, 5))]
    return out


def noop(inp):
    pass


def feed(inp, e, text):
    e.input = e.input + [ord(c) for c in inp.elements(text)]


def hexval(c):
    o = ord(c)
    return (o - 0x30) if o <= 0x39 else (o - 0x57)


def channel(inp, name):
    """Four hex digits and the value of the first two."""
    text = inp.text(name, 4, 4, HEX)
    a, b = inp.elements(text)[:2]
    oa, ob = ord(a), ord(b)
    va = inp.ite(oa <= 0x39, oa - 0x30, oa - 0x57)
    vb = inp.ite(ob <= 0x39, ob - 0x30, ob - 0x57)
    return text, 16 * va + vb


def tty_state(e):
    return (list(e.attrs[:6]), e.echo)


def reply(inp):
    layer = inp.choice("layer", ("10", "11"))
    parts = [channel(inp, c) for c in "rgb"]
    e = E.Env()
    before = tty_state(e)
    feed(inp, e, "\x1b]" + layer + ";rgb:" + parts[0][0] + "/" + parts[1][0] + "/" + parts[2][0] + "\x1b\\")
    with E.active(e):
        got = get_default_color(layer, stream=e.out)
        sent = e.out.take()
    inp.cover("answered")
    inp.check(sent == "\x1b]" + layer + ";?\x1b\\", "the terminal is asked for the layer's colour, once")
    inp.check(inp.all([x == v for x, (t, v) in zip(got.rgb, parts)]), "the colour is the one the terminal answers")
    inp.check(got.alpha == 1.0, "opaque")
    inp.check(e.pos == len(e.input), "the whole answer is taken")
    inp.check(tty_state(e) == before, "afterwards the terminal is as it was")


def attributes(inp):
    """The terminal object asks once, and remembers."""
    e = E.Env(size=(2, 1))
    back = [channel(inp, "b" + c) for c in "rg"]
    fore = [channel(inp, "f" + c) for c in "rg"]

    def text(layer, p):
        return "\x1b]" + layer + ";rgb:" + p[0][0] + "/" + p[1][0] + "/1234\x1b\\"

    e.input = []
    queue = {"11": text("11", back), "10": text("10", fore)}
    asked = []
    write = e.out.write

    def answering(s):
        r = write(s)
        if type(s) is str:
            for layer in ("10", "11"):
                if s == "\x1b]" + layer + ";?\x1b\\":
                    asked.append(layer)
                    feed(inp, e, queue[layer])
        return r

    e.out.write = answering
    with E.active(e):
        t = SlateTerminal(stream=e.out)
        first = (t.background_color, t.foreground_color)
        again = (t.foreground_color, t.background_color)
        inp.check(sorted(asked) == ["10", "11"], "each colour is asked for once")
        inp.check(again[0] is first[1] or again[0].rgb == first[1].rgb, "and remembered")
        for c, p in ((first[0], back), (first[1], fore)):
            inp.check(inp.all([c.rgb[0] == p[0][1], c.rgb[1] == p[1][1], c.rgb[2] == 0x12]), "the terminal's colours are its answers")
        inp.check(e.echo, "echo is on again")


def garbled(inp, n):
    layer = inp.choice("layer", ("10", "11"))
    e = E.Env()
    before = tty_state(e)
    feed(inp, e, inp.text("s", n, n, ASCII))
    with E.active(e):
        got = get_default_color(layer, stream=e.out)
    inp.cover("garbled")
    inp.check(tuple(got.rgb) == DEFAULTS[layer], "the documented colour if the answer is none")
    inp.check(tty_state(e) == before, "afterwards the terminal is as it was")


def cut(inp, n):
    """An answer cut short, or with a wrong character in it, is none."""
    layer = inp.choice("layer", ("10", "11"))
    whole = "\x1b]" + layer + ";rgb:12ab/34cd/56ef\x1b\\"
    e = E.Env()
    if inp.cbool("cut"):
        text = whole[:n]
    else:
        c = inp.char("c", ((0x20, 0x2F), (0x3C, 0x5A), (0x67, 0x7E)))
        inp.assume(inp.not_(c == whole[n]))
        text = whole[:n] + c + whole[n + 1:]
    feed(inp, e, text)
    with E.active(e):
        got = get_default_color(layer, stream=e.out)
    inp.check(tuple(got.rgb) == DEFAULTS[layer], "the documented colour if the answer is none")


def no_tty(inp):
    layer = inp.choice("layer", ("10", "11"))
    e = E.Env(stdin_tty=False)
    with E.active(e):
        got = get_default_color(layer, stream=e.out)
    inp.cover("no tty")
    inp.check(tuple(got.rgb) == DEFAULTS[layer], "the documented colour if nobody can be asked")
    inp.check(e.out.take() == "", "and nothing is written")


def start(e, **k):
    tty, e.stdin_tty = e.stdin_tty, False
    t = SlateTerminal(stream=e.out, **k)
    e.stdin_tty = tty
    e.out.take()
    return t


def number(inp, text):
    v = 0
    for c in inp.elements(text):
        v = 10 * v + (ord(c) - 0x30)
    return v


def resolution(inp, w, h):
    e = E.Env(size=(2, 1))
    before = tty_state(e)
    with E.active(e):
        t = start(e)
        ws, hs = inp.text("w", w, w, DIGIT), inp.text("h", h, h, DIGIT)
        feed(inp, e, "\x1b[4;" + hs + ";" + ws + "t")
        got = t.resolution
        inp.cover("size")
        inp.check(e.out.take() == "\x1b[14t", "the terminal is asked for its size in pixels")
        inp.check(inp.all([got[0] == number(inp, ws), got[1] == number(inp, hs)]), "the size is (width, height) as the terminal answers")
        inp.check(not e.armed, "no timer is left")
        inp.check(tty_state(e) == before, "afterwards the terminal is as it was")


def resolution_garbled(inp, n):
    e = E.Env(size=(2, 1))
    fw, fh = inp.int("fw", 0, 9999), inp.int("fh", 0, 9999)
    with E.active(e):
        t = start(e, resolution_fallback=(fw, fh))
        s = inp.text("s", n, n, ASCII)
        if inp.cbool("prefix"):
            s = "\x1b[4;" + s
        feed(inp, e, s)
        got = t.resolution
        inp.cover("size garbled")
        # "\x1b[4;d;dt" takes at least four characters after the prefix
        inp.check(inp.any([inp.all([got[0] == fw, got[1] == fh]), n >= 4]), "the fallback if the answer is none")
        inp.check(not e.armed, "no timer is left")


def no_resolution(inp):
    e = E.Env(size=(2, 1))
    before = tty_state(e)
    fw, fh = inp.int("fw", 0, 9999), inp.int("fh", 0, 9999)
    with E.active(e):
        t = start(e, resolution_fallback=(fw, fh))
        got = t.resolution
        inp.cover("no answer")
        inp.check(inp.all([got[0] == fw, got[1] == fh]), "the fallback if there is no answer")
        inp.check(not e.armed, "no timer is left")
        inp.check(tty_state(e) == before, "afterwards the terminal is as it was")


def resolution_no_tty(inp):
    e = E.Env(size=(2, 1))
    e.out.tty = False
    e.stdin_tty = inp.cbool("stdin")
    fw, fh = inp.int("fw", 0, 9999), inp.int("fh", 0, 9999)
    with E.active(e):
        t = start(e, resolution_fallback=(fw, fh))
        got = t.resolution
        inp.check(inp.all([got[0] == fw, got[1] == fh]), "the fallback if nobody can be asked")
        inp.check(e.out.take() == "", "and nothing is written")
        inp.check(t.isatty == False, "no terminal is there")
        if inp.cbool("closed"):
            inp.cover("closed")
            e.out.gone = True
            got = t.resolution
            inp.check(inp.all([got[0] == fw, got[1] == fh]), "the fallback if the output is closed")
            inp.check(t.isatty == False, "a closed output is no terminal")


def sync(inp):
    """The mode report's digit: 1 and 2 mean supported; 0, 3 and 4 do not."""
    e = E.Env(size=(2, 1))
    with E.active(e):
        t = start(e)
        d = inp.char("d", DIGIT)
        feed(inp, e, "\x1b[?2026;" + d + "$y")
        got = t.supports_synchronized_update
        inp.check(e.out.take() == "\x1b[?2026$p", "the terminal is asked")
        yes = inp.any([d == "1", d == "2"])
        inp.cover("sync" if got else "no sync")
        inp.check(inp.iff(got, yes), "synchronized updates are supported exactly if the terminal says so")
        inp.check(t.supports_synchronized_update == got and e.out.take() == "", "asked once, and remembered")


def sync_none(inp):
    e = E.Env(size=(2, 1))
    with E.active(e):
        t = start(e)
        n = inp.cint("n", 0, 3)
        feed(inp, e, inp.text("s", n, n, ASCII))
        inp.check(not t.supports_synchronized_update, "without an answer they are not supported")
        inp.check(not e.armed, "no timer is left")
