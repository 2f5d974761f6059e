"""C13: a colour means the same RGB value whichever way it is described."""

from slate import Color, Span, color

from engine.inputs import cs
from props.model import rgb
from props.palette import CSS, XTERM

BOUNDS = "every RGB triplet, every 6- and 8-digit hex string in either case, every 8-bit index and 16-colour code on both layers, every named colour, alpha values in 1/100ths, channels from -300 to 600"
OUTSIDE = "malformed descriptions other than out-of-range numbers, unknown names and wrong hex digits"
ASSUMES = ["named colours are the CSS ones (plus slate's own four); 16-255 is the xterm palette, 0-15 the VGA one"]
COVERS = ("lower case", "upper case", "alpha", "background", "out of range")
BUDGET = {"quick": 100, "thorough": 600}

HEX = cs("0-9", "a-f", "A-F")
ALPHAS = ("0.0", "0.5", "0.25", "1.0", "0.75", ".5")


def tasks(tier):
    return [
        ("hex", "hexes", {}),
        ("hex out", "hex_out", {}),
        ("hex alpha", "hex_alpha", {}),
        ("bad hex", "bad_hex", {}),
        ("tuple", "tuples", {}),
        ("out of range", "ranges", {}),
        ("ansi rgb", "ansi_rgb", {}),
        ("ansi range", "ansi_range", {}),
        ("no ansi", "no_ansi", {}),
        ("ansi 8bit", "ansi_8bit", {}),
        ("ansi 16", "ansi_16", {}),
        ("index", "bare_index", {}),
        ("names", "names", {}),
        ("unknown", "unknown", {}),
        ("layers", "layers", {}),
        ("equality", "equality", {}),
    ]


def noop(inp):
    pass


def digit(inp, c):
    """The value of a hex digit."""
    o = ord(c)
    return inp.ite(o <= 57, o - 48, inp.ite(o <= 70, o - 55, o - 87))


def same_rgb(inp, c, want):
    return inp.all([len(c.rgb) == 3] + [x == y for x, y in zip(c.rgb, want)])


def raises(f, *a):
    try:
        f(*a)
    except ValueError:
        return True
    return False


def hexes(inp):
    d = [inp.char(f"d{i}", HEX) for i in range(6)]
    want = [16 * digit(inp, d[2 * i]) + digit(inp, d[2 * i + 1]) for i in range(3)]
    s = "#" + d[0] + d[1] + d[2] + d[3] + d[4] + d[5]
    inp.cover("lower case")
    inp.cover("upper case")
    c = color(s)
    inp.check(inp.all([same_rgb(inp, c, want), c.alpha == 1.0, not c.is_background]), "color('#RRGGBB') is that colour")
    c = Color.from_hex(s)
    inp.check(inp.all([same_rgb(inp, c, want), c.alpha == 1.0, not c.is_background]), "from_hex is that colour")
    inp.observe(list(c.rgb))


def hex_out(inp):
    v = rgb(inp, "c")
    c = Color(v)
    inp.check(c.hex.startswith("#") and len(c.hex) == 7, "a hex string")
    d = inp.elements(c.hex)[1:]
    got = [16 * digit(inp, d[2 * i]) + digit(inp, d[2 * i + 1]) for i in range(3)]
    inp.check(inp.all([a == b for a, b in zip(got, v)]), "hex names the colour's channels")
    back = color(c.hex)
    inp.check(inp.all([same_rgb(inp, back, v), back == c]), "the hex string describes the same colour")


def hex_alpha(inp):
    v = rgb(inp, "c")
    a = inp.int("a", 0, 255)
    c = color(f"#{v[0]:02x}{v[1]:02x}{v[2]:02x}{a:02x}")
    inp.cover("alpha")
    inp.check(inp.all([same_rgb(inp, c, v), c.alpha >= a / 255 - 0.001, c.alpha <= a / 255 + 0.001]), "color('#RRGGBBAA') is that colour with that alpha")


def bad_hex(inp):
    """One character that is no hex digit: refused."""
    k = inp.cint("k", 0, 5)
    bad = inp.char("bad", cs("g-z", "G-Z", "!", "@", "[", "`", "/", ":"))
    s = "#"
    for i in range(6):
        s = s + (bad if i == k else "5")
    inp.check(raises(color, s), "a string with other characters is refused")


def tuples(inp):
    v = rgb(inp, "c")
    c = color(v)
    inp.check(inp.all([same_rgb(inp, c, v), c.alpha == 1.0, not c.is_background]), "color((r, g, b)) is that colour")
    a = inp.frac("a", 0, 100, 100)
    c = color((v[0], v[1], v[2], a))
    inp.check(inp.all([same_rgb(inp, c, v), c.alpha == a, not c.is_background]), "color((r, g, b, a)) is that colour with that alpha")
    back = inp.cbool("back")
    c = Color(v, is_background=back, alpha=a)
    b = inp.frac("b", 0, 100, 100)
    d = c.as_alpha(b)
    inp.check(inp.all([same_rgb(inp, d, v), d.alpha == b, d.is_background == back]), "as_alpha changes the alpha alone")
    inp.check(inp.all([same_rgb(inp, c, v), c.alpha == a, c.is_background == back]), "as_alpha gives a copy")


def ranges(inp):
    k = inp.cint("k", 0, 2)
    n = inp.int("n", -300, 600)
    v = [7, 8, 9]
    v[k] = n
    v = tuple(v)
    ok = inp.all([n >= 0, n <= 255])
    inp.cover("out of range")
    inp.check(inp.iff(raises(Color, v), inp.not_(ok)), "exactly the channels 0-255 are accepted")
    inp.check(inp.iff(raises(color, v), inp.not_(ok)), "exactly the channels 0-255 are accepted by color()")


def ansi_rgb(inp):
    lead = inp.choice("l", (38, 48))
    v = rgb(inp, "c")
    s = f"{lead};2;{v[0]};{v[1]};{v[2]}"
    a = None
    if inp.cbool("has alpha"):
        a = inp.choice("a", ALPHAS)
        s = s + ";" + a
    c = color(s) if inp.cbool("color") else Color.from_ansi(s)
    inp.cover("background")
    inp.check(inp.all([same_rgb(inp, c, v), c.is_background == (lead == 48), c.alpha == (1.0 if a is None else float(a))]),
              "an RGB sequence is that colour, on that layer")
    if a is None:
        inp.check(c.ansi == s, "and prints as that sequence")
    d = Color.from_ansi(c.ansi)
    inp.check(inp.all([same_rgb(inp, d, v), d.is_background == c.is_background]), "the printed sequence is the same colour")


def ansi_range(inp):
    k = inp.cint("k", 0, 2)
    n = inp.int("n", 0, 600)
    v = [7, 8, 9]
    v[k] = n
    s = f"38;2;{v[0]};{v[1]};{v[2]}"
    inp.check(inp.iff(raises(color, s), n > 255), "exactly the channels 0-255 are accepted in a sequence")
    i = inp.int("i", 0, 600)
    inp.check(inp.iff(raises(color, f"48;5;{i}"), i > 255), "exactly the indices 0-255 are accepted")


def lookup(inp, table, i):
    out = []
    for k in range(3):
        e = table[-1][k]
        for j in range(len(table) - 2, -1, -1):
            e = inp.ite(i == j, table[j][k], e)
        out.append(e)
    return out


def ansi_8bit(inp):
    lead = inp.choice("l", (38, 48))
    i = inp.cint("i", 0, 255)
    s = f"{lead};5;{i}"
    if inp.cbool("has alpha"):
        c = color(s + ";0.5")
        inp.check(c.alpha == 0.5, "with that alpha")
    else:
        c = color(s)
        inp.check(c.alpha == 1.0, "opaque")
        inp.check(c.ansi == s, "and prints as that sequence")
    inp.check(inp.all([same_rgb(inp, c, XTERM[i]), c.is_background == (lead == 48)]), "an 8-bit sequence is that palette entry, on that layer")


def ansi_16(inp):
    base = inp.choice("b", (30, 40, 90, 100))
    i = inp.cint("i", 0, 7)
    c = color(str(base + i))
    want = XTERM[i + (8 if base >= 90 else 0)]
    inp.check(inp.all([same_rgb(inp, c, want), c.is_background == (base in (40, 100)), c.alpha == 1.0]), "a 16-colour code is that colour, on that layer")
    inp.check(c.ansi == str(base + i), "and prints as that code")


def bare_index(inp):
    i = inp.cint("i", 0, 255)
    inp.assume(not (30 <= i < 38 or 40 <= i < 48 or 90 <= i < 98 or 100 <= i < 108))
    c = color(str(i))
    inp.check(inp.all([same_rgb(inp, c, XTERM[i]), not c.is_background]), "a bare number is an 8-bit foreground")
    d = Color.from_ansi(c.ansi)
    inp.check(inp.all([same_rgb(inp, d, XTERM[i]), not d.is_background]), "which prints as a valid sequence")


def names(inp):
    name = inp.choice("name", sorted(CSS))
    c = color(name)
    inp.check(inp.all([same_rgb(inp, c, CSS[name]), c.alpha == 1.0, not c.is_background]), "a named colour is that colour")
    d = color(name + ";0.5")
    inp.check(inp.all([same_rgb(inp, d, CSS[name]), d.alpha == 0.5]), "a named colour with an alpha")


def unknown(inp):
    """Words that are neither names nor numbers."""
    a, b = inp.char("a", cs("a-z")), inp.char("b", cs("a-z"))
    inp.check(raises(color, "x" + a + b + "q"), "an unknown name is refused")
    inp.check(raises(color, inp.choice("v", (None, 5, 1.5, ["red"]))), "other values are refused")


def no_ansi(inp):
    """Long sequences that are no RGB colours: refused."""
    lead, kind = inp.int("lead", 0, 120), inp.int("kind", 0, 9)
    inp.assume(inp.any([inp.all([lead != 38, lead != 48]), kind != 2]))
    r, g, b = rgb(inp, "c")
    inp.check(raises(Color.from_ansi, f"{lead};{kind};{r};{g};{b}"), "a sequence that is no colour is refused")


def layers(inp):
    v = rgb(inp, "c")
    a = inp.frac("a", 0, 100, 100)
    back = inp.cbool("back")
    c = Color(v, is_background=back, alpha=a)
    to = inp.cbool("to")
    d = c.as_background(to)
    inp.check(inp.all([same_rgb(inp, d, v), d.is_background == to]), "as_background changes the layer and keeps the colour")
    inp.check(inp.implies(a > 0, d.alpha == a), "as_background keeps the alpha")
    inp.check(inp.all([same_rgb(inp, c, v), c.is_background == back, c.alpha == a]), "of a copy")
    d = c.as_background()
    inp.check(inp.all([same_rgb(inp, d, v), d.is_background]), "as_background makes a background")
    for n, w in (("white", 255), ("black", 0)):
        x = getattr(Color, n)()
        inp.check(x.rgb == (w, w, w) and not x.is_background and x.alpha == 1.0, f"Color.{n}, a foreground by default")
        x = getattr(Color, n)(to)
        inp.check(x.rgb == (w, w, w) and x.is_background == to and x.alpha == 1.0, f"Color.{n}")


def equality(inp):
    v, w = rgb(inp, "v"), rgb(inp, "w")
    a, b = inp.frac("a", 0, 1000, 1000), inp.frac("b", 0, 1000, 1000)
    c, d = Color(v, alpha=a), Color(w, alpha=b)
    same = inp.all([x == y for x, y in zip(v, w)] + [a == b])
    inp.check(inp.iff(c == d, same), "colours are equal exactly when RGB and alpha are")
    inp.check(inp.iff(c != d, inp.not_(same)), "and unequal otherwise")
    inp.check(not (c == v) and not (c == None), "a colour is no tuple")
