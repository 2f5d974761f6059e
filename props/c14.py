"""C14: printing a colour emits a valid sequence of its layer, the best the colour space can show."""

from slate import Color, color
from slate.core import ColorSpace
from slate.terminal import terminal

from props.model import rgb
from props.palette import LEVELS, SYSTEM, XTERM

BOUNDS = "true colour and 8-bit: every RGB triplet on both layers; 16 colours and greyscale: every value of each channel, the other two over a grid of 5x5 values (thorough: 9x9), and every entry of the palettes; every pair of colour spaces, switched either way"
OUTSIDE = "16 colours / greyscale for triplets off the grid"
ASSUMES = ["palette entries 16-255 are xterm's, 0-15 the VGA ones",
           "nearest among the 16 colours is by the red-mean weighted distance the code cites"]
COVERS = ("cube", "background", "switched down", "switched up")
BUDGET = {"quick": 150, "thorough": 1200}

SPACES = (ColorSpace.NO_COLOR, ColorSpace.STANDARD, ColorSpace.EIGHT_BIT, ColorSpace.TRUE_COLOR)
GRID = (0, 60, 128, 200, 255)
GRID2 = (0, 30, 60, 95, 128, 170, 200, 230, 255)


def tasks(tier):
    out = [("true color", "true_color", {}), ("eight bit", "eight_bit", {}), ("palette", "palette", {}),
           ("described", "described", {}), ("switch", "switch", {}), ("switch palette", "switch_palette", {}), ("grey ends", "grey_ends", {})]
    g = GRID2 if tier == "thorough" else GRID
    for k in range(3):
        for a in g:
            out.append((f"standard {k} {a}", "standard", {"k": k, "a": a, "grid": list(g)}))
            out.append((f"grey {k} {a}", "grey", {"k": k, "a": a, "grid": list(g)}))
    return out


def noop(inp):
    pass


class in_space:
    def __init__(self, space):
        self.space = space

    def __enter__(self):
        self.old = terminal._forced_color_space
        terminal.color_space = self.space

    def __exit__(self, *a):
        terminal.color_space = self.old


def numbers(s):
    return [int(p) for p in s.split(";")]


def true_color(inp):
    v = rgb(inp, "c")
    back = inp.cbool("back")
    with in_space(ColorSpace.TRUE_COLOR):
        got = numbers(Color(v, is_background=back).ansi)
    want = [48 if back else 38, 2, *v]
    inp.check(inp.all([len(got) == 5] + [a == b for a, b in zip(got, want)]), "true colour prints the exact channels")


def nearest_level(inp, v):
    best = abs(LEVELS[0] - v)
    for x in LEVELS[1:]:
        best = inp.min(best, abs(x - v))
    return best


def level(inp, i):
    e = LEVELS[5]
    for j in range(4, -1, -1):
        e = inp.ite(i == j, LEVELS[j], e)
    return e


def eight_bit(inp):
    v = rgb(inp, "c")
    back = inp.cbool("back")
    with in_space(ColorSpace.EIGHT_BIT):
        got = numbers(Color(v, is_background=back).ansi)
    inp.check(inp.all([len(got) == 3, got[0] == (48 if back else 38), got[1] == 5]), "8-bit prints an index on the colour's layer")
    n = got[2]
    inp.check(inp.all([n >= 0, n <= 255]), "8-bit prints a valid index")
    if back:
        inp.cover("background")
    if n >= 16 and n <= 231:
        inp.cover("cube")
        i = n - 16
        shown = (level(inp, i // 36), level(inp, i // 6 % 6), level(inp, i % 6))
        inp.check(inp.all([abs(s - x) <= nearest_level(inp, x) for s, x in zip(shown, v)]), "8-bit shows the nearest colour of the cube")
    else:
        shown = XTERM[n if type(n) is int else n.realize()]
        inp.check(inp.all([abs(s - x) <= nearest_level(inp, x) for s, x in zip(shown, v)]), "8-bit shows a colour as near as the cube's")


def place(k, x, a, b):
    return (x, a, b) if k == 0 else (a, x, b) if k == 1 else (a, b, x)


def standard(inp, k, a, grid):
    b = inp.choice("b", grid)
    back = inp.cbool("back")
    x = inp.tab("x", 0, 255)
    with in_space(ColorSpace.STANDARD):
        n = int(Color(place(k, x, a, b), is_background=back).ansi)
    base = n - 10 if back else n
    ok = inp.any([inp.all([base >= 30, base <= 37]), inp.all([base >= 90, base <= 97])])
    inp.check(ok, "16 colours: a code of the colour's layer")
    idx = inp.ite(base < 90, base - 30, base - 82)
    # the red-mean distance in the code's own scale: (2 + rm/256) dr^2 + 4 dg^2 + (2 + (255-rm)/256) db^2
    ds = []
    for c in SYSTEM:
        v = place(k, x, a, b)
        rm = (v[0] + c[0]) // 2
        dr, dg, db = v[0] - c[0], v[1] - c[1], v[2] - c[2]
        ds.append((512 + rm) * (dr * dr) + 1024 * (dg * dg) + (767 - rm) * (db * db))
    for i in range(16):
        if idx == i:
            inp.check(inp.all([ds[i] <= d for j, d in enumerate(ds) if j != i]), "16 colours: none of them is nearer")
            return
    inp.fail("16 colours: an unknown colour")


def grey_index(inp, v, back=False):
    with in_space(ColorSpace.NO_COLOR):
        got = numbers(Color(v, is_background=back).ansi)
    inp.check(inp.all([len(got) == 3, got[0] == (48 if back else 38), got[1] == 5, got[2] >= 232, got[2] <= 255]),
              "without colours: an entry of the grey ramp, on the colour's layer")
    return got[2]


def lightness(v):
    """CIE lightness (0-100) of an sRGB colour."""
    lin = [x / 255 / 12.92 if x / 255 <= 0.04045 else ((x / 255 + 0.055) / 1.055) ** 2.4 for x in v]
    y = 0.2126 * lin[0] + 0.7152 * lin[1] + 0.0722 * lin[2]
    return y * 24389 / 27 if y <= 216 / 24389 else y ** (1 / 3) * 116 - 16


def grey(inp, k, a, grid):
    b = inp.choice("b", grid)
    back = inp.cbool("back")
    x = inp.tab("x", 0, 255)
    n = grey_index(inp, place(k, x, a, b), back)
    tab = [lightness(place(k, t, a, b)) for t in range(256)]
    # the index is within one step of lightness, for each value
    lo = [int(232 + t / 100 * 23 - 1.0001) for t in tab]
    conds = []
    # lo is non-decreasing: runs
    start = 0
    for t in range(1, 257):
        if t == 256 or lo[t] != lo[start]:
            conds.append(inp.implies(inp.all([x >= start, x <= t - 1]), inp.all([n >= lo[start], n <= lo[start] + 2])))
            start = t
    inp.check(inp.all(conds), "without colours: the grey matches the perceived lightness")


def grey_ends(inp):
    x = inp.tab("x", 0, 255)
    inp.check(grey_index(inp, (0, 0, 0)) == 232, "black is the darkest grey")
    inp.check(grey_index(inp, (255, 255, 255)) == 255, "white is the lightest grey")
    inp.check(grey_index(inp, (x, x, x)) >= 232, "greys are greys")


def palette(inp):
    """A colour of the palette, given as RGB, is shown as itself."""
    i = inp.cint("i", 0, 255)
    back = inp.cbool("back")
    lead = 48 if back else 38
    with in_space(ColorSpace.EIGHT_BIT):
        got = numbers(Color(XTERM[i], is_background=back).ansi)
    inp.check(got[:2] == [lead, 5], "an index")
    if 16 <= i < 232:
        inp.check(XTERM[got[2]] == XTERM[i], "8-bit: a colour of the cube is shown as itself")
    if i < 16:
        with in_space(ColorSpace.STANDARD):
            n = int(Color(XTERM[i], is_background=back).ansi) - (10 if back else 0)
        inp.check(XTERM[n - 30 if n < 90 else n - 82] == XTERM[i], "16 colours: a standard colour is shown as itself")


def described(inp):
    """A colour given as a palette sequence prints as given wherever it can be shown."""
    kind = inp.choice("kind", ("8bit", "16"))
    lead = inp.cbool("back")
    if kind == "8bit":
        s = f"{48 if lead else 38};5;{inp.cint('i', 0, 255)}"
        spaces = SPACES[2:]
    else:
        s = str(inp.choice("base", (40, 100) if lead else (30, 90)) + inp.cint("i", 0, 7))
        spaces = SPACES[1:]
    c = color(s)
    for sp in spaces:
        with in_space(sp):
            inp.check(c.ansi == s, f"{sp.value}: prints as given")
    for sp in SPACES:
        if sp not in spaces:
            with in_space(sp):
                inp.check(c.ansi == Color(c.rgb, is_background=lead).ansi, f"{sp.value}: prints as any colour of its RGB value")
    inp.check(c.is_background == lead, "on its layer")


def valid(inp, s, back, space):
    got = numbers(s)
    if len(got) == 1:
        n = got[0] - (10 if back else 0)
        return space is not ColorSpace.NO_COLOR and inp.any([inp.all([n >= 30, n <= 37]), inp.all([n >= 90, n <= 97])])
    if len(got) == 3:
        lo = 232 if space is ColorSpace.NO_COLOR else 0
        return space is not ColorSpace.STANDARD and inp.all([got[0] == (48 if back else 38), got[1] == 5, got[2] >= lo, got[2] <= 255])
    return space is ColorSpace.TRUE_COLOR and len(got) == 5 and inp.all([got[0] == (48 if back else 38), got[1] == 2] + [inp.all([x >= 0, x <= 255]) for x in got[2:]])


def both(inp, make, back):
    """The same colour object, printed in one space and then in another."""
    one, two = inp.choice("one", SPACES), inp.choice("two", SPACES)
    c = make()
    with in_space(one):
        first = c.ansi
        inp.check(valid(inp, first, back, one), f"{one.value}: a sequence this colour space has")
    with in_space(two):
        second = c.ansi
        fresh = make().ansi
        inp.check(valid(inp, second, back, two), f"{two.value} after {one.value}: a sequence this colour space has")
        inp.check(second == fresh, f"{two.value} after {one.value}: as a colour made afterwards")
    inp.cover("switched down" if SPACES.index(two) < SPACES.index(one) else "switched up")


def switch(inp):
    back = inp.cbool("back")
    x = inp.choice("x", (0, 77, 255))
    both(inp, lambda: Color((x, 100, 30), is_background=back), back)


def switch_palette(inp):
    back = inp.cbool("back")
    s = inp.choice("s", ("48;5;77", "44", "101", "48;2;1;2;3") if back else ("38;5;77", "34", "91", "38;2;1;2;3", "141", "#102030", "red"))
    both(inp, lambda: color(s), back)
