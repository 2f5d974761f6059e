"""C16: luminance, brightness and contrast match what the eye (and W3C) sees."""

from slate import Color
from slate.color import calculate_contrast

from props.model import rgb

BOUNDS = "every RGB triplet, both layers (luminance, contrast ratio); brightness: every value of each channel over a 5x5 grid of the others"
OUTSIDE = "brightness off the grid"
ASSUMES = ["relative luminance and contrast ratio are W3C WCAG 2's; 3:1 is the level claimed for the contrast colour",
           "luminance may differ from the formula by 1e-9 (float rounding)"]
COVERS = ("dark", "light")
BUDGET = {"quick": 150, "thorough": 900}
PATH_S = 60

GRID = (0, 60, 128, 200, 255)
LIN = [x / 255 / 12.92 if x / 255 <= 0.04045 else ((x / 255 + 0.055) / 1.055) ** 2.4 for x in range(256)]


def tasks(tier):
    out = [("contrast", "contrast", {}), ("contrast layers", "contrast_layers", {}),
           ("contrast given", "contrast_given", {})]
    for k in range(3):
        for a in GRID:
            out.append((f"luminance {k} {a}", "luminance", {"k": k, "a": a}))
            out.append((f"ratio {k} {a}", "ratio", {"k": k, "a": a}))
            out.append((f"brightness {k} {a}", "brightness", {"k": k, "a": a}))
    out.append(("monotone", "monotone", {}))
    return out


def noop(inp):
    pass


def place(k, x, a, b):
    return (x, a, b) if k == 0 else (a, x, b) if k == 1 else (a, b, x)


def lum(v):
    return 0.2126 * LIN[v[0]] + 0.7152 * LIN[v[1]] + 0.0722 * LIN[v[2]]




def luminance(inp, k, a):
    b = inp.choice("b", GRID)
    x = inp.tab("x", 0, 255)
    c = Color(place(k, x, a, b))
    want = lum(place(k, x, a, b))
    inp.check(inp.all([c.luminance >= want - 1e-9, c.luminance <= want + 1e-9]), "luminance is the relative luminance")
    inp.check(inp.all([c.luminance >= 0, c.luminance <= 1]), "luminance is between 0 and 1")


def ratio(inp, k, a):
    b = inp.choice("b", GRID)
    x = inp.tab("x", 0, 255)
    v = place(k, x, a, b)
    got = Color(v).contrast
    inp.check(all(type(n) is int for n in got.rgb), "a fixed colour")
    l1, l2 = lum(v), lum(got.rgb)
    inp.check(inp.any([l1 + 0.05 >= 3 * (l2 + 0.05), l2 + 0.05 >= 3 * (l1 + 0.05)]), "the contrast colour is readable (3:1) on the colour")


def contrast(inp):
    """Every colour: dark ones get the light colour, light ones the dark colour."""
    v = rgb(inp, "c")
    c = Color(v)
    got = c.contrast
    lit = c.luminance
    l2 = lum(got.rgb)
    inp.cover("light" if l2 < 0.5 else "dark")
    inp.check(inp.any([lit + 0.05 >= 3 * (l2 + 0.05), l2 + 0.05 >= 3 * (lit + 0.05)]), "the contrast colour is readable (3:1) on every colour")
    inp.check(got.alpha == 1.0, "the contrast colour is opaque")


def contrast_layers(inp):
    v = (inp.choice("v", (0, 100, 255)),) * 3
    back = inp.cbool("back")
    c = Color(v, is_background=back)
    inp.check(c.contrast.is_background == back, "the contrast colour is on the colour's layer")
    inp.check(Color(v, is_background=not back).contrast.is_background == (not back), "on each layer")


def contrast_given(inp):
    """Colours given by the caller replace the defaults."""
    v, w, b = rgb(inp, "c"), rgb(inp, "w"), rgb(inp, "b")
    back = inp.cbool("back")
    hasw, hasb = inp.cbool("hasw"), inp.cbool("hasb")
    c = Color(v, is_background=back)
    plain = c.contrast
    light = plain.rgb[0] > 128
    kw = {}
    if hasw:
        kw["white"] = Color(w)
    if hasb:
        kw["black"] = Color(b)
    got = calculate_contrast(c, **kw)
    want = (w if hasw else plain.rgb) if light else (b if hasb else plain.rgb)
    inp.check(inp.all([x == y for x, y in zip(got.rgb, want)]), "the colour given for it is the contrast colour")
    inp.check(got.is_background == back, "on the colour's layer")


def brightness(inp, k, a):
    b = inp.choice("b", GRID)
    x = inp.tab("x", 0, 255)
    c = Color(place(k, x, a, b))
    y = lum(place(k, x, a, b))
    low = y * (24389 / 27) / 100
    if y <= 216 / 24389:
        want = low
    else:
        want = (y ** (1 / 3) * 116 - 16) / 100
    inp.check(inp.all([c.brightness >= want - 1e-9, c.brightness <= want + 1e-9]), "brightness is the perceived lightness (CIE L*)")
    inp.check(inp.all([c.brightness >= -1e-9, c.brightness <= 1 + 1e-9]), "brightness is between 0 and 1")


def monotone(inp):
    """More light never makes a colour darker."""
    k = inp.cint("k", 0, 2)
    x, y = inp.tab("x", 0, 255), inp.tab("y", 0, 255)
    a, b = inp.choice("a", GRID), inp.choice("b", GRID)
    inp.assume(x < y)
    c, d = Color(place(k, x, a, b)), Color(place(k, y, a, b))
    inp.check(inp.all([c.luminance < d.luminance]), "more light, more luminance")
    inp.check(inp.all([c.brightness <= d.brightness]), "more light, no less brightness")
