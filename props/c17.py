"""C17: hue shifts, complements and palettes rotate the hue and keep everything else."""

from slate import Color

BOUNDS = "every value of each channel over a grid of 5x5 (thorough: 9x9) values of the other two, both layers; shifts by 0, 1/12, 1/6, 1/4, 1/3, 1/2, 2/3, 3/4, 1 and negatives"
OUTSIDE = "triplets off the grid; other amounts; alpha (shifting gives an opaque colour)"
ASSUMES = ["channels may be off by 2 (rounding: hue arithmetic is done in 256ths and truncated)"]
COVERS = ("grey", "colour")
BUDGET = {"quick": 200, "thorough": 1500}

GRID = (0, 60, 128, 200, 255)
GRID2 = (0, 30, 60, 95, 128, 170, 200, 230, 255)


def tasks(tier):
    g = list(GRID2 if tier == "thorough" else GRID)
    out = []
    for k in range(3):
        for a in g:
            out.append((f"shift {k} {a}", "shift", {"k": k, "a": a, "grid": g}))
            out.append((f"groups {k} {a}", "groups", {"k": k, "a": a, "grid": g}))
    out.append(("greys", "greys", {}))
    out.append(("palette of a layer", "layers", {}))
    return out


def noop(inp):
    pass


def place(k, x, a, b):
    return (x, a, b) if k == 0 else (a, x, b) if k == 1 else (a, b, x)


def near(inp, c, want, tol=2):
    return inp.all([inp.all([g - w <= tol, w - g <= tol]) for g, w in zip(c.rgb, want)])


def complement_of(inp, v):
    s = inp.max(v[0], inp.max(v[1], v[2])) + inp.min(v[0], inp.min(v[1], v[2]))
    return tuple(s - x for x in v)


def rotated(inp, v, sixth):
    """The hue turned by a number of sixths: rotations of the channels, and complements."""
    r, g, b = v
    if sixth % 2:
        v = complement_of(inp, v)
        r, g, b = v
        sixth = (sixth + 3) % 6
    return {0: (r, g, b), 2: (b, r, g), 4: (g, b, r)}[sixth % 6]


def valid(inp, c, back):
    return inp.all([c.is_background == back, c.alpha == 1.0, len(c.rgb) == 3] + [inp.all([x >= 0, x <= 255]) for x in c.rgb])


def sane(inp, base, c, tol=3):
    """Lightness and chroma are kept."""
    hi = lambda v: inp.max(v[0], inp.max(v[1], v[2]))
    lo = lambda v: inp.min(v[0], inp.min(v[1], v[2]))
    d1, d2 = hi(base) - hi(c.rgb), lo(base) - lo(c.rgb)
    return inp.all([d1 <= tol, d1 >= -tol, d2 <= tol, d2 >= -tol])


def shift(inp, k, a, grid):
    b = inp.choice("b", grid)
    back = inp.cbool("back")
    x = inp.tab("x", 0, 255)
    v = place(k, x, a, b)
    c = Color(v, is_background=back)
    inp.cover("colour")
    for n in (0, 2, 3, 4, 6, -2):
        got = c.hue_shift(n / 6)
        inp.check(valid(inp, got, back), "a colour of the same layer")
        inp.check(near(inp, got, rotated(inp, v, n)), f"hue shifted by {n}/6")
    inp.check(inp.all([p == q for p, q in zip(c.rgb, v)]), "the colour itself is unchanged")


def groups(inp, k, a, grid):
    b = inp.choice("b", grid)
    x = inp.tab("x", 0, 255)
    v = place(k, x, a, b)
    c = Color(v)
    grey = inp.all([v[0] == v[1], v[1] == v[2]])
    if not grey:
        inp.check(near(inp, c.complement, complement_of(inp, v)), "the complement is across the hue circle")
    t = c.triadic_group
    inp.check(len(t) == 3 and inp.all([near(inp, t[0], v, 0), near(inp, t[1], rotated(inp, v, 2)), near(inp, t[2], rotated(inp, v, 4))]),
              "a triadic group: thirds of the hue circle, the colour first")
    n = c.analogous_group
    inp.check(len(n) == 3 and inp.all([near(inp, n[0], v, 0), sane(inp, v, n[1]), near(inp, n[2], rotated(inp, v, 1))]),
              "an analogous group: twelfths of the hue circle, the colour first")
    inp.check(near(inp, n[1].hue_shift(1 / 12), n[2].rgb, 6), "the second is half way to the third")
    q = c.tetradic_group
    inp.check(len(q) == 4 and inp.all([near(inp, q[0], v, 0), sane(inp, v, q[1]), q[2] == c.complement, sane(inp, v, q[3])]),
              "a tetradic group: quarters of the hue circle, the colour first")
    inp.check(near(inp, q[3], complement_of(inp, q[1].rgb), 5), "the second and fourth are complements")
    inp.check(near(inp, q[1].hue_shift(1 / 12), rotated(inp, v, 2), 6), "the second is a quarter away")


def greys(inp):
    x = inp.tab("x", 0, 255)
    back = inp.cbool("back")
    c = Color((x, x, x), is_background=back)
    got = c.complement
    inp.cover("grey")
    inp.check(valid(inp, got, back), "a colour of the same layer")
    inp.check(inp.all([p == inp.ite(x == 0, 255, 0) for p in got.rgb]), "the complement of a grey is black, of black white")
    inp.check(near(inp, c.hue_shift(0.25), (x, x, x)), "a grey has no hue to shift")


def layers(inp):
    back = inp.cbool("back")
    c = Color(inp.choice("c", ((10, 200, 77), (0, 0, 0), (255, 255, 255), (255, 0, 0))), is_background=back)
    for g in (c.triadic_group, c.analogous_group, c.tetradic_group, [c.complement, c.blend_complement(0.5), c.hue_shift(0.1)]):
        for x in g:
            inp.check(x.is_background == back, "palettes stay on the colour's layer")
