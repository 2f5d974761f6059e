"""C15: blending, lightening and darkening stay between the two colours, and in range."""

from slate import Color

from props.model import rgb

BOUNDS = "every pair of RGB triplets; blend amounts in 1/10ths (thorough: 1/100ths) from 0 to 1 and 1, 4, 33, 125, 501, 996 and 999 1/1000ths; lighten/darken by 0-15, 20, 21, 40 and 101 shades of 0.1, 0.05, 0.25 and beyond saturation; both layers"
OUTSIDE = "amounts outside 0-1 for blend; other step sizes"
ASSUMES = ["a channel may be rounded either way"]
COVERS = ("none", "all", "between", "saturated")
BUDGET = {"quick": 120, "thorough": 1500}


def tasks(tier):
    den = 100 if tier == "thorough" else 10
    out = [("blend", "blend", {"den": den}), ("blend fine", "blend", {"den": 1000, "at": [1, 4, 33, 125, 501, 996, 999]}), ("blend layers", "layers", {}), ("repeat", "repeat", {}), ("repeat layer", "repeat_layer", {}),
           ("complement", "complement", {})]
    steps = (0.1, 0.05, 0.25) + ((0.01, 0.2, 0.5) if tier == "thorough" else ())
    for s in steps:
        out.append((f"lighten {s}", "shade", {"step": s, "up": True, "top": 40 if tier == "thorough" else 15}))
        out.append((f"darken {s}", "shade", {"step": s, "up": False, "top": 40 if tier == "thorough" else 15}))
    return out


def noop(inp):
    pass


def between(inp, x, a, b):
    return inp.all([x >= inp.min(a, b), x <= inp.max(a, b)])


def blend(inp, den, at=None):
    a, b = rgb(inp, "a"), rgb(inp, "b")
    k = inp.choice("k", at) if at else inp.cint("k", 0, den)
    one, two = Color(a), Color(b)
    c = one.blend(two, k / den)
    inp.check(len(c.rgb) == 3 and c.alpha == 1.0, "a colour")
    inp.check(inp.all([between(inp, z, x, y) for x, y, z in zip(a, b, c.rgb)]), "a blend lies between the two colours")
    if k == 0:
        inp.cover("none")
        inp.check(inp.all([z == x for x, z in zip(a, c.rgb)]), "nothing blended in: the same colour")
    elif k == den:
        inp.cover("all")
        inp.check(inp.all([z == y for y, z in zip(b, c.rgb)]), "all blended in: the other colour")
    else:
        inp.cover("between")
    conds = []
    for x, y, z in zip(a, b, c.rgb):
        d = z * den - (x * (den - k) + y * k)
        conds.append(inp.all([d <= den, d >= -den]))
    inp.check(inp.all(conds), "a blend is proportional")
    inp.check(inp.all([x == y for x, y in zip(one.rgb, a)] + [x == y for x, y in zip(two.rgb, b)]), "blending changes neither")
    # elsewhere, the product's rounding may move a channel by one (ASSUMES)
    if 2 * k in (0, den, 2 * den):
        inp.observe(list(c.rgb))


def layers(inp):
    a, b = rgb(inp, "a"), (10, 200, 77)
    l1, l2 = inp.cbool("l1"), inp.cbool("l2")
    k = inp.choice("k", (0.0, 0.3, 1.0))
    to = inp.choice("to", (None, False, True))
    c = Color(a, is_background=l1).blend(Color(b, is_background=l2), k, is_background=to)
    inp.check(c.is_background == (l1 if to is None else to), "a blend is on the asked layer, or on the first colour's")
    for n in (0, 3, 30):
        a = (10, 200, 77)
        c = Color(a, is_background=l1)
        inp.check(c.lighten(n).is_background == l1 and c.darken(n).is_background == l1, "shades keep the layer")


def repeat(inp):
    """Blending again, with other colours in between, gives the same."""
    a, b, d = rgb(inp, "a"), rgb(inp, "b"), rgb(inp, "d")
    one, two = Color(a), Color(b)
    x = one.blend(two, 0.5).rgb
    one.blend(Color(d), 0.5)
    Color(d).blend(two, 0.5)
    one.blend(two, 0.25)
    y = Color(a).blend(Color(b), 0.5).rgb
    inp.check(inp.all([p == q for p, q in zip(x, y)]), "the same blend gives the same colour")


def repeat_layer(inp):
    """A blend of the same values on another layer, or with another amount, is its own."""
    a, b = rgb(inp, "a"), rgb(inp, "b")
    l1 = inp.cbool("l1")
    Color(a, is_background=l1).blend(Color(b), 0.5)
    c = Color(a, is_background=not l1).blend(Color(b), 0.5)
    inp.check(c.is_background == (not l1), "a blend is on its own colour's layer")
    d = Color(a, is_background=l1).blend(Color(b), 1.0)
    inp.check(inp.all([x == y for x, y in zip(d.rgb, b)]), "all blended in: the other colour")
    e = Color(a, is_background=l1).blend(Color(b), 0.5, is_background=not l1)
    inp.check(e.is_background == (not l1), "a blend is on the asked layer")


def shade(inp, step, up, top):
    v = tuple(inp.tab(n, 0, 255) for n in ("r", "g", "b"))
    n = inp.choice("n", list(range(top + 1)) + [20, 21, 40, 101])
    base = Color(v)
    f = base.lighten if up else base.darken
    one = f(n, step_size=step) if step != 0.1 else f(n)
    two = f(n + 1, step_size=step) if step != 0.1 else f(n + 1)
    end = 255 if up else 0
    amount = n * step
    conds = []
    for x, y, z in zip(v, one.rgb, two.rgb):
        conds += [y >= 0, y <= 255]
        conds += [y >= x, z >= y] if up else [y <= x, z <= y]
        if amount >= 1:
            inp.cover("saturated")
            conds.append(y == end)
        else:
            lin = x + (end - x) * amount
            conds += [y - lin <= 1.0001, lin - y <= 1.0001]
    inp.check(inp.all(conds), "shades go towards white / black in proportion, never past it")
    if n == 0:
        inp.check(inp.all([x == y for x, y in zip(v, one.rgb)]), "no shade: the same colour")


def complement(inp):
    """blend_complement is a blend with the complement."""
    x = inp.tab("x", 0, 255)
    k = inp.choice("k", (0.0, 0.5, 1.0))
    c = Color((x, 40, 200))
    got, other = c.blend_complement(k), c.complement
    inp.check(inp.all([between(inp, g, a, b) for g, a, b in zip(got.rgb, c.rgb, other.rgb)]), "a blend with the complement lies between the two")
    if k == 0.0:
        inp.check(inp.all([g == a for g, a in zip(got.rgb, c.rgb)]), "none of it: the colour")
    if k == 1.0:
        inp.check(inp.all([g == a for g, a in zip(got.rgb, other.rgb)]), "all of it: the complement")
