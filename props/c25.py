"""C25: the colour space is the one the environment names, and they are ordered by what they can show."""

from slate.core import ColorSpace, get_color_space
from slate.terminal import Terminal as SlateTerminal

from engine import env as E

BOUNDS = "every combination of the four environment variables being unset, empty, one of their meaningful values (in any letter case, padded) or any text of up to 10 characters; every history of up to 3 (thorough: 4) forced spaces; all pairs and triples of spaces"
OUTSIDE = "texts longer than that other than the meaningful values; the variables changing during a call"
ASSUMES = []
COVERS = ("forced by variable", "no colour", "colorterm", "term", "fallback", "forced", "released", "refused")
BUDGET = {"quick": 90, "thorough": 900}

NAMES = ("no_color", "standard", "eight_bit", "true_color")
ASCII = ((0x20, 0x7E),)


def tasks(tier):
    deep = tier == "thorough"
    out = [("variables", "variables", {}), ("case", "case", {}), ("forced", "forced", {"n": 4 if deep else 3}),
           ("order", "order", {}), ("order names", "order", {"names": True}), ("refused", "refused", {})]
    out += [(f"colorterm text {n}", "colorterm", {"n": n}) for n in ((1, 2, 3, 5, 6, 7, 8, 9, 11) if deep else (1, 2, 3, 5, 8, 9))]
    out += [("term text 10", "term", {"n": 10})]
    out += [(f"term text {n}", "term", {"n": n}) for n in ((1, 2, 3, 5, 8, 9) if deep else (1, 3, 5, 8, 9))]
    return out


def noop(inp):
    pass


def ask(variables):
    e = E.Env(stdin_tty=False, variables=variables)
    with E.active(e):
        return get_color_space()


def stated(variables):
    """The rule, from the documentation."""
    if variables.get("SLATE_COLORSYS") is not None:
        return variables["SLATE_COLORSYS"].lower()
    if "NO_COLOR" in variables:
        return "no_color"
    name = variables.get("COLORTERM", "").strip().lower()
    if name == "":
        name = variables.get("TERM", "")
        if name.startswith("xterm-"):
            name = name[len("xterm-"):]
    return {"24bit": "true_color", "truecolor": "true_color", "256color": "eight_bit"}.get(name, "standard")


def variables(inp):
    v = {}
    options = {
        "SLATE_COLORSYS": (None, "no_color", "standard", "eight_bit", "TRUE_COLOR"),
        "NO_COLOR": (None, "", "1", "0"),
        "COLORTERM": (None, "", " ", "truecolor", "24bit", "256color", " TrueColor ", "yes"),
        "TERM": (None, "", "xterm", "xterm-256color", "xterm-truecolor", "xterm-24bit", "dumb", "256color"),
    }
    for name, values in options.items():
        value = inp.choice(name, values)
        if value is not None:
            v[name] = value
    if "SLATE_COLORSYS" in v:
        inp.cover("forced by variable")
    elif "NO_COLOR" in v:
        inp.cover("no colour")
    elif v.get("COLORTERM", "").strip():
        inp.cover("colorterm")
    elif stated(v) != "standard":
        inp.cover("term")
    else:
        inp.cover("fallback")
    got = ask(v)
    inp.check(got.value == stated(v), "the colour space is the one the environment names")


def case(inp):
    """Letter case does not matter."""
    name = inp.choice("name", NAMES)
    text = ""
    for i, c in enumerate(name):
        if c == "_" or i % 4:
            text = text + c
        else:
            text = text + inp.char(f"c{i}", ((ord(c), ord(c)), (ord(c.upper()), ord(c.upper()))))
    inp.check(ask({"SLATE_COLORSYS": text, "NO_COLOR": "1"}).value == name, "the named colour space is used")


def colorterm(inp, n):
    s = inp.text("s", n, n, ASCII)
    core = s.strip().lower()
    got = ask({"COLORTERM": s, "TERM": "xterm-256color"}).value
    true = inp.any([core == "24bit", core == "truecolor"])
    inp.check(inp.iff(got == "true_color", true), "true colour exactly when the terminal says so")
    eight = inp.any([core == "256color", core == ""])
    inp.check(inp.iff(got == "eight_bit", eight), "256 colours exactly when the terminal says so")
    inp.check(got in ("true_color", "eight_bit", "standard"), "nothing else")


def term(inp, n):
    s = inp.text("s", n, n, ((0x30, 0x39), (0x61, 0x7A)))
    got = ask({"TERM": "xterm-" + s}).value
    want = inp.choice("want", ("24bit", "truecolor", "256color"))
    space = "eight_bit" if want == "256color" else "true_color"
    inp.check(inp.implies(s == want, got == space), "the terminal's name tells the colours")
    if n not in (5, 8, 9):
        inp.check(got == "standard", "other terminals have the standard colours")


def refused(inp):
    """A name that is none is not silently taken for another."""
    v = {"SLATE_COLORSYS": inp.choice("v", ("", "colour", "truecolor", "256", "eightbit"))}
    try:
        ask(v)
        ok = False
    except ValueError:
        ok = True
        inp.cover("refused")
    inp.check(ok, "an unknown colour space is refused")


def forced(inp, n):
    v = inp.choice("vars", ({"COLORTERM": "truecolor"}, {"NO_COLOR": "1"}, {}))
    base = stated(v)
    e = E.Env(stdin_tty=False, size=(2, 1), variables=v)
    with E.active(e):
        t, other = SlateTerminal(stream=e.out), SlateTerminal(stream=e.out)
        told = []
        t.on_color_space_set += told.append
        want = base
        for i in range(n):
            new = inp.choice(f"new{i}", NAMES + (None,))
            told.clear()
            t.color_space = None if new is None else ColorSpace(new)
            want = new or base
            inp.cover("forced" if new else "released")
            inp.check(len(told) == 1 and (told[0] is None if new is None else told[0] is ColorSpace(new)), "listeners are told once, the new setting")
            inp.check(t.color_space.value == want, "a forced space is used until it is released")
            inp.check(other.color_space.value == base, "other terminals keep theirs")
            inp.check(ask(v).value == base, "and the environment's is the same")


def order(inp, names=False):
    """A total order: no colours and the standard ones below 256 colours below true colour."""
    a, b, c = (ColorSpace(inp.choice(k, NAMES)) for k in "abc")
    right = b.value if names else b
    gt, ge, eq = a > right, a >= right, a == right
    inp.check(eq == (a.value == b.value), "equal spaces are equal")
    inp.check(ge == (gt or eq), "at least means more or equal")
    inp.check(not (gt and eq), "more excludes equal")
    inp.check(gt or eq or (b > a.value if names else b > a), "any two compare")
    inp.check(not (gt and (b > a.value if names else b > a)), "not both ways")
    inp.check(not (gt and b > c) or a > c, "the order is transitive")
    rank = {"no_color": 0, "standard": 0, "eight_bit": 1, "true_color": 2}
    inp.check(rank[a.value] <= rank[b.value] or gt, "more colours are more")
