"""An independent reference terminal: consumes the bytes slate emits and keeps the grid a
user would see.  Works on concrete strings and on strings with symbolic characters and
numbers alike (`inp.elements`)."""

from props.palette import XTERM as COLOR_TABLE

STYLES = {1: "bold", 2: "dim", 3: "italic", 4: "underline", 5: "blink", 6: "fast_blink", 7: "invert", 8: "conceal",
          9: "strike"}
UNSET = {22: ("bold", "dim"), 23: ("italic",), 24: ("underline",), 25: ("blink",), 26: ("fast_blink",),
         27: ("invert",), 28: ("conceal",), 29: ("strike",)}


class Pen:
    def __init__(self):
        self.reset()

    def reset(self):
        self.styles = set()
        self.fg = None
        self.bg = None

    def snapshot(self):
        return (tuple(sorted(self.styles)), self.fg, self.bg)


def whole(inp, p):
    """A number we need concretely: enumerates its feasible values."""
    if inp.is_sym(p):
        return p.realize()
    return p


def apply_sgr(inp, params, pen, errors):
    """params: list of numbers (None = omitted)."""
    i = 0
    if not params:
        params = [0]
    while i < len(params):
        p = 0 if params[i] is None else whole(inp, params[i])
        if p == 0:
            pen.reset()
        elif p in STYLES:
            pen.styles.add(STYLES[p])
        elif p in UNSET:
            for s in UNSET[p]:
                pen.styles.discard(s)
        elif 30 <= p <= 37:
            pen.fg = ("idx", p - 30)
        elif 90 <= p <= 97:
            pen.fg = ("idx", p - 82)
        elif 40 <= p <= 47:
            pen.bg = ("idx", p - 40)
        elif 100 <= p <= 107:
            pen.bg = ("idx", p - 92)
        elif p == 39:
            pen.fg = None
        elif p == 49:
            pen.bg = None
        elif p == 99:
            pass  # slate's private marker; terminals ignore it
        elif p == 38 or p == 48:
            mode = whole(inp, params[i + 1]) if i + 1 < len(params) else None
            if mode == 5 and i + 2 < len(params) and params[i + 2] is not None:
                v = ("idx", params[i + 2])
                errors.append(inp.any([params[i + 2] < 0, params[i + 2] > 255]))
                i += 2
            elif mode == 2 and i + 4 < len(params) and None not in params[i + 2:i + 5]:
                v = ("rgb", params[i + 2], params[i + 3], params[i + 4])
                for c in v[1:]:
                    errors.append(inp.any([c < 0, c > 255]))
                i += 4
            else:
                errors.append(True)
                return
            if p == 38:
                pen.fg = v
            else:
                pen.bg = v
        else:
            errors.append(True)
        i += 1


def rgb_of(inp, c):
    """Displayed RGB of a pen colour."""
    if c is None:
        return None
    if c[0] == "rgb":
        return (c[1], c[2], c[3])
    return COLOR_TABLE[whole(inp, c[1])]


def tokens(inp, s):
    """Yields ("text", ch) | ("sgr", params) | ("cup", y, x) | ("osc", elements) |
    ("csi", elements) | ("ctl", ch) | ("bad", ch)."""
    el = inp.elements(s)
    out = []
    i = 0
    n = len(el)
    while i < n:
        c = el[i]
        if not _is(c, "\x1b"):
            if _is(c, "\n") or _is(c, "\r") or _is(c, "\a"):
                out.append(("ctl", c))
            else:
                out.append(("text", c))
            i += 1
            continue
        if i + 1 < n and _is(el[i + 1], "["):
            j = i + 2
            params = []
            num = None
            private = ""
            final = None
            while j < n:
                d = el[j]
                if _isnum(d):
                    if num is not None:
                        final = "bad"
                        break
                    num = d
                elif isinstance(d, str) and "0" <= d <= "9":
                    num = (0 if num is None else num) * 10 + ord(d) - 48
                elif _is(d, ";"):
                    params.append(num)
                    num = None
                elif isinstance(d, str) and not inp.is_sym(d) and d in "?<=>$ !":
                    private += d
                elif isinstance(d, str) and not inp.is_sym(d) and "@" <= d <= "~":
                    final = d
                    break
                else:
                    final = "bad"
                    break
                j += 1
            if num is not None or params:
                params.append(num)
            if final is None or final == "bad":
                out.append(("bad", c))
                i += 1
                continue
            if final == "m" and not private:
                out.append(("sgr", params))
            elif final == "H" and not private:
                out.append(("cup", params[0] if params else 1, params[1] if len(params) > 1 else 1))
            else:
                out.append(("csi", private, params, final))
            i = j + 1
            continue
        if i + 1 < n and _is(el[i + 1], "]"):
            j = i + 2
            while j < n and not _is(el[j], "\a") and not (_is(el[j], "\x1b") and j + 1 < n and _is(el[j + 1], "\\")):
                j += 1
            if j >= n:
                out.append(("bad", c))
                i += 1
                continue
            out.append(("osc", el[i + 2:j]))
            i = j + (1 if _is(el[j], "\a") else 2)
            continue
        out.append(("bad", c))
        i += 1
    return out


def _isnum(d):
    return not isinstance(d, str)


def _is(c, k):
    if not isinstance(c, str):
        return False
    return bool(c == k)


UNKNOWN = ("?unknown?",)


class Terminal:
    """Grid cells: (char, styles, fg, bg); UNKNOWN where nothing was drawn yet."""

    def __init__(self, inp, width, height, origin=(1, 1), cell=UNKNOWN):
        self.inp = inp
        self.width = width
        self.height = height
        self.origin = origin
        self.grid = [[cell] * width for _ in range(height)]
        self.pen = Pen()
        self.x = 0
        self.y = 0
        self.errors = []   # conditions that must be false
        self.printed = 0
        self.moves = 0
        self.link = []     # target of the open hyperlink (OSC 8), as elements
        self.links = []    # the same, for each printed character

    def resize(self, width, height):
        """What the terminal shows after a size change is up to the terminal."""
        self.width, self.height = width, height
        self.grid = [[UNKNOWN] * width for _ in range(height)]

    def feed(self, s):
        inp = self.inp
        for t in tokens(inp, s):
            k = t[0]
            if k == "text":
                if isinstance(t[1], str):
                    self.put(t[1])
                else:
                    # the decimal rendering of a symbolic number, as text
                    for ch in str(t[1]):
                        self.put(ch)
            elif k == "sgr":
                apply_sgr(inp, t[1], self.pen, self.errors)
            elif k == "cup":
                y, x = t[1], t[2]
                self.y = whole(inp, (1 if y is None else y) - self.origin[1])
                self.x = whole(inp, (1 if x is None else x) - self.origin[0])
                self.moves += 1
                if not (0 <= self.x < self.width and 0 <= self.y < self.height):
                    self.errors.append(True)
            elif k == "osc":
                o = t[1]
                if len(o) >= 3 and _is(o[0], "8") and _is(o[1], ";") and _is(o[2], ";"):
                    self.link = o[3:]
            else:
                self.errors.append(True)
        return self

    def put(self, ch):
        if not (0 <= self.y < self.height and 0 <= self.x < self.width):
            self.errors.append(True)
            return
        st = self.pen.snapshot()
        self.grid[self.y][self.x] = (ch, st[0], st[1], st[2])
        self.x += 1
        self.printed += 1


class Line(Terminal):
    """One unbounded row: for text that is printed, not positioned."""

    def __init__(self, inp):
        Terminal.__init__(self, inp, 10 ** 6, 1)
        self.grid = [[]]

    def put(self, ch):
        st = self.pen.snapshot()
        self.grid[0].append((ch, st[0], st[1], st[2]))
        self.links.append(self.link)
        self.x += 1
        self.printed += 1


def same_color(inp, shown, want, default_ok):
    """Condition: the displayed pen colour is the wanted Color (or unset)."""
    if want is None:
        if shown is None:
            return True
        if default_ok is not None:
            rgb = rgb_of(inp, shown)
            return inp.all([a == b for a, b in zip(rgb, default_ok)])
        return False
    if shown is None:
        return False
    rgb = rgb_of(inp, shown)
    return inp.all([a == b for a, b in zip(rgb, want)])


def same_cell(inp, cell, want, default_fg=(255, 255, 255)):
    """`want`: (char, styles, fg rgb or None, bg rgb or None)."""
    if cell is UNKNOWN or cell == UNKNOWN:
        return False
    if want is UNKNOWN:
        return True
    ch, styles, fg, bg = cell
    if tuple(styles) != tuple(sorted(want[1])):
        return False
    return inp.all([ch == want[0], same_color(inp, fg, want[2], default_fg), same_color(inp, bg, want[3], None)])


def same_screen(inp, term, want):
    """All cells of the terminal show the wanted grid, and nothing odd was emitted."""
    conds = [inp.not_(e) for e in term.errors]
    for y, row in enumerate(want):
        for x, cell in enumerate(row):
            conds.append(same_cell(inp, term.grid[y][x], cell))
    return inp.all(conds)
