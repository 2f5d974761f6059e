"""Shared vocabulary of the harnesses: how symbolic spans are made, and the reference
model of what a screen shows (written from the documentation, not from the code)."""

from slate import Color, Span, color

from engine.inputs import cs
from props.palette import XTERM

# One code point = one cell: printable, no controls, no combining or double-width characters.
TEXT = cs((0x20, 0x7E), (0xA0, 0xAC), (0xAE, 0x2FF), (0x391, 0x3A1), (0x3A3, 0x482), (0x2000, 0x200A), (0x2500, 0x25FF), (0x1D400, 0x1D454))
INK = cs((0x21, 0x7E), (0xA1, 0xAC), (0xAE, 0x2FF), (0x391, 0x3A1), (0x3A3, 0x482), (0x2500, 0x25FF), (0x1D400, 0x1D454))
LETTERS = cs("a-z")

ALL_STYLES = ("bold", "dim", "italic", "underline", "blink", "fast_blink", "invert", "conceal", "strike")


def rgb(inp, name):
    return (inp.int(name + ".r", 0, 255), inp.int(name + ".g", 0, 255), inp.int(name + ".b", 0, 255))


PALETTE = (("31", XTERM[1], False), ("96", XTERM[14], False), ("107", XTERM[15], True), ("44", XTERM[4], True), ("38;5;208", XTERM[208], False),
           ("48;5;243", XTERM[243], True), ("120", XTERM[120], False), ("#a0b1c2", (0xA0, 0xB1, 0xC2), False), ("tomato", (255, 99, 71), False))


class Piece:
    """A span together with what it should look like."""

    def __init__(self, span, chars, styles, fg, bg):
        self.span = span
        self.chars = chars
        self.styles = tuple(sorted(styles))
        self.fg = fg
        self.bg = bg


def piece(inp, name, lo=1, hi=1, styles=(), fg=None, bg=None, dom=TEXT, reset_after=True, text=None):
    """fg/bg: None, "sym" (every RGB value) or a triplet."""
    if text is None:
        text = inp.text(name, lo, hi, dom)
    if styles == "any":
        styles = (inp.choice(name + ".style", ALL_STYLES),)
    if fg == "palette":
        # colours given as 16-colour, 8-bit, hex or named descriptions
        what = inp.choice(name + ".what", PALETTE)
        c = color(what[0])
        kw = {s: True for s in styles}
        kw["background" if what[2] else "foreground"] = c
        return Piece(Span(text, **kw), [c for c in text], styles, None if what[2] else what[1], what[1] if what[2] else None)
    if fg == "sym":
        fg = rgb(inp, name + ".fg")
    if bg == "sym":
        bg = rgb(inp, name + ".bg")
    kw = {s: True for s in styles}
    if fg is not None:
        kw["foreground"] = Color(tuple(fg))
    if bg is not None:
        kw["background"] = Color(tuple(bg), is_background=True)
    if not reset_after:
        kw["reset_after"] = False
    s = Span(text, **kw)
    return Piece(s, [c for c in text], styles, fg, bg)


class Model:
    """Cells are (char, styles, fg rgb|None, bg rgb|None)."""

    def __init__(self, width, height, fill=" "):
        self.width, self.height = width, height
        self.cells = [[(fill, (), None, None)] * width for _ in range(height)]
        self.cursor = (0, 0)

    def copy(self):
        m = Model(0, 0)
        m.width, m.height, m.cursor = self.width, self.height, self.cursor
        m.cells = [list(r) for r in self.cells]
        return m

    def resize(self, width, height, fill=" ", keep=True):
        old = self.cells
        self.cells = [[(fill, (), None, None)] * width for _ in range(height)]
        if keep:
            for y in range(min(height, self.height)):
                for x in range(min(width, self.width)):
                    self.cells[y][x] = old[y][x]
        self.width, self.height = width, height

    def clear(self, fill=" "):
        self.resize(self.width, self.height, fill, keep=False)
        self.cursor = (0, 0)

    def place(self, pos, pieces):
        """The cells the characters land in: [(x, y, char, piece)], and the end position."""
        x, y = pos
        out = []
        for p in pieces:
            for ch in p.chars:
                if not (0 <= x < self.width and 0 <= y < self.height):
                    break
                if ch == "\n":
                    y += 1
                    continue
                out.append((x, y, ch, p))
                x += 1
                if x >= self.width:
                    x = 0
                    y += 1
        return out, (x, y)

    def write(self, pieces, pos=None):
        if pos is None:
            pos = self.cursor
        cells, self.cursor = self.place(pos, pieces)
        for x, y, ch, p in cells:
            self.cells[y][x] = (ch, p.styles, p.fg, p.bg)
        return cells
