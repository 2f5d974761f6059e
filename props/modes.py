"""A terminal's modes (alternate buffer, cursor, mouse, synchronized update) and title, from
what is written to it."""

import re

TOKEN = re.compile(r"\x1b\[\?([0-9;]+)([hl])|\x1b\[(22|23);?([0-9]*)t|\x1b\]([0-9]+);([^\x07\x1b]*)(?:\x07|\x1b\\)|\x1b\[\?([0-9;]+)\$p|\x1b\[([0-9;]*)([A-Za-z])|\x07")


class Modes:
    def __init__(self):
        self.on = {"25"}
        self.title = "shell"
        self.stack = []
        self.changes = 0
        self.depth_high = 0

    def feed(self, text):
        i = 0
        while i < len(text):
            m = TOKEN.match(text, i)
            if m is None:
                i += 1
                continue
            i = m.end()
            if m[1]:
                for p in m[1].split(";"):
                    if m[2] == "h":
                        self.on.add(p)
                    else:
                        self.on.discard(p)
            elif m[3] == "22":
                self.stack.append(self.title)
                self.depth_high = max(self.depth_high, len(self.stack))
            elif m[3] == "23":
                if self.stack:
                    self.title = self.stack.pop()
            elif m[5] in ("0", "2"):
                self.title = m[6]

    def has(self, *modes):
        return all(m in self.on for m in modes)

    def plain(self):
        return self.on == {"25"}
