From 52ffec9e70da9fb060b861b160374e6c8fa7d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 01/33] fix: resizing keeps the screen and the pending changes
 in step

---
 slate/screen.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 5e39f90..ab9fc98 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -33,6 +33,17 @@ def _get_blended(
     return base.blend(other, min(other.alpha+alpha_addition, 1.0), is_background=is_background)  # type: ignore
 
 
+def _get_styled(char: str, fore: Color | None, back: Color | None) -> str:
+    """Returns the string that displays a cell with the given contents."""
+
+    color = ";".join(item.ansi for item in (fore, back) if item is not None)
+
+    if not color:
+        return char
+
+    return f"\x1b[{color}m{char}\x1b[0m"
+
+
 class ChangeBuffer:
     """A simple class that keeps track of x, y positions of changed characters."""
 
@@ -96,6 +107,7 @@ class Screen:
 
         cells: list[list[tuple[str, Color | None, Color | None]]] = []
         cells_append = cells.append
+        self._change_buffer.clear()
         change_buffer = self._change_buffer.__setitem__
 
         for y in range(height):
@@ -117,6 +129,7 @@ class Screen:
                         break
 
                     cells[y][x] = char, fore, back
+                    change_buffer((x, y), _get_styled(char, fore, back))
 
         self.width = width
         self.height = height
-- 
2.43.0


From 7a7d013d366dbe9bd312d717981d2d1ba872b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:44 +0000
Subject: [PATCH 02/33] fix: a complete redraw keeps the colors of the cells

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index ab9fc98..174e9c2 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -330,7 +330,7 @@ class Screen:
             buffer = ""
 
             for row in self._cells:
-                buffer += f"\x1b[{y};{x}H" + "".join(str(item) for item, *_ in row)
+                buffer += f"\x1b[{y};{x}H" + "".join(_get_styled(*cell) for cell in row)
                 y += 1
 
             self._change_buffer.clear()
-- 
2.43.0


From 31ad625127acca2ad441cfe856bd59fce4a1e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:46 +0000
Subject: [PATCH 03/33] fix: track the cursor and write at it when no position
 is given

---
 slate/screen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 174e9c2..8396046 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -166,6 +166,9 @@ class Screen:
             The number of cells that have been updated as a result of the write.
         """
 
+        if cursor is None:
+            cursor = self.cursor
+
         return self.write_bulk([(cursor, spans)], force_overwrite=force_overwrite, terminal_background=terminal_background)
 
     def write_bulk(
@@ -256,6 +259,8 @@ class Screen:
 
                     x, y = next_x, next_y
 
+            self.cursor = (x, y + self._scrollback_offset)
+
         changes = 0
 
         for y, line in enumerate(write_matrix):
-- 
2.43.0


From 88f6866becf5a33f313691df2f6526c7f93213c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:47 +0000
Subject: [PATCH 04/33] fix: force_overwrite registers every written character
 as a change

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 8396046..c8adc65 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -302,7 +302,7 @@ class Screen:
 
                 new = (char, fg, bg)
 
-                if new != self._cells[y][x]:
+                if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
                     colors = []
-- 
2.43.0


From a72455db6a40bb20312c774fb39ff05ab1abddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:49 +0000
Subject: [PATCH 05/33] fix: writing never modifies the cached characters of a
 span

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index c8adc65..9528333 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -215,7 +215,7 @@ class Screen:
                 background = background
                 bg_has_alpha = background is not None and background.alpha != 1.0
 
-                chars = span.get_characters(exclude_color=True, always_include_sequence=True)
+                chars = [*span.get_characters(exclude_color=True, always_include_sequence=True)]
                 chars_len = len(chars)
 
                 if i == last and y - self._scrollback_offset > self.height - 1:
-- 
2.43.0


From 92629154f47d361e1d097ad9a8e6cf6da41ada58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:51 +0000
Subject: [PATCH 06/33] fix: newlines in styled spans start a new row

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 9528333..bbfb336 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -231,7 +231,7 @@ class Screen:
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
 
-                    if char == "\n":
+                    if RE_ANSI.sub("", char) == "\n":
                         y += 1
                         continue
 
-- 
2.43.0


From 639181dc6699282ab4755e38a5b34ce06c8c2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:52 +0000
Subject: [PATCH 07/33] fix: an opaque layer hides the translucent layers below
 it

---
 slate/screen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index bbfb336..1e3f83c 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -254,6 +254,8 @@ class Screen:
                         final_fg = foreground if not empty else write_matrix[y][x][1]
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
+                    else:
+                        alpha_matrix[y][x].clear()
 
                     write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
 
-- 
2.43.0


From e099dc2a734bef490d8be92fb950191fffe75990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 08/33] fix: composite a translucent bottom layer before the
 layers on top of it

---
 slate/screen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 1e3f83c..cbc70e4 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -279,6 +279,9 @@ class Screen:
                 fg = fg or Color.white()
                 blent = bg
 
+                if blent and blent.alpha != 1.0:
+                    blent = _get_blended(terminal_background, blent, alpha_addition=0.1)
+
                 last = bg
 
                 for i, color in enumerate(alpha_stack):
-- 
2.43.0


From 2c71190facdffb2617d76c0ec656cb716ea6473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:56 +0000
Subject: [PATCH 09/33] fix: blend translucent foregrounds onto their
 background

---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index cbc70e4..0de87c2 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -300,7 +300,7 @@ class Screen:
                 bg = blent
 
                 if fg is not None and fg.alpha != 1.0:
-                    fg = _get_blended(fg, bg)
+                    fg = _get_blended(bg, fg, is_background=False)
 
                 has_newline = char.endswith("\n")
                 char = char.rstrip("\n")
-- 
2.43.0


From 51edd13d0122e769f5f0615f5f9c9ea632b09855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:43 +0000
Subject: [PATCH 10/33] fix: translucent backgrounds stay backgrounds over any
 terminal background

---
 slate/screen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 0de87c2..3d4b965 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -280,7 +280,7 @@ class Screen:
                 blent = bg
 
                 if blent and blent.alpha != 1.0:
-                    blent = _get_blended(terminal_background, blent, alpha_addition=0.1)
+                    blent = _get_blended(terminal_background, blent, True, alpha_addition=0.1)
 
                 last = bg
 
@@ -295,7 +295,7 @@ class Screen:
                         fg = _get_blended(fg, color, alpha_addition=0.1)
 
                 if blent and blent.alpha != 1.0:
-                    blent = _get_blended(terminal_background, blent, alpha_addition=0.1)
+                    blent = _get_blended(terminal_background, blent, True, alpha_addition=0.1)
 
                 bg = blent
 
-- 
2.43.0


From 60068dfe9a1f5b142f551b9a44ea466937e68ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 11/33] fix: every character of a span carries its style when
 it isn't reset

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 87c8564..bf891ab 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -441,10 +441,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 remaining_sequences = ""
 
         if self.text != "":
-            last = self.text[-1]
+            last = remaining_sequences + self.text[-1]
 
             if sequences != "" and self.reset_after:
-                last = remaining_sequences + last + "\x1b[0m"
+                last += "\x1b[0m"
 
             chars.append(last)
 
-- 
2.43.0


From 83b639aff8868051bc4e5d5631ca1d5f88b0b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:46 +0000
Subject: [PATCH 12/33] fix: mutated spans keep their reset_after setting

---
 slate/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index bf891ab..d855c49 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -551,7 +551,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def mutate(self, **options: Any) -> Span:
         """Creates a new Span object, mutated with the given options."""
 
-        config = self.attrs
+        config = {**self.attrs, "reset_after": self.reset_after}
         config.update(**options)  # type: ignore
 
         return self.__class__(**config)
-- 
2.43.0


From 23b1b51139f42a0aae2e0e5d6dffa1de3e76fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:48 +0000
Subject: [PATCH 13/33] fix: parse plain text, resets and adjacent sequences in
 styled lines

---
 slate/span.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index d855c49..d554425 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -43,7 +43,7 @@ UNSETTERS = {
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
 
-RE_ANSI_STYLES = re.compile(r"\x1b\[(?:(.*?))[mH]([^\x1b]+)(?=\x1b)")
+RE_ANSI_STYLES = re.compile(r"\x1b\[(.*?)[mH]")
 
 SVG_CHAR_WIDTH = 0.60167
 SVG_CHAR_HEIGHT = 1.265
@@ -189,6 +189,10 @@ def _parse_sequence(
 
             continue
 
+        if part in ["", "0"]:
+            options.clear()
+            continue
+
         if part in SETTERS_TO_STYLES:
             options[SETTERS_TO_STYLES[part]] = True
             continue
@@ -344,26 +348,22 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def yield_from(cls, line: str) -> Generator[Span, None, None]:
         """Generates Span objects from the given line."""
 
-        # Add trailing ESC char to allow detection by regex
-        if not line.endswith("\x1b"):
-            line += "\x1b"
+        line = line.rstrip("\x1b")
 
         options: dict[str, str | bool | Color | None] = {}
 
         index = 0
         for mtch in RE_ANSI_STYLES.finditer(line):
+            if plain := line[index : mtch.start()]:
+                yield Span(plain, **options)  # type: ignore
+
             index = mtch.end()
-            sequence, plain = mtch.groups()
 
-            if (error_part := _parse_sequence(sequence, options)) is not None:
+            if (error_part := _parse_sequence(mtch[1], options)) is not None:
                 raise ValueError(f"Could not parse {error_part!r} in {line!r}.")
 
-            yield Span(plain, **options)  # type: ignore
-
-        line = line.rstrip("\x1b")
-
         if index < len(line):
-            yield Span(line[index:])
+            yield Span(line[index:], **options)  # type: ignore
 
     @classmethod
     def first_from(cls, line: str) -> Span | None:
-- 
2.43.0


From ebbda933e03bd51dc96b183ba00fcb8963837a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:49 +0000
Subject: [PATCH 14/33] fix: unset styles by the names spans know them by

---
 slate/span.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index d554425..dd5aeb2 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -32,13 +32,12 @@ UNSETTERS = {
     "italic": "23",
     "underline": "24",
     "blink": "25",
-    "blink2": "26",
+    "fast_blink": "26",
     "invert": "27",
-    "invisible": "28",
-    "strikethrough": "29",
+    "conceal": "28",
+    "strike": "29",
     "foreground": "39",
     "background": "49",
-    "overline": "54",
 }
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
-- 
2.43.0


From 098f5e7d68592e33b79c96cf3ead5e265d9a9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:51 +0000
Subject: [PATCH 15/33] fix: parse opaque styles and alpha values in sequences

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index dd5aeb2..8f02d27 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -164,7 +164,7 @@ def _parse_sequence(
         if (
             part.isdigit()
             and int(part) in chain(range(30, 49), range(90, 108))
-            and part not in ["39", "49"]
+            and part not in ["39", "49", "98", "99"]
         ):
             in_color = True
 
@@ -172,7 +172,7 @@ def _parse_sequence(
             color_buffer += part
 
             if _is_valid_color(color_buffer) and (
-                len(parts) >= i or "." not in parts[i + 1]
+                i + 1 >= len(parts) or "." not in parts[i + 1]
             ):
                 key = (
                     "back" if _is_background_color(color_buffer) else "fore"
-- 
2.43.0


From 97faad99c8b22cb0af8d0333f5697cad48a28b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:53 +0000
Subject: [PATCH 16/33] fix: only group cells of the same color

---
 slate/span.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 8f02d27..bf9e821 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -386,7 +386,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
         for char, fg, bg in line:
             # If the previous is completely equal skip parsing to a span
-            if str(char) == prev_str:
+            if str(char) == prev_str and (fg, bg) == (
+                group.foreground,
+                group.background,
+            ):
                 group = group.mutate(text=group.text + char[-1])
                 continue
 
-- 
2.43.0


From 3646471b046764b8aedaec8965a23e2d8aeeb78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:55 +0000
Subject: [PATCH 17/33] fix: inline SVG styles and struck text are visible

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index bf9e821..44ffe2c 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -61,7 +61,7 @@ STYLE_TO_CSS = {
     "italic": ("font-style", "italic"),
     "dim": ("opacity", "0.7"),
     "underline": ("text-decoration", "underline"),
-    "strikethrough": ("text-decoration", "line-through"),
+    "strike": ("text-decoration", "line-through"),
     "overline": ("text-decoration", "overline"),
 }
 
@@ -543,7 +543,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
             + f" x='{x}'"
             + f" y='{y + font_size}'"
             + f" fill='{foreground.hex}'"
-            + (f" styles='{styles}'" if inline_styles else "")
+            + (f" style='{styles}'" if inline_styles else "")
             + (f" class='{cls}'" if cls is not None else "")
             + f">{_escape_html(self.text)}</text>"
         )
-- 
2.43.0


From 5c346a0e4b703b27f5f2c440c851037d131f6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:56 +0000
Subject: [PATCH 18/33] fix: exported SVGs have a valid background color

---
 slate/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index c9f81bf..71ff996 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -453,7 +453,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-            + f" fill='#{background_color.hex}' rx='9px'></rect>"
+            + f" fill='{background_color.hex}' rx='9px'></rect>"
         )
 
         return SVG_TEMPLATE.format(
-- 
2.43.0


From 9f9ddc9ddb77083b40da395e00e6b7e729caab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:58 +0000
Subject: [PATCH 19/33] fix: drawing doesn't write a debug file

---
 slate/terminal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 71ff996..ba4afb4 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -406,9 +406,6 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         ansi = self._screen.render(origin=self.origin, redraw=redraw)
 
-        with open("screen.txt", "w") as f:
-            f.write(ansi)
-
         self.stream.write(ansi)
         self.stream.flush()
 
-- 
2.43.0


From 50cfca808992a14adfb3c9380bc6a84d2b8842ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 20/33] fix: resize listeners may query the size

---
 slate/terminal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index ba4afb4..fcbe1c8 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -144,10 +144,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         size = get_terminal_size()
 
-        if self._previous_size is not None and size != self._previous_size:
-            self.on_resize(size)
+        previous, self._previous_size = self._previous_size, size
 
-        self._previous_size = size
+        if previous is not None and size != previous:
+            self.on_resize(size)
 
         return size
 
-- 
2.43.0


From 5d3414c41041ac9884d048755bda4fe487c2e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 21/33] fix: store and restore the terminal's title in pairs

---
 slate/terminal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index fcbe1c8..9f99c5b 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -234,7 +234,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         finally:
             self.write_control(END_ALT_BUFFER)
-            self.write_control(RESTORE_TITLE)
+            self.set_title(None)
 
             if hide_cursor:
                 self.show_cursor(True)
@@ -291,7 +291,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
             self._custom_title = None
             return
 
-        if not self._custom_title:
+        if self._custom_title is None:
             self.write_control(STORE_TITLE)
 
         self.write_control(SET_TITLE.format(title=new))
-- 
2.43.0


From 35257d197d018f9a48bd8e6e34dd067dde4f1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:03 +0000
Subject: [PATCH 22/33] fix: use the control sequences of synchronized updates

---
 slate/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 7e2db8e..b7fcdc6 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -152,8 +152,8 @@ SET_TITLE = "\x1b]0;{title}\a"
 RESTORE_TITLE = "\x1b[23;0t"
 
 QUERY_SYNCHRONIZED_UPDATE = "\x1b[?2026$p"
-BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026$h"
-END_SYNCHRONIZED_UPDATE = "\x1b[?2026$l"
+BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026h"
+END_SYNCHRONIZED_UPDATE = "\x1b[?2026l"
 
 RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
-- 
2.43.0


From b703ea0c1c2eaa29482567a9b8b36a6f28eddd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 23/33] fix: strings can be written in bulk

---
 slate/terminal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 9f99c5b..b4caffe 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -374,7 +374,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
             The number of cells that have been updated as a result of the write.
         """
         changes = self._screen.write_bulk(
-            data,
+            [
+                (cursor, Span.yield_from(line) if isinstance(line, str) else line)
+                for cursor, line in data
+            ],
             force_overwrite=force_overwrite,
             terminal_background=self.background_color.as_background()
         )
-- 
2.43.0


From a02d704fa01f37056e90771a35f6d9edc81424a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 24/33] fix: only parse known mouse events

---
 slate/core.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index b7fcdc6..a065ab3 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -163,6 +163,8 @@ RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\
 
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
 
+RE_MOUSE_EVENT = re.compile(r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])")
+
 feeder_stream = StringIO()
 
 
@@ -315,14 +317,13 @@ def parse_mouse_event(code: str) -> str | None:
             mouse:{event_name}@{event_x};{event_y}
     """
 
-    if code == "\x1b" or code.count(";") != 2:
-        return None
+    mtch = RE_MOUSE_EVENT.fullmatch(code)
 
-    sequence = code.lstrip("\x1b[<")
-    event, posx, posy_pressed = sequence.split(";")
+    if mtch is None or mtch[1] not in MOUSE_EVENTS:
+        return None
 
-    posy = posy_pressed[:-1]
-    pressed = posy_pressed[-1] == "M"
+    event, posx, posy, kind = mtch.groups()
+    pressed = kind == "M"
 
     event_name = MOUSE_EVENTS[event]
 
-- 
2.43.0


From 05ee7f19f7cb796f5bb6c43673a92eff80dbbd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:09 +0000
Subject: [PATCH 25/33] fix: tell the home and end keys apart

---
 slate/key_names.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/key_names.py b/slate/key_names.py
index 743214b..9f43ef4 100644
--- a/slate/key_names.py
+++ b/slate/key_names.py
@@ -61,8 +61,8 @@ POSIX_KEY_NAMES = {  # pylint: disable=cyclic-import
     "\x1b[1;5B": ("ctrl-down",),
     "\x1b[1;5C": ("ctrl-right",),
     "\x1b[1;5D": ("ctrl-left",),
-    "\x1b[H": ("end",),
-    "\x1b[F": ("home",),
+    "\x1b[H": ("home",),
+    "\x1b[F": ("end",),
     "\x1b[2~": ("insert",),
     "\x1b[3~": ("delete",),
     "\x1b[Z": ("shift-tab",),
-- 
2.43.0


From e503803a524dcb325559e14af229942769f87534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 26/33] fix: feeding text keeps what was fed before

---
 slate/core.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index a065ab3..dc00fba 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -383,7 +383,6 @@ def feed(text: str) -> None:
     """
 
     feeder_stream.write(text)
-    feeder_stream.seek(0)
 
 
 def _getch_posix(  # pylint: disable=used-before-assignment
-- 
2.43.0


From d45c8fc20ff65a1b781701f35989207e06559b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 27/33] fix: colors parsed from ANSI bodies produce valid
 sequences

---
 slate/color.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 7791ac0..195c3e3 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -196,12 +196,14 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         end = parts[-1]
         color_space = "eight_bit"
+        constructor = ";".join(parts)
 
         index = int(end)
 
         # Convert indices to 16-color
         if len(parts) == 1:
             color_space = "standard"
+            is_background = False
 
             if 30 <= index < 38:
                 index -= 30
@@ -210,13 +212,18 @@ class Color:  # pylint: disable = too-many-instance-attributes
                 index -= 40
                 is_background = True
 
-            if 90 <= index < 98:
+            elif 90 <= index < 98:
                 index -= 82
 
             elif 100 <= index < 108:
                 index -= 92
                 is_background = True
 
+            # Any other number is an index into the 8-bit palette
+            else:
+                color_space = "eight_bit"
+                constructor = f"38;5;{index}"
+
         if not 0 <= index < 256:
             raise ValueError(
                 "Color ANSI index must be between 0 and 256,"
@@ -228,7 +235,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
             is_background=is_background,
             alpha=alpha,
             _origin_colorspace=color_space,
-            _constructor=ansi,
+            _constructor=constructor,
         )
 
     @classmethod
-- 
2.43.0


From a7b49309352b9924c6dd67963017d0fc3af61780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 28/33] fix: every color is greyscale when NO_COLOR is set

---
 slate/color.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 195c3e3..104398c 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -287,7 +287,9 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         origin = ColorSpace(self._origin_colorspace)
 
-        if terminal.color_space >= origin and (
+        if terminal.color_space is not ColorSpace.NO_COLOR and (
+            terminal.color_space >= origin
+        ) and (
             self._constructor is not None and not self._constructor.startswith("#")
         ):
             return self._constructor
-- 
2.43.0


From 3547d224f6eb11087a97efcdbf0d886a683cc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 29/33] fix: colors follow changes of the terminal's color
 space

---
 slate/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/color.py b/slate/color.py
index 104398c..dedb7fe 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -272,7 +272,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         return WHITE
 
-    @cached_property
+    @property
     def ansi(self) -> str:
         """Returns the ANSI code that represents this color."""
 
-- 
2.43.0


From f3fe71a62e18015828b42f51f62130dff13e94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:17 +0000
Subject: [PATCH 30/33] fix: complements keep their layer, and exist for reds

---
 slate/color.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index dedb7fe..6742898 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -341,8 +341,9 @@ class Color:  # pylint: disable = too-many-instance-attributes
     def complement(self) -> Color:
         """Returns the complement of this color."""
 
-        if self.hls[0] == 0.0:
-            return Color((255, 255, 255)) if self.hls[1] == 0.0 else Color((0, 0, 0))
+        if self.hls[2] == 0.0:
+            complement = Color.white() if self.hls[1] == 0.0 else Color.black()
+            return complement.as_background(self.is_background)
 
         return self.hue_shift(0.5)
 
-- 
2.43.0


From 38fcf4ed00f23194936493107e48f2010d91d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:12 +0000
Subject: [PATCH 31/33] fix: show eight-bit colors by the nearest level of the
 color cube

---
 slate/color.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 6742898..09c103f 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -20,6 +20,8 @@ __all__ = ["Color", "color"]
 OFF_WHITE = (245, 245, 245)
 OFF_BLACK = (35, 35, 35)
 
+CUBE_LEVELS = (0, 95, 135, 175, 215, 255)
+
 
 def geometric_difference(
     first: tuple[int, int, int], second: tuple[int, int, int]
@@ -301,14 +303,17 @@ class Color:  # pylint: disable = too-many-instance-attributes
             return f"{lead};5;{min(232 + self.brightness*23, 255):.0f}"
 
         if terminal.color_space is ColorSpace.EIGHT_BIT:
-            # Normalize the color values
-            red, green, blue = (x / 255 for x in self.rgb)
+            # Find the closest level of the (non-linear) 6x6x6 color cube per channel
+            red, green, blue = (
+                min(range(6), key=lambda i, x=x: abs(CUBE_LEVELS[i] - x))
+                for x in self.rgb
+            )
 
             # Calculate the eight-bit color index
             index = 16
-            index += 36 * round(red * 5)
-            index += 6 * round(green * 5)
-            index += round(blue * 5)
+            index += 36 * red
+            index += 6 * green
+            index += blue
 
             return f"{lead};5;{index}"
 
-- 
2.43.0


From b562ebbfdec3571763d38e9aee7aca589451b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:56 +0000
Subject: [PATCH 32/33] fix: f11 and f12 on Windows crashed the read instead of
 giving their names

Scan codes arrive as single bytes; those above 0x7f are never valid UTF-8 on
their own, and the 0xe0 lead has already become an escape by the time names
are looked up.
---
 slate/core.py      | 3 ++-
 slate/key_names.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index dc00fba..528d414 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -458,7 +458,8 @@ def _getch_nt() -> str:  # no-cov
         """Ensures return value is always a `str` (not `bytes`)."""
 
         if isinstance(string, bytes):
-            return string.decode("utf-8")
+            # We get single bytes here, which don't have to be valid UTF-8 (e.g. `f11`)
+            return string.decode("latin-1")
 
         return string
 
diff --git a/slate/key_names.py b/slate/key_names.py
index 9f43ef4..b15f0c1 100644
--- a/slate/key_names.py
+++ b/slate/key_names.py
@@ -102,6 +102,6 @@ NT_KEY_NAMES = {
     "\x00B": ("f8",),
     "\x00C": ("f9",),
     "\x00D": ("f10",),
-    "\xe0\x85": ("f11",),
-    "\xe0\x86": ("f12",),
+    "\x1b\x85": ("f11",),
+    "\x1b\x86": ("f12",),
 }
-- 
2.43.0


From 07eddcd4f9bccf25f3b6b6f180f1ab1d0eed74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:34 +0000
Subject: [PATCH 33/33] fix: changing the list get_characters returns changed
 every equal span

---
 slate/span.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/slate/span.py b/slate/span.py
index 44ffe2c..53008bb 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -417,7 +417,6 @@ class Span:  # pylint: disable=too-many-instance-attributes
         if group is not None:
             yield group
 
-    @lru_cache
     def get_characters(
         self, exclude_color: bool = False, always_include_sequence: bool = False
     ) -> list[str]:
@@ -431,6 +430,15 @@ class Span:  # pylint: disable=too-many-instance-attributes
             A list of strings with the format `{sequences}{plain_character}`.
         """
 
+        # The cached list is shared by all equal spans, so it is never handed out
+        return [*self._get_characters(exclude_color, always_include_sequence)]
+
+    @lru_cache
+    def _get_characters(
+        self, exclude_color: bool, always_include_sequence: bool
+    ) -> list[str]:
+        """Implementation for `get_characters`."""
+
         sequences = self._colorless_sequences if exclude_color else self._sequences
         remaining_sequences = sequences
 
-- 
2.43.0

