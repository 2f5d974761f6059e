import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    P.append(d)

SC, SP, CO, CR, TE = "slate/screen.py", "slate/span.py", "slate/color.py", "slate/core.py", "slate/terminal.py"

p("C01", "After every draw the terminal shows exactly the screen's content",
  "After any history of writes, bulk writes, clears and resizes, drawing the screen (incrementally or completely) leaves every cell of the terminal showing the character, styles and colours last written to it, or the fill character if none was. The emitted sequences are valid, position the cursor only inside the screen (shifted by the origin) and leave nothing undrawn from earlier steps. Writes starting below the last row (scrolling) are excluded.",
  ["histories", "inputs"], "every history of writes/bulk writes/clears/resizes/draws/redraws, every text, position, look and origin",
  "The tests draw a handful of fixed histories and mostly compare counts or strings; which cells an incremental draw must repeat depends on the whole history since the last draw.",
  [SC, SP], [("write_bulk and the change buffer", "slate/screen.py: Screen.write_bulk, ChangeBuffer"), ("render", "slate/screen.py: Screen.render"), ("resize/clear", "slate/screen.py: Screen.resize, Screen.clear"), ("per-character sequences", "slate/span.py: Span.get_characters")],
  ["the string returned by a render, fed to a reference terminal"], [("cells", "what each cell should show", "slate/screen.py: Screen._cells"), ("change buffer", "what the next draw must emit", "slate/screen.py: Screen._change_buffer")])
p("C02", "Change counts are exact and draws emit only what changed",
  "A write reports every cell whose character or look it changed, only cells it wrote, and every written cell when overwriting is forced; the same write again reports and draws nothing. A draw after it prints exactly the reported cells, each once, and a draw without changes prints no characters.",
  ["histories", "inputs"], "every preparatory history, every write or bulk write after it, forced or not",
  "Tests count changes for a few fixed texts; the count depends on the previous content of every covered cell.",
  [SC], [("diff against the stored cell", "slate/screen.py: Screen.write_bulk"), ("change buffer", "slate/screen.py: ChangeBuffer, Screen.render")], ["return value of a write", "characters printed by a draw"])
p("C03", "Written characters land in the right cells: wrapping, newlines, clipping",
  "The characters of a write fill consecutive cells from the start position, continuing at the start of the next row at the right edge, a newline moving one row down in the same column. What does not fit is dropped, a write that starts outside the screen changes nothing, and every other cell keeps its content. Spans starting below the last row (scrolling) are excluded.",
  ["inputs"], "every text with newlines, split over spans, every start position inside and next to the screen, every small screen size",
  "Tests write short texts at two or three positions; edge cells, newline and wrap combinations and out-of-range starts are not sampled.",
  [SC, SP], [("position arithmetic", "slate/screen.py: Screen.write_bulk"), ("splitting into characters", "slate/span.py: Span.get_characters")], ["cells shown after a draw"])
p("C04", "Writes without a position continue exactly where the last one ended",
  "After each write the cursor is the position right behind the last character (wrapped to the next row at the right edge) or, if there is none, the write's position, after a bulk write that of its last item; clearing moves it to the top left, setting it sets it, resizing keeps it. A write without a position starts at the cursor.",
  ["histories", "inputs"], "every history of positioned and continued writes, bulk writes, clears, resizes and cursor settings",
  "Tests read the cursor after one or two writes.", [SC, TE], [("cursor update", "slate/screen.py: Screen.write_bulk, Screen.clear"), ("cursor property", "slate/terminal.py: Terminal.cursor")], ["the cursor attribute", "cells shown after a draw"])
p("C05", "A bulk write of opaque layers equals its single writes in order",
  "A bulk of writes without translucent colours leaves the screen showing what the same writes one after the other leave: where they overlap the last one wins, and cells none of them covers keep their content. It reports the number of cells that differ from before, and an incremental draw and a complete one afterwards show the same.",
  ["inputs", "histories"], "every list of items, with every overlap, over a filled or written screen",
  "Tests use one or two bulks with fixed positions; every overlap pattern and order needs to agree with sequential writing.", [SC], [("write matrix", "slate/screen.py: Screen.write_bulk")], ["cells shown after a draw", "return value"])
p("C06", "Translucent layers are composited from the bottom up over what lies below",
  "A translucent background in a bulk write is blended, by its alpha (or up to 0.1 more), over the colour of the layers written before it in that bulk, or over the terminal's background when it is the lowest. Below a blank translucent layer the text underneath stays visible, tinted by the layer; a layer with text, or marked opaque, covers it, and an opaque layer hides everything below. Translucent text is blended over its background and blended channels never leave the range between the two colours.",
  ["inputs"], "every RGB colour of every layer, text and terminal background; several alphas and stackings",
  "Tests check one blend; the compositing depends on colours, order, blankness and opacity of each layer.", [SC, CO], [("alpha stack", "slate/screen.py: Screen.write_bulk, _get_blended"), ("blend", "slate/color.py: Color.blend")], ["background and text colour shown per cell"])
p("C07", "Resizing keeps what fits and fills the rest; clearing erases everything",
  "After a resize every cell inside both the old and the new size shows what it showed, in its colours and styles, every new cell shows the fill character, and the next draw (incremental or complete) shows the whole screen; without keeping, all cells show the fill character. Clearing fills every cell and forgets all earlier content.",
  ["histories", "inputs"], "every pair of sizes, every content, every fill, chains of resizes and clears",
  "Tests resize once with plain text.", [SC], [("resize", "slate/screen.py: Screen.resize"), ("clear", "slate/screen.py: Screen.clear")], ["cells shown after a draw"])
p("C08", "Spans are immutable values: slicing, splitting and mutating keep the rest",
  "Indexing and slicing a span gives the same characters as slicing its text, iterating and splitting give its text's parts, all in the span's own look; mutating (and every shorthand for it) changes only the named attributes. The original span is never changed, not even by changing the lists and dictionaries it hands out; equal attributes give equal spans, its length is its text's, and a text is in the span exactly when it is in its text.",
  ["inputs"], "every text, combination of styles, colours, hyperlink; every index and slice",
  "Tests slice two spans; attributes lost by one of the deriving operations show only with that attribute set.", [SP], [("derivation", "slate/span.py: Span.mutate, __getitem__, split, as_*"), ("attributes", "slate/span.py: Span.attrs")], ["attributes and text of the result"])
p("C09", "Printing a span shows its text in its look and leaks nothing behind it",
  "Printing a span shows exactly its characters, each with exactly its styles and colours, as valid sequences; text printed afterwards is unstyled unless the span was told not to reset, and a hyperlink is opened before and closed after the text. The per-character form shows the same as the whole.",
  ["inputs"], "every text, style combination, colour pair, reset setting and hyperlink",
  "Tests print single styles; combinations (and what leaks behind them) are not covered.", [SP, CO], [("sequence generation", "slate/span.py: Span.__post_init__, _generate_sequences"), ("characters", "slate/span.py: Span.get_characters")], ["str(span) fed to a reference terminal"])
p("C10", "Parsing a styled line gives spans that show the same line",
  "For every line of text and graphic-rendition sequences (styles, their unset codes, resets, 16, 256 and RGB colours, several parameters per sequence, sequences in a row), the spans parsed from it print exactly the characters of the line, each in the look a terminal would give it. No empty spans are produced, and parsing printed spans gives back their look.",
  ["inputs", "programs"], "every line made of text and SGR sequences within the bounds",
  "Tests parse a few lines; the parser is a small state machine whose state depends on all earlier sequences.", [SP, CO], [("parser", "slate/span.py: Span.yield_from, _parse_sequence"), ("colour codes", "slate/color.py: Color.from_ansi")], ["the parsed spans' look"])
p("C11", "width() counts exactly the cells a text occupies",
  "The width of a string is the number of characters a terminal prints for it: style sequences, cursor positions and hyperlinks count nothing, everything else counts one. The width of a span is the width of its printed form.",
  ["inputs"], "every mix of text and sequences within the bounds",
  "Tests measure a few strings.", [CR], [("stripping", "slate/core.py: width, RE_ANSI")], ["the returned number"])
p("C12", "The SVG export shows the screen: characters, places, colours, styles",
  "The exported image contains each cell's character exactly once, at the cell's place, in the cell's text colour over the cell's background (the given defaults where there is none, swapped when inverted) and with its bold, dim, italic, underline and strike styles, special characters escaped. A single span's image, with styles inline or in its class, shows the span the same way (its styles name its own text colour), and the image is as large as the screen with its margins.",
  ["inputs"], "every content, colours, styles, defaults and some font sizes",
  "Tests compare one golden file.", [SC, SP, TE], [("grouping", "slate/span.py: Span.group"), ("span image", "slate/span.py: Span.as_svg, get_svg_styles"), ("screen and terminal export", "slate/screen.py: export_svg_with_styles; slate/terminal.py: export_svg")], ["the SVG text, interpreted"])
p("C13", "A colour means the same RGB value whichever way it is described",
  "A colour described as a triplet, a hex string (either case, with or without alpha), a CSS or slate name, a 16-colour, 8-bit or RGB sequence has the RGB value, layer and alpha that notation defines, and its hex form describes the same colour again. Values out of range, and RGB sequences that are none of the two layers', are refused; switching the layer or the alpha changes nothing else.",
  ["inputs"], "every triplet, hex string, name, index and code, both layers, alphas in 1/100ths",
  "Tests convert a dozen values.", [CO, "slate/color_info.py"], [("descriptions", "slate/color.py: color, Color.from_hex, Color.from_ansi"), ("tables", "slate/color_info.py")], ["rgb, alpha, is_background, hex"])
p("C14", "A printed colour is a valid sequence, the best the terminal can show",
  "The sequence printed for a colour is valid, of the colour's layer and within what the terminal's colour space can show: the colour itself in true colour, the nearest colour-cube entry with 256 colours, the nearest of 16 (by weighted distance), a grey of its brightness without colours. It follows later changes of the colour space, and colours given as sequences are printed as given where the space allows it.",
  ["inputs", "configurations", "histories"], "every RGB colour in true colour and 256 colours, a dense grid otherwise; every switch of colour spaces",
  "Tests print three colours per space.", [CO, CR], [("downgrade", "slate/color.py: Color.ansi"), ("distance", "slate/color.py: geometric_difference")], ["the printed sequence"])
p("C15", "Blending, lightening and darkening stay between the two colours",
  "Blending by 0 gives the first colour, by 1 the second, and in between each channel lies between the two, moves the right way as the amount grows and is the exact mix up to rounding down by one. Lightening and darkening blend with white and black by the shades times the step, saturate there, and the layer is the first colour's (or the one asked for).",
  ["inputs"], "every pair of colours, amounts in 1/10ths (1/100ths), several step sizes",
  "Tests blend two pairs.", [CO], [("blend", "slate/color.py: Color.blend, lighten, darken")], ["rgb and layer of the result"])
p("C16", "Luminance, brightness and contrast match the W3C definitions",
  "A colour's luminance is the W3C relative luminance, growing with every channel from 0 for black to 1 for white, and its brightness the matching perceived lightness between 0 and 1. The contrast colour is one of the two given (or the defaults off-white and off-black), is on the same layer, and has a contrast ratio of at least 3:1 with the colour; dark colours get the light one and light colours the dark one.",
  ["inputs"], "every RGB triplet, both layers",
  "Tests check two colours.", [CO], [("formulas", "slate/color.py: calculate_luminance, calculate_brightness, calculate_contrast")], ["luminance, brightness, contrast"])
p("C17", "Hue shifts, complements and palettes rotate the hue and keep the rest",
  "Shifting the hue rotates it by the given share of the circle and keeps lightness, saturation (up to rounding of channels) and layer; a full turn or none keeps the colour, opposite shifts cancel. The complement is the half turn (black and white for each other, black for greys), and the triadic, tetradic and analogous groups start with the colour and consist of its documented rotations.",
  ["inputs"], "every value of each channel over a grid of the others, both layers, several amounts",
  "Tests check two colours.", [CO], [("hue arithmetic", "slate/color.py: Color.hue_shift, complement, calculate_*_group")], ["rgb and layer of the results"])
p("C18", "Mouse reports are decoded to the event, modifiers and cell they encode",
  "Every SGR mouse report of a button slate knows is decoded to the button or wheel direction, the kind (click, release, drag, hover, scroll), the modifiers and the exact column and row it encodes; anything that is not such a report, even by one character, is no mouse event. When several reports arrive at once the last one is reported.",
  ["inputs"], "every button code, coordinate pair, press and release; every single-character corruption",
  "Tests decode a handful of reports.", [CR], [("table", "slate/core.py: MOUSE_EVENTS, _build_event"), ("decoder", "slate/core.py: parse_mouse_event, getch")], ["the decoded name"])
p("C19", "Reading keys loses and repeats nothing and leaves the terminal as it was",
  "Successive raw reads of the standard input, or of another given terminal, hand over all its input exactly once, in order and in whole characters, however the bytes arrive; text fed by the program comes first, in order and once. After every read, also one that fails at any byte, the terminal's settings are those from before; an interrupt is reported as ctrl-c, other failures are passed on, neither garbles what is typed afterwards, and without a terminal the result is the empty key at once.",
  ["inputs", "schedules", "fault_sequences"], "every Unicode text within the bounds, every readiness schedule, every failing byte, every interleaving of feeds and reads",
  "Reading is excluded from the tests' coverage: it needs a terminal, schedules and failing reads.", [CR], [("read loop", "slate/core.py: _getch_posix"), ("feeding", "slate/core.py: feed"), ("interrupts", "slate/core.py: getch")], ["returned keys", "terminal attributes"])
p("C20", "Keys have their names, anything else is itself",
  "Each control character and xterm key sequence (arrows with modifiers, editing and function keys) is reported under its documented name(s); every other character or unknown sequence is reported unchanged, and so is everything in raw mode. A key equals each of its names and nothing else, prints as the first and lists all.",
  ["inputs"], "every single character, every key sequence, every short unknown sequence",
  "Tests do not read keys.", [CR, "slate/key_names.py"], [("names", "slate/key_names.py: POSIX_KEY_NAMES"), ("Key", "slate/core.py: Key, getch")], ["the returned key"])
p("C21", "Leaving a terminal mode restores the terminal, however the block ends",
  "Inside their blocks the alternate buffer, hidden cursor, mouse reporting, silent echo and synchronized update are on, and once the block ends (normally, by any exception, by an early return, or because the output failed once inside) they are off again and the cursor visible. The exception that ended the block reaches the caller unchanged and nesting different modes restores each; a mode leaves the others as they were set before. The plain switches for cursor, mouse reports and echo set just that mode, on unless told otherwise.",
  ["fault_sequences", "crash_points", "programs"], "every mode and pair of modes, every way a block can end, a failure of every output operation",
  "These are excluded from the tests' coverage.", [TE, CR], [("context managers", "slate/terminal.py: alt_buffer, no_echo, report_mouse, batch"), ("sequences", "slate/core.py: START_ALT_BUFFER ... END_SYNCHRONIZED_UPDATE")], ["the bytes written, interpreted", "echo setting"])
p("C22", "The title is the one set last, and the original once it is given back",
  "After any sequence of title changes the terminal shows the title set last; after a reset, or on leaving the alternate buffer, it shows the title it had before the first change, and the terminal's stack of saved titles is as it was.",
  ["histories"], "every history of title changes, resets and alternate-buffer visits",
  "Tests set no titles.", [TE, CR], [("store/restore", "slate/terminal.py: set_title"), ("sequences", "slate/core.py: STORE_TITLE, RESTORE_TITLE")], ["the bytes written, interpreted"], [("custom title", "whether the original title is stored", "slate/terminal.py: Terminal._custom_title")])
p("C23", "The terminal knows its size and tells listeners about every change once",
  "Asking for the size, width or height gives the terminal's size at that moment; when it differs from the last answer every listener is told exactly once, with the new size, before the answer is given, and otherwise nobody is told. Listeners may ask for the size themselves, and after a change the screen has the new size, so that the next draw shows what still fits.",
  ["histories", "schedules"], "every history of size changes, queries, writes and draws",
  "Tests use a fixed size.", [TE, SC], [("size tracking", "slate/terminal.py: Terminal.size"), ("screen resize", "slate/terminal.py: Terminal.__post_init__")], ["answers and calls of listeners", "cells shown"])
p("C24", "Events reach every listener once, in order, and report whether one handled it",
  "Emitting an event calls every listener added since the last clear exactly once per addition, in the order they were added, with the data, whatever the others answer, and the result is whether at least one answered True. An event is true exactly while it has listeners, separate events share none, exceptions of listeners reach the emitter, and what cannot be called is refused.",
  ["histories"], "every history of adding, clearing and emitting within the bounds, every answer",
  "Tests emit to one or two listeners.", ["slate/event.py"], [("Event", "slate/event.py: Event")], ["calls of listeners", "result of emitting"])
p("C25", "The colour space is the one the environment or the program names",
  "The colour space is the one SLATE_COLORSYS names (in any letter case; unknown names are refused), otherwise none if NO_COLOR is set at all, otherwise true colour, 256 or the 16 standard colours by COLORTERM, or TERM where that is empty. A space forced on a terminal object is used until released, listeners being told each time, and affects no other terminal object. Spaces are totally ordered, true colour above 256 colours above the rest, and compare with their names alike.",
  ["configurations", "histories"], "every combination of the four variables; every history of forcing and releasing",
  "Tests set one variable at a time.", [CR, TE], [("detection", "slate/core.py: get_color_space"), ("order", "slate/core.py: ColorSpace"), ("forcing", "slate/terminal.py: Terminal.color_space")], ["the colour space"])
p("C26", "The terminal's own colours and pixel size are its answers, or the fallback",
  "The default foreground and background are the colours the terminal answers to the query (the upper byte of each channel), asked once and remembered; a garbled or cut answer, or no terminal, gives the documented #dedede and #141414. The pixel size is (width, height) as answered, otherwise (also when the output is closed) the fallback, and synchronized updates count as supported exactly when the terminal reports the mode set or reset. Queries leave echo, settings and timers as they were.",
  ["inputs", "fault_sequences"], "every well-formed answer, every short garbled one, every cut or one-character corruption, no answer",
  "Excluded from the tests' coverage: they need a terminal that answers.", [CR, TE], [("colour query", "slate/core.py: get_default_color"), ("size query", "slate/terminal.py: resolution"), ("mode query", "slate/terminal.py: supports_synchronized_update")], ["returned values", "bytes written"])
p("C27", "Nothing reaches the terminal before a draw, and a draw shows everything",
  "Writing to, clearing or moving the cursor of the terminal object emits nothing; a draw emits everything changed since the last one, at the terminal's origin, and has flushed it when it returns. Styled strings and spans, alone or in bulk, show and count the same; translucent backgrounds are blended over the terminal's own background. A failed draw raises, and a complete redraw afterwards shows everything; control sequences are passed through unchanged, and no files or processes are touched.",
  ["histories", "inputs", "fault_sequences"], "every history of terminal operations within the bounds, every origin, every failing output operation",
  "Tests call the terminal object with two fixed texts.", [TE, SC, SP], [("facade", "slate/terminal.py: write, write_bulk, draw, clear, write_control")], ["bytes written, interpreted"])
p("C28", "A timed read gives what came in time or the default, and leaves no timer",
  "A timed read returns the same key as an untimed one if input (typed or fed) came within the given time, otherwise the given default; either way, and when the read fails, no timer stays armed, the terminal's settings are as before and later reads are not limited. A timed block is ended silently when its time is up, and other exceptions pass through it.",
  ["schedules", "fault_sequences", "inputs"], "every input, default and duration within the bounds; input in time or never; failures at every byte",
  "Excluded from the tests' coverage: it needs signals and a terminal.", [CR], [("timer", "slate/core.py: timeout"), ("timed read", "slate/core.py: getch_timeout")], ["returned value", "timer and terminal state"])
p("C29", "The command line tools print what the terminal is and what was typed",
  "`size` prints the terminal's columns and rows; `getch` waits for one key and prints its names (or with --raw, the sequence itself as a literal), characters quoted; `debug` prints, as one aligned table, the environment variables, size, colour space, synchronized update support and the terminal's own colours, each shown in itself over its contrast, and samples of the styles in themselves. Unknown commands and options are refused without doing anything, and each tool leaves the terminal as it was.",
  ["inputs", "configurations"], "every key, size, setting of the variables and terminal colours within the bounds",
  "No test runs the tools.", ["slate/__main__.py", CR, TE], [("tools", "slate/__main__.py: run_size, run_getch, run_debug, main")], ["the text printed, interpreted", "exit status", "terminal state"])
p("C30", "On Windows, a read takes everything typed as one key, without waiting",
  "On Windows a read, timed or not, gives the empty key at once when nothing was typed, and otherwise takes everything pending as one key: arrows, escape, return, backspace and F1-F12 by their names, any other text as itself; a raw read gives the bytes, with an escape in place of the 0xE0 lead. What is typed later is the next key. Without a console, or when the given stream is none, nothing is read, and echo, timers and processes are left alone.",
  ["inputs", "schedules"], "every pending input within the bounds, typed at once or in two goes",
  "The tests run on POSIX only.", [CR, "slate/key_names.py"], [("console read", "slate/core.py: _getch_nt, getch"), ("names", "slate/key_names.py: NT_KEY_NAMES")], ["returned value", "console and terminal state"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), [x["id"] for x in P if x["statement"].count(". ") > 2])
T = {"C16": "solver-based symbolic execution of the real code; float formulas as exact tables over the 256 channel values (z3)",
     "C17": "solver-based symbolic execution of the real code; float formulas as exact tables (z3)"}
checks = []
for x in P:
    i = x["id"]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "technique": T.get(i, "solver-based bounded symbolic execution of the real code (z3), counterexamples replayed on the real code"),
                   "level": "model_checking",
                   "level_note": "NOTE"})
import re, importlib
def get(f, k):
    s = open(f).read()
    m = re.search(r'^%s = (\(.*?\)|".*?")\n(?=[A-Z])' % k, s, re.S | re.M)
    return eval(m.group(1))
for c in checks:
    f = f"/verif/props/{c['property'].lower()}.py"
    c["level_note"] = "Exhaustive within bounds: " + get(f, "BOUNDS") + ". Outside: " + get(f, "OUTSIDE") + "."
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
