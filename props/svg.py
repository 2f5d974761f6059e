"""A small reader of the SVG / CSS text slate exports, over symbolic strings."""

import re

NAMES = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'", "nbsp": "\u00a0"}




class Bad(Exception):
    pass




def scan(inp, text):
    """[(tag, attributes {name: [elements]}, content [elements])] in document order."""
    el = inp.elements(text)
    out = []
    i, n = 0, len(el)

    def plain(a, b):
        return "".join(x if not inp.is_sym(x) and isinstance(x, str) else "\0" for x in el[a:b])

    flat = plain(0, n)
    while True:
        i = flat.find("<", i)
        if i < 0:
            break
        m = re.compile(r"<(/?)([a-z]+)").match(flat, i)
        if m is None:
            raise Bad(flat[i:i + 20])
        tag = m[2]
        j = m.end()
        attrs = {}
        while True:
            while flat[j:j + 1].isspace():
                j += 1
            if flat[j:j + 1] == ">":
                break
            a = re.compile(r"([-:A-Za-z]+)=(['\"])").match(flat, j)
            if a is None:
                raise Bad(flat[j:j + 30])
            end = flat.find(a[2], a.end())
            if end < 0:
                raise Bad("unterminated attribute")
            if a[1] in attrs:
                raise Bad("duplicate attribute " + a[1])
            attrs[a[1]] = el[a.end():end]
            j = end + 1
        if not m[1]:
            end = flat.find("<", j)
            out.append((tag, attrs, el[j + 1:end if end >= 0 else n]))
        i = j + 1
    return out


def join(parts):
    out = ""
    for p in parts:
        out = out + p
    return out


def unescape(inp, el):
    """The characters a reader of the SVG sees: a list of one-character strings."""
    out = []
    i = 0
    while i < len(el):
        e = el[i]
        if not inp.is_sym(e) and e == "&":
            k = i + 1
            name = ""
            while k < len(el) and not (not inp.is_sym(el[k]) and el[k] == ";"):
                if inp.is_sym(el[k]):
                    raise Bad("symbolic entity")
                name += el[k]
                k += 1
            if name.startswith("#x"):
                out.append(chr(int(name[2:], 16)))
            elif name.startswith("#"):
                out.append(chr(int(name[1:])))
            elif name in NAMES:
                out.append(NAMES[name])
            else:
                raise Bad("unknown entity " + name)
            i = k + 1
            continue
        out.append(e)
        i += 1
    return out


def markup_free(inp, el):
    """No symbolic element of this text could be read as markup."""
    return inp.all([inp.not_(inp.any([e == "<", e == "&", e == ">"])) for e in el if inp.is_sym(e)])


def number(inp, el):
    s = join(el)
    return float(s)


def same_hex(inp, el, rgb):
    """The attribute is #RRGGBB of rgb, in either case."""
    if len(el) != 7 or inp.is_sym(el[0]) or el[0] != "#":
        return False
    conds = []
    up = f"{rgb[0]:02X}{rgb[1]:02X}{rgb[2]:02X}"
    low = f"{rgb[0]:02x}{rgb[1]:02x}{rgb[2]:02x}"
    for a, b, c in zip(el[1:], inp.elements(up), inp.elements(low)):
        conds.append(inp.any([a == b, a == c]))
    return inp.all(conds)


def css_rules(inp, text):
    """{class: {property: [elements]}}, later rules win."""
    el = inp.elements(text)
    flat = "".join(x if not inp.is_sym(x) and isinstance(x, str) else "\0" for x in el)
    out = {}
    for m in re.finditer(r"\.([-_A-Za-z0-9]+)\s*\{([^}]*)\}", flat):
        d = out.setdefault(m[1], {})
        d.update(declarations(el, flat, m.start(2), m.end(2)))
    return out


def declarations(el, flat, a, b):
    d = {}
    for m in re.compile(r"\s*([-a-z]+)\s*:\s*([^;]*?)\s*(?:;|$)").finditer(flat[:b], a):
        d[m[1]] = el[m.start(2):m.end(2)]
    return d


def inline(inp, el):
    flat = "".join(x if not inp.is_sym(x) and isinstance(x, str) else "\0" for x in el)
    return declarations(el, flat, 0, len(flat))


def same_space(inp, a, b):
    """Character equality, a space may be a no-break space."""
    return inp.any([a == b, inp.all([a == "\u00a0", b == " "])])
