"""Shared pieces of the harnesses: input domains, conversion helpers, reference models."""
from gopher_render import GopherHTMLParser
from gopher_render.rendering import Box, left_justify

# white space as str.isspace() sees it, beyond ASCII space, tab, LF
ODD_SPACE = "\x0b\x0c\r\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
# every code point but C0 controls, surrogates and the line separators NEL, LS and PS
ANY = ((0x20, 0x84), (0x86, 0x2027), (0x202a, 0xd7ff), (0xe000, 0x10ffff))
TEXT = ((9, 10),) + ANY                               # ... with tab and line feed
# characters with no role in markup, wrapping or white space handling: any other code point
PLAIN_MINUS = ODD_SPACE + "\x7f <&-.!?"
INK = ANY                                             # use with minus=PLAIN_MINUS: plain visible characters
WORDY = ANY                                           # use with minus=WORDY_MINUS: those and the space
WORDY_MINUS = ODD_SPACE + "\x7f<&-.!?"


def ink(h, name, n):
    """n visible characters without a role in markup or wrapping."""
    return h.text(name, n, ANY, PLAIN_MINUS)


def wordy(h, name, n):
    """n characters: plain visible ones and spaces."""
    return h.text(name, n, ANY, WORDY_MINUS)


def convert(source, **kw):
    p = GopherHTMLParser(**kw)
    p.feed(source)
    p.close()
    return p.parsed


def wrap(text, width, **kw):
    """The lines a text is wrapped to."""
    out = left_justify(text, width, **kw)
    return out.split("\n") if out else []


def visible(s):
    """The string without its white space."""
    return "".join(s.split())


def collapse(s):
    """Runs of space, tab and line feed become one space."""
    out = ""
    gap = False
    for c in s:
        if c in " \t\n":
            if not gap:
                out += " "
            gap = True
        else:
            out += c
            gap = False
    return out


def words_of(s):
    """Words separated by spaces, tabs, line feeds."""
    out = []
    cur = ""
    for c in s:
        if c in " \t\n":
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def greedy(words, width, first=0, rest=0, break_long=True):
    """Reference wrapping of single-spaced words: greedy; overlong words are cut to fill lines.

    first and rest are the numbers of spaces that prefix the first and the other lines."""
    lines = []
    cur = ""

    def room():
        return width - (rest if lines else first)

    def end():
        lines.append(" " * (rest if lines else first) + cur)

    for w in words:
        sep = 1 if cur else 0
        if len(cur) + sep + len(w) <= room():
            cur = cur + " " * sep + w
            continue
        if break_long and len(w) > room():
            # too long for this line at all: it starts in what is left of the line
            left = room() - len(cur) - sep
            if left > 0:
                cur = cur + " " * sep + w[:left]
                w = w[left:]
        if cur:
            end()
            cur = ""
        while break_long and len(w) > room():
            cur = w[:room()]
            w = w[room():]
            end()
            cur = ""
        cur = w
    if cur:
        end()
    return lines


def justified(lines, width, how):
    """Reference justification of wrapped, single-spaced lines."""
    out = []
    for i, l in enumerate(lines):
        words = [w for w in l.split(" ") if w]
        if how == "right":
            l = " " * (width - len(l)) + l
        elif how == "full" and i < len(lines) - 1 and len(words) > 1:
            indent = len(l) - len(l.lstrip(" "))
            extra = width - len(l)
            l = " " * indent + words[0]
            n = len(words) - 1
            for k in range(n):
                l += " " * (1 + extra // n + (1 if k < extra % n else 0)) + words[k + 1]
        out.append(l)
    return out


def even(line, plain, width):
    """line is plain centred to the width: spaces only, even on both sides."""
    if len(plain) >= width:
        return line == plain
    if len(line) != width:
        return False
    a = (width - len(plain)) // 2
    b = width - len(plain) - a
    return line == " " * a + plain + " " * b or line == " " * b + plain + " " * a


def sized(h, name, counts, dom, minus=""):
    """Words of symbolic lengths: counts is a list of (lo, hi)."""
    out = []
    for i, (lo, hi) in enumerate(counts):
        n = lo + h.choose("%s%d length" % (name, i), hi - lo + 1)
        out.append(h.text("%s%d" % (name, i), n, dom, minus))
    return out


def rstrip_lines(s):
    return "\n".join([l.rstrip() for l in s.split("\n")])


ESC = "\x1b"


def tokens(s):
    """Escape sequences and visible characters, in order; white space is left out."""
    out = []
    i = 0
    while i < len(s):
        if s[i] == ESC and i + 1 < len(s) and s[i + 1] == "[":
            j = i + 2
            while j < len(s) and s[j] in "0123456789;":
                j += 1
            if j < len(s) and s[j] == "m":
                out.append(s[i:j + 1])
                i = j + 1
                continue
        if s[i] not in " \t\n":
            out.append(s[i])
        i += 1
    return out


def unstyled(s):
    """The text without its escape sequences."""
    out = ""
    i = 0
    while i < len(s):
        if s[i] == ESC and i + 1 < len(s) and s[i + 1] == "[":
            j = i + 2
            while j < len(s) and s[j] in "0123456789;":
                j += 1
            if j < len(s) and s[j] == "m":
                i = j + 1
                continue
        out += s[i]
        i += 1
    return out


# ---- reference layout of blocks; a rendered block is a string that may span lines

def margined(text, margin):
    """Blank lines above and below, every line indented."""
    top, right, bottom, left = margin
    return "\n" * top + "\n".join([" " * left + l for l in text.split("\n")]) + "\n" * bottom


def bordered(text, width, margin, border, padding):
    """A block in a space of the given width: border strings and padding around its lines."""
    inner = width - margin[1] - margin[3] - len(border[1]) - len(border[3]) - padding[1] - padding[3]
    rows = [border[3] + " " * padding[3] + l + " " * (inner - len(l)) + " " * padding[1] + border[1]
            for l in [""] * padding[0] + text.split("\n") + [""] * padding[2]]
    full = width - margin[1] - margin[3]
    rows = [c * full for c in border[0]] + rows + [c * full for c in border[2]]
    return margined("\n".join(rows), margin)


# ---- reference rendering of whole documents with the default renderers
#
# A document is a list of nodes:
#   ("p", text) ("h", level, text) ("pre", text) ("div", nodes) ("quote", nodes)
#   ("ul", items) ("ol", items) with items a list of (text, nodes)
#   ("dl", entries) with entries a list of ("dt", text) or ("dd", text)
# Texts are words separated by single spaces.

def source(nodes, gap=lambda: ""):
    """The HTML source; gap() gives the white space for each place between blocks."""
    out = gap()
    for n in nodes:
        k = n[0]
        if k == "p" or k == "pre":
            out += "<" + k + ">" + n[1] + "</" + k + ">"
        elif k == "h":
            out += "<h%d>" % n[1] + n[2] + "</h%d>" % n[1]
        elif k == "div":
            out += "<div>" + source(n[1], gap) + "</div>"
        elif k == "quote":
            out += "<blockquote>" + source(n[1], gap) + "</blockquote>"
        elif k == "dl":
            out += "<dl>" + gap()
            for e, t in n[1]:
                out += "<" + e + ">" + t + "</" + e + ">" + gap()
            out += "</dl>"
        else:
            out += "<" + k + ">" + gap()
            for t, sub in n[1]:
                out += "<li>" + t + (source(sub, gap) if sub else "") + "</li>" + gap()
            out += "</" + k + ">"
        out += gap()
    return out


def hanging(text, mark, width, first):
    """A list item or definition: marker, hanging indent, no blank lines."""
    lines = []
    for i, l in enumerate(text.split("\n")):
        ind = len(l) - len(l.lstrip(" "))
        if l.strip(" "):
            if i == 0:
                lines += greedy(words_of(l), width)
            else:
                lines.append(l.rstrip(" "))       # laid out already
    if not lines:
        lines = [""]
    out = [mark + lines[0]] + [" " * len(mark) + l for l in lines[1:]]
    return ("" if first else "\n") + "\n".join(out)


MARKS = {"quote": "> ", "ul": "* ", "dd": ": ", "ol": lambda k: str(k + 1) + ". ", "pre": "    "}


def layout(nodes, width, inside=None, marks=MARKS):
    """The text the document is to become (blank space at the ends of lines apart)."""
    out = ""
    for at, n in enumerate(nodes):
        k = n[0]
        if k == "p":
            top, bottom = 1, 1
            if inside == "quote":
                top, bottom = int(at > 0), int(at < len(nodes) - 1)
            out += margined("\n".join(greedy(words_of(n[1]), width)), [top, 0, bottom, 0])
        elif k == "h":
            out += margined("#" * n[1] + " " + n[2] + " " + "#" * n[1], [1, 0, 1, 0])
        elif k == "pre":
            out += margined("\n".join([marks["pre"] + l for l in n[1].split("\n")]), [1, 0, 1, 0])
        elif k == "div":
            body = layout(n[1], width, None, marks)
            # a last empty line is a line of the div, padded like its others
            out += body + (" " if body[-1:] == "\n" else "")
        elif k == "quote":
            body = layout(n[1], width - len(marks["quote"]), "quote", marks)
            if body[-1:] == "\n":
                body = body[:-1]
            out += margined("\n".join([marks["quote"] + l for l in body.split("\n")]), [1, 0, 1, 0])
        elif k == "dl":
            body = ""
            for i, (e, t) in enumerate(n[1]):
                if e == "dt":
                    body += "\n" * (2 if i else 0) + t
                else:
                    body += hanging(t, marks["dd"], width - len(marks["dd"]), False)
            out += margined(body, [1, 0, 1, 0])
        else:
            body = ""
            for i, (t, sub) in enumerate(n[1]):
                mark = marks["ul"] if k == "ul" else marks["ol"](i)
                w = width - len(mark)
                body += hanging(t + layout(sub, w, "li", marks), mark, w, i == 0 and inside != "li")
            out += margined(body, [1, 0, 1, 0])
    return out


# ---- gopher menus

TYPES = {"html": "h", "htm": "h", "gif": "g", "jpg": "I", "jpeg": "I", "png": "I", "bmp": "I", "tiff": "I",
         "txt": "0", "csv": "0", "tsv": "0", "md": "0"}


def item_type(path):
    """The item type by the extension of the last segment of a path."""
    at = len(path)
    while at > 0 and path[at - 1] != "/":
        at -= 1
    while at < len(path) and path[at] == ".":
        at += 1                                       # a hidden file
    dot = len(path)
    while dot > at and path[dot - 1] != ".":
        dot -= 1
    if dot == at:
        return "1"
    ext = path[dot:].lower()
    for e in TYPES:
        if ext == e:
            return TYPES[e]
    return "9"


def without(s, chars):
    return "".join([c for c in s if c not in chars])


def menu_text(s):
    return "".join([" " if c in "\t\n\r" else c for c in s])


# ---- a long document

def book(h, n):
    """Nodes of a document with many and deeply nested parts; a letter here and there is symbolic."""
    c = h.text("letter", 2, ["a-z"])

    def prose(k, step=7):
        return " ".join([("abcdefghijklmnopqr"[i % 5:])[:i * step % 13 + 1] + (c if i % 11 == 3 else "") for i in range(k)])
    deep = [("p", prose(30)), ("p", prose(12, 5))]
    for _ in range(n // 2):
        deep = [("quote", deep)]
    tree = [(prose(9), []), (c, [])]
    for i in range(n // 2):
        tree = [("x" + c, []), (prose(6), [("ul" if i % 2 else "ol", tree)]), (prose(14, 5), [])]
    out = [("h", 1 + i % 6, "head " + c + str(i)) for i in range(6)]
    out += [("p", prose(10 * n)), ("ul", [(str(i) + prose(i + 1), []) for i in range(n)]), ("ol", [(prose(i % 4 + 1, 5) + str(i), []) for i in range(n + 2)])]
    out += deep + [("ul", tree), ("pre", "\n".join(["  " * (i % 5) + prose(5 * i + 1) for i in range(n)]))]
    out += [("dl", [(("dt", "term " + c) if i % 3 == 0 else ("dd", prose(6 * i))) for i in range(n)]), ("div", [("div", [("p", prose(25))])]), ("p", c)]
    return out
