"""C10: headings carry their level's markers and configured decoration."""
from gopher_render.rendering import HeaderRenderer, MarkdownHeaderRenderer, DefinitionListTermHeaderRenderer, AnsiEscapeCodeRenderer, Box
from harness.lib import convert, rstrip_lines, even, collapse, unstyled, TEXT, ANY, ODD_SPACE

ASSUMPTIONS = [
    "compared line by line without the blank space at the ends of lines (C24 decides that)",
    "source texts are cut at '<' and '&' (markup); other-script white space only inside a text",
    "upper-casing is compared for ASCII and Latin-1 letters, digits and symbols (other scripts follow str.upper)",
]
BOUNDS = {
    "quick": "levels 1 to 6, texts of 4 arbitrary code points; plain headers with every combination of spread 0 to 3 (filler of 1 or 2 characters), capitals, centring, underline and full underline, text of 1 to 9 characters, widths 9 and 14, left margin 0 to 2, padding, a root margin and an enclosing quote or list item; one styled or emphasised part; every subset of the seven settings given; headings of about 80 characters in widths 60 to 1500; headings of 2 lines",
    "thorough": "texts of 6 arbitrary code points, texts up to 14 characters in 3 widths",
}
UP = ["a-z", "A-Z", "0-9", "{}%\\#*_[]()\"'", (0xa1, 0xfe)]


def level(h, n, dom, minus):
    """Hash signs on both sides."""
    k = h.pick("level", [1, 2, 3, 4, 5, 6])
    t = h.text("t", n, dom, minus)
    h.assume(t.strip(" \t\n") != "")
    out = convert("<h%d>" % k + t + "</h%d>" % k, width=h.pick("width", [3, 40]))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\n" + "#" * k + " " + collapse(t) + " " + "#" * k + "\n", "heading")


def inlines(h):
    """Every level, with inline elements, quotes and lists around."""
    k = h.pick("level", ["h1", "h2", "h3", "h4", "h5", "h6"])
    a, b = h.text("a", 2, ["a-z"]), h.text("b", 2, ["a-z"])
    wrap = h.pick("wrap", ["", "div", "blockquote"])
    out = convert("<%s>".replace("%s", wrap) * (wrap != "") + "<" + k + ">" + a + "<em>" + b + "</em>c</" + k + ">" + ("</" + wrap + ">") * (wrap != ""))
    h.observe("out", out)
    h.reach("converted")
    hashes = "#" * int(k[1])
    want = "\n" + hashes + " " + a + "_" + b + "_c " + hashes + "\n"
    if wrap == "blockquote":
        want = "\n>" + want.replace("\n#", "\n> #")
    h.equal(out, want, "heading")


def middle(h, line, text, width, message):
    """line is text centred in the width, blank space at the end apart."""
    if len(text) >= width:
        h.equal(line, text, message)
        return
    gap = width - len(text)
    lead = len(line) - len(line.lstrip(" "))
    h.check(lead == gap // 2 or lead == gap - gap // 2, message)
    h.equal(line[lead:], text, message)


def plain(h, lo, hi, width, markdown, combos, around, dom=["a-z"]):
    """Decorated headers."""
    s = dict(
        spread=h.choose("spread", 4) if "spread" in combos else 0,
        spread_char=h.pick("spread char", [" ", ".", "-=", "x"]) if "spread" in combos else " ",
        capitalized=h.bool("capitalized") if "capitalized" in combos else False,
        centered=h.bool("centered"),
        underlined=h.bool("underlined"),
        underline_char=h.pick("underline char", ["=", "~"]) if "underline" in combos else "=",
        underline_full=h.bool("underline full"),
    )
    n = lo + h.choose("length", hi - lo + 1)
    t = h.text("t", n, dom)
    ren = {"h2": (MarkdownHeaderRenderer if markdown else HeaderRenderer, s)}
    left, pad, inner, box, prefix = 0, 0, width, None, ""
    if around:
        left = h.choose("left", 3)
        pad = h.choose("padding", 2)
        s["margin"] = [1, h.choose("right", 2), 1, left]
        s["padding"] = [0, pad, 0, pad]
        inner = width - left - s["margin"][1] - 2 * pad
        where = h.pick("where", ["root", "quote", "item"])
        if where == "root":
            box = Box(width=width + 3, margin=[0, 1, 0, 2])
            prefix = "  "
        elif where == "quote":
            box = Box(width=width + 2)
            prefix = "> "
        else:
            box = Box(width=width + 2)
            prefix = "  "
    src = "<h2>" + t + "</h2>"
    if around and where != "root":
        src = "<blockquote>" + src + "</blockquote>" if where == "quote" else "<ul><li>f" + src + "</li></ul>"
    kw = dict(width=width) if box is None else dict(box=box)
    out = convert(src, renderers=ren, **kw)
    h.observe("out", out)
    h.reach("converted")
    want = t.upper() if s["capitalized"] else t
    if s["spread"]:
        want = (s["spread_char"] * s["spread"]).join(list(want))
    if markdown:
        want = "## " + want + " ##"
    lines = out.split("\n")
    first = 1
    if around and where == "quote":
        first = 2
        h.equal(lines[1], ">", "line")
    if around and where == "item":
        h.equal(lines[1], "* f", "line")
        first = 2
        if inner < len(want):
            return      # re-wrapped by the item
    body = [l[len(prefix) + left + pad:] for l in lines[first:first + 1 + s["underlined"]]]
    for l in lines[first:first + 1 + s["underlined"]]:
        h.equal(l[:len(prefix) + left + pad], prefix + " " * (left + pad), "indent")
    if s["centered"]:
        middle(h, body[0], want, inner, "heading line")
    else:
        h.equal(body[0], want, "heading line")
    if s["underlined"]:
        line = s["underline_char"] * (inner if s["underline_full"] else len(want))
        if s["centered"]:
            middle(h, body[1], line, inner, "underline")
        else:
            h.equal(body[1], line, "underline")
        h.reach("underlined")


def styled(h, n, width):
    """Decoration of text with an emphasised or coloured part: the same columns, nothing else."""
    a, b, c = h.text("a", n, ["a-z"]), h.text("b", n, ["a-z"]), h.text("c", n - 1, ["a-z"])
    s = dict(spread=h.choose("spread", 3), capitalized=h.bool("capitalized"), centered=h.bool("centered"), underlined=True, underline_full=h.bool("full"))
    kw = dict(width=width)
    src = "<h1>" + a + "<x>" + b + "</x>" + c + "</h1>"
    out = convert(src, renderers={"h1": (HeaderRenderer, s), "x": (AnsiEscapeCodeRenderer, dict(bold=True, foreground_colour=3))}, **kw)
    bare = convert(src, renderers={"h1": (HeaderRenderer, s)}, **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(unstyled(out), bare, "same as without style")
    up = b.upper() if s["capitalized"] else b
    sep = " " * s["spread"]
    inside = sep.join(list(up))
    h.check("\x1b[1m\x1b[38;5;3m" in out, "style on")
    at = out.index("\x1b[38;5;3m") + len("\x1b[38;5;3m")
    seen = out[at:out.index("\x1b[22m")]
    h.equal(seen.strip(" "), inside, "styled part")


def defaults(h, n):
    """Settings that are not given: no decoration; an underline of the text's length made of '='."""
    given = {}
    want = dict(spread=0, spread_char=" ", capitalized=False, centered=False, underlined=False, underline_char="=", underline_full=False)
    for k, v in (("spread", 2), ("spread_char", "-"), ("capitalized", True), ("centered", True), ("underlined", True), ("underline_char", "~"), ("underline_full", True)):
        if h.bool(k):
            given[k] = want[k] = v
    t = h.text("t", n, ["a-z"])
    bare = h.bool("settings only")
    tag = h.pick("tag", ["h1", "h6", "dt"])
    width = 3 * n + 4
    if tag == "dt":
        src, sel = "<dl><dt>" + t + "</dt></dl>", "dt:nth-child(1)"
        ren = {sel: (None if bare else DefinitionListTermHeaderRenderer, given)}
    else:
        src = "<" + tag + ">" + t + "</" + tag + ">"
        ren = {tag + ":first-child" if bare else tag: (None if bare else HeaderRenderer, given)}
    out = convert(src, width=width, renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    text = t.upper() if want["capitalized"] else t
    if want["spread"]:
        text = (want["spread_char"] * want["spread"]).join(list(text))
    if bare and tag != "dt":
        text = "#" * int(tag[1]) + " " + text + " " + "#" * int(tag[1])
        h.assume(len(text) <= width)
    rows = [text]
    if want["underlined"]:
        rows.append(want["underline_char"] * (width if want["underline_full"] else len(text)))
    lines = out.split("\n")
    h.equal(lines[0], "", "top")
    h.equal(len(lines), len(rows) + 2, "number of lines")
    h.equal(lines[-1], "", "bottom")
    for got, row in zip(lines[1:], rows):
        if want["centered"]:
            middle(h, got, row, width, "line")
        else:
            h.equal(got, row, "line")


def large(h, n, markdown):
    """A long heading in a wide document, and beyond it."""
    c = h.text("c", 2, ["a-z"])
    t = " ".join([("abcdefghijklm"[i % 5:])[:i * 5 % 8 + 1] + c for i in range(n)])
    s = dict(spread=h.pick("spread", [0, 5]), spread_char=h.pick("spread char", [" ", "_"]), capitalized=h.bool("capitalized"), centered=h.bool("centered"), underlined=h.bool("underlined"), underline_full=h.bool("underline full"))
    level = h.pick("level", ["h1", "h4", "h6"])
    width = h.pick("width", [60, 300, 1500])
    out = convert("<" + level + ">" + t + "</" + level + ">", width=width, renderers={level: (MarkdownHeaderRenderer if markdown else HeaderRenderer, s)})
    h.observe("out", out)
    h.reach("converted")
    want = t.upper() if s["capitalized"] else t
    if s["spread"]:
        want = (s["spread_char"] * 5).join(list(want))
    if markdown:
        want = "#" * int(level[1]) + " " + want + " " + "#" * int(level[1])
    rows = [want] + (["=" * (width if s["underline_full"] else len(want))] if s["underlined"] else [])
    lines = out.split("\n")
    h.equal(len(lines), len(rows) + 2, "number of lines")
    for got, row in zip(lines[1:], rows):
        if s["centered"]:
            middle(h, got, row, width, "line")
        else:
            h.equal(got, row, "line")


def broken(h, n, width, markdown):
    """Headings of several lines: each is decorated as if it were alone, one underline is below all of them."""
    ts = [h.text("t%d" % i, 1 + h.choose("length %d" % i, 4), ["a-z"]) for i in range(n)]
    s = dict(spread=h.choose("spread", 3), spread_char=h.pick("spread char", [" ", ".", "-="]), capitalized=h.bool("capitalized"), centered=h.bool("centered"), underlined=h.bool("underlined"), underline_full=h.bool("underline full"))
    style = h.bool("styled")
    src = "<br>".join(["<x>" + t + "</x>" if i == 1 else t for i, t in enumerate(ts)])
    out = convert("<h3>" + src + "</h3>", width=width, renderers={"h3": (MarkdownHeaderRenderer if markdown else HeaderRenderer, s), "x": (AnsiEscapeCodeRenderer, dict(bold=style))})
    h.observe("out", out)
    h.reach("converted")
    rows = [t.upper() if s["capitalized"] else t for t in ts]
    if s["spread"]:
        rows = [(s["spread_char"] * s["spread"]).join(list(t)) for t in rows]
    if markdown:
        rows[0] = "### " + rows[0]
        rows[-1] += " ###"
    if s["underlined"]:
        rows.append("=" * (width if s["underline_full"] else max([len(t) for t in rows])))
    lines = rstrip_lines(unstyled(out)).split("\n")
    h.equal(len(lines), len(rows) + 2, "number of lines")
    for got, row in zip(lines[1:], rows):
        if s["centered"]:
            middle(h, got, row, width, "line")
        else:
            h.equal(got, row, "line")


WITNESS = {"broken": ["converted"], "large": ["converted"], "defaults": ["converted"], "level": ["converted"], "inlines": ["converted"], "plain": ["converted", "underlined"], "styled": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    out = [("level-any", "level", dict(n=4 if q else 6, dom=ANY, minus="<&" + ODD_SPACE)),
           ("level-space", "level", dict(n=6 if q else 8, dom="a \n\t", minus="")),
           ("inlines", "inlines", {})]
    hi = 9 if q else 14
    for w in (9, 14) + (() if q else (20,)):
        for md in (False, True):
            name = "%s-%d" % ("markdown" if md else "plain", w)
            out.append((name, "plain", dict(lo=1, hi=hi, width=w, markdown=md, combos=["spread", "capitalized"], around=False)))
            out.append((name + "-around", "plain", dict(lo=2, hi=4, width=w, markdown=md, combos=["underline", "capitalized"] if q else ["underline", "capitalized", "spread"], around=True)))
    out.append(("cases", "plain", dict(lo=2, hi=2 if q else 3, width=9, markdown=False, combos=["capitalized"], around=False, dom=UP)))
    out.append(("styled", "styled", dict(n=2 if q else 3, width=16)))
    out.append(("defaults", "defaults", dict(n=3)))
    for md in (False, True):
        out.append(("large-%d" % md, "large", dict(n=12 if q else 40, markdown=md)))
    for md in (False, True):
        out.append(("broken-%d" % md, "broken", dict(n=2 if q else 3, width=19, markdown=md)))
    return out
