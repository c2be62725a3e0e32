"""C07: margins and padding produce exactly the configured blank space."""
from gopher_render.rendering import Box, BlockRenderer, ParagraphRenderer, HeaderRenderer, BlockQuoteRenderer, PreRenderer
from harness.lib import convert, bordered, margined, source, layout, rstrip_lines, greedy

ASSUMPTIONS = [
    "compared line by line without the blank space at the ends of lines (C24 decides that)",
    "the parser's box has margins only; blank lines inside a list item are not part of the property (items are compact)",
]
BOUNDS = {
    "quick": "2 sibling blocks, margins 0 to 2 above and below, 0 to 1 beside, padding 0 to 3 (0 to 2 with two blocks); nesting of 2; root margins 0 to 2; any of 4 kinds of white space between blocks; documents of 3 default blocks of 9 kinds in any order; margins and padding of 11 lines and columns, rows of 20 blocks; root margins of 13",
    "thorough": "as quick with 3 siblings, margins 0 to 3, nesting of 3 and 4 default blocks",
}
CLS = {"p": (ParagraphRenderer, "p"), "div": (BlockRenderer, "div"), "h": (HeaderRenderer, "h2"),
       "quote": (BlockQuoteRenderer, "blockquote"), "pre": (PreRenderer, "pre")}
GAPS = ["", "\n", " \n\t ", "\n\n  \n"]
NOBORDER = ["", "", "", ""]


def put(k, text, width, m, p):
    if k == "quote":
        text = "\n".join(["> " + l for l in text.split("\n")])
    if k == "pre":
        text = "\n".join(["    " + l for l in text.split("\n")])
    return bordered(text, width, m, NOBORDER, p)


def siblings(h, kinds, hi, padded, scale=1, width=30):
    """Sibling blocks with any margins, any white space in between."""
    ren = {}
    want = ""
    top = 2 if scale > 1 else 4 if len(kinds) == 1 else 3
    gap = h.pick("gap", GAPS)
    src = gap
    for i, k in enumerate(kinds):
        cls, tag = CLS[k]
        m = [h.choose("top %d" % i, hi + 1), h.choose("right %d" % i, 2) if padded else 0, h.choose("bottom %d" % i, hi + 1), h.choose("left %d" % i, 2)]
        p = [h.choose("padding top %d" % i, top), 1, h.choose("padding bottom %d" % i, top), h.choose("padding left %d" % i, top)] if padded else [0, 0, 0, 0]
        m, p = [scale * v for v in m], [scale * v for v in p]
        text = "t%d<br>u" % i
        ren["." + "abcdefghijkl"[i]] = (cls, dict(margin=m, padding=p))
        src += "<%s class='%s'>%s</%s>" % (tag, "abcdefghijkl"[i], text, tag) + gap
        want += put(k, "t%d\nu" % i, width, m, p)
    out = convert(src, width=width, renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(want), "layout")


def nested(h, kinds, hi):
    """Blocks in blocks, white space around the inner ones."""
    ren = {}
    gap = h.pick("gap", GAPS)
    width = 40
    levels = []
    for i, k in enumerate(kinds):
        cls, tag = CLS[k]
        m = [h.choose("top %d" % i, hi + 1), 0, h.choose("bottom %d" % i, hi + 1), h.choose("left %d" % i, hi + 1)]
        p = [h.choose("padding top %d" % i, 2), 0, 0, 1]
        ren["." + "abcdefghijkl"[i]] = (cls, dict(margin=m, padding=p))
        levels.append((k, tag, m, p))
    for sel in ("blockquote > p:first-child", "blockquote > p:last-child", "blockquote > p:last-child:first-child"):
        ren[sel] = (None, {})
    doc, want = "x y", "x y"
    widths = [width]
    for k, tag, m, p in levels:
        widths.append(widths[-1] - m[1] - m[3] - p[1] - p[3] - (2 if k == "quote" else 0))
    for i in range(len(levels) - 1, -1, -1):
        k, tag, m, p = levels[i]
        doc = "<%s class='%s'>" % (tag, "abcdefghijkl"[i]) + doc + "</%s>" % tag
        if i:
            doc = gap + doc + gap
        if k == "quote" and want[-1:] == "\n":
            want = want[:-1]
        want = put(k, want, widths[i], m, p)
    out = convert(doc, width=width, renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(want), "layout")


def root(h, hi, optimise, scale=1):
    """The parser's own box."""
    m = [scale * h.choose(s, hi + 1) for s in ("top", "right", "bottom", "left")]
    width = h.pick("width", [12, 30] if scale == 1 else [60])
    gap = h.pick("gap", GAPS)
    nodes = [("p", "aaa bbb cc"), ("ul", [("xx yy", []), ("z", [])]), ("quote", [("p", "q")])]
    nodes = nodes[h.choose("first", 3):]
    out = convert(source(nodes, lambda: gap), box=Box(width=width, margin=m), optimise=optimise)
    h.observe("out", out)
    h.reach("converted")
    want = layout(nodes, width - m[1] - m[3])
    body = "".join([" " * m[3] + l for l in want.splitlines(True)])
    want = "\n" * m[0] + body + "\n" * m[2]
    h.equal(out if optimise else rstrip_lines(out), rstrip_lines(want), "layout")


NODES = {
    "p": ("p", "aa bb"), "h": ("h", 2, "head"), "pre": ("pre", "k\n l"), "div": ("div", [("p", "in")]),
    "quote": ("quote", [("p", "qq")]), "quote2": ("quote", [("p", "q1"), ("p", "q2")]),
    "ul": ("ul", [("one", []), ("two", [])]), "ol": ("ol", [("one", []), ("two", [])]),
    "dl": ("dl", [("dt", "t"), ("dd", "d d"), ("dt", "u"), ("dd", "e")]),
}


def many(h, n):
    """Many siblings of every kind, one or two of them any."""
    keys = list(NODES)
    nodes = [NODES[keys[i * 4 % 9 if i % 2 else i * 5 % 9]] for i in range(n)]
    nodes[n // 2] = NODES[h.pick("block", keys)]
    nodes[n // 2 + 1] = NODES[h.pick("next block", keys)]
    gap = h.pick("gap", GAPS)
    nodes = nodes[:n - 4] + [("quote", nodes[n // 2 - 2:n // 2 + 4]), ("div", nodes[n // 2 - 2:n // 2 + 4])] + nodes[n - 4:]
    out = convert(source(nodes, lambda: gap), width=30)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(layout(nodes, 30)), "layout")


def defaults(h, n, wrap):
    """Any sequence of default blocks, pretty-printed in any way: only the default margins show."""
    nodes = [NODES[h.pick("block %d" % i, list(NODES))] for i in range(n)]
    if wrap:
        nodes = [(wrap, nodes)]
    seen = []
    gap = h.pick("gap", GAPS)
    out = convert(source(nodes, lambda: gap), width=30)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(layout(nodes, 30)), "layout")


def between(h, n):
    """Any white space between two blocks, and none of it shows; text between them stays."""
    ws = h.text("ws", n, " \t\n\r")
    t = h.bool("text")
    src = "<p>a</p>" + ws + ("x" if t else "") + "<p>b</p>" + ws
    out = convert(src, width=10)
    h.observe("out", out)
    h.reach("converted")
    if not t:
        h.equal(out, "\na\n\nb\n", "blank space")
    else:
        h.equal(out.replace(" ", "").replace("\r", ""), "\na\nx\nb\n", "text between blocks")


WITNESS = {f: ["converted"] for f in ("siblings", "nested", "root", "defaults", "between", "many")}


def tasks(tier):
    q = tier == "quick"
    out = [("between", "between", dict(n=3 if q else 5))]
    pairs = [("p", "p"), ("div", "div"), ("p", "h"), ("quote", "p"), ("pre", "div"), ("h", "quote")]
    for a, b in pairs:
        out.append(("siblings-%s-%s" % (a, b), "siblings", dict(kinds=[a, b], hi=2 if q else 3, padded=False)))
    for k in CLS:
        out.append(("padded-%s" % k, "siblings", dict(kinds=[k], hi=2, padded=True)))
    out.append(("padded-p-div", "siblings", dict(kinds=["p", "div"], hi=0 if q else 1, padded=True)))
    if not q:
        out.append(("siblings-p-div-p", "siblings", dict(kinds=["p", "div", "p"], hi=1, padded=False)))
    for a in ("div", "quote"):
        for b in ("div", "p", "quote", "h", "pre"):
            out.append(("nested-%s-%s" % (a, b), "nested", dict(kinds=[a, b], hi=1 if q else 2)))
            if not q:
                out.append(("nested-div-%s-%s" % (a, b), "nested", dict(kinds=["div", a, b], hi=1)))
    for k in ("p", "div", "quote", "h", "pre"):
        out.append(("large-%s" % k, "siblings", dict(kinds=[k], hi=1, padded=True, scale=11, width=60)))
    out.append(("large-row", "siblings", dict(kinds=["p", "div", "quote", "p", "h", "pre", "p"] if not q else ["p", "div", "quote", "p"], hi=1, padded=False, scale=5)))
    out.append(("many", "many", dict(n=20)))
    if not q:
        out.append(("many-60", "many", dict(n=60)))
    out.append(("root", "root", dict(hi=2 if q else 3, optimise=True)))
    out.append(("root-large", "root", dict(hi=1, optimise=True, scale=13)))
    out.append(("root-raw", "root", dict(hi=1 if q else 2, optimise=False)))
    out.append(("defaults", "defaults", dict(n=3 if q else 4, wrap=None)))
    out.append(("defaults-div", "defaults", dict(n=2 if q else 3, wrap="div")))
    out.append(("defaults-quote", "defaults", dict(n=2 if q else 3, wrap="quote")))
    return out
