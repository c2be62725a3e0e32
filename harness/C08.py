"""C08: quote prefixes and list markers are applied to exactly the right lines."""
from gopher_render.rendering import BlockQuoteRenderer, ListItemRenderer, OrderedListItemRenderer, DefinitionListItemRenderer
from harness.lib import book, convert, source, layout, rstrip_lines, sized, MARKS, TEXT, words_of, greedy, ANY, WORDY_MINUS, ESC

ASSUMPTIONS = [
    "compared line by line without the blank space at the ends of lines (C24 decides that)",
    "words without '-', '.', '!' and '?' where exact line breaks are compared",
    "the line break that ends a quote's last block adds no prefixed line of its own",
]
BOUNDS = {
    "quick": "quotes of 1 to 3 levels around 1 or 2 of 9 kinds of blocks; lists and definition lists of 1 to 3 items of up to 3 words of any length up to the width, nested up to 3 levels, in quotes and with blocks inside; default and configured markers; items of 4 arbitrary code points; markers and prefixes with escape sequences, with symbolic parameters, and with braces; quotes and items of 60 lines",
    "thorough": "two or three blocks in quotes, longer words, one more item",
}

NODES = {
    "p": ("p", "aa bb cc dd"), "h": ("h", 1, "head"), "pre": ("pre", "k\n\n l"), "div": ("div", [("p", "in")]),
    "quote": ("quote", [("p", "q1"), ("p", "q2 q2 q2 q2 q2")]),
    "ul": ("ul", [("one", []), ("two two two two", [])]), "ol": ("ol", [("one", []), ("two two two two", [])]),
    "dl": ("dl", [("dt", "t"), ("dd", "d d d d d d d"), ("dt", "u"), ("dd", "e")]),
    "nest": ("ul", [("a", [("ul", [("b", []), ("c c c c c", [])])]), ("d", [])]),
}


def judge(h, nodes, width, marks=MARKS, renderers={}):
    out = convert(source(nodes), width=width, renderers=renderers)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(layout(nodes, width, None, marks)), "layout")
    return out


def quotes(h, depth, n, custom):
    """Any blocks in nested quotes."""
    nodes = [NODES[h.pick("block %d" % i, list(NODES))] for i in range(n)]
    for d in range(depth):
        nodes = [("quote", nodes)]
        if d == 0 and h.bool("sibling"):
            nodes = nodes + [("p", "zz")]
    marks, ren = MARKS, {}
    if custom:
        mark = h.pick("prefix", ["| ", ">", "{0} ", "", "{", "}} "])
        marks = dict(MARKS, quote=mark)
        ren = {"blockquote": (BlockQuoteRenderer, dict(line_template=mark.replace("{", "{{").replace("}", "}}") + "{}"))}
    judge(h, nodes, 18, marks, ren)


def items(h, kind, counts, inside, width):
    """Items of any number of words of any length, alone or inside other blocks."""
    if kind == "dl":
        nodes = [("dl", [("dd", " ".join(sized(h, "i%d" % i, c, ["a-z"]))) for i, c in enumerate(counts)])]
    else:
        nodes = [(kind, [(" ".join(sized(h, "i%d" % i, c, ["a-z"])), []) for i, c in enumerate(counts)])]
    if inside == "quote":
        nodes = [("quote", nodes)]
    elif inside == "li":
        nodes = [("ul", [("first", nodes), ("last", [])])]
    elif inside == "oli":
        nodes = [("ol", [("first", nodes), ("last", [])])]
    elif inside == "div":
        nodes = [("div", nodes + nodes)]
    judge(h, nodes, width)


SUBS = {
    "none": [], "p": [("p", "p p p p p")], "quote": [("quote", [("p", "q q q q q")])], "ul": [("ul", [("u u u u u", []), ("v", [])])],
    "ol": [("ol", [("o", []), ("w w w w w", [])])], "dl": [("dl", [("dt", "t"), ("dd", "d d d d d")])],
    "ul-ul": [("ul", [("x", [("ul", [("y y y y y", [])])])])], "p-p": [("p", "p"), ("p", "q")],
}


def nesting(h, kind, wrap):
    """Items with other blocks inside, in any combination."""
    subs = [SUBS[h.pick("item %d" % i, list(SUBS))] for i in range(2)]
    texts = [["", "one"][h.choose("text 0", 2)], "two two two two two"]
    h.assume(texts[0] != "" or subs[0] != [])
    nodes = [(kind, [(t, s) for t, s in zip(texts, subs)] + [("z", [])])]
    if wrap:
        nodes = [(wrap, nodes)]
    if texts[0] == "":
        for s in subs[0]:
            if s[0] != "p":
                return      # blocks that start an item right after its marker: see C01
    judge(h, nodes, 16)


def markers(h, kind):
    """Configured markers."""
    mark = h.pick("marker", ["- ", "+", "=> ", "", "\u2022 ", "{ ", "}", "{0}{{ "])
    cls = dict(ul=ListItemRenderer, dl=DefinitionListItemRenderer)[kind]
    tag = dict(ul="li", dl="dd")[kind]
    t = " ".join(sized(h, "w", [(1, 4)] * 3, ["a-z"]))
    marks = dict(MARKS, ul=mark, dd=mark)
    nodes = [("dl", [("dd", t), ("dd", "b")])] if kind == "dl" else [("ul", [(t, [("ul", [("n", [])])] if h.bool("nested") else []), ("b", [])])]
    judge(h, nodes, 8 if len(mark) < 4 else 15, marks, {tag: (cls, dict(line_template=mark.replace("{", "{{").replace("}", "}}") + "{}"))})


def any_text(h, kind, n, dom, width):
    """Any text in an item: one marker, on the first line, and indented other lines."""
    t = h.text("t", n, dom, WORDY_MINUS.replace(" ", "") if not isinstance(dom, str) else "")
    ws = words_of(t)
    h.assume(len(ws) > 0)
    src = dict(ul="<ul><li>@</li><li>b</li></ul>", ol="<ol><li>@</li><li>b</li></ol>", dl="<dl><dd>@</dd><dd>b</dd></dl>",
               quote="<blockquote><p>@</p><p>b</p></blockquote>")[kind]
    out = convert(src.replace("@", t), width=width)
    h.observe("out", out)
    h.reach("converted")
    mark = dict(ul="* ", ol="1. ", dl=": ", quote="> ")[kind]
    lines = greedy(ws, width - len(mark))
    if kind == "quote":
        want = "\n" + "\n".join([mark + l for l in lines]) + "\n>\n> b\n"
    else:
        want = ("\n\n" if kind == "dl" else "\n") + "\n".join([(mark if i == 0 else " " * len(mark)) + l for i, l in enumerate(lines)])
        want += "\n" + dict(ul="* ", ol="2. ", dl=": ")[kind] + "b\n"
    h.equal(out, want, "layout")


def large(h, n, width):
    """A long document with deep quotes and lists."""
    judge(h, book(h, n), width)


def styled(h, kind):
    """Styled markers and prefixes: escape sequences take no columns, and stay with the marker."""
    p, q = h.char("p", "12;") + "5", h.char("q", "01")
    plain, mark = h.pick("marker", [("* ", ESC + "[@m*" + ESC + "[#m "), ("- ", ESC + "[@m- " + ESC + "[0m"), ("=> ", ESC + "[1;@m=" + ESC + "[#m> "), ("", ESC + "[@m"), ("{ ", "{" + ESC + "[38;2;255;0;#m "), ("x", "x" + (ESC + "[@m") * 3)])
    mark = mark.replace("@", p).replace("#", q)
    template = mark.replace("{", "{{").replace("}", "}}") + "{}"
    t = " ".join(sized(h, "w", [(2, 4), (1, 4), (3, 4)], ["a-h"]))
    if kind == "dl":
        nodes = [("dl", [("dd", t), ("dd", "b")])]
        cls, tag = DefinitionListItemRenderer, "dd"
    elif kind == "quote":
        nodes = [("quote", [("p", t), ("quote", [("p", "k")]), ("ul", [("n", [])])])]
        cls, tag = BlockQuoteRenderer, "blockquote"
    elif kind == "ol":
        nodes = [("ol", [(t, [("ol", [("n", [])])]), ("b", [])])]
        cls, tag = OrderedListItemRenderer, "ol > li"
        template = mark.replace("{", "{{").replace("}", "}}") + "{0}) {1}"
    else:
        nodes = [("ul", [(t, [("ul", [("n", []), ("mm", [])])]), ("b", [])])]
        cls, tag = ListItemRenderer, "li"
    width = 2 * len(plain) + 9
    out = convert(source(nodes), width=width, optimise=False, renderers={tag: (cls, dict(line_template=template))})
    h.observe("out", out)
    h.reach("converted")
    marks = dict(MARKS, ul=plain if kind == "ul" else MARKS["ul"], dd=plain, quote=plain)
    if kind == "ol":
        marks["ol"] = lambda k: plain + str(k + 1) + ") "
    h.equal(rstrip_lines(out.replace(mark, plain)), rstrip_lines(layout(nodes, width, None, marks)), "layout")
    if kind != "quote":
        h.equal(out.count(mark), {"dl": 2, "ol": 3, "ul": 4}[kind], "markers")

def tall(h, kind, n):
    """A quote or an item of many lines."""
    at = h.choose("place", n)
    t = h.text("t", 2, ["a-z"])
    words = ["w%02d" % i if i != at else "w" + t for i in range(n)]
    if kind == "quote":
        judge(h, [("quote", [("p", " ".join(words))])], 6)
    elif kind == "quotes":
        judge(h, [("quote", [("quote", [("p", " ".join(words))]), ("pre", "\n".join(words))])], 8)
    else:
        judge(h, [(kind, [(" ".join(words), []), ("z", [])])] if kind != "dl" else [("dl", [("dt", "t"), ("dd", " ".join(words))])], 6)


WITNESS = {f: ["converted"] for f in ("tall", "styled", "quotes", "items", "nesting", "markers", "any_text", "large")}


def tasks(tier):
    q = tier == "quick"
    out = []
    for d in (1, 2, 3):
        out.append(("quote-%d" % d, "quotes", dict(depth=d, n=2 if q else 3, custom=False)))
    out.append(("quote-custom", "quotes", dict(depth=2, n=1 if q else 2, custom=True)))
    w = 5 if q else 6
    for k in ("ul", "ol", "dl"):
        out.append(("items-%s-1" % k, "items", dict(kind=k, counts=[[(1, w)] * 3], inside=None, width=8)))
        out.append(("items-%s-3" % k, "items", dict(kind=k, counts=[[(1, w)] * 2, [(1, 2)], [(3, w)]], inside=None, width=8)))
        for ins in ("quote", "li", "oli", "div"):
            out.append(("items-%s-%s" % (k, ins), "items", dict(kind=k, counts=[[(1, w)] * 2, [(1, w)]], inside=ins, width=11)))
        out.append(("any-%s" % k, "any_text", dict(kind=k, n=4 if q else 5, dom=((9, 10),) + ANY, width=5)))
        out.append(("space-%s" % k, "any_text", dict(kind=k, n=7 if q else 10, dom="a \n", width=6)))
    out.append(("any-quote", "any_text", dict(kind="quote", n=4 if q else 5, dom=((9, 10),) + ANY, width=4)))
    out.append(("space-quote", "any_text", dict(kind="quote", n=7 if q else 10, dom="a \n", width=5)))
    for k in ("ul", "ol"):
        for wr in (None, "quote", "div"):
            out.append(("nesting-%s-%s" % (k, wr), "nesting", dict(kind=k, wrap=wr)))
    for k in ("ul", "dl"):
        out.append(("markers-%s" % k, "markers", dict(kind=k)))
    for width in (41, 67, 80, 120):
        out.append(("large-%d" % width, "large", dict(n=12 if q else 30, width=width)))
    for k in ("ul", "ol", "dl", "quote"):
        out.append(("styled-%s" % k, "styled", dict(kind=k)))
    for k in ("quote", "quotes", "ul", "ol", "dl"):
        out.append(("tall-" + k, "tall", dict(kind=k, n=60 if q else 150)))
    return out
