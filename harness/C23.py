"""C23: a reset parser behaves like a new one, and conversions are independent."""
from gopher_render import GopherHTMLParser
from gopher_render.rendering import AnsiEscapeCodeRenderer, Box, ParagraphRenderer, HeaderRenderer, OrderedListItemRenderer, ExtractedLinkRenderer, LinkRenderer
from harness.lib import convert, source as html, book

ASSUMPTIONS = [
    "a parser is created and configured once; its attributes are not written to",
]
BOUNDS = {
    "quick": "histories of 2 documents out of 16 (open elements, open pre, pending links of both placements, unfinished tags, comments and references, resolved ones) with symbolic letters, each closed or not, with 1 or 2 resets, then 1 of 11 documents; 7 configurations; cut-off documents at every place; interleavings of two parsers of 5 steps each with equal or different configurations; a failed creation, 3 conversions in a row; a document of 40 blocks after another one cut off at 9 places; 2 conversions of any of 13 configurations before the default one, against its known output",
    "thorough": "histories of 3 documents",
}

JUNK = ["", "<pre>a@  b", "<div><p>@", "<p>k <a href='/u'>@</a></p>", "<p>k <a href='/@'>x", "<ol><li>@</li><li>b", "<p title='@", "<!-- @", "@ &am", "<img src='/u' alt='@'>", "a <a href='/u'>@</a>",
        "@</p></div>", "<script>@", "<textarea>@", "<blockquote><ul><li>@<a href='/x'>y", "<p>@</p><hr><p>"]
DOCS = ["<p>@ a  b</p>", "<pre>@\n  b</pre><p>c  d</p>", "<p>k <a href='/u'>@</a></p><p>l <img src='/i' alt='@'></p>", "<ol><li>@</li><li>b</li></ol>", "@  b", "<blockquote><p>@</p><p>a</p></blockquote>",
        "<div><p>x <a href='/u'>@</a></p></div><p>y</p>", "a <a href='/u'>@</a>", "</p><p>@", "<h2>@</h2>", "@"]
ST = lambda **kw: (AnsiEscapeCodeRenderer, kw)
CONFIGS = [
    dict(),
    dict(link_placement="after_block", image_placement="footer"),
    dict(link_placement="inline", image_placement="after_block", width=12),
    dict(output_format="gophermap", gopher_host="h", image_placement="footer"),
    dict(output_format="gophermap", gopher_host="h", link_placement="after_block", image_placement="after_block", gopher_port=7070),
    dict(renderers={"p": (ParagraphRenderer, dict(margin=[0, 0, 1, 2])), "h2": (HeaderRenderer, dict(underline="=")), "li": (None, dict(start_index=5)), "a": ST(bold=True)}, optimise=False,
         extracted_link_renderers={"a": (ExtractedLinkRenderer, dict(max_link_description=3))}),
    dict(renderers={"p": (None, dict(margin=[2, 0, 0, 1])), "li": (None, dict(step=2)), "": ST(italic=True), "a": (LinkRenderer, dict(capitalized=True))}),
]


def config(i, boxed):
    c = dict(CONFIGS[i])
    if boxed:
        c.pop("width", None)
        c["box"] = Box(width=20, margin=[1, 2, 1, 3])
    return c


def reset(h, n, configs):
    """Any history, then a reset, then a document."""
    i = h.pick("configuration", configs)
    boxed = h.bool("box")
    p = GopherHTMLParser(**config(i, boxed))
    for k in range(n):
        src = h.pick("before %d" % k, JUNK).replace("@", h.text("j%d" % k, 1, ["a-z"]))
        p.feed(src)
        if h.bool("closed %d" % k):
            p.close()
        if k == n - 1 or h.bool("reset %d" % k):
            p.reset()
    src = h.pick("document", DOCS).replace("@", h.text("d", 1, ["a-z"]))
    h.check(p.parsed == "", "output of before the reset")
    p.feed(src)
    p.close()
    h.observe("out", p.parsed)
    h.reach("converted")
    h.equal(p.parsed, convert(src, **config(i, boxed)), "after a reset")


def interrupted(h, doc, configs):
    """A document that is cut off anywhere, closed or not."""
    i = h.pick("configuration", configs)
    p = GopherHTMLParser(**config(i, False))
    src = DOCS[doc] + JUNK[3] + "<pre>x"
    k = h.choose("cut", len(src))
    p.feed(src[:k].replace("@", "z"))
    if h.bool("closed"):
        p.close()
    p.reset()
    src = DOCS[(doc + 3) % len(DOCS)].replace("@", h.text("d", 1, ["a-z"]))
    p.feed(src)
    p.close()
    h.observe("out", p.parsed)
    h.reach("converted")
    h.equal(p.parsed, convert(src, **config(i, False)), "after a reset")


def repeated(h, configs):
    """The same parser, the same document: the same output."""
    i = h.pick("configuration", configs)
    src = h.pick("document", DOCS + JUNK).replace("@", h.text("d", 1, ["a-z"]))
    p = GopherHTMLParser(**config(i, False))
    p.feed(src)
    p.close()
    first = p.parsed
    h.observe("out", first)
    h.reach("converted")
    for k in range(2):
        p.reset()
        p.feed(src)
        p.close()
        h.equal(p.parsed, first, "repeated conversion")


def interleaved(h, other, n):
    """Two parsers, fed in turns in any order."""
    i = h.choose("configuration", len(CONFIGS))
    j = i if other == 0 else (i + other) % len(CONFIGS)
    shared = dict(CONFIGS[i].get("renderers", {}))
    c, d = config(i, False), config(j, False)
    if other == 0 and shared:
        c["renderers"] = d["renderers"] = shared
    x, y = h.pick("documents", [(2, 1), (6, 2), (3, 5), (7, 7), (1, 3)])
    a = DOCS[x].replace("@", h.text("a", 1, ["a-z"])) + JUNK[1].replace("@", "q")
    b = DOCS[y].replace("@", h.text("b", 1, ["a-z"])) + JUNK[8].replace("@", "r")
    cut = lambda s: [s[:len(s) // 2], s[len(s) // 2:]]
    steps = {0: [(GopherHTMLParser, c)] + cut(a) + ["close"], 1: [(GopherHTMLParser, d)] + cut(b) + ["close"]}
    parsers = {}
    at = {0: 0, 1: 0}
    turn = 0
    while at[0] < 4 or at[1] < 4:
        who = 0 if at[1] == 4 else 1 if at[0] == 4 else int(h.bool("turn %d" % turn))
        turn += 1
        step = steps[who][at[who]]
        at[who] += 1
        if isinstance(step, tuple):
            parsers[who] = step[0](**step[1])
        elif step == "close":
            parsers[who].close()
        else:
            parsers[who].feed(step)
    h.observe("out", parsers[0].parsed)
    h.observe("other", parsers[1].parsed)
    h.reach("converted")
    h.equal(parsers[0].parsed, convert(a, **config(i, False)), "one of two parsers")
    h.equal(parsers[1].parsed, convert(b, **config(j, False)), "other of two parsers")


def rejected(h):
    """A conversion that could not be created leaves nothing behind."""
    src = h.pick("document", DOCS).replace("@", h.text("d", 1, ["a-z"]))
    i = h.choose("configuration", len(CONFIGS))
    first = convert(src, **config(i, False))
    h.observe("out", first)
    h.reach("converted")
    for bad in (dict(output_format="gophermap"), dict(output_format="gophermap", link_placement="inline", gopher_host="h")):
        try:
            GopherHTMLParser(**bad)
        except ValueError:
            h.reach("rejected")
    h.equal(convert(src, **config(i, False)), first, "after a rejected creation")


def large(h, n):
    """Long documents one after the other, the first one whole or cut off."""
    src = html(book(h, n))
    links = "".join(["<p><a href='/u%d'>k</a></p>" % i for i in range(n)])
    k = h.choose("cut", 9)
    place = h.pick("links", ["footer", "after_block"])
    p = GopherHTMLParser(width=50, link_placement=place)
    for i in range(h.pick("times", [1, 3])):
        p.feed((links + src)[:(len(src) + len(links)) * k // 8])
        if i or h.bool("closed"):
            p.close()
        p.reset()
    p.feed(src + links)
    p.close()
    h.observe("out", p.parsed)
    h.reach("converted")
    h.equal(p.parsed, convert(src + links, width=50, link_placement=place), "after a reset")


LONG = "<p><a title='' href='/x'>a description of some length</a><img alt='' src='/i'> <a title='some title' href='/y'>one more description of that length</a></p><h2>k</h2><ol><li>@</li></ol>"
PLAIN = ("\n[a description of some length][1]![Image](/i) [one more description\nof that length][2]\n\n## k ##\n\n1. @\n\n\n[1] a descript...: /x\n[2] one more d...: /y \"some title\"")
MORE = [
    dict(output_format="gophermap", gopher_host="h", link_placement="footer", image_placement="footer"),
    dict(output_format="gophermap", gopher_host="h", link_placement="after_block", image_placement="footer", gopher_port=71, width=30),
    dict(link_placement="footer", image_placement="footer", width=20),
    dict(link_placement="after_block", image_placement="after_block", optimise=False),
    dict(extracted_link_renderers={"a": (ExtractedLinkRenderer, dict(max_link_description=3)), "img": (None, dict(max_link_description=2))}, image_placement="footer"),
    dict(extracted_link_renderers={"a[title]": (None, dict(capitalized=True, template="{content}"))}, image_placement="footer"),
]


def apart(h, n, first):
    """Conversions of any configurations, then the default one, whose output is known."""
    c = h.text("c", 1, ["a-z"])
    for i in range(n):
        j = first if i == 0 else h.choose("configuration %d" % i, len(CONFIGS) + len(MORE))
        k = (CONFIGS + MORE)[j]
        before = repr(k)
        p = GopherHTMLParser(**k)
        if h.bool("used %d" % i):
            p.feed(LONG.replace("@", c))
            p.close()
        h.equal(repr(k), before, "the caller's configuration")
    out = convert(LONG.replace("@", c))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, PLAIN.replace("@", c), "a conversion after others")


WITNESS = {"apart": ["converted"], "large": ["converted"], "reset": ["converted"], "interrupted": ["converted"], "repeated": ["converted"], "interleaved": ["converted"], "rejected": ["converted", "rejected"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    every = list(range(len(CONFIGS)))
    for c in every:
        out.append(("reset-1-%d" % c, "reset", dict(n=1, configs=[c])))
    out.append(("reset-2", "reset", dict(n=2, configs=[0] if q else [0, 1, 4])))
    for d in range(len(DOCS)):
        out.append(("interrupted-%d" % d, "interrupted", dict(doc=d, configs=[1, 3] if q else every)))
    out.append(("repeated", "repeated", dict(configs=every)))
    for other in range(len(CONFIGS)):
        out.append(("interleaved-%d" % other, "interleaved", dict(other=other, n=4)))
    out.append(("rejected", "rejected", dict()))
    out.append(("large", "large", dict(n=8 if q else 24)))
    for j in range(len(CONFIGS) + len(MORE)):
        out.append(("apart-%d" % j, "apart", dict(n=2 if q else 3, first=j)))
    return out
