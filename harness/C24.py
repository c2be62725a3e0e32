"""C24: output optimisation removes trailing whitespace and nothing else."""
from gopher_render.rendering import Box, AnsiEscapeCodeRenderer, ParagraphRenderer, BlockRenderer
from harness.lib import convert, source as html, book

ASSUMPTIONS = [
    "lines end with line feeds",
    "full width is the width without the right margin, the left one included; lines of headings, pre and links that are longer stay as long",
]
BOUNDS = {
    "quick": "texts of 3 characters out of a letter, space, tab, line feed, no-break, ideographic and thin space, form feed, vertical tab and NEL in 11 places; 14 documents with 7 configurations, widths 12 and 40, margins of 0 to 2 columns on the left and right and lines above and below; documents of 40 and 80 blocks",
    "thorough": "texts of 4 characters",
}
SPACES = " \t\n\xa0\u3000\u2009\x0c\x0b\x85"
PLACES = {"bare": "@", "p": "<p>x@</p>", "pre": "<pre>@</pre>", "pre2": "<pre>a@\nb</pre>", "li": "<ul><li>a@</li></ul>", "em": "<p><em>@</em></p>", "div": "<div>@</div>",
          "h": "<h2>@</h2>", "quote": "<blockquote><p>a</p>@</blockquote>", "br": "a@<br>@b", "between": "<p>a</p>@<p>b</p>"}
DOCS = ["<p>@ b c d e f g</p>", "<p>@</p><p>b</p>", "<ul><li>@ b c d e f</li><li>g</li></ul>", "<ol><li>@<ul><li>b c d e f</li></ul></li></ol>", "<blockquote><p>@</p><p>b c d e f</p></blockquote>",
        "<div><p>@</p>x</div>", "<dl><dt>@</dt><dd>b c d e f</dd></dl>", "<p>@<br>b<br><br>c</p>", "<h1>@</h1>", "<pre>@\n\n  b </pre>", "<p>k <a href='/u'>@</a></p><p>l</p>",
        "<div><blockquote><pre>@</pre></blockquote></div>", "<p>@ <b>b</b> </p><x> </x>", "a <img src='/u' alt='@'> b"]
BLOCKS = 8                                             # the first of them are reflowed and padded
CONFIGS = [dict(), dict(link_placement="after_block"), dict(link_placement="inline"), dict(output_format="gophermap", gopher_host="h", image_placement="footer"),
           dict(renderers={"p": (AnsiEscapeCodeRenderer, dict(bold=True)), "b": (AnsiEscapeCodeRenderer, dict(italic=True))}),
           dict(renderers={"p": (ParagraphRenderer, dict(margin=[2, 1, 1, 1], justification="center"))}),
           dict(renderers={"div": (BlockRenderer, dict(border=["-", "", "-", "| "], padding=[1, 1, 1, 1]))})]


def stripped(s):
    """White space at the ends of lines removed, by its definition."""
    lines = []
    for l in s.split("\n"):
        n = len(l)
        while n > 0 and l[n - 1].isspace():
            n -= 1
        lines.append(l[:n])
    return "\n".join(lines)


def spaces(h, place, n, width):
    """White space of any kind."""
    t = h.text("t", n, "a" + SPACES)
    src = PLACES[place].replace("@", t)
    box = lambda: Box(width=width, margin=[0, 0, 0, 1])
    on, off = convert(src, box=box()), convert(src, box=box(), optimise=False)
    h.observe("on", on)
    h.reach("converted")
    h.equal(on, stripped(off), "optimised output")


def documents(h, at, width):
    """All sorts of documents and configurations."""
    src = DOCS[at].replace("@", h.text("t", 1, ["a-z"]))
    kw = h.pick("configuration", CONFIGS)
    margin = [h.choose("top", 2), h.choose("right", 2), h.choose("bottom", 3), h.choose("left", 3)]
    on = convert(src, box=Box(width=width, margin=list(margin)), **kw)
    off = convert(src, box=Box(width=width, margin=list(margin)), optimise=False, **kw)
    h.observe("on", on)
    h.reach("converted")
    h.equal(on, stripped(off), "optimised output")
    h.equal(convert(src, box=Box(width=width, margin=list(margin)), optimise=True, **kw), on, "optimisation is the default")


def padded(h, at, width):
    """Without optimisation lines of blocks are padded."""
    src = DOCS[at].replace("@", h.text("t", 2, ["a-z"]))
    margin = [0, h.choose("right", 3), 0, h.choose("left", 3)]
    off = convert(src, box=Box(width=width, margin=list(margin)), optimise=False)
    h.observe("off", off)
    h.reach("converted")
    for l in off.split("\n"):
        if stripped(l):
            h.check(len(l) == width - margin[1], "a line that is not padded to the full width")


def large(h, n):
    """Long documents."""
    src = html(book(h, n))
    width = h.pick("width", [40 + 3 * n, 67 + 3 * n, 200])
    kw = h.pick("configuration", CONFIGS)
    margin = h.pick("margin", [[0, 0, 0, 0], [3, 4, 5, 6]])
    on = convert(src, box=Box(width=width, margin=list(margin)), **kw)
    off = convert(src, box=Box(width=width, margin=list(margin)), optimise=False, **kw)
    h.observe("on", on)
    h.reach("converted")
    h.equal(on, stripped(off), "optimised output")
    h.check(off != on, "no padding")


WITNESS = {"large": ["converted"], "spaces": ["converted"], "documents": ["converted"], "padded": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    for p in PLACES:
        out.append(("space-" + p, "spaces", dict(place=p, n=3 if q else 4, width=12)))
    for i in range(len(DOCS)):
        for w in (12, 40):
            out.append(("document-%d-%d" % (i, w), "documents", dict(at=i, width=w)))
        if i < BLOCKS:
            for w in (12, 40):
                out.append(("padded-%d-%d" % (i, w), "padded", dict(at=i, width=w)))
    for k in (6, 20) if q else (6, 20, 60):
        out.append(("large-%d" % k, "large", dict(n=k)))
    return out
