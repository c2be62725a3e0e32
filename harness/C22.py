"""C22: feeding a document in pieces gives the same output as feeding it whole."""
from gopher_render import GopherHTMLParser
from harness.lib import convert, source as html, book

ASSUMPTIONS = [
    "comments stand between two parts of a text that together make the text",
    "link and image placement, output format and width are the same for both conversions",
]
BOUNDS = {
    "quick": "18 documents of up to 110 characters with symbolic letters: every single cut, every pair of cuts in the shorter ones, and one character at a time; texts of 3 characters out of letters, space, tab, line feed, & # ; < > and / in 4 contexts, every set of cuts in and around them; empty pieces; comments at every place of a text of 6 characters with 2 arbitrary ones out of letters, space, tab and line feed; a document of 40 blocks in pieces of 5 sizes and cut at 41 places",
    "thorough": "every pair of cuts in all documents, texts of 4 characters",
}

DOCS = {
    "short": ("<p>@ @</p>", {}),
    "space": ("<p>a \n @\t b</p>", {}),
    "pre": ("<pre>@\n  b\t@</pre>", {}),
    "entity": ("<p>@&amp;b &#65;&lt;@</p>", {}),
    "inline": ("<p>a <em>@</em> b</p>", {}),
    "code": ("a<code>@ b</code>", {}),
    "rules": ("<p class='c'>@</p><p>b", {}),
    "attributes": ("<a href='/@?x=1&amp;y=2' title=\"k &gt; @\">@ b</a>", {}),
    "bare": ("<img alt=@ src=/u checked>a", {}),
    "list": ("<ol><li>@ a</li>\n <li>b @<ul><li>c</li></ul></li></ol>", {}),
    "quote": ("<blockquote>\n<p>@ a</p>\n<p>b</p>\n</blockquote>\n", {}),
    "comment": ("<p>a<!-- @ <b> -->b <!---->c</p>", {}),
    "declaration": ("<!DOCTYPE html>\n<h1>@</h1><?pi @?><br/>a", {}),
    "stray": ("<p>a</x>b</em>@ </p>c</p>", {}),
    "links": ("<p><a href='/u'>@</a> <a href='http://x/'>b @</a></p><p>c</p>", {}),
    "after": ("<div><p>k <a href='/u'>@</a></p><p>c @</p></div>", dict(link_placement="after_block")),
    "menu": ("<p>k <a href='/u.txt' title='a\tb'>@</a></p>", dict(output_format="gophermap", gopher_host="h")),
    "void": ("a<hr class='@'><input value=\"<p>\">@<br>b", {}),
}


def fed(pieces, **kw):
    p = GopherHTMLParser(**kw)
    for x in pieces:
        p.feed(x)
    p.close()
    return p.parsed


def source(h, doc):
    src, k = "", 0
    for c in doc:
        if c == "@":
            src += h.text("c%d" % k, 1, ["a-z"])
            k += 1
        else:
            src += c
    return src


def cuts(h, doc, n, width):
    """Every choice of n cuts."""
    doc, kw = DOCS[doc]
    src = source(h, doc)
    pieces, at = [], 0
    for i in range(n):
        k = h.choose("cut %d" % i, len(src) - at + 1)
        pieces.append(src[at:at + k])
        at += k
    pieces.append(src[at:])
    out = fed(pieces, width=width, **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(src, width=width, **kw), "fed in pieces")


def single(h, doc, size):
    """A few characters at a time."""
    doc, kw = DOCS[doc]
    src = source(h, doc)
    out = fed([src[i:i + size] for i in range(0, len(src), size)] + [""], **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(src, **kw), "fed in pieces")


def anything(h, n, context):
    """Anything in a text, cut anywhere."""
    t = h.text("t", n, "ab \t\n&#;</>1")
    src, pieces, piece = context.replace("@", t), [], ""
    at = context.index("@")
    for i, c in enumerate(src):
        if at <= i <= at + n and h.bool("cut %d" % i):
            pieces.append(piece)
            piece = ""
        piece += c
    out = fed(pieces + [piece])
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(src), "fed in pieces")


def comments(h, n, context):
    """Comments that interrupt a text."""
    t = h.text("t", n, "ab \t\n")
    t = "k" + t[:1] + " \nm" + t[1:]
    i = h.choose("comment", len(t) + 1)
    j = h.choose("second", len(t) - i + 1)
    c = h.pick("text", ["<!---->", "<!-- x -->", "<!--\n<p>-->", "<!>"])
    src = context.replace("@", t[:i] + c + t[i:i + j] + "<!-- -->" + t[i + j:])
    out = convert(src)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(context.replace("@", t)), "interrupted by comments")


def large(h, n):
    """A long document, in pieces of any size and cut anywhere."""
    src = html(book(h, n), lambda: "\n ") + "<p>" + "<a href='/u'>k</a> &amp; &#65;<br/> <!-- c -->" * n + "</p>"
    size = h.pick("size", [1, 2, 7, 64, 1000, 0])
    if size:
        pieces = [src[i:i + size] for i in range(0, len(src), size)]
    else:
        k = len(src) * h.choose("cut", 41) // 40
        pieces = [src[:k], src[k:]]
    out = fed(pieces, width=50)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(src, width=50), "fed in pieces")


WITNESS = {"large": ["converted"], "cuts": ["converted"], "single": ["converted"], "anything": ["converted"], "comments": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    for d in DOCS:
        for w in (67, 9):
            out.append(("cut-%s-%d" % (d, w), "cuts", dict(doc=d, n=1, width=w)))
        if not q or len(DOCS[d][0]) < 30:
            out.append(("cuts-" + d, "cuts", dict(doc=d, n=2, width=67)))
        for size in (1, 2, 3):
            out.append(("single-%s-%d" % (d, size), "single", dict(doc=d, size=size)))
    for k, c in (("p", "<p>x@y</p>"), ("bare", "@"), ("pre", "<pre>@</pre>"), ("inline", "<p><b>x @</b> z</p>")):
        out.append(("anything-" + k, "anything", dict(n=3 if q else 4, context=c)))
        out.append(("comments-" + k, "comments", dict(n=2, context=c)))
    for k in (6,) if q else (6, 20):
        out.append(("large-%d" % k, "large", dict(n=k)))
    return out
