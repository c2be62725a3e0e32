"""C34: an element is rendered the same whatever stands before and after it."""
from gopher_render.rendering import Box, BlockRenderer, ParagraphRenderer, AnsiEscapeCodeRenderer, InlineRenderer
from harness.lib import convert, ink, source as html, book

ASSUMPTIONS = [
    "the rules do not refer to siblings or places, except the default ones for quotes and lists",
    "blocks without margins share a line with what follows, so that text directly after a div is not among the inputs",
]
BOUNDS = {
    "quick": "documents of 2 and 3 out of 18 kinds of elements (all default blocks, nested, styled, bordered, with inline links, unclosed inside), any 2 visible characters each, at the root, in div and in an unknown element, with a root margin, widths 14 and 40; items of lists and definitions, 2 and 3 out of 9 kinds; elements with links or images after 1, 9 and 99 other links; documents of 40 blocks, part by part",
    "thorough": "3 characters, and twice as many documents of 3 elements",
}
PIECES = ["<p>@ b c d e f g h</p>", "<h2>@</h2>", "<ul><li>@ b c d e f g</li><li>c</li></ul>", "<ol><li>@</li><li>b<ul><li>c</li></ul></li></ol>", "<blockquote><p>@</p><p>b c d e f g h</p></blockquote>",
          "<pre>@\n  b\n</pre>", "<dl><dt>@</dt><dd>b c d e f g h</dd></dl>", "<div><p>@</p><p>b</p></div>", "<p>a<br>@</p>", "<p><em>@</em> <a href='/u'>k</a> <img src='/v' alt='l'></p>",
          "<blockquote><blockquote>@</blockquote></blockquote>", "<p><code>@</code></p>", "<q>@</q>", "<p class='s'>@ <b>b</b></p>", "<h1>@<br>b</h1>", "<p></p>", "<q>@<q>a</q><q><p class='s'>b</p></q></q>",
          "<blockquote><p>@</p><p>b</p><p>c</p></blockquote>"]
RULES = {"q": (BlockRenderer, dict(border=["-", "|", "=", "|"], margin=[2, 1, 1, 1], padding=[1, 1, 0, 2])), ".s": (None, dict(initial_indent=2, margin=[2, 0, 2, 1], capitalized=False)), "b": (AnsiEscapeCodeRenderer, dict(bold=True))}


def piece(h, i, at, n):
    return PIECES[at].replace("@", ink(h, "t%d" % i, n))


def together(h, at, n):
    """A sequence of elements becomes the sequence of their outputs."""
    parts = [piece(h, i, at, n if i == 0 else 1) if i == 0 else h.pick("piece %d" % i, PIECES).replace("@", ink(h, "t%d" % i, 1)) for i in range(2)]
    if h.bool("swap"):
        parts = parts[::-1]
    where = h.pick("where", ["@", "<div>@</div>", "<x>@</x>", "<x><y>@</y></x>"])
    kw = dict(renderers=RULES, link_placement="inline", image_placement="inline")
    width = h.pick("width", [14, 40])
    out = convert(where.replace("@", "".join(parts)), width=width, **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "".join([convert(p, width=width, **kw) for p in parts]), "the outputs of the parts")


def three(h, at, last, n):
    """Three of them, with white space between, and a root margin."""
    parts = [piece(h, 0, at, n), h.pick("piece", PIECES).replace("@", ink(h, "t1", 1)), PIECES[last].replace("@", "m")]
    left = h.choose("left", 2) * 3
    gap = h.pick("gap", ["", "\n  "])
    kw = dict(renderers=RULES, link_placement="inline")
    out = convert(gap.join(parts), box=Box(width=30, margin=[0, 0, 0, left]), **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "".join([convert(p, box=Box(width=30, margin=[0, 0, 0, left]), **kw) for p in parts]), "the outputs of the parts")


REFS = ["<p>k <a href='/u'>@</a> l</p>", "<p>k<a href='/u'> @ </a>m</p>", "<ul><li><a href='/u'>@</a></li></ul>", "<pre>k  <a href='/u'> @</a></pre>", "<h2><img src='/u' alt='@'></h2>", "<blockquote>k <img src='/u'>@</blockquote>", "k<a href='/u'></a>@"]


def numbered(h, at, n, before):
    """The same for elements with links, but for their numbers."""
    t = h.text("t", n, ["a-z"])
    part = REFS[at].replace("@", t)
    kw = h.pick("format", [dict(), dict(output_format="gophermap", gopher_host="h")])
    first = "<p>" + "<a href='/f'>f</a> " * before + "</p>"

    def body(src, links):
        lines = convert(src, image_placement="footer", **kw).split("\n")
        # a line break ends the text and another one the last line of a menu or starts the first one of a list
        return "\n".join(lines[:len(lines) - links - 1])
    out = body(first + part, before + 1)
    h.observe("out", out)
    h.reach("converted")
    alone = body(part, 1)
    front = body(first, before)
    end = alone.replace("][1]", "][" + str(before + 1) + "]")
    h.equal(out[:len(front)], front, "the first part")
    h.equal(out[len(front):], end, "the second part")


ITEMS = ["@", "@ b c d e f g h i j", "<p>@</p>", "@<ul><li>b</li><li>c</li></ul>", "<b>@</b> c", "@<pre>a\n b</pre>", "<p>@</p><p>c</p>", "a<br>@", "<ol><li>@</li></ol>"]


def items(h, at, n, tag):
    """Every item has the lines it has in a list with other items."""
    mine = ITEMS[at].replace("@", ink(h, "t", n))
    i = h.choose("position", 3)
    others = [h.pick("first", ITEMS).replace("@", ink(h, "u", 1)), h.pick("second", ["k", "k<br>l", ""])]
    h.assume(others[1] or i == 1)

    def render(o):
        content = [x for x in o[:i] + [mine] + o[i:]]
        ent = "dd" if tag == "dl" else "li"
        return convert("<%s>" % tag + "".join(["<%s>" % ent + c + "</%s>" % ent for c in content]) + "</%s>" % tag, width=20, renderers=RULES).split("\n\n")
    h.assume(i < 3)
    with_others, plain = render(others), render(["k", "l"])
    h.observe("list", with_others)
    h.reach("converted")
    # the lines of the item are in the list with plain items: at its position, up to the next one
    want = "\n".join(plain_item(plain, i))
    got = "\n\n".join(with_others)
    h.check(("\n" + got + "\n").find("\n" + want + "\n") >= 0, "the lines of the item")


def plain_item(parts, i):
    """The lines of the item among plain items k and l of one line each: those before and after it are known."""
    lines = "\n\n".join(parts).strip("\n").split("\n")
    before, after = i, 2 - i
    while before:
        lines = lines[1:]
        while lines and not lines[0]:
            lines = lines[1:]
        before -= 1
    while after:
        lines = lines[:-1]
        while lines and not lines[-1]:
            lines = lines[:-1]
        after -= 1
    return lines


def large(h, n):
    """Long documents, part by part."""
    doc = book(h, n)
    width = h.pick("width", [50, 67])
    kw = dict(link_placement="inline")
    out = convert(html(doc), width=width, **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "".join([convert(html([x]), width=width, **kw) for x in doc]), "the outputs of the parts")
    h.equal(convert(html(doc[::-1]), width=width, **kw), "".join([convert(html([x]), width=width, **kw) for x in doc[::-1]]), "the outputs of the parts, from the last")


WITNESS = {f: ["converted"] for f in ("together", "numbered", "three", "items", "large")}


def tasks(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for i in range(len(PIECES)):
        out.append(("together-%d" % i, "together", dict(at=i, n=n)))
        for j in (0, 2, 7) if tier == "quick" else (0, 2, 4, 5, 7, 10):
            out.append(("three-%d-%d" % (i, j), "three", dict(at=i, last=j, n=n)))
    for i in range(len(REFS)):
        out += [("numbered-%d-%d" % (i, b), "numbered", dict(at=i, n=n, before=b)) for b in (1, 9, 99)]
    for i in range(len(ITEMS)):
        out += [("items-%s-%d" % (t, i), "items", dict(at=i, n=n, tag=t)) for t in ("ul", "ol", "dl")]
    return out + [("large-%d" % k, "large", dict(n=k)) for k in ((6,) if tier == "quick" else (6, 20))]
