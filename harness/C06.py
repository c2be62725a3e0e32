"""C06: nested boxes fit exactly: widths add up and borders line up."""
from gopher_render.rendering import Box, BlockRenderer, ParagraphRenderer, BlockQuoteRenderer, HeaderRenderer
from harness.lib import convert, bordered, greedy, source, layout, rstrip_lines

ASSUMPTIONS = [
    "line templates end in their only placeholder; rendered boxes leave at least as many columns as their content needs",
]
BOUNDS = {
    "quick": "box arithmetic: chains of 1 to 4 boxes with unbounded non-negative widths, margins, borders and paddings; rendering: up to 3 nested blocks, each side 0 to 2 columns, single-character and double borders; nests of 8 blocks with sides of 7 columns, single blocks with sides of 9; nests of up to 3 default blocks with words longer than a line",
    "thorough": "chains of up to 5 boxes; rendering with all four sides free",
}

TEMPLATES = [None, "{}", "> {}", "10. {}"]


def arithmetic(h, depth):
    """Widths of boxes as terms over unbounded integers."""
    width = h.int("width")
    boxes = []
    given = []
    parent = None
    used = 0
    for d in range(depth):
        quads = []
        for what in ("margin", "padding", "border"):
            quads.append([h.int("%s %d.%d" % (what, d, i), 0) for i in range(4)])
        template = h.pick("template %d" % d, TEMPLATES if d < 2 else ["> {}"])
        m, p, b = [q[:] for q in quads]
        given.append((quads, (m, p, b)))
        box = Box(width=width if parent is None else h.int("ignored %d" % d), margin=m, padding=p, border=b,
                  line_template=template, parent=parent)
        boxes.append((box, quads, len(template) - 2 if template else 0))
        parent = box
    # everything is read after all boxes were made: making a child changes nothing of its parents
    used = 0
    before = width
    for box, (m, p, b), t in boxes:
        used = used + m[1] + m[3] + p[1] + p[3] + b[1] + b[3] + t
        h.equal(box.inner_width_excluding_line_template, width - used, "content width")
        h.equal(box.inner_width, width - used + t, "content width with the line prefix")
        h.equal(box.padded_width, width - used + t + p[1] + p[3], "padded width")
        h.equal(box.bordered_width, before - m[1] - m[3], "bordered width fills the parent")
        h.equal(box.padded_width, before - m[1] - m[3] - b[1] - b[3], "padded width fills the border")
        h.equal(box.width, width, "document width")
        h.equal((box.margin, box.padding, box.border), (m, p, b), "own sides")
        before = width - used
    for quads, lists in given:
        for q, l in zip(quads, lists):
            h.equal(l, q, "settings unchanged")
    h.reach("computed")


def siblings(h):
    """Boxes made with defaults or None sides, and siblings of one parent, do not affect each other."""
    width = h.int("width")
    m = [h.int("m%d" % i, 0) for i in range(4)]
    a = Box(width=width)
    b = Box(margin=m, padding=None, border=None, parent=a)
    c = Box(margin=None, parent=a)
    d = Box(margin=m, parent=b)
    h.equal(a.inner_width, width, "default box")
    h.equal(b.inner_width, width - m[1] - m[3], "child")
    h.equal(c.inner_width, width, "sibling")
    h.equal(d.inner_width, width - m[1] - m[3] - m[1] - m[3], "grandchild")
    h.equal(Box(width=width).inner_width, width, "later default box")
    h.reach("computed")


def sides(h, name, which, hi):
    q = [0, 0, 0, 0]
    for i in which:
        q[i] = h.choose("%s %d" % (name, i), hi + 1)
    return q


def borders(h, name, options):
    return h.pick(name, options)


BORDERS = [["", "", "", ""], ["-", "|", "=", "!"], ["", "]", "", "["], ["-", "", "~", ""], ["+-", "||", "=+", "!:"]]


def rendered(h, shape, which, hi, fixed, width=36, scale=1, text=None):
    """Rendered nests of blocks against the reference layout, every row and column."""
    kinds = {"div": (BlockRenderer, "div"), "p": (ParagraphRenderer, "p"), "quote": (BlockQuoteRenderer, "blockquote"),
             "h": (HeaderRenderer, "h2")}
    ren = {}
    src = h.text("t", 3, ["a-z"]) + (text or " bb<br>ccccc")
    levels = []
    for d, k in enumerate(shape):
        m = [scale * v for v in sides(h, "margin %d" % d, which, hi)] if d in fixed else [1, 2, 0, 1]
        p = [scale * v for v in sides(h, "padding %d" % d, which, hi)] if d in fixed else [0, 1, 1, 2]
        b = h.pick("border %d" % d, BORDERS) if scale == 1 or d in fixed else BORDERS[d % len(BORDERS)]
        cls, tag = kinds[k]
        ren["." + "abcdefghijkl"[d]] = (cls, dict(margin=m, padding=p, border=b))
        levels.append((k, tag, m, p, b))
    doc = src
    for d in range(len(shape) - 1, -1, -1):
        doc = "<%s class='%s'>%s</%s>" % (levels[d][1], "abcdefghijkl"[d], doc, levels[d][1])
    for sel in ("blockquote > p:first-child", "blockquote > p:last-child", "blockquote > p:last-child:first-child"):
        ren[sel] = (None, {})
    out = convert(doc, width=width, renderers=ren, optimise=False)
    h.observe("out", out)
    h.reach("converted")
    # space left at each level
    space = [width]
    for k, tag, m, p, b in levels:
        space.append(space[-1] - m[1] - m[3] - p[1] - p[3] - len(b[1]) - len(b[3]) - (2 if k == "quote" else 0))
    h.assume(space[-1] >= 6)
    text = src.replace("<br>", "\n")
    for d in range(len(shape) - 1, -1, -1):
        k, tag, m, p, b = levels[d]
        if k == "quote":
            lines = text.split("\n")
            if len(lines) > 1 and lines[-1] == "":
                lines = lines[:-1]
            text = "\n".join(["> " + l for l in lines])
        text = bordered(text, space[d], m, b, p)
    h.equal(out, text, "layout")
    if [1 for l in levels if l[4][1] == "|"]:
        h.reach("border")


def defaults(h, depth, lo, hi):
    """Nests of default blocks: a long word fills exactly the columns that are left for it."""
    width = lo + h.choose("width", hi - lo + 1)
    word = (h.text("t", 2, ["a-z"]) + "bcdefghijklmnopqrstuvwxyz" * 3)[:h.pick("length", [20, 61])]
    n = 1 + h.choose("paragraphs", 3)
    leaf = h.pick("leaf", ["p", "dl", "ul"])
    nodes = [("p", word)] * n if leaf == "p" else [("dl", [("dd", word)] * n)] if leaf == "dl" else [("ul", [(word, [])] * n)]
    for d in range(depth):
        k = h.pick("block %d" % d, ["quote", "div", "ul", "ol"])
        if k in ("ul", "ol"):
            nodes = [(k, [(word, nodes), ("x " + word, [])])]
        else:
            nodes = [(k, nodes), ("p", word)]
    out = convert(source(nodes), width=width)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(layout(nodes, width)), "layout")


WITNESS = {"defaults": ["converted"], "arithmetic": ["computed"], "siblings": ["computed"], "rendered": ["converted", "border"]}


def tasks(tier):
    q = tier == "quick"
    out = [("siblings", "siblings", {})]
    for d in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5)):
        out.append(("boxes-%d" % d, "arithmetic", dict(depth=d)))
    which = (1, 3)
    for s in (["div"], ["p"], ["quote"], ["h"]):
        out.append(("render-%s" % "-".join(s), "rendered", dict(shape=s, which=(0, 1, 2, 3), hi=1, fixed=(0,))))
    for s in (["div", "p"], ["div", "div"], ["quote", "p"], ["div", "quote"], ["quote", "div"], ["quote", "quote"], ["div", "h"]):
        for fixed in ((0,), (1,)):
            out.append(("render-%s-%d" % ("-".join(s), fixed[0]), "rendered",
                        dict(shape=s, which=which if q else (0, 1, 2, 3), hi=1 if q else 1, fixed=fixed)))
    for s in (["div", "div", "p"], ["div", "quote", "p"], ["quote", "quote", "p"], ["quote", "div", "div"]):
        for fixed in ((0,), (1,), (2,)):
            out.append(("render-%s-%d" % ("-".join(s), fixed[0]), "rendered",
                        dict(shape=s, which=(3,) if q else which, hi=1 if q else 2, fixed=fixed)))
    for k in range(8):
        out.append(("large-%d" % k, "rendered", dict(shape=["div", "quote", "div", "div", "quote", "quote", "div", "p"], which=(1, 3), hi=1, fixed=(k,), width=160, scale=7)))
    for s in (["p"], ["quote", "p"], ["div", "h"]):
        out.append(("large-%s" % "-".join(s), "rendered", dict(shape=s, which=(0, 1, 2, 3), hi=1, fixed=(0,), width=90, scale=9)))
    for d in (1, 2) if q else (1, 2, 3):
        out.append(("defaults-%d" % d, "defaults", dict(depth=d, lo=19, hi=20 if q else 23)))
    return out
