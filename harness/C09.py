"""C09: ordered list items are numbered consecutively."""
from gopher_render.rendering import OrderedListItemRenderer
from harness.lib import convert, source, layout, rstrip_lines, sized, MARKS, words_of, greedy

ASSUMPTIONS = [
    "compared line by line without the blank space at the ends of lines (C24 decides that)",
    "text between items is a single word (only the numbering is compared then)",
]
BOUNDS = {
    "quick": "lists of 1 to 4 items with any start from -120 to 1200 and any step from -11 to 120, items of up to 2 words of any length up to the width; 3 of any 9 kinds of things between 3 items; any white space of 3 characters; nested lists of 2 levels of any of 3 kinds; 11 items with up to 3 digits; 9 label templates, literal braces included",
    "thorough": "5 items, 4 things between items, three levels of nesting, 102 items",
}


def label(start, step):
    return lambda k: str(start + k * step) + ". "


def series(h, n, lo, hi, width):
    """Any start and step, and labels of any width in the hanging indent."""
    start = h.int("start", -120, 1200)
    step = h.int("step", -11, 120)
    nodes = [("ol", [(" ".join(sized(h, "i%d" % i, [(lo, hi)] * 2 if i == n - 1 else [(1, 1)], ["a-z"])), []) for i in range(n)])]
    out = convert(source(nodes), width=width, renderers={"ol > li": (OrderedListItemRenderer, dict(start_index=start, step=step))})
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(layout(nodes, width, None, dict(MARKS, ol=label(start, step)))), "layout")


def default(h, n):
    """Default numbering, whatever the items' texts."""
    nodes = [("ol", [(h.text("t%d" % i, 1, ["a-z", "0-9"]), []) for i in range(n)])]
    out = convert(source(nodes), width=20)
    h.observe("out", out)
    h.reach("converted")
    want = ""
    for i in range(n):
        want += "\n" + str(i + 1) + ". " + nodes[0][1][i][0]
    h.equal(out, want + "\n", "layout")


BETWEEN = ["", "\n", "\n\n  ", "<!-- c -->", " <!--c-->\n<!-- d --> ", "<br>", "</li>", "</p> ", "w"]


def between(h, n, kinds):
    """Anything between the items."""
    src = "<ol>"
    words = False
    for i in range(n):
        g = h.pick("gap %d" % i, kinds)
        words = words or g == "w"
        src += g + "<li>i%d</li>" % i
    out = convert(src + "</ol>", width=40)
    h.observe("out", out)
    h.reach("converted")
    at = 0
    for i in range(n):
        item = str(i + 1) + ". i%d" % i
        h.check(item in out, "label of an item")
        h.check(out.count("i%d" % i) == 1 and out.count(". i%d" % i) == 1, "one label per item")
        h.check(out.index(item) >= at, "items in order")
        at = out.index(item)


def spaces(h, n):
    """Any white space between the items."""
    a = h.text("a", n, " \n\t\r")
    b = h.text("b", n, " \n\t\r")
    out = convert("<ol>" + a + "<li>x</li>" + b + "<li>y</li>" + a + "</ol>", width=20)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\n1. x\n2. y\n", "layout")


def nested(h, depth, n, custom):
    """Lists in lists: each ordered list counts its own items."""
    start, step = 1, 1
    ren = {}
    if custom:
        start = h.int("start", -3, 12)
        step = h.int("step", -2, 6)
        ren = {"ol > li": (OrderedListItemRenderer, dict(start_index=start, step=step))}
    count = [0]

    def make(d):
        kind = h.pick("kind %d" % count[0], ["ol", "ul", "quote"])
        count[0] += 1
        items = []
        if kind == "quote":
            return ("quote", [make(d - 1)] if d else [("p", "q")])
        where = h.choose("where %d" % count[0], n) if d else -1
        for i in range(n):
            items.append(("t%d" % i, [make(d - 1)] if i == where else []))
        return (kind, items)
    nodes = [make(depth), ("ol", [("x", []), ("y", [])])]
    out = convert(source(nodes), width=30, renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(layout(nodes, 30, None, dict(MARKS, ol=label(start, step)))), "layout")


def subclass(h):
    """Start and step from a renderer class and from the rule."""
    start = h.int("start", -5, 50)
    step = h.int("step", -3, 9)

    class Mine(OrderedListItemRenderer):
        settings = dict(start_index=start, step=2)
    both = h.bool("step in rule")
    ren = {"ol > li": (Mine, dict(step=step)) if both else Mine}
    out = convert("<ol><li>a</li><li>b</li><li>c</li></ol><ol><li>d</li></ol>", renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    if not both:
        step = 2
    want = "\n" + str(start) + ". a\n" + str(start + step) + ". b\n" + str(start + 2 * step) + ". c\n\n" + str(start) + ". d\n"
    h.equal(out, want, "layout")


def lettered(h, n, width):
    """Any configured template around number and text; its literal braces are text."""
    t, left, right, back = h.pick("template", [("({0}) {1}", "(", ") ", ""), ("{{{0}}} {1}", "{", "} ", ""), ("{0}{{{1}", "", "{", ""), ("{{}}{0}{1}", "{}", "", ""), ("{{0}} {0}: {1}", "{0} ", ": ", ""),
                                              ("#{0:>3} {1}", None, " ", ""), ("{0}. {1}|", "", ". ", "|"), ("}}{0}{{ {1}", "}", "{ ", ""), ("\u2022 {0} {1}", "\u2022 ", " ", "")])
    start, step = h.int("start", 8, 11), h.int("step", -1, 90)
    label = lambda k: (left if left is not None else "#" + " " * (3 - len(str(start + k * step)))) + str(start + k * step) + right
    ws = sized(h, "w", [(1, 4)] * 2, ["a-z"])
    out = convert("<ol><li>" + " ".join(ws) + "</li><li>b</li></ol><ol><li>k</li></ol>", width=width, renderers={"ol > li": (OrderedListItemRenderer, dict(line_template=t, start_index=start, step=step))})
    h.observe("out", out)
    h.reach("converted")
    used = len(label(0)) + len(back)
    lines = greedy(ws, max(width - used, 1))
    want = "\n" + label(0) + lines[0] + back + "\n" + "".join([" " * used + l + "\n" for l in lines[1:]]) + label(1) + "b" + back + "\n"
    h.equal(out, want + "\n" + label(0) + "k" + back + "\n", "layout")


WITNESS = {f: ["converted"] for f in ("lettered", "series", "default", "between", "spaces", "nested", "subclass")}


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4) + (() if q else (5,)):
        out.append(("series-%d" % n, "series", dict(n=n, lo=1, hi=5, width=9)))
    out.append(("default-11", "default", dict(n=11)))
    out.append(("default-102" if not q else "default-101", "default", dict(n=102 if not q else 101)))
    out.append(("between", "between", dict(n=3 if q else 4, kinds=BETWEEN)))
    out.append(("spaces", "spaces", dict(n=3 if q else 5)))
    out.append(("nested-1", "nested", dict(depth=1, n=2, custom=True)))
    out.append(("nested-2", "nested", dict(depth=2, n=2, custom=False)))
    if not q:
        out.append(("nested-3", "nested", dict(depth=3, n=3, custom=False)))
        out.append(("nested-2c", "nested", dict(depth=2, n=2, custom=True)))
    out.append(("subclass", "subclass", {}))
    for w in (8, 30):
        out.append(("template-%d" % w, "lettered", dict(n=2, width=w)))
    return out
