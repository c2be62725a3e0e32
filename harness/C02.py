"""C02: reflowed text never exceeds the configured width."""
from gopher_render.rendering import Box, OrderedListItemRenderer
from harness.lib import convert, TEXT, sized

ASSUMPTIONS = [
    "the text contains no '<' or '&', no control characters other than tab and line feed, no Unicode line separators",
    "default renderers; the width leaves at least one column for the text",
]
BOUNDS = {
    "quick": "shapes p, li, dd and their nestings listed in SHAPES; texts of 3 arbitrary code points, of 4 to 6 characters from {letter, space, hyphen, full stop}, and of 3 words of 1 to width+2 letters (one less in the shapes with inline elements and in those nested three deep); content widths 1 to 4, root margins 0 to 2",
    "thorough": "as quick with 5 arbitrary code points, 8 characters and 4 words",
}

# shape -> (source, columns taken by prefixes and markers)
SHAPES = {
    "p": ("<p>@</p>", 0),
    "ul": ("<ul><li>@</li></ul>", 2),
    "ul2": ("<ul><li>b</li><li>@</li></ul>", 2),
    "ol": ("<ol><li>@</li></ol>", 3),
    "dd": ("<dl><dt>t</dt><dd>@</dd></dl>", 2),
    "quote-p": ("<blockquote><p>@</p></blockquote>", 2),
    "quote-quote-p": ("<blockquote><blockquote><p>@</p></blockquote></blockquote>", 4),
    "div-p": ("<div><p>@</p></div>", 0),
    "ul-ul": ("<ul><li>b<ul><li>@</li></ul></li></ul>", 4),
    "ol-ul": ("<ol><li>b<ul><li>@</li></ul></li></ol>", 5),
    "ul-p": ("<ul><li><p>@</p></li></ul>", 2),
    "ul-quote-p": ("<ul><li><blockquote><p>@</p></blockquote></li></ul>", 4),
    "quote-ul": ("<blockquote><ul><li>@</li></ul></blockquote>", 4),
    "quote-dd": ("<blockquote><dl><dd>@</dd></dl></blockquote>", 4),
    "p-em": ("<p>x <em>@</em> y</p>", 0),
    "div-div-ul": ("<div><div><ul><li>@</li></ul></div></div>", 2),
    # paragraphs and items with other things in them
    "p-code": ("<p><code>x y</code> @</p>", 0),
    "p-code2": ("<p>@<code>@</code></p>", 0),
    "p-br": ("<p>@<br>x @</p>", 0),
    "p-only": ("<p><strong>@</strong></p>", 0),
    "p-img": ("<p><img src='u' alt='@'>@</p>", 0),
    "p-span": ("<p class='k' id='i'><span>@</span><i>k</i></p>", 0),
    "li-b": ("<ul><li><b>@</b> y</li></ul>", 2),
    "li-code": ("<ul><li><code>@</code></li></ul>", 2),
    "li-p-p": ("<ul><li><p>a b</p><p>@</p></li></ul>", 2),
    "dd-code": ("<dl><dd>x <code>@</code></dd></dl>", 2),
    "dd-ul": ("<dl><dd>x<ul><li>@</li></ul></dd></dl>", 4),
    "dd-p": ("<dl><dt>t</dt><dd><p>@</p></dd></dl>", 2),
    "quote-code": ("<blockquote><p>@ <code>x</code></p><p>a b c</p></blockquote>", 2),
    "quote3": ("<blockquote><blockquote><blockquote><p>@</p></blockquote></blockquote></blockquote>", 6),
    "ul3": ("<ul><li>b<ul><li>c<ul><li>@</li></ul></li></ul></li></ul>", 6),
    "ol-quote-ol": ("<ol><li><blockquote><ol><li>@</li></ol></blockquote></li></ol>", 8),
    "section-p": ("<section><article><p>@</p></article></section>", 0),
    "p-after": ("<h1>x</h1><pre>long long line</pre><p>@</p>", 0),
}
INLINE = ("p-code", "p-code2", "p-br", "p-only", "p-img", "p-span", "li-b", "li-code", "li-p-p", "dd-code", "dd-ul", "dd-p", "quote-code", "quote3", "ul3", "ol-quote-ol", "section-p", "p-after")


def texts(h, mode, n, content):
    if mode == "any":
        return h.text("t", n, TEXT, "<&")
    if mode == "marks":
        return h.text("t", n, "a -.")
    return " ".join(sized(h, "w", [(1, content + 2)] * n, ["a-z"]))


def fits(h, shape, mode, n, boxed):
    src, used = SHAPES[shape]
    content = h.pick("content width", [1, 2, 4, 5] if mode != "words" else [3, 4])
    width = content + used
    kw = dict(optimise=h.bool("optimise")) if boxed or shape == "p" else dict(optimise=False)
    right = 0
    if boxed:
        left, right = h.pick("left", [0, 1, 2]), h.pick("right", [0, 2])
        width += left + right
        kw["box"] = Box(width=width, margin=[0, right, 0, left])
        if h.bool("width given too"):
            kw["width"] = 50
    else:
        kw["width"] = width
    out = convert(src.replace("@", texts(h, mode, n, content)), **kw)
    h.observe("out", out)
    h.reach("converted")
    lines = out.split("\n")
    if shape == "p-after":
        lines = lines[6:]                             # headings and preformatted text are not wrapped
    for line in lines:
        h.check(len(line) <= width - right, "a line is wider than the width")
        if len(line) == width:
            h.reach("full line")


def numbered(h, n):
    """Markers of several digits count too."""
    start = h.pick("start", [1, 9, 10, 99, 100, 1000])
    step = h.pick("step", [1, 90])
    content = h.pick("content width", [2, 3])
    width = content + len(str(start + step)) + 2
    out = convert("<ol><li>" + h.text("a", n, "a ") + "</li><li>" + h.text("b", n, "a ") + "</li></ol>", width=width,
                  renderers={"ol > li": (OrderedListItemRenderer, dict(start_index=start, step=step))})
    h.observe("out", out)
    h.reach("converted")
    for line in out.split("\n"):
        h.check(len(line) <= width, "a line is wider than the width")


WIDTHS = [7, 10, 40, 60, 67, 68, 80, 81, 100, 132, 250]


def prose(h, n, width):
    """Many words of all sizes, one of them as long as one may like, one of any text."""
    ws = [("abcdefghijklmnopq" * 2)[:i * 7 % 13 + 1] for i in range(n)]
    ws[n // 2] = "x" * (width * 2 + 3) if h.bool("a very long word") else h.text("w", 2, "a -")
    ws[n - 3] = "y" * (width - h.choose("less", 2))
    return " ".join(ws)


def large(h, shape, n):
    """Long texts at usual widths."""
    src, used = SHAPES[shape]
    width = h.pick("width", WIDTHS)
    out = convert(src.replace("@", prose(h, n, width - used)), width=width)
    h.observe("out", out)
    h.reach("converted")
    for line in out.split("\n"):
        h.check(len(line) <= width, "a line is wider than the width")


WITNESS = {"fits": ["converted", "full line"], "numbered": ["converted"]}


def tasks(tier):
    out = []
    q = tier == "quick"
    for s in SHAPES:
        if s in INLINE and q:
            out.append(("marks-%s" % s, "fits", dict(shape=s, mode="marks", n=3, boxed=False)))
            out.append(("words-%s" % s, "fits", dict(shape=s, mode="words", n=2, boxed=False)))
            continue
        out.append(("any-%s" % s, "fits", dict(shape=s, mode="any", n=3 if q else 5, boxed=False)))
        out.append(("marks-%s" % s, "fits", dict(shape=s, mode="marks", n=(6 if s in ("p", "ul", "dd") else 4) if q else 8, boxed=False)))
        out.append(("words-%s" % s, "fits", dict(shape=s, mode="words", n=3 if q else 4, boxed=False)))
        if s in ("p", "ol", "quote-p", "ul-ul") or not q:
            out.append(("boxed-%s" % s, "fits", dict(shape=s, mode="words", n=2 if q else 3, boxed=True)))
    out.append(("numbered", "numbered", dict(n=4 if q else 6)))
    for s in ("p", "ol", "dd", "quote-p", "ul3", "div-p", "li-p-p", "p-em"):
        out.append(("large-%s" % s, "large", dict(shape=s, n=60 if q else 200)))
    return out
