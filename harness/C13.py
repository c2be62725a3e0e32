"""C13: preformatted text keeps its lines and spacing verbatim."""
from gopher_render.rendering import PreRenderer, AnsiEscapeCodeRenderer, Box
from harness.lib import convert, rstrip_lines, collapse, ANY, ESC

ASSUMPTIONS = [
    "text without '<' and '&' (markup), control characters and the line separators U+0085, U+2028 and U+2029",
    "one line break at the end of the text ends its last line",
    "blank space at the ends of lines is not compared",
    "pre in a list item is compared while its lines fit the item (items re-wrap their content)",
]
BOUNDS = {
    "quick": "5 arbitrary code points, tabs and line feeds; 6 characters of {letter, space, tab, line feed}; widths 4 and 40; indents 0 to 9 and 2 line templates; in div, nested quotes, list items; 2 inline children of 6 kinds with 2 symbolic characters in and around; any of 6 siblings before and after",
    "thorough": "7 arbitrary code points, 11 of {letter, space, tab, line feed}, 3 characters in and around inline children",
}
SPACE = "a \t\n"
FULL = ((9, 10),) + ANY


def want_of(t, prefix):
    lines = t.split("\n")
    if len(lines) > 1 and lines[-1] == "":
        lines = lines[:-1]
    return [(prefix + l).rstrip() for l in lines]


def alone(h, n, dom, minus, width, optimise):
    t = h.text("t", n, dom, minus)
    out = convert("<pre>" + t + "</pre>", width=width, optimise=optimise)
    h.observe("out", out)
    h.reach("converted")
    h.equal(rstrip_lines(out), "\n" + "\n".join(want_of(t, "    ")) + "\n", "preformatted text")


def configured(h, n, dom):
    indent = h.choose("indent", 10)
    mark = h.pick("template", ["{}", "| {}", "{} ;"])
    left = h.choose("left", 3)
    t = h.text("t", n, dom)
    out = convert("<pre>" + t + "</pre>", width=5, renderers={"pre": (PreRenderer, dict(indent=indent, line_template=mark, margin=[1, 0, 1, left]))})
    h.observe("out", out)
    h.reach("converted")
    lines = t.split("\n")
    if len(lines) > 1 and lines[-1] == "":
        lines = lines[:-1]
    want = [(" " * (left + indent) + mark.replace("{}", "\x00")).replace("\x00", l).rstrip() for l in lines]
    h.equal(out, "\n" + "\n".join(want) + "\n", "preformatted text")


INSIDE = {"div": ("<div>@</div>", "", ""), "div div": ("<div> <div>\n@\n</div> </div>", "", ""),
          "quote": ("<blockquote>@</blockquote>", "> ", ">"), "quote quote": ("<blockquote><blockquote>@</blockquote></blockquote>", "> > ", "> >")}


def inside(h, where, n, dom):
    """In divisions and quotes, with a left margin of the document."""
    t = h.text("t", n, dom)
    src, prefix, empty = INSIDE[where]
    left = h.choose("left", 2)
    out = convert(src.replace("@", "<pre>" + t + "</pre>"), box=Box(width=9, margin=[0, 0, 0, left]))
    h.observe("out", out)
    h.reach("converted")
    body = want_of(t, "    ")
    want = [""] + [prefix + l for l in body] + [""]
    if empty:
        want = [""] + [prefix + l for l in [""] + body] + [""]      # the top margin of the pre is quoted
    if where == "quote quote":
        want = ["", "> "] + want[1:]
    lead = " " * left
    want = [(lead + l).rstrip() for l in want]
    h.equal(out, "\n".join(want), "preformatted text")


def inline(h, n, k):
    """Inline elements inside: their text is verbatim as well."""
    kinds = {"b": "**", "em": "_", "span": "", "code": "", "x": "", "i": "_"}
    e, f = h.pick("first", list(kinds)), h.pick("second", list(kinds))
    a, b, c, d = h.text("a", k, " \nw"), h.text("b", n, " \t\nx"), h.text("c", k, " \ny"), h.text("d", n, " \nz")
    src = a + "<" + e + ">" + b + "</" + e + ">" + c + "<" + f + ">" + d + "</" + f + ">!"
    out = convert("<p>q</p><pre>" + src + "</pre><p>s</p>", width=12)
    h.observe("out", out)
    h.reach("converted")
    t = a + kinds[e] + b + kinds[e] + c + kinds[f] + d + kinds[f] + "!"
    h.equal(out, "\nq\n\n" + "\n".join(want_of(t, "    ")) + "\n\ns\n", "preformatted text")


def nested(h, n):
    """Elements nested in the element, and coloured code as highlighters produce it."""
    a, b, c = h.text("a", n, " \n\tw"), h.text("b", n, " \nx"), h.text("c", n, " \ny")
    shape = h.choose("shape", 3)
    on, off = ESC + "[1m", ESC + "[22m"
    if shape == 0:
        src, t = "<pre><code>" + a + "<span class='k'>" + b + "</span>" + c + "</code></pre>", a + on + b + off + c
    elif shape == 1:
        src, t = "<div class='highlight'><pre><span></span>" + a + "<span class='k'>" + b + "</span>" + c + "</pre></div>", a + on + b + off + c
    else:
        src, t = "<pre>" + a + "<em>" + b + "<span class='k'>" + c + "</span></em></pre>", a + "_" + b + on + c + off + "_"
    h.assume(t.strip() != "" and (a + b + c).strip() != "")
    out = convert(src, width=12, renderers={".k": (AnsiEscapeCodeRenderer, dict(bold=True))})
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\n" + "\n".join(want_of(t, "    ")) + "\n", "preformatted text")


SIB = {"p": ("<p>  u\n v </p>", "\nu v\n"), "pre": ("<pre> u\n  v</pre>", "\n     u\n      v\n"), "h1": ("<h1>u  v</h1>", "\n# u v #\n"), "none": ("", ""),
       "quote": ("<blockquote><p>u\n\nv</p></blockquote>", "\n> u v\n"), "ul": ("<ul>\n <li>u  v</li>\n</ul>", "\n* u v\n")}


def siblings(h, n):
    """What stands before and after is not affected, and does not affect."""
    f, l = h.pick("before", list(SIB)), h.pick("after", list(SIB))
    gap = h.pick("gap", ["", "\n", " \n\t "])
    t = h.text("t", n, " \nx")
    h.assume(t.strip() != "")
    out = convert(gap + SIB[f][0] + gap + "<pre>" + t + "</pre>" + gap + SIB[l][0] + gap, width=12)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, SIB[f][1] + "\n" + "\n".join(want_of(t, "    ")) + "\n" + SIB[l][1], "preformatted text and siblings")


def ends(h, n):
    """Verbatim treatment stops exactly at the end tag, whatever was inside."""
    mid = h.pick("inside", ["", "<b>i</b>", "<br>", "<b>i", "</b>", "<pre>i</pre>", "<!-- c -->", "<img src=x>", "<hr>"])
    h.assume(mid not in ("<b>i",))
    t, u = h.text("t", n, " \nx"), h.text("u", n, " \ny")
    h.assume(u.strip() != "")
    h.assume(t.strip() != "")
    out = convert("<div><pre>" + t + mid + "</pre>" + u + "!</div>", width=30)
    h.observe("out", out)
    h.reach("converted")
    h.check(out.rstrip(" \n").endswith((collapse(u) + "!").strip(" ")) or mid == "<b>i", "text after")
    if mid in ("", "</b>", "<!-- c -->"):
        # behind the margin of the pre, up to the space after the tag
        h.equal([l.strip(" ") for l in rstrip_lines(out).split("\n")][-1], (collapse(u) + "!").strip(" "), "text after")


def item(h, n, kind):
    """In list items and definitions whose width it fits."""
    t = h.text("t", n, " \t\nx")
    h.assume(t.strip() != "")
    o, i, mark, second = {"ul": ("ul", "li", "* ", "* "), "ol": ("ol", "li", "1. ", "2. "), "dl": ("dl", "dd", ": ", ": ")}[kind]
    out = convert("<@><#>k<pre>".replace("@", o).replace("#", i) + t + "</pre></#><#>m  n</#></@>".replace("@", o).replace("#", i), width=30)
    h.observe("out", out)
    h.reach("converted")
    lines = [l for l in want_of(t, " " * len(mark) + "    ") if l != ""]
    h.equal([l for l in out.split("\n") if l != ""], [mark + "k"] + lines + [second + "m n"], "preformatted text in an item")


def sentence(h):
    """A sentence end in preformatted text in a list item."""
    out = convert("<ul><li>k<pre>a. b</pre></li></ul>", width=30)
    h.observe("out", out)
    h.reach("converted")
    h.equal([l for l in out.split("\n") if l != ""], ["* k", "      a. b"], "preformatted text in an item")


def large(h, n, where):
    """Many and long lines, deep indentation, tabs, a symbolic character here and there."""
    c = h.text("c", 2, FULL, "<&\x7f\n")
    src, prefix, empty = INSIDE[where] if where else ("@", "", "")
    lines = []
    for i in range(n):
        lines.append("\t" * (i % 3) + " " * (i * 7 % 41) + ("word%d  " % i) * (i * 5 % 37) + (c if i % 4 == 1 else "") + "end")
        if i % 9 == 8:
            lines += [""] * (i % 4)
    t = "\n".join(lines)
    out = convert("<p>" + "q " * 50 + "</p>" + src.replace("@", "<pre>" + t + "</pre>") + "<p>" + "r " * 50 + "</p>", width=33)
    h.observe("out", out)
    h.reach("converted")
    got = rstrip_lines(out).split("\n")
    body = [(prefix + l).rstrip() for l in want_of(t, "    ")]
    around = [""] + [" ".join(["q"] * 17)] * 2 + [" ".join(["q"] * 16)] + [""]
    h.equal(got[:len(around)], around, "before")
    at = [i for i, l in enumerate(got) if l.rstrip(" ").endswith("end")]
    h.equal(got[at[0]:at[-1] + 1], body, "preformatted text")
    h.equal([l for l in got[at[-1] + 1:] if l.strip("> ")], [" ".join(["r"] * 17)] * 2 + [" ".join(["r"] * 16)], "after")


WITNESS = {f: ["converted"] for f in ("alone", "configured", "inside", "inline", "nested", "siblings", "ends", "item", "sentence", "large")}


def tasks(tier):
    q = tier == "quick"
    out = []
    for w in (4, 40):
        out.append(("any-%d" % w, "alone", dict(n=5 if q else 7, dom=FULL, minus="<&\x7f", width=w, optimise=True)))
        out.append(("space-%d" % w, "alone", dict(n=6 if q else 8, dom=SPACE, minus="", width=w, optimise=True)))
    out.append(("space-raw", "alone", dict(n=5 if q else 7, dom=SPACE, minus="", width=6, optimise=False)))
    out.append(("configured", "configured", dict(n=3 if q else 4, dom=SPACE)))
    for w in INSIDE:
        out.append(("inside-" + w, "inside", dict(where=w, n=4 if q else 6, dom=SPACE)))
    out.append(("inline", "inline", dict(n=2, k=1 if q else 2)))
    out.append(("nested", "nested", dict(n=3 if q else 4)))
    out.append(("siblings", "siblings", dict(n=3 if q else 5)))
    out.append(("ends", "ends", dict(n=3 if q else 4)))
    for k in ("ul", "ol", "dl"):
        out.append(("item-" + k, "item", dict(n=4 if q else 6, kind=k)))
    out.append(("item-sentence", "sentence", {}))
    for n, w in ((30, ""), (12, "quote quote"), (60, "div")) if q else ((30, ""), (12, "quote quote"), (60, "div"), (200, ""), (100, "quote")):
        out.append(("large-%d-%s" % (n, w), "large", dict(n=n, where=w)))
    return out
