"""C11: inline markup wraps exactly its own content and nests."""
from gopher_render.rendering import InlineRenderer, EmRenderer, StrongRenderer, AnsiEscapeCodeRenderer, CodeRenderer, Renderer
from harness.lib import convert, ink, ANY, ODD_SPACE, PLAIN_MINUS

ASSUMPTIONS = [
    "text of visible characters without a role in markup or wrapping, in lines shorter than the width",
    "a code span with a line break inside is a block of code, which is put between fences",
    "upper-casing is compared for letters a to z (C10 compares more)",
    "code markers are left out only for code that is a child of pre itself",
]
BOUNDS = {
    "quick": "2 elements of any of 12 kinds nested, in sequence or both with arbitrary characters around, 3 nested elements of any kind; inside p, li, dd, h2, blockquote, div or nothing; any 2 of 8 markers and capitals; line breaks between characters; code in pre; nests of 8 and 20 elements followed by rows of as many; breaks at the ends of code and code of nothing else; 10 inline nests in pre",
    "thorough": "3 elements in every shape, 4 nested",
}
MARK = {"em": "_", "i": "_", "u": "_", "ins": "_", "strong": "**", "b": "**", "s": "~~", "del": "~~", "code": "`", "span": "",
        "sub": "", "font": ""}
KINDS = list(MARK)
OUTER = {"p": ("<p>@</p>", "\n@\n"), "li": ("<ul><li>@</li></ul>", "\n* @\n"), "dd": ("<dl><dd>@</dd></dl>", "\n\n: @\n"),
         "h2": ("<h2>@</h2>", "\n## @ ##\n"), "blockquote": ("<blockquote>@</blockquote>", "\n> @\n"), "div": ("<div>@</div>", "@"),
         "": ("@", "@"), "p in quote": ("<blockquote><p>@</p></blockquote>", "\n> @\n")}


def put(outer, src, want):
    a, b = OUTER[outer]
    return a.replace("@", src), b.replace("@", want)


class Gen:
    def __init__(self, h, kinds):
        self.h = h
        self.kinds = kinds
        self.n = 0
        self.e = 0

    def text(self):
        self.n += 1
        return ink(self.h, "t%d" % self.n, 1)

    def element(self, inside):
        self.e += 1
        k = self.h.pick("element %d" % self.e, self.kinds)
        src, want = inside
        return "<" + k + ">" + src + "</" + k + ">", MARK[k] + want + MARK[k]

    def both(self, *parts):
        src, want = "", ""
        for p in parts:
            if not isinstance(p, tuple):
                p = (p, p)
            src, want = src + p[0], want + p[1]
        return src, want


def shapes(h, shape, kinds, outer):
    g = Gen(h, kinds)
    t = g.text
    if shape == "nest2":
        r = g.both(t(), g.element(g.both(t(), g.element(g.both(t())), t())), t())
    elif shape == "nest3":
        r = g.element(g.both(t(), g.element(g.both(g.element(g.both(t())), t()))))
    elif shape == "nest4":
        r = g.element(g.both(t(), g.element(g.both(g.element(g.both(t(), g.element(g.both(t())))), t()))))
    elif shape == "row2":
        r = g.both(t(), g.element(g.both(t())), t(), " ", g.element(g.both(t(), t())))
    elif shape == "row3":
        r = g.both(g.element(g.both(t())), g.element(g.both(t())), " ", g.element(g.both(t())), t())
    elif shape == "tree":
        r = g.both(g.element(g.both(g.element(g.both(t())), t(), g.element(g.both(t())))), t())
    elif shape == "empty":
        r = g.both(t(), g.element(("", "")), t(), g.element(g.element(("", ""))))
    src, want = put(outer, *r)
    out = convert(src)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want, "inline markup")


def breaks(h, n, kinds):
    """A line break is one line break, wherever it stands."""
    src, want = "", ""
    open_ = None
    for i in range(n):
        k = h.choose("piece %d" % i, 4)
        if k == 0:
            c = ink(h, "c%d" % i, 1)
            src, want = src + c, want + c
        elif k == 1:
            src, want = src + h.pick("form %d" % i, ["<br>", "<br/>"]), want + "\n"
        elif open_:
            src, want = src + "</" + open_ + ">", want + MARK[open_]
            open_ = None
        else:
            h.assume(k == 2)
            open_ = h.pick("element %d" % i, kinds)
            src, want = src + "<" + open_ + ">", want + MARK[open_]
    if open_:
        src, want = src + "</" + open_ + ">", want + MARK[open_]
    h.assume(want.strip("\n") != "")
    out = convert("<p>" + src + "</p>")
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\n" + want + "\n", "line breaks")


def configured(h, outer):
    """Configured markers and capitals of nested elements."""
    marks = [("{}", "", ""), ("<{}>", "<", ">"), ("*{}", "*", ""), ("{}!", "", "!"), ("{{{}}}", "{", "}"), ("%s{}%%", "%s", "%%"),
             ("\\{}\\n", "\\", "\\n"), ("({}", "(", "")]
    ren = {}
    inner = h.text("t", 2, ["a-z"])
    a, b = h.text("a", 1, ["a-z"]), h.text("b", 1, ["a-z"])
    src, want = inner, inner
    for i, base in enumerate((InlineRenderer, EmRenderer)):
        m, left, right = h.pick("marker %d" % i, marks)
        up = h.bool("capitals %d" % i)
        ren[".x%d" % i] = (base, dict(template=m, capitalized=up))
        side = (a, b)[i]
        src, want = side + src + side, side + want + side
        if up:
            want = want.upper()
        want = left + want + right
        src = "<span class='x%d'>" % i + src + "</span>"
    src, want = put(outer, a + src + b, a + want + b)
    out = convert(src, renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want, "inline markup")


def capitals(h, kinds):
    """Capitals are for the element's own content only, its descendants included."""
    t = [h.text("t%d" % i, 1, ["a-z"]) for i in range(5)]
    k, e = h.pick("capital", kinds), h.pick("inner", kinds)
    h.assume(k != e)
    cls = {"em": EmRenderer, "strong": StrongRenderer, "span": InlineRenderer, "i": EmRenderer, "b": StrongRenderer}[k]
    out = convert("<p>" + t[0] + "<" + k + ">" + t[1] + "<" + e + ">" + t[2] + "</" + e + "></" + k + ">" + t[3] + "<" + e + ">" + t[4] + "</" + e + "></p>",
                  renderers={k: (cls, dict(capitalized=True))})
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\n" + t[0] + MARK[k] + t[1].upper() + MARK[e] + t[2].upper() + MARK[e] + MARK[k] + t[3] + MARK[e] + t[4] + MARK[e] + "\n", "capitals")


def code(h):
    """Code in pre is left alone; elsewhere it gets its markers."""
    t = ink(h, "t", 3)
    where = h.pick("where", ["p", "pre", "pre twice", "p pre", "pre em", "em", "li", "h1", "root"])
    c = "<code>" + t + "</code>"
    src, want = {
        "p": ("<p>" + c + "</p>", "\n`" + t + "`\n"),
        "pre": ("<pre>" + c + "</pre>", "\n    " + t + "\n"),
        "pre twice": ("<pre>" + c + "x" + c + "\n" + c + "</pre>", "\n    " + t + "x" + t + "\n    " + t + "\n"),
        "p pre": ("<p>" + c + "</p><pre>" + c + "</pre><p>a " + c + "</p>", "\n`" + t + "`\n\n    " + t + "\n\na `" + t + "`\n"),
        "pre em": ("<pre><em>x</em>" + c + "</pre>", "\n    _x_" + t + "\n"),
        "em": ("<p><em>a" + c + "</em></p>", "\n_a`" + t + "`_\n"),
        "li": ("<ul><li>" + c + "</li><li>a " + c + "</li></ul>", "\n* `" + t + "`\n* a `" + t + "`\n"),
        "h1": ("<h1>" + c + "</h1>", "\n# `" + t + "` #\n"),
        "root": (c, "`" + t + "`"),
    }[where]
    out = convert(src)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want, "code")


def fenced(h, n):
    """Code with line breaks becomes lines of their own between fences; a paragraph of nothing else keeps them."""
    t = [ink(h, "t%d" % i, n) for i in range(3)]
    more = h.bool("more")
    c = "<code>" + t[0] + "<br>" + t[1] + ("<br/>" + t[2] if more else "") + "</code>"
    where = h.pick("where", ["p", "root", "div", "span", "own", "pre"])
    lines = t[0] + "\n" + t[1] + ("\n" + t[2] if more else "")
    block = "```\n" + lines + "\n```\n"
    ren = {}
    if where == "own":
        ren = {"code": (CodeRenderer, dict(block_template="<\n{}>", inline_template="!{}"))}
        c += "<code>k</code>"
        block = "<\n" + lines + ">!k"
    src, want = {"p": ("<p>" + c + "</p>", "\n" + block + "\n"), "root": ("x" + c + "y", "x" + block + "y"), "div": ("<div>" + c + "y</div>", block + "y"),
                 "span": ("<span>" + c + "</span>", block), "own": (c, block), "pre": ("<pre>" + c + "</pre>", "\n    " + lines.replace("\n", "\n    ") + "\n")}[where]
    out = convert(src, renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want, "code with line breaks")


def large(h, n):
    """Deep nests and long rows."""
    c = ink(h, "c", 1)
    at, step = h.choose("rotation", len(KINDS)), h.pick("step", [1, 5, 7])
    outer = h.pick("outer", ["p", "", "li", "h2", "p in quote"])
    kinds = [KINDS[(at + i * step) % len(KINDS)] for i in range(n)]
    src, want = "k" + c, "k" + c
    for i, k in enumerate(kinds):
        side = c if i % 3 == 1 else ""
        src, want = "<" + k + ">" + side + src + "</" + k + ">", MARK[k] + side + want + MARK[k]
    for i, k in enumerate(kinds):
        src += (" " if i % 4 else "") + "<" + k + ">r" + c + "</" + k + ">"
        want += (" " if i % 4 else "") + MARK[k] + "r" + c + MARK[k]
    src, want = put(outer, src, want)
    out = convert(src, width=100 * n)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want, "inline markup")


def edges(h, n):
    """Breaks at the ends of code, several together, and code of nothing but breaks."""
    src, want = "", ""
    for i in range(n):
        k = h.choose("piece %d" % i, 3)
        c = ink(h, "c%d" % i, 1) if k == 0 else "<br>"
        if k == 2:
            src, want = src + "<em>" + c + "</em>", want + "_\n_"
        else:
            src, want = src + c, want + (c if k == 0 else "\n")
    h.assume("\n" in want)
    where = h.pick("where", ["root", "div", "p", "span"])
    a, b = {"root": ("x@y", "x@y"), "div": ("<div>@y</div>", "@y"), "p": ("<p>x@</p>", "\nx@\n"), "span": ("<span>@</span>y", "@y")}[where]
    out = convert(a.replace("@", "<code>" + src + "</code>"), renderers={"p": (Renderer, dict())} if where == "p" else {})
    h.observe("out", out)
    h.reach("converted")
    if where == "p":
        b = b[1:-1]
    h.equal(out.rstrip("\n"), b.replace("@", "```\n" + want + "\n```\n").rstrip("\n"), "code with line breaks")

# nests of inline elements, by the element and its content; @ is the text
IN_PRE = [("em", ["#"]), ("span", ["#"]), ("x", ["#"]), ("code", ["#"]), ("b", [("i", ["#"])]), ("code", [("em", ["@"])]), ("code", ["a", "#", ("u", ["#"])]), ("sub", ["#", "b"]), ("", ["#", ("em", ["#"]), "#"])]


def pre(h, n):
    """Only code that is a child of pre itself has no markers."""
    t = ink(h, "t", n)
    e = h.pick("element", ["code", "del"])

    def both(node, parent):
        if node == "@":
            return t, t
        if node == "#":
            node = (e, ["@"])
        if isinstance(node, str):
            return node, node
        name, children = node
        inner = [both(c, name if name else parent) for c in children]
        src, want = "".join([i[0] for i in inner]), "".join([i[1] for i in inner])
        if not name:
            return src, want
        m = "" if name == "x" or (name == "code" and parent == "pre") else MARK[name]
        return "<" + name + ">" + src + "</" + name + ">", m + want + m

    src, want = both(h.pick("content", IN_PRE), "pre")
    out = convert("<pre>" + src + "</pre>")
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\n    " + want + "\n", "preformatted inline markup")


WITNESS = {f: ["converted"] for f in ("pre", "edges", "large", "shapes", "breaks", "configured", "capitals", "code", "fenced")}


def tasks(tier):
    q = tier == "quick"
    out = []
    some = ["em", "strong", "s", "code", "span", "sub"]
    for s in ("nest2", "row2", "empty"):
        out.append((s, "shapes", dict(shape=s, kinds=KINDS, outer="p")))
    for s in ("nest3", "row3", "tree"):
        out.append((s, "shapes", dict(shape=s, kinds=KINDS if s == "nest3" or not q else some, outer="p")))
    if not q:
        out.append(("nest4", "shapes", dict(shape="nest4", kinds=some, outer="p")))
    for o in OUTER:
        if o != "p":
            out.append(("nest2-" + o, "shapes", dict(shape="nest2", kinds=KINDS, outer=o)))
            out.append(("row2-" + o, "shapes", dict(shape="row2", kinds=some if q else KINDS, outer=o)))
    for o in ("p", "li", "h2", ""):
        out.append(("configured-" + o, "configured", dict(outer=o)))
    out.append(("breaks", "breaks", dict(n=5 if q else 6, kinds=["em", "b"])))
    out.append(("capitals", "capitals", dict(kinds=["em", "strong", "span", "i", "b"])))
    out.append(("code", "code", {}))
    out.append(("fenced", "fenced", dict(n=2 if q else 3)))
    for k in (8, 20) if q else (8, 20, 60):
        out.append(("large-%d" % k, "large", dict(n=k)))
    out.append(("edges", "edges", dict(n=3 if q else 5)))
    out.append(("in-pre", "pre", dict(n=1 if q else 3)))
    return out
