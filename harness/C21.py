"""C21: malformed markup never aborts or derails a conversion."""
from gopher_render.rendering import AnsiEscapeCodeRenderer, InlineRenderer
from harness.lib import convert, ANY

ASSUMPTIONS = [
    "end tags are of elements that are not open, or of the innermost open element, where the output is compared with that of well-formed markup; for mismatched ones (an outer element is open) only the text is",
    "texts are upper-case letters, so that they are told from markers",
    "tags, comments or declarations cut off by the end of the document are not text, and only have to let the conversion complete",
]
BOUNDS = {
    "quick": "sequences of 4 tokens (5 with fewer kinds) out of start, end, void and self-closing tags of block, inline, list and unknown elements, links, images, comments and texts of 1 symbolic letter; 14 void elements at 18 places; lists of 2 attributes out of 8 names, with symbolic values, empty values and no values; targets of 4 characters out of [ ] : / @ ? # %; raw markup of 3 characters out of < > / ! - ? & # ; = \" [ a; nests of 16 and 40 elements, any share of them unclosed, with 0 to 20 stray end tags; nests of up to 15 quotes, lists and definitions at widths -1 to 5; stray end tags of 21 types in nests of 0 to 24",
    "thorough": "sequences of 5 (6) tokens, targets of 5 characters, raw markup of 4",
}

VOID = ("area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr")
SETS = {
    "block": ["<p>", "</p>", "<div>", "</div>", "</x>", "T", "<hr>"],
    "inline": ["<p>", "</p>", "<em>", "</em>", "<x>", "</x>", "T", "<!--c-->"],
    "list": ["<ul>", "</ul>", "<li>", "</li>", "<ol>", "T", "<input>", "</p>"],
    "quote": ["<blockquote>", "</blockquote>", "<p>", "</p>", "<pre>", "</pre>", "T"],
    "link": ["<a href='/u'>", "</a>", "<img src='/i' alt='x'>", "</img>", "<b>", "</b>", "T"],
    "definition": ["<dl>", "</dl>", "<dt>", "<dd>", "</dd>", "T", "<b/>"],
    "break": ["<h1>", "</h1>", "<br>", "<br/>", "</br>", "T", "</h1 >", "<P>"],
    "code": ["<pre>", "</pre>", "<code>", "</code>", "<hr/>", "T", "</PRE>"],
}


def normal(h, tokens):
    """The well-formed source that a sequence of tokens stands for: (source, texts, whether it had mismatched end tags)."""
    out, texts = "", []
    stack = []
    mismatched = False
    for i, t in enumerate(tokens):
        if t == "T":
            c = h.text("t%d" % i, 1, ["A-Z"])
            texts.append(c)
            out += c
            continue
        if t[:2] == "<!":
            continue
        name = t.strip("</ >").split(" ")[0].lower()
        if t[:2] == "</":
            if name in VOID:
                continue
            if stack and stack[-1] == name:
                stack.pop()
                out += "</" + name + ">"
            elif name in stack:
                mismatched = True
            continue
        if name in VOID:
            # a void element is an empty one
            out += "<sub></sub>" if name in ("hr", "input") else t
        elif t[-2:] == "/>":
            out += "<" + name + "></" + name + ">"
        else:
            stack.append(name)
            out += t
    while stack:
        out += "</" + stack.pop() + ">"
    return out, texts, mismatched


def only(out):
    return [c for c in out if "A" <= c <= "Z"]


def sequence(h, kinds, n):
    """A sequence of tokens and the well-formed document that it stands for."""
    pool = SETS[kinds]
    tokens = [h.pick("token %d" % i, pool) for i in range(n)]
    want, texts, mismatched = normal(h, tokens)
    text = iter(texts)
    src = "".join([next(text) if t == "T" else t for t in tokens])
    place = h.pick("links", ["footer", "inline"]) if kinds == "link" else "inline"
    out = convert(src, link_placement=place)
    h.observe("out", out)
    h.reach("converted")
    if mismatched:
        h.reach("mismatched")
        got = only(out)
        # the text of a link is listed again, behind
        h.check(got[:len(texts)] == texts and (place == "footer" or len(got) == len(texts)), "text lost or out of order")
    else:
        h.reach("well-formed")
        h.equal(out, convert(want, link_placement=place), "other than the well-formed document")


PLACES = ["@A", "A@", "<p>A@B</p>", "<p>@A</p>", "<p>A</p>@<p>B</p>", "<ul><li>A@B</li><li>C</li></ul>", "<ul>@<li>A</li></ul>", "<ol><li>A</li>@<li>B</li></ol>",
          "<div>A@<p>B</p></div>", "<blockquote>@<p>A</p></blockquote>", "<blockquote><p>A</p>@</blockquote>", "<h2>A@B</h2>", "<pre>A@B</pre>", "<p><em>A@</em>B</p>", "<p><a href='/u'>A@B</a>C</p>",
          "<dl><dt>A@</dt><dd>@B</dd></dl>", "<p>A@@B@C</p>", "<p>A</p>@"]


def void(h, name, end):
    """Void elements are empty elements."""
    place = h.pick("place", PLACES)
    attr = h.pick("attributes", ["", " title", " class='c d'", " value='z' checked"])
    close = h.pick("end", ["", "/", " /"])
    a = h.text("a", 1, ["A-Z"])
    place = place.replace("A", a)
    stray = "</" + name + ">" if end else ""
    out = convert(place.replace("@", "<" + name + attr + close + ">" + stray))
    h.observe("out", out)
    h.reach("converted")
    if name == "img":
        src = "<img" + attr + ">"
        h.equal(out, convert(place.replace("@", src)), "image")
    elif name == "br":
        h.equal(out, convert(place.replace("@", "<br>")), "line break")
    else:
        h.equal(out, convert(place.replace("@", "<sub" + attr + "></sub>")), "void element")


NAMES = ["class", "id", "href", "src", "title", "alt", "lang", "checked"]


def attributes(h, what, n):
    """An attribute without a value is one with an empty value."""
    a = h.text("a", 1, ["A-Z"])
    bare, full = "", ""
    for i in range(n):
        name = h.pick("name %d" % i, NAMES)
        how = h.pick("value %d" % i, ["none", "empty", "some"])
        v = h.text("v%d" % i, 1, ["a-z"]) if how == "some" else ""
        bare += " " + name + ("" if how == "none" else '="' + v + '"')
        full += " " + name + '="' + v + '"'
    rules = {"[title]": (AnsiEscapeCodeRenderer, dict(bold=True)), ".c, #d": (AnsiEscapeCodeRenderer, dict(italic=True)),
             "[lang~=c], [checked^=c], [class|=c], [id$=c]": (AnsiEscapeCodeRenderer, dict(underline=1)), ":not([class])": (None, dict(strikethrough=True))}
    if what in ("a", "img"):
        rules = {}
    src = {"span": "x<span@>" + a + "</span>y", "p": "<p@>" + a + "</p>y", "a": "x<a@>" + a + "</a>y", "img": a + "<img@>y"}[what]
    place = h.pick("placement", ["footer", "inline"]) if what in ("a", "img") else "inline"
    out = convert(src.replace("@", bare), renderers=rules, link_placement=place, image_placement=place)
    h.observe("out", out)
    h.reach("converted")
    h.check(a in out, "text lost")
    h.equal(out, convert(src.replace("@", full), renderers=rules, link_placement=place, image_placement=place), "attributes without value")


def targets(h, n, start, gophermap):
    """Unparsable targets."""
    u = start + h.text("u", n, "[]:/@?#%")
    what = h.pick("what", ["a", "img"])
    a = h.text("a", 1, ["A-Z"])
    src = "<p>B" + ('<a href="' + u + '">' + a + "</a>" if what == "a" else '<img src="' + u + '">' + a) + "C</p><p>D</p>"
    if gophermap:
        out = convert(src, output_format="gophermap", gopher_host="ho.st")
        h.observe("out", out)
        h.reach("converted")
        line = [l for l in out.split("\n") if "\tho.st\t70" in l or "\t" in l]
        got = only(out.split("\n")[1]) + only(out.split("\n")[3])
        h.equal(got, ["B"] + ["I"] * (what == "img") + [a, "C", "D"], "text")
        h.check(len(line) == (what == "a"), "menu lines")
    else:
        out = convert(src, link_placement="inline")
        h.observe("out", out)
        h.reach("converted")
        h.equal(out, "\nB" + ("[" + a + "](" + u + ")" if what == "a" else "![Image](" + u + ")" + a) + "C\n\nD\n", "output")


def raw(h, n):
    """Anything that looks like markup: the conversion completes."""
    before = h.pick("before", ["", "<p>", "<a href='/u'>", "<pre>", "<ul><li>"])
    r = h.text("r", n, "<>/!-?&#;=\"[a")
    after = h.pick("after", ["", "B</p>"])
    out = convert("A" + before + r + after, width=20)
    h.observe("out", out)
    h.reach("converted")
    h.check(out[:1] == "A", "text lost")


def large(h, n):
    """Many tags without end and many end tags without start, at any depth."""
    c = h.text("c", 1, ["A-Z"])
    names = ["p", "b", "ul", "li", "em", "sub", "x", "div", "code", "h2"]
    pool = h.pick("elements", [["div"], ["b"], ["x", "div"], ["em", "x", "sub"], ["div", "ul", "li"], ["section", "div", "b", "i"]])
    tags = [pool[i % len(pool)] for i in range(n)]
    opened = "".join(["<" + t + ">" + (c if i % 5 == 2 else "") for i, t in enumerate(tags)])
    ends = "".join(["</" + t + ">" for t in tags[::-1]])
    k = h.choose("unclosed", 5) * n // 4
    stray = "".join(["</" + t + ">" for t in names if t not in tags] * h.choose("stray", 3))
    src = stray + opened + stray + c + "</" + "></".join((tags[::-1] + [""])[:n - k]) + ">" if n - k else stray + opened + stray + c
    after = "<p>Z</p>" if k == 0 else ""
    out = convert(src + stray + after)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(opened + c + ends + after), "other than the well-formed document")


def narrow(h, n, unclosed):
    """Nested until no column is left, and far beyond."""
    width = h.pick("width", [-1, 0, 1, 5])
    pool = h.pick("elements", [["blockquote"], ["ul", "li"], ["ol", "li"], ["dl", "dd"], ["blockquote", "ul", "li", "ol", "li"]])
    inner = h.pick("inner", ["", "p", "h2", "pre"])
    tags = [pool[i % len(pool)] for i in range(n - n % len(pool))] + ([inner] if inner else [])
    a, b = h.text("a", 1, ["A-Z"]) + "QR", h.text("b", 1, ["A-Z"])
    src = "".join(["<" + t + ">" for t in tags]) + a + " " + b
    if not unclosed:
        src += "".join(["</" + t + ">" for t in tags[::-1]]) + "<p>" + b + "</p>"
    how, indent = h.pick("justification", [("left", 0), ("right", 2), ("full", 1), ("center", 0), ("none", 1)])
    out = convert(src, width=width, renderers={"p, li, dd": (None, dict(justification=how, initial_indent=indent, subsequent_indent=2 - indent))})
    h.observe("out", out)
    h.reach("converted")
    h.equal(only(out), list(a + b) + ([] if unclosed else [b]), "text lost or out of order")


STRAY = ["p", "div", "ul", "ol", "li", "em", "b", "span", "x", "h2", "blockquote", "a", "code", "pre", "dl", "dd", "br", "img", "hr", "i", "y"]


def deep(h, n):
    """An end tag of an element that is not open changes nothing, at any depth."""
    a = h.text("a", 1, ["A-Z"])
    pool = h.pick("elements", [["div"], ["span"], ["x", "div"], ["blockquote", "em"], ["ul", "li"], ["y", "b", "i"], ["section", "ul", "li", "div", "em"]])
    stray = h.pick("stray", STRAY)
    h.assume(stray not in pool)
    k = h.choose("depth", n + 1)
    k -= k % len(pool)
    tags = [pool[i % len(pool)] for i in range(k)]
    opened, ends = "".join(["<" + t + ">" for t in tags]), "".join(["</" + t + ">" for t in tags[::-1]])
    times = h.pick("times", [1, 3])
    end = ("</" + stray + ">") * times
    inner = a + "B@<sub>" + a + "@</sub>C@"
    doc = opened + inner + ends + "@<p>Z@</p>" if h.bool("closed") else opened + inner
    if stray == "p":
        doc = doc.replace("<p>Z@</p>", "Z")
    out = convert(doc.replace("@", end), width=400)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(doc.replace("@", ""), width=400), "other than the well-formed document")


WITNESS = {"deep": ["converted"], "narrow": ["converted"], "large": ["converted"], "sequence": ["converted", "well-formed"], "void": ["converted"], "attributes": ["converted"], "targets": ["converted"], "raw": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    for k in SETS:
        n = 4 if q else 5
        out.append((k, "sequence", dict(kinds=k, n=n)))
    for v in VOID:
        for end in (False, True):
            out.append((v + "-end" * end, "void", dict(name=v, end=end)))
    for w in ("span", "p", "a", "img"):
        out.append(("attributes-" + w, "attributes", dict(what=w, n=2)))
    n = 4 if q else 5
    for start in ("", "gopher://", "http://", "//"):
        for g in (False, True):
            out.append(("target-%s%s" % (start, "-menu" * g), "targets", dict(n=n, start=start, gophermap=g)))
    out.append(("raw", "raw", dict(n=n - 1)))
    for k in (16, 40) if q else (16, 40, 80):
        out.append(("large-%d" % k, "large", dict(n=k)))
    for k in ((2, 15) if q else (2, 15, 60)):
        out.append(("narrow-%d" % k, "narrow", dict(n=k, unclosed=False)))
    out.append(("narrow-unclosed", "narrow", dict(n=10, unclosed=True)))
    out.append(("deep", "deep", dict(n=24 if q else 60)))
    return out
