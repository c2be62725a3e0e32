"""C01: every visible character survives conversion, once and in document order."""
from harness.lib import convert, visible, TEXT, ANY, PLAIN_MINUS

ASSUMPTIONS = [
    "the text contains no '<' or '&' (those are markup), no control characters other than tab and line feed, no surrogates, no Unicode line separators (U+0085, U+2028, U+2029)",
    "default renderers, text output; documents of the listed shapes",
]
BOUNDS = {"quick": "documents of the listed shapes, each text slot 1-3 characters, any code point; documents of about 50 and 200 blocks with one arbitrary character at many places; texts over 60 source lines",
          "thorough": "documents of the listed shapes, each text slot up to 5 characters, any code point"}

# shape: (source with {} slots, expected visible text with {} slots, lengths quick, lengths thorough)
SHAPES = {
    "root": ("@0", "@0"),
    "p": ("<p>@0</p>", "@0"),
    "p-em": ("<p>@0<em>@1</em>@2</p>", "@0_@1_@2"),
    "p-strong-nested": ("<p><strong>@0<i>@1</i></strong>@2</p>", "**@0_@1_**@2"),
    "h1": ("<h1>@0</h1>", "#@0#"),
    "h3-p": ("<h3>@0</h3><p>@1</p>", "###@0###@1"),
    "ul": ("<ul><li>@0</li><li>@1</li></ul>", "*@0*@1"),
    "ol": ("<ol><li>@0</li><li>@1</li></ol>", "1.@02.@1"),
    "dl": ("<dl><dt>@0</dt><dd>@1</dd></dl>", "@0:@1"),
    "quote": ("<blockquote><p>@0</p></blockquote>", ">@0"),
    "pre": ("<pre>@0</pre>", "@0"),
    "p-code": ("<p>@0<code>@1</code></p>", "@0`@1`"),
    "div": ("<div>@0<p>@1</p></div>", "@0@1"),
    "link": ("<p>@0<a href=\"u\">@1</a></p>", "@0[@1][1][1]@1:u"),
    "img": ("<p>@0<img src=\"u\" alt=\"@1\">@2</p>", "@0![@1](u)@2"),
    "span-s-u": ("<p><span>@0</span><s>@1</s><u>@2</u></p>", "@0~~@1~~_@2_"),
    "unknown": ("<section>@0<b>@1</b></section>", "@0**@1**"),
    "open": ("<p>@0", "@0"),
    "open-div": ("<p>@0</p><div><em>@1", "@0_@1_"),
    "open-li": ("<ul><li>@0</li><li><b>@1", "*@0***@1**"),
    "br": ("<p>@0<br>@1</p>", "@0@1"),
}


def fill(t, texts):
    out = ""
    parts = t.split("@")
    out += parts[0]
    for p in parts[1:]:
        out += texts[int(p[0])] + p[1:]
    return out


def survives(h, shape, lens, width):
    src, want = SHAPES[shape]
    minus = "<&" + ('"' if '"@' in src else "") + (">" if "quote" in shape else "")
    texts = [h.text("t%d" % i, n, TEXT, minus) for i, n in enumerate(lens)]
    out = convert(fill(src, texts), width=width, link_placement="footer")
    h.observe("out", out)
    got = visible(out)
    if "quote" in shape:
        # a quote prefix on every line, however many there are
        got = got.replace(">", "")
        want = want.replace(">", "")
    h.reach("converted")
    h.equal(got, visible(fill(want, texts)), "visible characters")


# element -> (opening source, closing source, visible marker before, after)
BLOCKS = {
    "p": ("<p>", "</p>", "", ""), "div": ("<div>", "</div>", "", ""), "h2": ("<h2>", "</h2>", "##", "##"),
    "li": ("<ul><li>", "</li></ul>", "*", ""), "oli": ("<ol><li>", "</li></ol>", "1.", ""),
    "dt": ("<dl><dt>", "</dt></dl>", "", ""), "dd": ("<dl><dd>", "</dd></dl>", ":", ""),
    "quote": ("<blockquote>", "</blockquote>", "", ""), "pre": ("<pre>", "</pre>", "", ""),
    "section": ("<section>", "</section>", "", ""), "none": ("", "", "", ""),
}
INLINES = {
    "em": ("<em>", "</em>", "_", "_"), "i": ("<i>", "</i>", "_", "_"), "strong": ("<strong>", "</strong>", "**", "**"),
    "b": ("<b>", "</b>", "**", "**"), "u": ("<u>", "</u>", "_", "_"), "ins": ("<ins>", "</ins>", "_", "_"),
    "s": ("<s>", "</s>", "~~", "~~"), "del": ("<del>", "</del>", "~~", "~~"), "span": ("<span>", "</span>", "", ""),
    "code": ("<code>", "</code>", "`", "`"), "mark": ("<mark>", "</mark>", "", ""), "none": ("", "", "", ""),
    "a": ("<a href='u'>", "</a>", "[", "](u)"),
}


def nested(h, outer, n, gap, inlines, inner_inlines, dom):
    """Any block in any block around any inline element in any inline element, text at every place."""
    b = [outer, h.pick("inner", list(BLOCKS))]
    i = [h.pick("inline", inlines), h.pick("inner inline", inner_inlines)]
    t = [h.text("t%d" % k, n, dom, PLAIN_MINUS + ">") for k in range(4)]
    o = [BLOCKS[x] for x in b] + [INLINES[x] for x in i]
    src = o[0][0] + t[0] + o[1][0] + o[2][0] + gap + t[1] + o[3][0] + t[2] + o[3][1] + o[2][1] + gap + o[1][1] + t[3] + o[0][1]
    out = convert(src, width=60, link_placement="inline")
    h.observe("out", out)
    h.reach("converted")
    if "pre" in b:
        # code directly inside pre is left to the pre
        if i[0] == "code" and b[1] == "pre":
            o[2] = ("", "", "", "")
        if i[1] == "code" and (i[0] == "none" and (b[1] == "pre")):
            o[3] = ("", "", "", "")
        if b[0] == "pre" and b[1] == "none":
            if i[0] == "code":
                o[2] = ("", "", "", "")
            if i[1] == "code" and i[0] == "none":
                o[3] = ("", "", "", "")
    want = o[0][2] + t[0] + o[1][2] + o[2][2] + gap + t[1] + o[3][2] + t[2] + o[3][3] + o[2][3] + gap + o[1][3] + t[3] + o[0][3]
    h.equal(visible(out).replace(">", ""), visible(want), "visible characters")


def references(h, n):
    """Character references stand for literal characters, whatever surrounds them."""
    k = h.pick("reference", ["&lt;", "&gt;", "&amp;", "&quot;", "&#123;", "&#125;", "&#37;", "&#92;", "&#x7b;0&#x7d;", "&eacute;"])
    v = {"&lt;": "<", "&gt;": ">", "&amp;": "&", "&quot;": '"', "&#123;": "{", "&#125;": "}", "&#37;": "%", "&#92;": "\\",
         "&#x7b;0&#x7d;": "{0}", "&eacute;": "\xe9"}[k]
    blk = h.pick("block", ["p", "h2", "li", "dd", "pre", "none"])
    a, b = h.text("a", n, TEXT, "<&;#"), h.text("b", n, TEXT, "<&")
    o = BLOCKS[blk]
    out = convert(o[0] + a + k + b + "<em>" + k + "</em>" + o[1], width=30)
    h.observe("out", out)
    h.reach("converted")
    h.equal(visible(out), visible(o[2] + a + v + b + "_" + v + "_" + o[3]), "visible characters")


def large(h, n):
    """A long document: every part of it, however far from the start."""
    c = h.text("c", 1, ANY, PLAIN_MINUS + ">")
    ws = ["w%d" % i for i in range(n)]
    body = " ".join(ws)
    src, want = "<h2>T" + c + "</h2>", "##T" + c + "##"
    src += "<p>" + body + c + " " + body + "</p>"
    want += "".join(ws) + c + "".join(ws)
    src += "<ul>" + "".join(["<li>u%d %s</li>" % (i, body[:30]) for i in range(n // 2)]) + "</ul>"
    want += "".join(["*u%d%s" % (i, visible(body[:30])) for i in range(n // 2)])
    src += "<ol>" + "".join(["<li>o%d" % i + c + "</li>" for i in range(n // 2)]) + "</ol>"
    want += "".join(["%d.o%d" % (i + 1, i) + c for i in range(n // 2)])
    src += "<pre>" + "\n".join(["l%d  " % i + body + c for i in range(n // 2)]) + "</pre>"
    want += "".join(["l%d" % i + visible(body) + c for i in range(n // 2)])
    src += "<p>" + " ".join(["<a href='/t%d'>x%d</a>" % (i, i) for i in range(n // 2)]) + "</p>"
    want += "".join(["[x%d][%d]" % (i, i + 1) for i in range(n // 2)])
    src += "<dl>" + "".join(["<dt>k" + c + "</dt><dd>" + body + "</dd>" for i in range(n // 4)]) + "</dl>"
    want += "".join(["k" + c + ":" + visible(body) for i in range(n // 4)])
    deep = "<div><em>" * (n // 4) + "d" + c + "</em></div>" * (n // 4)
    src += deep + "<p>end" + c + "</p>"
    want += "_" * (n // 4) + "d" + c + "_" * (n // 4) + "end" + c
    want += "".join(["[%d]x%d:/t%d" % (i + 1, i, i) for i in range(n // 2)])
    out = convert(src, width=60)
    h.observe("out", out)
    h.reach("converted")
    h.equal(visible(out), visible(want), "visible characters")

def lines(h, where, n):
    """A text over many source lines."""
    c = h.text("c", 1, ANY, PLAIN_MINUS + ">")
    at = h.choose("place", n)
    o = BLOCKS[where]
    rows = ["w%d" % i + (c if i == at else "") for i in range(n)]
    out = convert(o[0] + "\n".join(rows) + o[1], width=30)
    h.observe("out", out)
    h.reach("converted")
    h.equal(visible(out).replace(">", ""), visible(o[2] + "".join(rows) + o[3]), "visible characters")


WITNESS = {"lines": ["converted"], "large": ["converted"], "survives": ["converted"], "nested": ["converted"], "references": ["converted"]}


def tasks(tier):
    out = []
    for s, (src, want) in SHAPES.items():
        k = len(set(src[i + 1] for i in range(len(src)) if src[i] == "@"))
        lens = {1: [4], 2: [2, 2], 3: [1, 2, 1]}[k] if tier == "quick" else {1: [5], 2: [3, 3], 3: [2, 2, 2]}[k]
        for w in ((9,) if tier == "quick" else (6, 9)):
            out.append(("%s-w%d" % (s, w), "survives", dict(shape=s, lens=lens, width=w)))
    for b in BLOCKS:
        if tier == "quick":
            out.append(("nested-%s" % b, "nested", dict(outer=b, n=1, gap="x", inlines=["a", "strong", "code", "none"],
                                                        inner_inlines=["em", "code", "none"], dom=ANY if b in ("div", "pre") else ["a-z"])))
        else:
            out.append(("nested-%s" % b, "nested", dict(outer=b, n=1, gap="x {} ", inlines=list(INLINES),
                                                        inner_inlines=list(INLINES), dom=ANY)))
    out.append(("references", "references", dict(n=1 if tier == "quick" else 2)))
    for n in (24, 100) if tier == "quick" else (24, 100, 300):
        out.append(("large-%d" % n, "large", dict(n=n)))
    for w in ("p", "h2", "li", "dd", "pre", "none"):
        out.append(("lines-%s" % w, "lines", dict(where=w, n=60 if tier == "quick" else 200)))
    return out
