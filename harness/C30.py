"""C30: elements without a rule are transparent, and those with a NonRenderer leave nothing."""
from gopher_render.rendering import NonRenderer, Renderer, InlineRenderer, BlockRenderer, ParagraphRenderer
from harness.lib import convert, ink, wordy, source, layout, ANY, source as html, book

ASSUMPTIONS = [
    "text next to a transparent element has no white space at its ends",
    "rules do not refer to the transparent or removed elements' places in other ways than by their own class",
]
BOUNDS = {
    "quick": "removed: 10 kinds of content with 3 arbitrary visible characters (blocks, lists, pre, nested inline, void and unknown elements, malformed), 10 places, for elements of 9 types, by class or type rule; links: 5 kinds of linked content, and links and images that are removed themselves, in 7 documents with other links, all placements, both formats; transparent: 8 unknown or undefined types around inline text in 8 places, around any of 9 groups of blocks at the root, in div and in quotes, nested twice; any default renderer; documents of 40 blocks in and with such elements",
    "thorough": "contents of 6 characters",
}
CONTENTS = ["@", "<p>@</p>", "<ul><li>@</li><li>b</li></ul>", "<pre>@\n b</pre>", "<em>@</em><hr><b>c<br>d</b>", "<x>@</x> @", "<div><blockquote>@</blockquote></div>", "a<br>@", "<h2>@</h2>\n<p>b</p>\n",
            "<code>@</code></i>", "<dl><dt>@</dt></dl></q>", "<span class='no'>@</span><p class='no'>c</p>", " \n "]
PLACES = ["@", "<p>a @ b</p>", "<p>@</p>", "<ul><li>a @</li><li>@</li></ul>", "<div>@</div>", "<blockquote>@<p>a</p></blockquote>", "<pre>a@\n@b</pre>", "<h2>@ a</h2>", "<p>a</p>@<p>b</p>",
          "<ol><li>a</li><li>@</li></ol>@", "<dl><dt>a</dt><dd>@ b</dd></dl>", "<p><em>a @</em> <code>@</code></p>"]


def removed(h, n, tag, place):
    """The content of a removed element makes no difference, and it leaves nothing."""
    t = ink(h, "t", n)
    content = h.pick("content", CONTENTS).replace("@", t)
    rule = h.pick("rule", [".no", tag, tag + ".no"])
    ren = {rule: h.pick("form", [NonRenderer, (NonRenderer, {}), (NonRenderer, dict(margin=[1, 1, 1, 1]))])}
    doc = PLACES[place]
    h.assume(rule != tag or "<" + tag + ">" not in doc)
    out = convert(doc.replace("@", "<" + tag + " class='no'>" + content + "</" + tag + ">"), renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(doc.replace("@", "<x></x>")), "with the element removed")


LINKED = ["<a href='/r'>@</a>", "<img src='/r.gif' alt='@'>", "k <a href='/r'>@ <img src='/s' alt='m'></a> <a href='/t'>l</a>", "<p>k</p><ul><li><em><a href='/r'>@</a></em></li></ul>", "@"]
AROUND = ["@", "<p>a @ <a href='/a'>b</a></p>", "<p><a href='/a'>a</a></p>@<p><a href='/b' title='q'>b</a> <img src='/c' alt='c'></p>",
          "<ul><li><img src='/a' alt='a'></li><li>@</li><li><a href='/b'>b</a></li></ul>@<p><a href='/c'>c</a></p>", "<blockquote><p><a href='/a'>a</a> @</p></blockquote><a href='/b'>b</a>",
          "<h2>@ <a href='/a'>a</a></h2><p><a href='/b'>a @ b</a></p>", "<a href='/a'>@</a><a href='/b'>@ b</a>"]


def links(h, n, place):
    """Neither do links and images in it, and those that are themselves removed: not in the lists nor in the numbers."""
    t = ink(h, "t", n)
    doc = AROUND[place]
    placements = dict(link_placement=h.pick("link placement", ["footer", "after_block", "inline"]), image_placement=h.pick("image placement", ["inline", "footer"]))
    form = h.pick("format", ["text", "gophermap"])
    h.assume(form == "text" or placements["link_placement"] != "inline")
    content = h.pick("content", LINKED).replace("@", t)
    how = h.pick("element", ["div", "del", "x", "a", "img"])
    if how == "img":
        content = "<img class='no' src='/n' alt='" + t + "'>"
    else:
        content = "<" + how + " class='no'" + (" href='/n'" if how == "a" else "") + ">" + content + "</" + how + ">"
    kw = dict(renderers={".no": NonRenderer}, output_format=form, gopher_host="h", **placements)
    out = convert(doc.replace("@", content), **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(doc.replace("@", "<x></x>"), **kw), "with the element removed")


INLINE = ["<p>a@b</p>", "a@b", "<ul><li>a@b</li></ul>", "<h3>a@b</h3>", "<pre>a@\nb</pre>", "<dl><dt>a@</dt><dd>b</dd></dl>", "<blockquote>a@b</blockquote>", "<p>a <em>k@l</em> b</p>", "<div>a@</div>"]


def inline(h, n, place, tags):
    """An element without a rule shows its content as if it were not there."""
    t, u = ink(h, "t", n), ink(h, "u", 1)
    tag = h.pick("tag", tags)
    other = h.pick("inside", ["@", "<x>@</x>", "@<y></y>", "<y class='c' id='d'>@</y>"]).replace("@", t)
    doc = INLINE[place]
    out = convert(doc.replace("@", u + "<" + tag + ">" + other + "</" + tag + ">" + u))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(doc.replace("@", u + t + u)), "as without the element")


GROUPS = [("<p>@</p>",), ("<p>@</p>", "<p>b</p>"), ("<h1>@</h1>", "<p>b</p>"), ("<ul><li>@</li><li>b</li></ul>", "<p>c</p>"), ("<pre>@\n b</pre>",), ("<blockquote><p>@</p></blockquote>", "<blockquote>b</blockquote>"),
          ("<dl><dt>@</dt><dd>b</dd></dl>", "<ol><li>c</li></ol>"), ("<div>@</div>", "<p>b</p>"), ("<div><p>@</p></div>",)]


def blocks(h, n, group, tags):
    """The same for elements around blocks, with any white space between them."""
    t = ink(h, "t", n)
    tag = h.pick("tag", tags)
    parts = [g.replace("@", t) for g in GROUPS[group]]
    where = h.pick("where", ["@", "<div>@</div>", "<blockquote>@</blockquote>", "<y>@</y>", "<p>k</p>@"])
    h.assume(where != "<blockquote>@</blockquote>" or "<p>" not in GROUPS[group][0][:3])
    gaps = [h.pick("gap %d" % i, ["", "\n  "]) for i in range(len(parts) + 1)]
    body = gaps[0]
    for i, p in enumerate(parts):
        body += p + gaps[i + 1]
    twice = h.bool("twice")
    inner = "<" + tag + ">" + body + "</" + tag + ">"
    if twice:
        inner = "<z>" + inner + "</z>"
    out = convert(where.replace("@", inner))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(where.replace("@", "".join(parts))), "as without the element")


def default(h, n, tags):
    """The default renderer is for all elements that have no rule, and for no other."""
    t = [ink(h, "t%d" % i, n) for i in range(3)]
    tag = h.pick("tag", tags)
    mark, l, r = h.pick("marker", [("{}", "", ""), ("<{}>", "<", ">"), ("{}!", "", "!")])
    kind = h.pick("default", ["inline", "settings", "none", "base", "rules", "rules class"])
    if kind == "inline":
        class Marked(InlineRenderer):
            settings = dict(template=mark)
        ren = {"": Marked}
    elif kind == "settings":
        ren = {"": (InlineRenderer, dict(template=mark))}
    elif kind == "base":
        ren = {"": Renderer}
        l = r = ""
    elif kind == "none":
        ren = {"": NonRenderer}
    else:
        # a rule that has settings only does not name a renderer
        ren = {"": InlineRenderer, tag if kind == "rules" else ".c": (None, dict(template=mark))}
    seen = "" if kind == "none" else l + t[1] + r
    out = convert("<p>" + t[0] + "<em>" + t[2] + "</em><" + tag + " class='c'>" + t[1] + "</" + tag + "></p><" + tag + " class='c'>" + t[1] + "</" + tag + ">" + t[0], renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\n" + t[0] + "_" + t[2] + "_" + seen + "\n" + seen + t[0], "default renderer")


def large(h, n):
    """A long document with elements around everything, or with removed elements in many places."""
    doc = book(h, n)
    want = convert(html(doc), width=60)
    how = h.pick("how", ["around", "deep", "removed", "removed inside"])
    if how == "around":
        src = "".join(["<section>" + html([x]) + "</section>" for x in doc])
    elif how == "deep":
        src = "<x><y>" * n + html(doc) + "</y></x>" * n
    elif how == "removed":
        src = "<no><p>k</p><a href='u'>l</a></no>".join([html([x]) for x in doc])
    else:
        src = html(doc).replace("</p>", "<no>k</no></p>").replace("<ul>", "<ul><no><li>l</li></no>").replace("</div>", "<no><p>m</p></no></div>")
        want = convert(html(doc).replace("</p>", "<z></z></p>").replace("<ul>", "<ul><z></z>").replace("</div>", "<z></z></div>"), width=60)
    out = convert(src, width=60, renderers={"no": NonRenderer}, link_placement=h.pick("links", ["inline", "footer", "after_block"]))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want, "as without the elements")


WITNESS = {f: ["converted"] for f in ("large", "links", "removed", "inline", "blocks", "default")}


def tasks(tier):
    n = 3 if tier == "quick" else 6
    unknown = ["x", "section", "sub", "font", "table", "td", "h7", "body"]
    out = []
    for tag in ["p", "div", "span", "em", "blockquote", "x"]:
        for i in range(len(PLACES)):
            out.append(("removed-%s-%d" % (tag, i), "removed", dict(n=n, tag=tag, place=i)))
    for tag in ["ul", "pre", "h1", "code"]:
        for i in (0, 4, 8):
            out.append(("removed-%s-%d" % (tag, i), "removed", dict(n=n, tag=tag, place=i)))
    for i in range(len(AROUND)):
        out.append(("links-%d" % i, "links", dict(n=1 if tier == "quick" else 2, place=i)))
    for i in range(len(INLINE)):
        out.append(("inline-%d" % i, "inline", dict(n=n, place=i, tags=unknown)))
    for i in range(len(GROUPS)):
        out.append(("blocks-%d" % i, "blocks", dict(n=n, group=i, tags=["x", "section", "body"])))
    out.append(("default", "default", dict(n=1 if tier == "quick" else 3, tags=unknown)))
    for k in (8, 24) if tier == "quick" else (8, 24, 60):
        out.append(("large-%d" % k, "large", dict(n=k)))
    return out
