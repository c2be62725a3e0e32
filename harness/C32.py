"""C32: output format and placements change nothing but the links and their lists."""
from gopher_render.rendering import Box
from harness.lib import ANY, PLAIN_MINUS, convert, ink, source as html, book

ASSUMPTIONS = [
    "texts have no tab, which menus turn into spaces",
    "with links after blocks, blank lines and the space at line ends are not compared: the lists have some around them",
]
BOUNDS = {
    "quick": "16 documents with any 2 visible characters in text, link text, target, title, alternative text; all formats and placements of links and images; widths 14, 30, 67 and 130, with a root margin of up to 2 columns; hosts and ports; documents of 40 blocks without links, and with 120, up to 100 columns",
    "thorough": "4 characters",
}
PLAIN = ["<p>@ b c d e f g h</p>", "@", "<h2>@</h2><p>b</p>", "<ul><li>@ b c d e f g</li><li>c<ol><li>@</li></ol></li></ul>", "<blockquote><p>@</p><p>c</p></blockquote>d", "<pre>@\n  b\n</pre>",
         "<dl><dt>@</dt><dd>b</dd></dl>", "<div><p>@</p></div><hr>b<br>@", "<p>a <em>@</em> <code>b</code></p><x><p>@</p></x>", ""]
# M is where a link is, N where an image is
LINKED = ["<p>k M l</p>", "<p>k</p>M<p>l</p>", "<ul><li>M k l k l k l</li><li>k</li></ul><p>l N</p>", "<blockquote><p>k M</p><p>N l</p></blockquote>", "k N l M k", "<pre>k M\n l N</pre>",
          "<dl><dt>k M</dt><dd>l N k</dd></dl>", "<h3>k M l</h3><div>N<p>k <b>M</b></p></div>", "<p>M</p>", "<ol><li><p>N k</p><ul><li>M</li></ul></li></ol>"]
FORMATS = [dict(output_format=f, gopher_host=g, gopher_port=p) for f, g, p in (("text", "", 70), ("text", "h", 7070), ("gophermap", "h", 70), ("gophermap", "g.x", 7070))]

PLACEMENTS = [("footer", "inline"), ("after_block", "footer"), ("inline", "after_block"), ("footer", "after_block")]


def plain(h, at, n):
    """A document without links is the same in all formats."""
    src = PLAIN[at].replace("@", ink(h, "t", n))
    width, left = h.pick("width and margin", [(14, 0), (14, 2), (67, 1), (130, 0)])
    kw = dict(h.pick("format", FORMATS))
    kw["link_placement"], kw["image_placement"] = h.pick("placements", PLACEMENTS)
    h.assume(kw["output_format"] == "text" or kw["link_placement"] != "inline")
    out = convert(src, box=Box(width=width, margin=[0, 0, 0, left]), **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(src, box=Box(width=width, margin=[0, 0, 0, left])), "as in the default configuration")


def linked(h, n):
    """The link and the image with symbolic parts."""
    t, u, a = ink(h, "t", n), h.text("u", 1, ["a-z"]), h.text("a", n, ANY, PLAIN_MINUS + "'")
    odd = h.pick("text", [None, "", " " + t])
    alone = odd is not None                            # the other choices then make no difference
    target = "/" if alone else h.pick("target", ["/", "gopher://g/", "https://x/", "//y:7/", "http://[/"])
    title = "" if alone else h.pick("title", ["", " title='q r'"])
    alt = a if alone else h.pick("alternative", ["", a])
    return "<a href='" + target + u + "'" + title + ">" + (odd if alone else t) + "</a>", "<img src='/" + u + ".png' alt='" + alt + "'>"


def is_menu(l):
    return l.count("\t") == 3


def form(h, at, n):
    """The text around links is the same in a gophermap as it is in text output with the same placements."""
    m, i = linked(h, n)
    src = LINKED[at].replace("M", m).replace("N", i)
    kw = dict(width=h.pick("width", [14, 30]), link_placement=h.pick("links", ["footer", "after_block"]), image_placement=h.pick("images", ["footer", "after_block", "inline"]))
    h.assume(kw["link_placement"] == "footer" and kw["image_placement"] != "after_block")
    text = convert(src, **kw)
    menu = convert(src, output_format="gophermap", gopher_host="h", **kw)
    h.observe("menu", menu)
    h.reach("converted")
    # both end in their lists, of as many lines
    a, b = text.split("\n"), menu.split("\n")
    count = len([l for l in b if is_menu(l)])
    h.check(count > 0, "no menu line")
    h.check(len(a) == len(b), "number of lines")
    body = len(b) - count - (1 if b[-1] == "" else 0)
    h.check(all([is_menu(l) for l in b[body:body + count]]), "the menu lines are not together")
    h.equal(a[:body], b[:body], "text in front of the list")


def after(h, at, n):
    """Without the lists the text is the same wherever they are."""
    m, i = linked(h, n)
    src = LINKED[at].replace("M", m).replace("N", i)
    width = h.pick("width", [14, 30])
    image = h.pick("images", ["footer", "after_block"])
    foot = convert(src, width=width, output_format="gophermap", gopher_host="h", link_placement="footer", image_placement="footer")
    mixed = convert(src, width=width, output_format="gophermap", gopher_host="h", link_placement="after_block", image_placement=image)
    h.observe("mixed", mixed)
    h.reach("converted")
    h.equal([l for l in mixed.split("\n") if l and not is_menu(l)], [l for l in foot.split("\n") if l and not is_menu(l)], "text without the lists")
    menu = [l for l in mixed.split("\n") if is_menu(l)]
    h.equal(sorted(menu), sorted([l for l in foot.split("\n") if is_menu(l)]), "menu lines")


def apart(h, at, n):
    """Host and port make no difference to texts, nor do targets, titles and where images are listed to the text in front of the list."""
    t = ink(h, "t", n)
    src = LINKED[at].replace("N", "")
    one = "<a href='/" + h.text("u", n, ["a-z"]) + "' title='" + h.text("q", n, ["a-z"]) + "'>" + t + "</a>"
    two = "<a href='" + h.pick("target", ["", "/", "gopher://x:7/1", "mailto:a@b", "http://[", "/a b"]) + "'>" + t + "</a>"
    kw = dict(width=h.pick("width", [14, 30]), output_format=h.pick("format", ["text", "gophermap"]))
    a = convert(src.replace("M", one), gopher_host="h", **kw).split("\n")
    b = convert(src.replace("M", two), gopher_host="g.example", gopher_port=7070, **kw).split("\n")
    h.observe("a", a)
    h.reach("converted")
    count = src.count("M")
    if kw["output_format"] == "gophermap":
        count += 1                                     # a last line that is empty
    h.equal(a[:len(a) - count], b[:len(b) - count], "text in front of the list")


def many(h, n, image):
    """Many links."""
    t = h.text("t", 1, ["a-z"])
    what = "<img src='/u' alt='" + t + "'> " if image else "<a href='/u'>" + t + "</a> "
    src = "<p>" + what * n + "</p><ul><li>" + what + "</li></ul>"
    text = convert(src, image_placement="footer").split("\n")
    menu = convert(src, image_placement="footer", output_format="gophermap", gopher_host="h").split("\n")
    h.observe("end", menu[-3:])
    h.reach("converted")
    h.equal(menu[:len(menu) - n - 2], text[:len(text) - n - 2], "text in front of the list")


def large(h, n):
    """Long documents."""
    src = html(book(h, n))
    kw = dict(h.pick("format", FORMATS))
    kw["link_placement"] = h.pick("links", ["footer", "after_block"])
    kw["image_placement"] = h.pick("images", ["footer", "inline"])
    width = h.pick("width", [50, 67, 100])
    out = convert(src, width=width, **kw)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(src, width=width), "as in the default configuration")


WITNESS = {f: ["converted"] for f in ("plain", "form", "after", "apart", "many", "large")}


def tasks(tier):
    n = 2 if tier == "quick" else 4
    out = [("plain-%d" % i, "plain", dict(at=i, n=n)) for i in range(len(PLAIN))]
    for i in range(len(LINKED)):
        out += [("%s-%d" % (f, i), f, dict(at=i, n=n)) for f in ("form", "after", "apart")]
    for k in (9, 30, 120):
        out += [("many-%d-%d" % (k, i), "many", dict(n=k, image=i)) for i in (0, 1)]
    return out + [("large-%d" % k, "large", dict(n=k)) for k in ((6,) if tier == "quick" else (6, 20))]
