"""C19: every gophermap link is one well-formed menu line."""
from gopher_render.rendering import Box, ExtractedLinkRenderer, ExtractedImageLinkRenderer
from harness.lib import convert, collapse, item_type, without, menu_text, rstrip_lines, ANY
from harness.C17 import SHAPES, SPANS, INSIDE, INLINE

ASSUMPTIONS = [
    "hosts have no tabs or line breaks in them (the configuration's, and those of gopher URLs)",
    "letters that have two cases, other than ASCII ones, are left out of targets (extensions are lower-cased)",
    "the body around the menu lines is judged against the conversion of the same document with the references written out as text",
    "link and alternative texts next to others have none of . ! ? (the space after a sentence is not this property's)",
    "images inside links are inline, or links have no images in them",
]
BOUNDS = {
    "quick": "texts, titles and alternative texts of 4 and targets of 3 arbitrary code points, tabs, line breaks and carriage returns included (one of them at a time); 18 document shapes, links in inline and unknown elements included, with 2 to 4 places, each a text, link or image, every placement; widths 60 and 12; left margins; renderers with margins, borders, padding; 12 shapes of text without links, with 3 ASCII characters, tabs and line breaks included; 11 links; 101 links in one document; titles, alternative texts, targets and hosts of 120 characters; 6 links with line break elements, preformatted lines or paragraphs in them",
    "thorough": "texts, titles and alternative texts of 6, targets of 4, plain texts of 4, also links around images and with two texts, width 25",
}
LOW = ((9, 10), (13, 13))
TXT = LOW + ANY
TGT = LOW + ((0x20, 0x84), (0x86, 0xb4), (0xb6, 0xb6), (0x600, 0x6ff), (0x3000, 0x31ff), (0x4e00, 0x9fff), (0x1f300, 0x1f5ff))
SPACE = "\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
TXT_MINUS = ".!?<&\x7f\r" + SPACE
ATTR_MINUS = "\"&\x7f" + SPACE


def cut(text, length=10):
    text = text.strip(" ")
    return text if len(text) <= length else text[:length] + "..."


def entry(n, desc, target, scheme, host="ho.st", port="70"):
    """The menu line, by its definition."""
    if scheme:
        kind, selector = "h", "URL:" + without(scheme + target, "\t\n\r")
    else:
        selector = without(target, "\t\n\r")
        kind = item_type(selector)
    return kind + "[" + str(n) + "] " + menu_text(desc) + "\t" + selector + "\t" + host + "\t" + port + "\n"


def fields(h, what, n, part):
    """One link or image in a paragraph."""
    placement = h.pick("placement", ["footer", "after_block"])
    scheme = h.pick("scheme", ["http://x/", "", "gopher://x.y", "gopher://x:7071"])
    title = h.pick("title", ["none", "empty", "some"]) if part != "title" else "some"
    t = h.text("t", n, TXT, TXT_MINUS if what == "a" else ATTR_MINUS + ".!?\t\n\r") if part == "text" else h.text("t", 2, ["a-z"])
    v = (h.text("v", n, TXT, ATTR_MINUS) if part == "title" else h.text("v", 1, ["a-z"])) if title == "some" else ""
    web = scheme[:1] == "h"
    u = ("" if web else "/") + (h.text("u", n, TGT, ATTR_MINUS + ("" if web else "?#")) if part == "target" else h.text("u", 1, ["a-z"]) + ".txt")
    # a path that begins with two slashes has a host, a last segment that ends in a dot has no clear type
    bare = without(u, "\t\n\r")
    h.assume(web or (bare[1:2] != "/" and bare[-1:] != "."))
    attr = {"none": "", "empty": ' title=""', "some": ' title="' + v + '"'}[title]
    if what == "a":
        src = '<a href="' + scheme + u + '"' + attr + ">" + t + "</a>"
        body = collapse(t)
        desc = v if v else cut(collapse(t))
    else:
        src = '<img src="' + scheme + u + '" alt="' + t + '"' + attr + ">"
        body = t
        desc = cut(t if t else "Image")
    out = convert("<p>k " + src + " l</p><p>z</p>", output_format="gophermap", gopher_host="ho.st", link_placement=placement, image_placement=placement)
    h.observe("out", out)
    h.reach("converted")
    line = entry(1, desc, u, scheme if web else "", "x.y" if scheme[-1:] == "y" else "x" if scheme[-1:] == "1" else "ho.st", "7071" if scheme[-1:] == "1" else "70")
    para = "\nk [" + body + "][1] l\n"
    if placement == "footer":
        h.equal(out, para + "\nz\n\n" + line, "menu")
    else:
        h.equal(out, para + "\n" + line + "\nz\n", "menu")


def alternative(h, n):
    """Tabs and line breaks in the alternative text of an image."""
    t = h.text("t", n, TXT, ATTR_MINUS)
    h.assume(t.strip(" \t\n\r") != "")
    out = convert('<p>k</p><p><img src="/x.png" alt="' + t + '"></p>', output_format="gophermap", gopher_host="ho.st", image_placement="footer")
    h.observe("out", out)
    h.reach("converted")
    lines = out.split("\n")
    h.check(lines[-1] == "" and len(lines) > 2, "the menu line is not the last")
    h.equal(lines[-2], "I[1] " + menu_text(t.strip(" \t\n\r")) + "\t/x.png\tho.st\t70", "menu line")


class Walk:
    """Writes the source, the text that stands for it and the menu lines."""

    def __init__(self, h, links, images, kinds):
        self.h, self.links, self.images, self.kinds = h, links, images, kinds
        self.n = 0
        self.next = 1
        self.footer, self.here, self.end = [], [], []

    def place(self, depth):
        i = self.n
        self.n += 1
        kind = self.h.pick("kind %d" % i, self.kinds)
        t = self.h.text("t%d" % i, 1, ["a-z"])
        u = "/" + self.h.text("u%d" % i, 1, ["a-z"])
        if kind == "text":
            return t, t
        if kind == "image":
            return self.image(t, u, depth)
        n = self.number(self.links)
        src, text = t, t
        at = self.where(self.links, depth)
        k = len(at)
        at.append(None)
        if kind == "link image":
            src, text = self.image(t, u + "i", depth)
        elif kind == "link two":
            src, text = t + " <i>" + t + "</i>", t + " _" + t + "_"
        at[k] = entry(n, cut(text), u, "")
        return "<a href='" + u + "'>" + src + "</a>", "[" + text + "][" + str(n) + "]"

    def number(self, placement):
        self.next += 1
        return self.next - 1

    def where(self, placement, depth):
        return self.footer if placement == "footer" else self.here if depth else self.end

    def image(self, t, u, depth):
        src = "<img src='" + u + "' alt='" + t + "'>"
        if self.images == "inline":
            return src, "![" + t + "](" + u + ")"
        n = self.number(self.images)
        self.where(self.images, depth).append(entry(n, t, u, ""))
        return src, "[" + t + "][" + str(n) + "]"

    def nodes(self, nodes, depth):
        src, text = "", ""
        for x in nodes:
            if isinstance(x, str):
                s, t = x, x
            elif x == 0:
                s, t = self.place(depth)
            else:
                s, t = self.nodes(x[1], depth + (x[0] not in INSIDE))
                s, t = "<" + x[0] + ">" + s + "</" + x[0] + ">", "<" + x[0] + ">" + t + "</" + x[0] + ">"
            src, text = src + s, text + t
        return src, text


def document(h, shape, kinds, links, images, width, left):
    """Documents of any shape: the body as if it had no links, and the menu lines."""
    nodes = {**SHAPES, **SPANS, **INLINE}[shape]
    links = h.pick("links", links)
    images = h.pick("images", images)
    w = Walk(h, links, images, kinds)
    box = lambda: Box(width=width, margin=[0, 0, 0, left])
    src, want = "", ""
    run = ""
    for x in nodes:
        s, t = w.nodes([x], 0)
        src += s
        run += t
        if w.here:
            # the menu lines follow the outermost element
            want += convert(run, box=box(), optimise=False) + "\n" + "".join(w.here)
            run, w.here = "", []
    if run:
        want += convert(run, box=box(), optimise=False)
    last = w.end + w.footer
    if last:
        want += "\n" + "".join(last)
        h.reach("listed")
    out = convert(src, box=box(), output_format="gophermap", gopher_host="ho.st", link_placement=links, image_placement=images)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, rstrip_lines(want), "body and menu lines")


def boxed(h, what):
    """Margins, borders and padding cannot move a menu line from the first column or add to it."""
    left, top, bottom, pad = h.choose("left", 3), h.choose("top", 2), h.choose("bottom", 2), h.choose("padding", 2)
    border = h.pick("border", [["", "", "", ""], ["-", "|", "-", "| "]])
    margin = h.choose("root margin", 3)
    cls = ExtractedLinkRenderer if what == "a" else ExtractedImageLinkRenderer
    ext = {what: (cls, dict(margin=[top, 1, bottom, left], border=border, padding=[pad, pad, pad, pad]))}
    t = h.text("t", 2, ["a-z"])
    src = "<a href='/u'>" + t + "</a>" if what == "a" else "<img src='/u' alt='" + t + "'>"
    place = h.pick("placement", ["footer", "after_block"])
    out = convert("<p>" + src + " and " + src + "</p>", box=Box(width=30, margin=[0, 0, 0, margin]), output_format="gophermap", gopher_host="ho.st",
                  link_placement=place, image_placement=place, extracted_link_renderers=ext)
    h.observe("out", out)
    h.reach("converted")
    want = "\n" + " " * margin + "[" + t + "][1] and [" + t + "][2]\n\n"
    for k in "12":
        want += "\n" * top + "1[" + k + "] " + t + "\t/u\tho.st\t70\n" + "\n" * bottom
    h.equal(out, want, "menu lines")


PLAIN = {
    "pre": "<pre>@</pre>", "pre li": "<ul><li>k<pre>@</pre></li></ul>", "pre quote": "<blockquote><pre>@</pre></blockquote>", "p": "<p>k @ l</p>",
    "heading": "<h2>@</h2>", "root": "a @ b", "alt": '<p><img src="/i.png" alt="@"></p>', "heading alt": '<h2><img src="/i.png" alt="@"></h2>',
    "pre em": "<pre>k <em>@</em>\n z</pre>", "li": "<ul><li>@</li></ul>", "entity": "<p>a&#9;@</p><pre>&#9;@</pre>", "code": "<pre><code>@</code></pre>",
}


def plain(h, shape, n):
    """No line of text becomes a menu line: only these have tabs."""
    t = h.text("t", n, LOW + ((0x20, 0x7e),), '<&"\r')
    link = h.pick("link", ["none", "footer", "after_block"])
    src = PLAIN[shape].replace("@", t) + ("<p><a href='/u'>x</a></p>" if link != "none" else "")
    place = "footer" if link == "none" else link
    options = dict(output_format="gophermap", gopher_host="ho.st", link_placement=place, optimise=h.pick("optimise", [True, False]))
    if h.choose("margin", 2):
        options["box"] = Box(width=60, margin=[0, 0, 0, 3])
    out = convert(src, **options)
    h.observe("out", out)
    h.reach("converted")
    for line in out.split("\n"):
        h.check("\t" not in line or line == "1[1] x\t/u\tho.st\t70", "a line of text with a tab")
    # nothing else changes: what is seen is that of the text
    h.equal(without(out.replace("\t", " "), " \n"), without(convert(PLAIN[shape].replace("@", t), link_placement=place).replace("\t", " "), " \n")
            + ("" if link == "none" else "[x][1]1[1]x/uho.st70"), "text")


def many(h, n, placement):
    src, foot, want = "", "", ""
    for i in range(n):
        t = h.text("t%d" % i, 1, ["a-z"])
        src += "<p><a href='/u%d.gif'>" % i + t + "</a></p>"
        line = "g[%d] " % (i + 1) + t + "\t/u%d.gif\tho.st\t7070\n" % i
        want += "\n[" + t + "][%d]\n" % (i + 1) + ("\n" + line if placement == "after_block" else "")
        foot += line
    out = convert(src, output_format="gophermap", gopher_host="ho.st", gopher_port=7070, link_placement=placement)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want + ("\n" + foot if placement == "footer" else ""), "menu lines")

def long(h, n, what):
    """Long descriptions, targets and hosts."""
    at = h.choose("place", 3) * (n // 2 - 1)
    def fill(ch, on):
        c = h.char(ch, ["a-z"])
        return "x" * at + c + "y" * (n - at - 1) if on else c
    part = h.pick("part", ["title", "target", "host", "all"])
    v = fill("v", part in ("title", "all"))
    u = "/" + fill("u", part in ("target", "all"))
    host = fill("h", part in ("host", "all"))
    web = h.pick("scheme", ["", "http://x"])
    place = h.pick("placement", ["footer", "after_block"])
    src = "<a href='" + web + u + "' title='" + v + "'>t</a>" if what == "a" else "<img src='" + web + u + "' alt='" + v + "'>"
    options = {}
    if what == "img":
        options = dict(extracted_link_renderers={"img": (ExtractedImageLinkRenderer, dict(max_link_description=n + 10))})
    out = convert(src, output_format="gophermap", gopher_host=host, link_placement=place, image_placement=place, width=30, **options)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "[" + ("t" if what == "a" else v) + "][1]\n" + (("h[1] " + v + "\tURL:http://x" + u) if web else ("1[1] " + v + "\t" + u)) + "\t" + host + "\t70\n", "menu line")

BROKEN = {"<p>k @ l</p>": "<a href='/u'>@<br>@</a>", "<pre>@\n</pre>": "<a href='/u'>@\n\t@</a>", "<ul><li>@</li></ul>": "<a href='/u'><em>@<br></em>@</a>", "<div>@</div>": "<a href='/u'><b>@</b><br><br>@</a>",
          "<h2>@</h2>": "<a href='/u'>@<br/>@</a>", "<div>@ </div>": "<a href='/u'><p>@</p><p>@</p></a>"}


def broken(h, n, shape):
    """Line breaks and tabs that come from the elements in a link."""
    t, u = h.text("t", n, ["a-z"]), h.text("u", 1, ["a-z"])
    parts = BROKEN[shape].split("@")
    title = h.pick("title", ["", " title=''", " title='tt'"])
    src = (parts[0] + t + parts[1] + u + parts[2]).replace("<a ", "<a" + title + " ")
    out = convert(shape.replace("@", src), output_format="gophermap", gopher_host="ho.st", link_placement=h.pick("placement", ["footer", "after_block"]))
    h.observe("out", out)
    h.reach("converted")
    menu = [l for l in out.split("\n") if "\t" in l]
    h.equal(len(menu), 1, "number of menu lines")
    f = menu[0].split("\t")
    h.equal(f[1:], ["/u", "ho.st", "70"], "fields")
    h.equal(f[0][:5], "1[1] ", "type and number")
    if "<p>" in src and title[-3:] != "tt'":
        return  # with the blank lines around the paragraphs, it is cut
    if title[-3:] == "tt'":
        h.equal(f[0][5:], "tt", "description")
    else:
        h.equal("".join([c for c in f[0][5:] if c not in " _*"]), t + u, "description")


WITNESS = {"broken": ["converted"], "long": ["converted"], "fields": ["converted"], "alternative": ["converted"], "document": ["converted", "listed"], "boxed": ["converted"], "plain": ["converted"], "many": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    n = 4 if q else 6
    out = []
    for w in ("a", "img"):
        out.append((w + "-text", "fields", dict(what=w, n=n, part="text")))
        out.append((w + "-target", "fields", dict(what=w, n=n - 1, part="target")))
        out.append((w + "-title", "fields", dict(what=w, n=n, part="title")))
    out.append(("alternative", "alternative", dict(n=n)))
    kinds = ["link", "image", "text"] if q else ["link", "image", "text", "link two"]
    p = ["footer", "after_block"]
    for s in SHAPES:
        for width in (60, 12) if q else (60, 25, 12):
            out.append(("%s-%d" % (s, width), "document", dict(shape=s, kinds=kinds, links=p, images=p + ["inline"], width=width, left=0 if width == 60 else 1)))
    for s in SPANS:
        out.append((s, "document", dict(shape=s, kinds=kinds, links=p, images=p + ["inline"], width=60, left=1)))
    for s in INLINE:
        out.append((s, "document", dict(shape=s, kinds=kinds, links=p, images=p + ["inline"], width=60, left=2)))
    for s in ("two p", "list"):
        out.append((s + "-nested", "document", dict(shape=s, kinds=["link image", "link two"], links=p, images=["inline"], width=60, left=0)))
    for w in ("a", "img"):
        out.append(("boxed-" + w, "boxed", dict(what=w)))
    for s in PLAIN:
        out.append(("plain-" + s, "plain", dict(shape=s, n=3 if q else 4)))
    for p in ("footer", "after_block"):
        out.append(("many-" + p, "many", dict(n=11, placement=p)))
        out.append(("many-101-" + p, "many", dict(n=101 if q else 400, placement=p)))
    for w in ("a", "img"):
        out.append(("long-" + w, "long", dict(what=w, n=120 if q else 400)))
    for i, s in enumerate(BROKEN):
        out.append(("broken-%d" % i, "broken", dict(n=2, shape=s)))
    return out
