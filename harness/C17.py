"""C17: link references and extracted links correspond one to one."""
from gopher_render.rendering import Box, HeaderRenderer
from harness.lib import convert

ASSUMPTIONS = [
    "link and alternative texts of at most 10 letters, no titles (C18 decides descriptions)",
    "of listed images in listed links the numbers, targets and order are compared (the link's description repeats the image's reference)",
    "body text is judged against the conversion of the same document with the references written out as text",
]
BOUNDS = {
    "quick": "18 document shapes, links in inline and unknown elements included, with 2 to 4 places, each a text, link, image, link around an image or link with two texts, symbolic texts and targets of 1 or 2 letters, every combination of link and image placement; widths 60 and 12; a left margin; headings with any settings, with a link after them; 12 links in one document; 101 links in one document; 3 links or images, with listed images in links",
    "thorough": "width 30 as well",
}

SHAPES = {
    "two p": [("p", ["k ", 0, " m"]), ("p", [0, " n"])],
    "div": [("div", [("p", [0]), "x ", 0])],
    "div2": [("div", [("div", [("p", ["a ", 0])]), ("p", [0, 0])])],
    "list": [("ul", [("li", [0]), ("li", ["x ", 0, ("ul", [("li", [0])])])])],
    "quote": [("blockquote", [("p", [0, " a"]), ("p", ["b ", 0])]), ("p", [0])],
    "ol": [("ol", [("li", [0, " and ", 0]), ("li", [("p", [0])])])],
    "dl": [("dl", [("dt", ["t"]), ("dd", ["d ", 0]), ("dd", [0])])],
    "top": ["a ", 0, ("p", [0, " b"]), 0],
    "deep": [("div", [("blockquote", [("ul", [("li", ["x ", 0, ("p", ["y ", 0])])]), ("p", [0])])])],
    "same p": [("p", [0, ", ", 0, " and ", 0])],
}
SPANS = {
    "span": [("p", ["k ", ("em", [0, " m"]), " n ", ("b", ["x ", ("i", [0])]), 0]), ("p", [("section", ["a ", ("x", [0])]), " b"])],
    "span li": [("ul", [("li", ["x ", ("em", [0]), ("ul", [("li", [("section", [0, " b"])])]), ("x", [" z ", 0])])])],
    "span top": ["a ", ("em", ["c ", 0]), " d ", ("x", [("p", [("b", [0]), " e"]), ("i", [0])])],
    "span pre": [("pre", ["a ", ("em", [0]), " b"]), ("div", [("section", [("p", [("u", [0])]), "v ", 0])])],
    "span dd": [("dl", [("dt", ["t ", ("b", [0])]), ("dd", ["d ", ("b", [0]), " e"])]), ("blockquote", [("em", [0, " f ", ("b", [0])])])],
    "headings": [("h2", ["a ", ("em", [0]), " b ", 0]), ("div", [("h3", [0]), ("p", [0])])],
    "heading li": [("ul", [("li", [("h2", [0, " a"]), ("p", [0])])]), ("h1", [("x", ["b ", 0])])],
}
# the elements that make no block of their own
INSIDE = ("em", "b", "i", "u", "x", "section")
INLINE = {
    "heading": [("h2", ["a ", 0]), ("p", [0, ("em", ["b ", 0])])],
    "nested": [("p", [("em", [0, ("strong", [0])]), " z"]), ("pre", ["  ", 0])],
    "root": ["a ", 0, " b ", ("b", [0])],
}


class Walk:
    def __init__(self, h, links, images, kinds):
        self.h, self.links, self.images, self.kinds = h, links, images, kinds
        self.n = 0
        self.next = 1
        self.footer = []
        self.pending = [[]]

    def place(self):
        """One place: (source, what stands in its place as text)."""
        i = self.n
        self.n += 1
        kind = self.h.pick("kind %d" % i, self.kinds)
        t = self.h.text("t%d" % i, 1, ["a-z"])
        u = "/" + self.h.text("u%d" % i, 1, ["a-z"])
        if kind == "text":
            return t, t
        if kind == "image":
            return self.image(t, u)
        n = self.next
        if self.links != "inline":
            self.next += 1
        src, text = t, t
        slot = None
        if self.links != "inline":
            slot = [n, None, u]
            self.put(self.links, slot)
        if kind == "link image":
            s, x = self.image(t, u + "i")
            src, text = s, x
        elif kind == "link two":
            src, text = t + " <i>" + t + "</i>", t + " _" + t + "_"
        src = "<a href='" + u + "'>" + src + "</a>"
        if slot:
            slot[1] = text
            return src, "[" + text + "][" + str(n) + "]"
        return src, "[" + text + "](" + u + ")"

    def image(self, t, u):
        src = "<img src='" + u + "' alt='" + t + "'>"
        if self.images == "inline":
            return src, "![" + t + "](" + u + ")"
        n = self.next
        self.next += 1
        self.put(self.images, [n, t, u])
        return src, "[" + t + "][" + str(n) + "]"

    def put(self, where, slot):
        (self.footer if where == "footer" else self.pending[-1]).append(slot)

    def nodes(self, nodes):
        src, text = "", ""
        for x in nodes:
            if isinstance(x, str):
                s, t = x, x
            elif x == 0:
                s, t = self.place()
            else:
                if x[0] in INSIDE:
                    s, t = self.nodes(x[1])
                    mine = []
                else:
                    self.pending.append([])
                    s, t = self.nodes(x[1])
                    mine = self.pending.pop()
                heading = x[0][0] == "h"
                if mine and not heading:
                    t += "<br>" + "".join(["<br>" + entry(m) for m in mine])
                s, t = "<" + x[0] + ">" + s + "</" + x[0] + ">", "<" + x[0] + ">" + t + "</" + x[0] + ">"
                if mine and heading:
                    t += "<p>" + "<br>".join([entry(m) for m in mine]) + "</p>"
            src, text = src + s, text + t
        return src, text


def entry(slot):
    return "[" + str(slot[0]) + "] " + slot[1] + ": " + slot[2]


def document(h, shape, kinds, links, images, width, left):
    nodes = {**SHAPES, **SPANS, **INLINE}[shape]
    links = h.pick("links", links)
    images = h.pick("images", images)
    w = Walk(h, links, images, kinds)
    src, text = w.nodes(nodes)
    out = convert(src, box=Box(width=width, margin=[0, 0, 0, left]), link_placement=links, image_placement=images)
    h.observe("out", out)
    h.reach("converted")
    want = convert(text, box=Box(width=width, margin=[0, 0, 0, left]))
    last = w.pending[0] + w.footer
    if last:
        want += "\n" + "".join(["\n" + " " * left + entry(s) for s in last])
        h.reach("listed")
    if w.n and want != "":
        h.equal(out, want, "references and links")


def decorated(h, n):
    """Entries after a heading are not part of what its settings do to it."""
    settings = dict(centered=h.pick("centred", [False, True]), underlined=h.pick("underlined", [False, True]), underline_full=h.pick("full", [False, True]), spread=h.choose("spread", 3),
                    capitalized=h.pick("capital", [False, True]), template=h.pick("template", ["{}", "<< {} >>"]))
    tag = h.pick("tag", ["h1", "h3", "h6"])
    rules = {tag: (HeaderRenderer, settings)}
    t = h.text("t", n, ["a-z"])
    u = "/" + h.text("u", 1, ["a-z"])
    em = h.pick("inline", [False, True])
    link = "<a href='" + u + "'>" + t + "</a>"
    src = "a " + ("<em>" + link + "</em>" if em else link)
    text = "a " + ("<em>[" + t + "][1]</em>" if em else "[" + t + "][1]")
    out = convert("<" + tag + ">" + src + "</" + tag + ">", width=40, link_placement="after_block", renderers=rules)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert("<" + tag + ">" + text + "</" + tag + ">", width=40, renderers=rules) + "\n[1] " + t + ": " + u + "\n", "heading and entry")


def many(h, n, placement):
    """More than nine links: numbers of two digits, in order."""
    src, text, foot = "", "", ""
    for i in range(n):
        t = h.text("t%d" % i, 1, ["a-z"])
        src += "<p>" + ("<a href='/u%d'>" % i + t + "</a>") + "</p>"
        text += "<p>[" + t + "][%d]" % (i + 1)
        if placement == "after_block":
            text += "<br><br>[%d] " % (i + 1) + t + ": /u%d" % i
        else:
            foot += "\n[%d] " % (i + 1) + t + ": /u%d" % i
        text += "</p>"
    out = convert(src, link_placement=placement)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(text) + ("\n" + foot if foot else ""), "references and links")

def inside(h, n):
    """Listed images in listed links: the numbers and targets of the entries."""
    links, images = h.pick("links", ["footer", "after_block", "inline"]), h.pick("images", ["footer", "after_block"])
    src, body, link_list, image_list, number = "", "", [], [], 0
    for i in range(n):
        t, u, v = h.text("t%d" % i, 1, ["a-z"]), "/" + h.text("u%d" % i, 1, ["a-z"]), "/" + h.text("v%d" % i, 1, ["a-z"]) + ".gif"
        kind = h.pick("kind %d" % i, ["link", "image", "first", "last", "two", "em"])
        if kind != "image":
            if links != "inline":
                number += 1
                link_list.append((number, u))
            mine = number
        many = {"link": 0, "two": 2}.get(kind, 1)
        s, b = "", ""
        for k in range(many):
            number += 1
            image_list.append((number, v + str(k)))
            s += "<img src='" + v + str(k) + "' alt='i'>"
            b += "[i][" + str(number) + "]"
        if kind == "em":
            s, b = "<em>" + s + "</em>", "_" + b + "_"
        if kind != "image":
            s, b = (t + s, t + b) if kind in ("last", "link") else (s + t, b + t)
            s = "<a href='" + u + "'>" + s + "</a>"
            b = "[" + b + "](" + u + ")" if links == "inline" else "[" + b + "][" + str(mine) + "]"
        src += " w " + s
        body += " w " + b
    out = convert("<p>k" + src + "</p>", width=500, link_placement=links, image_placement=images)
    h.observe("out", out)
    h.reach("converted")
    lines = [l for l in out.split("\n") if l]
    h.equal(lines[0], "k" + body, "references")
    if links == images:
        want = sorted(link_list + image_list)
    elif links == "footer":
        want = image_list + link_list
    else:
        want = link_list + image_list
    got = []
    for l in lines[1:]:
        head, tail = l.split(" ", 1)
        got.append((head, tail[tail.rindex(": ") + 2:]))
    h.equal(got, [("[" + str(k) + "]", u) for k, u in want], "entries")


WITNESS = {"inside": ["converted"], "document": ["converted", "listed"], "many": ["converted"], "decorated": ["converted"]}
ALL = ["footer", "after_block", "inline"]


def tasks(tier):
    q = tier == "quick"
    out = []
    kinds = ["link", "image", "text", "link two"]
    for s in SHAPES:
        for width in (60, 12) if q else (60, 30, 12):
            out.append(("%s-%d" % (s, width), "document", dict(shape=s, kinds=kinds, links=ALL, images=ALL, width=width, left=0 if width == 60 else 1)))
    for s in SPANS:
        out.append((s, "document", dict(shape=s, kinds=kinds if not q else ["link", "image", "link two"], links=ALL, images=ALL, width=60, left=1)))
    for s in INLINE:
        p = ["footer", "inline"]
        out.append((s, "document", dict(shape=s, kinds=kinds, links=p, images=p, width=60, left=0)))
        out.append((s + "-image", "document", dict(shape=s, kinds=["link image", "link"], links=p, images=["inline"], width=60, left=2)))
    out.append(("image-in-link", "document", dict(shape="two p", kinds=["link image", "link", "image"], links=ALL, images=["inline"], width=60, left=0)))
    out.append(("list-two", "document", dict(shape="list", kinds=["link two", "link image"], links=ALL, images=["inline"], width=60, left=0)))
    out.append(("decorated", "decorated", dict(n=3 if q else 6)))
    for p in ("footer", "after_block"):
        out.append(("many-" + p, "many", dict(n=12, placement=p)))
        out.append(("many-101-" + p, "many", dict(n=101 if q else 400, placement=p)))
    out.append(("inside", "inside", dict(n=3 if tier == "quick" else 4)))
    return out
