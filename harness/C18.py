"""C18: rendered links and images carry the right description, target and title."""
from gopher_render.rendering import ExtractedLinkRenderer, ExtractedImageLinkRenderer, AnsiEscapeCodeRenderer, LinkRenderer, ImageRenderer, InlineRenderer
from harness.lib import convert, collapse, ANY, ODD_SPACE, ESC, unstyled

ASSUMPTIONS = [
    "attribute values are in double quotes and have no double quotes or character references in them",
    "the white space at the two ends of a text or an alternative text does not belong to a description",
    "the full alternative text of an image takes the place of a title when its description had to be cut",
    "blank space at the ends of lines is not compared (C24)",
]
BOUNDS = {
    "quick": "texts of 4, titles and alternative texts of 3, targets of 2 arbitrary code points (one of them at a time); texts of 0 to 7 characters and spaces against description lengths 0 to 8; descriptions of 9 to 12 characters with the default length; missing and empty titles and alternative texts; styled and emphasised texts cut at every length; configured templates; texts, titles and targets of 60 to 400 characters with 10 length limits",
    "thorough": "texts of 6, titles of 5, targets of 4 arbitrary code points, up to 10 characters against lengths 0 to 11",
}
TXT = ANY
TXT_MINUS = "<&\x7f" + ODD_SPACE
# ... without letters that have two cases, but for ASCII ones (targets have their extension lower-cased)
TGT = ((0x20, 0x84), (0x86, 0xb4), (0xb6, 0xb6), (0x600, 0x6ff), (0x3000, 0x31ff), (0x4e00, 0x9fff), (0x1f300, 0x1f5ff))
ATTR_MINUS = "\"&\x7f" + ODD_SPACE


def inline_link(h, n, m, what):
    """[text](target "title")"""
    t = h.text("t", n, TXT if what == "text" else ["a-z"], TXT_MINUS)
    u = h.text("u", m, TGT if what == "target" else ["a-z"], ATTR_MINUS)
    how = h.pick("title", ["none", "empty", "some", "valueless"])
    v = h.text("v", m, TXT if what == "title" else ["a-z"], ATTR_MINUS) if how == "some" else ""
    attr = {"none": "", "empty": ' title=""', "some": ' title="' + v + '"', "valueless": " title"}[how]
    out = convert('x<a href="' + u + '"' + attr + ">" + t + "</a>y", link_placement="inline")
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "x[" + collapse(t) + "](" + u + (' "' + v + '"' if v else "") + ")y", "inline link")


def inline_image(h, m, what):
    u = h.text("u", m, TGT if what == "target" else ["a-z"], ATTR_MINUS)
    how = h.pick("alt", ["none", "empty", "some", "valueless"])
    v = h.text("v", m, TXT if what == "alt" else ["a-z"], ATTR_MINUS) if how == "some" else ""
    attr = {"none": "", "empty": ' alt=""', "some": ' alt="' + v + '"', "valueless": " alt"}[how]
    title = h.pick("title", ["", ' title="tt"'])
    out = convert('x<img src="' + u + '"' + attr + title + ">y")
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "x![" + (v if v else "Image") + "](" + u + ")y", "inline image")


def cut(text, length):
    """A description: the text without its outer white space, cut to the length."""
    text = text.strip(" ")
    if len(text) <= length:
        return text, False
    return text[:length] + "...", True


def extracted(h, what, lo, hi, length, dom, minus, title, target=0):
    """[n] description: target "title" """
    n = lo + h.choose("length of text", hi - lo + 1)
    t = h.text("t", n, dom, minus)
    u = h.text("u", target, TGT, ATTR_MINUS) if target else "/" + h.text("u", 1, ["a-z"])
    v = h.text("v", 2, TXT if title == "any" else ["a-z"], ATTR_MINUS) if title else ""
    ren = {}
    limit = 10
    if length is not None:
        limit = h.choose("limit", length + 1)
        cls = ExtractedLinkRenderer if what == "a" else ExtractedImageLinkRenderer
        ren = {what: (cls, dict(max_link_description=limit))}
    placement = h.pick("placement", ["footer", "after_block"])
    none = "" if title else h.pick("no title", ["", ' title=""', " title"])
    if what == "a":
        src = '<a href="' + u + '"' + (' title="' + v + '"' if title else none) + ">" + t + "</a>"
        body = "[" + collapse(t) + "][1]"
        desc, short = cut(collapse(t), limit)
        tail = ' "' + v + '"' if title else ""
    else:
        src = '<img src="' + u + '" alt="' + t + '"' + (' title="' + v + '"' if title else none) + ">"
        alt = t if t else "Image"
        body = "[" + alt + "][1]"
        desc, short = cut(alt, limit)
        tail = ' "' + alt + '"' if short else ""
    out = convert(src, link_placement=placement, image_placement=placement, extracted_link_renderers=ren)
    h.observe("out", out)
    h.reach("cut" if short else "whole")
    h.equal(out, body + "\n\n" + ("[1] " + desc + ": " + u + tail).rstrip(" "), "extracted link")


def styled(h, n, limit):
    """Styled text is cut at the same place, and keeps all of its sequences."""
    a, b, c = h.text("a", h.choose("length a", n + 1), ["a-z"]), h.text("b", 1 + h.choose("length b", n), ["a-z"]), h.text("c", h.choose("length c", n + 1), ["a-z"])
    kind = h.pick("kind", ["x", "em", "two"])
    k = h.choose("limit", limit + 1)
    on, off = ESC + "[1m", ESC + "[22m"
    src, text, plain = {"x": (a + "<x>" + b + "</x>" + c, a + on + b + off + c, a + b + c),
                        "em": (a + "<em>" + b + "</em>" + c, a + "_" + b + "_" + c, a + "_" + b + "_" + c),
                        "two": ("<x>" + a + "<x>" + b + "</x></x>" + c, on + a + on + b + off + off + c, a + b + c)}[kind]
    out = convert("<a href='/u'>" + src + "</a>", renderers={"x": (AnsiEscapeCodeRenderer, dict(bold=True))},
                  extracted_link_renderers={"a": (ExtractedLinkRenderer, dict(max_link_description=k))})
    h.observe("out", out)
    h.reach("converted")
    desc, short = cut(plain, k)
    h.equal(unstyled(out), "[" + plain + "][1]\n\n[1] " + desc + ": /u", "visible text")
    line = out.split("\n")[-1]
    h.check(line.count(on) == text.count(on) and line.count(off) == text.count(off), "sequences in the description")
    h.check(out.startswith("[" + text + "][1]\n"), "text of the link")


def configured(h, n):
    """Configured templates and capitals."""
    t, u, v = h.text("t", n, ["a-z"]), h.text("u", n - 1, TGT, ATTR_MINUS + "<>"), h.text("v", n, ["a-z"])
    title = h.bool("title")
    up = h.bool("capitals")
    inline = h.bool("inline")
    ren = {"a": (LinkRenderer, dict(capitalized=up, templates={"reference": "{{{content}}}<{link_reference}>", "inline": ["{href}|{content}", "{title}|{href}|{content}"]}))}
    ext = {"a": (ExtractedLinkRenderer, dict(templates=["\n{link_reference}={description}={href}", "\n{link_reference}={title}={href}={description}"]))}
    out = convert('<a href="' + u + '"' + (' title="' + v + '"' if title else "") + ">" + t + "</a>", renderers=ren, extracted_link_renderers=ext,
                  link_placement="inline" if inline else "footer")
    h.observe("out", out)
    h.reach("converted")
    c = t.upper() if up else t
    if inline:
        want = (v + "|" if title else "") + u + "|" + c
    else:
        want = "{" + c + "}<1>\n\n1=" + (v + "=" + u + "=" + t if title else t + "=" + u)
    h.equal(out, want.rstrip(" "), "configured link")


def configured_image(h, n):
    """Configured templates and capitals of images."""
    u, v = h.text("u", n - 1, TGT, ATTR_MINUS + "<>"), h.text("v", n, ["a-z"])
    up = h.bool("capitals")
    inline = h.bool("inline")
    alt = h.bool("alternative text")
    own = h.bool("own templates")
    ren = dict(capitalized=up)
    ext = {}
    if own:
        ren["templates"] = {"reference": "{{{title}}}<{link_reference}>", "inline": "{href}|{title}"}
        ext = {"img": (ExtractedImageLinkRenderer, dict(templates=["\n{link_reference}={description}={href}", "\n{link_reference}={title}={href}={description}"], max_link_description=n - 1))}
    out = convert('x <img src="' + u + '"' + (' alt="' + v + '"' if alt else "") + ">", renderers={"img": (ImageRenderer, ren)}, extracted_link_renderers=ext,
                  image_placement="inline" if inline else "footer")
    h.observe("out", out)
    h.reach("converted")
    v = v if alt else "Image"
    c = v.upper() if up else v
    if inline:
        want = u + "|" + c if own else "![" + c + "](" + u + ")"
    elif own:
        want = "{" + c + "}<1>\n\n1=" + v + "=" + u + "=" + v[:n - 1] + "..."
    else:
        want = "[" + c + "][1]\n\n[1] " + v + ": " + u
    h.equal(out, "x " + want.rstrip(" "), "configured image")


def default_capitals(h, n, placement):
    """Capitals of links with the default templates."""
    t, u, v = h.text("t", n, ["a-z"]), h.text("u", n - 1, TGT, ATTR_MINUS + "<>"), h.text("v", n, ["a-z"])
    title = h.bool("title")
    up = h.bool("capitals")
    e = h.bool("element")
    out = convert("<p>k <a href=\"" + u + '"' + (' title="' + v + '"' if title else "") + ">" + ("<b>" + t + "</b>" if e else t) + "</a> l</p>",
                  renderers={"a": (LinkRenderer, dict(capitalized=up))}, link_placement=placement)
    h.observe("out", out)
    h.reach("converted")
    b = "**" if e else ""
    c = b + (t.upper() if up else t) + b
    if placement == "inline":
        want = "\nk [" + c + "](" + u + (' "' + v + '"' if title else "") + ") l\n"
    else:
        want = "\nk [" + c + "][1] l\n" + "\n\n[1] " + b + t + b + ": " + u + (' "' + v + '"' if title else "")
    h.equal(out, want.rstrip(" "), "link")


def missing(h, n):
    """Links and images without a target."""
    t = h.text("t", n, ["a-z"])
    k = h.choose("kind", 4)
    placement = h.pick("placement", ["footer", "inline"])
    src = ["<a>" + t + "</a>", "<a href>" + t + "</a>", "<img alt='" + t + "'>", "<img src alt='" + t + "'>"][k]
    out = convert(src, link_placement=placement, image_placement=placement)
    h.observe("out", out)
    h.reach("converted")
    if placement == "inline":
        h.equal(out, "!" * (k > 1) + "[" + t + "]()", "no target")
    else:
        h.equal(out, "[" + t + "][1]\n\n[1] " + t + ":", "no target")


def wrapped(h, n, width):
    """Links in a paragraph: description and target are untouched by the layout around them."""
    t, u = h.text("t", n, ["a-z"]), h.text("u", 3, ["a-z"])
    place = h.pick("place", ["p", "li", "h1", "quote p", "em"])
    src = {"p": "<p>@</p>", "li": "<ul><li>@</li></ul>", "h1": "<h1>@</h1>", "quote p": "<blockquote><p>@</p></blockquote>", "em": "<p><em>@</em></p>"}[place]
    out = convert(src.replace("@", "k <a href='" + u + "' title='ti'>" + t + "</a> l"), width=width)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out.split("\n")[-1], "[1] " + cut(t, 10)[0] + ": " + u + ' "ti"', "extracted link")


def large(h, n):
    """Long texts, targets and titles."""
    c = h.text("c", 2, ["a-z"])
    t = " ".join([("abcdefghijklm"[i % 5:])[:i * 5 % 8 + 1] + c for i in range(n)])
    u = "/" + "/".join([c + str(i) * (i % 7) for i in range(n)]) + "?q=" + c * n + "#" + c
    what = h.pick("what", ["a", "img"])
    placement = h.pick("placement", ["inline", "footer", "after_block"])
    limit = h.pick("limit", [None, 0, 1, 11, 50, 100, len(t) - 1, len(t), len(t) + 1, 10000])
    title = h.bool("title") and what == "a"
    attr = ' title="' + t + '"' if title else ""
    src = '<a href="' + u + '"' + attr + ">" + t + "</a>" if what == "a" else '<img src="' + u + '" alt="' + t + '">'
    ext = {} if limit is None else {what: (ExtractedLinkRenderer if what == "a" else ExtractedImageLinkRenderer, dict(max_link_description=limit))}
    out = convert("<div>" + src + "</div>", width=30, link_placement=placement, image_placement=placement, extracted_link_renderers=ext)
    h.observe("out", out)
    h.reach("converted")
    if placement == "inline":
        want = "!" * (what == "img") + "[" + t + "](" + u + (' "' + t + '"' if title else "") + ")"
    else:
        desc, short = cut(t, 10 if limit is None else limit)
        want = "[" + t + "][1]\n\n[1] " + desc + ": " + u + (' "' + t + '"' if title or what == "img" and short else "")
    h.equal(out, want, "link or image")


WITNESS = {"large": ["converted"], "inline_link": ["converted"], "inline_image": ["converted"], "extracted": ["cut", "whole"], "styled": ["converted"], "configured": ["converted"], "configured_image": ["converted"], "default_capitals": ["converted"],
           "missing": ["converted"], "wrapped": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    n = 4 if q else 5
    out = [("inline-link-" + w, "inline_link", dict(n=n, m=k, what=w)) for w, k in (("text", 1), ("target", n - 2), ("title", n - 1))]
    out += [("inline-image-" + w, "inline_image", dict(m=k, what=w)) for w, k in (("alt", n - 1), ("target", n - 2))]
    hi = 7 if q else 10
    for w in ("a", "img"):
        out.append((w + "-any", "extracted", dict(what=w, lo=1, hi=n, length=None, dom=TXT, minus=TXT_MINUS + '"', title=True, _witness=["whole"])))
        out.append((w + "-any-short", "extracted", dict(what=w, lo=1, hi=n - 1, length=n, dom=TXT, minus=TXT_MINUS + '" ', title=False)))
        out.append((w + "-target", "extracted", dict(what=w, lo=2, hi=2, length=None, dom="a", minus="", title=True, target=n - 2, _witness=["whole"])))
        out.append((w + "-space", "extracted", dict(what=w, lo=0, hi=hi - 1, length=hi, dom="a ", minus="", title=False)))
        out.append((w + "-title", "extracted", dict(what=w, lo=0, hi=3, length=3, dom="a ", minus="", title="any")))
        out.append((w + "-default", "extracted", dict(what=w, lo=8, hi=12, length=None, dom=["a-z"], minus="", title=False)))
        out.append((w + "-default-title", "extracted", dict(what=w, lo=8, hi=12, length=None, dom=["a-z"], minus="", title=True)))
    out.append(("styled", "styled", dict(n=2 if q else 3, limit=7 if q else 10)))
    out.append(("configured", "configured", dict(n=2 if q else 3)))
    out.append(("configured-image", "configured_image", dict(n=2 if q else 3)))
    for p in ("inline", "footer"):
        out.append(("capitals-" + p, "default_capitals", dict(n=2 if q else 3, placement=p)))
    out.append(("missing", "missing", dict(n=3)))
    for w in (8, 20):
        out.append(("wrapped-%d" % w, "wrapped", dict(n=12, width=w)))
    for k in (12, 40) if q else (12, 40, 150):
        out.append(("large-%d" % k, "large", dict(n=k)))
    return out
