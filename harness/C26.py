"""C26: impossible gophermap configurations are rejected up front."""
from gopher_render import GopherHTMLParser
from gopher_render.rendering import Box
from harness.lib import ANY

ASSUMPTIONS = [
    "output formats are text and gophermap, placements footer, after_block and inline, ports 0 to 65535, hosts strings",
]
BOUNDS = {
    "quick": "every combination of output format, link and image placement (given or by default), optimisation, box or width, renderers or none; hosts of 0 to 3 arbitrary code points, given or not; 5 ports and the default; 8 documents",
    "thorough": "hosts of 0 to 5 code points, arbitrary ports",
}
DOCS = ["", "@", "<p>k <a href='/u'>@</a> <img src='/i.png' alt='@'></p>", "<a href='http://x/'>@</a>", "<ul><li><a>@</a></li></ul><img>", "<a href='gopher://h:71/x'><img src='//['>@",
        "<pre>@\n</pre><blockquote><p><a href=':'>x", "<h1>@</h1><dl><dt>a</dt><dd><img src='/u.gif'></dd></dl>"]
NONE = "not given"


def config(h, host_lengths, ports):
    kw = {}
    fmt = h.pick("format", ["text", "gophermap", NONE])
    link = h.pick("links", ["footer", "after_block", "inline", NONE])
    image = h.pick("images", ["footer", "after_block", "inline", NONE])
    for k, v in (("output_format", fmt), ("link_placement", link), ("image_placement", image)):
        if v != NONE:
            kw[k] = v
    n = h.pick("host", [NONE] + host_lengths)
    if n != NONE:
        kw["gopher_host"] = h.text("name", n, ANY)
    port = h.pick("port", [NONE] + ports)
    if port != NONE:
        kw["gopher_port"] = h.int("number", 0, 65535) if port == "any" else port
    impossible = fmt == "gophermap" and (link == "inline" or n == NONE or n == 0)
    return kw, impossible


def create(h, host_lengths, ports):
    """ValueError exactly for what is impossible."""
    kw, impossible = config(h, host_lengths, ports)
    extra = h.pick("extra", [{}, {"optimise": False}, {"width": 30}])
    kw.update(extra)
    try:
        GopherHTMLParser(**kw)
        rejected = False
    except ValueError:
        rejected = True
    h.observe("rejected", rejected)
    h.reach("rejected" if rejected else "accepted")
    h.check(rejected == impossible, "a possible configuration is rejected" if rejected else "an impossible configuration is accepted")


def complete(h, doc, boxed):
    """With any other configuration, conversions complete."""
    kw, impossible = config(h, [0, 2], [7070])
    h.assume(not impossible)
    if boxed:
        kw["box"] = Box(width=30, margin=[1, 1, 1, 1])
    p = GopherHTMLParser(**kw)
    a = h.text("a", 1, ["A-Z"])
    p.feed(DOCS[doc].replace("@", a))
    p.close()
    h.observe("out", p.parsed)
    h.reach("converted")
    h.check("@" not in DOCS[doc] or a in p.parsed, "text lost")


WITNESS = {"create": ["rejected", "accepted"], "complete": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    out = [("create", "create", dict(host_lengths=[0, 1, 2, 3] if q else [0, 1, 2, 3, 4, 5], ports=[70, 0, 1, 7070, 65535])),
           ("create-port", "create", dict(host_lengths=[0, 1], ports=["any"]))]
    for d in range(len(DOCS)):
        for boxed in (False, True):
            out.append(("complete-%d%s" % (d, "-box" * boxed), "complete", dict(doc=d, boxed=boxed)))
    return out
