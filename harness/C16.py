"""C16: renderer settings resolve by class, then rule, and never leak."""
from gopher_render import GopherHTMLParser
from gopher_render.rendering import (Renderer, InlineRenderer, BlockRenderer, ParagraphRenderer, ListItemRenderer, OrderedListItemRenderer,
                                     BlockQuoteRenderer, HeaderRenderer, MarkdownHeaderRenderer, LinkRenderer, ExtractedLinkRenderer,
                                     PreRenderer, AnsiEscapeCodeRenderer, Box, DefinitionListItemRenderer, EmRenderer)
from harness.lib import convert
from gopher_render.rendering import LinkRenderer, ImageRenderer, ExtractedLinkRenderer, ExtractedImageLinkRenderer

ASSUMPTIONS = [
    "renderers do not themselves change the values (lists, dictionaries) they find in their settings",
    "class hierarchies are the ones Python accepts",
]
BOUNDS = {
    "quick": "7 shapes of class hierarchy (chains, diamonds, mixins) of up to 4 classes, each defining any subset of 2 keys with any values, with any rule settings on top; any 3 of 12 conversions with different rules one after another in one process, a fixed document judged before and after; 2 elements of one class with different rules; chains of 9 classes below 4 of the renderers; links and images with rules for the text, for the entry, both or none, in every placement",
    "thorough": "3 keys, any 4 conversions",
}


def family(shape, settings):
    """Classes of a shape, in order of definition; the last is the renderer."""
    def show(self, content):
        return "".join([k + str(self.settings.get(k, "-")) for k in "pqr"]) + "(" + content + ")"

    meta = type(Renderer)

    def new(name, bases, i):
        ns = {"render": show}
        if settings[i] is not None:
            ns["settings"] = dict(settings[i])
        return meta(name, bases, ns)
    if shape == "one":
        return [new("A", (Renderer,), 0)]
    a = new("A", (Renderer,), 0)
    if shape == "chain":
        b = new("B", (a,), 1)
        c = new("C", (b,), 2)
        return [a, b, c]
    if shape == "chain4":
        b = new("B", (a,), 1)
        c = new("C", (b,), 2)
        d = new("D", (c,), 3)
        return [a, b, c, d]
    if shape == "diamond":
        b = new("B", (a,), 1)
        c = new("C", (a,), 2)
        d = new("D", (b, c), 3)
        return [a, b, c, d]
    if shape == "mixin":
        b = new("B", (Renderer,), 1)
        c = new("C", (a, b), 2)
        return [a, b, c]
    if shape == "mixin-last":
        b = new("B", (Renderer,), 1)
        c = new("C", (b,), 2)
        d = new("D", (c, a), 3)
        return [a, b, c, d]
    if shape == "inline":
        b = new("B", (InlineRenderer,), 1)
        c = new("C", (a, b), 2)
        return [a, b, c]


def resolved(cls, classes, settings, rule):
    """Most derived first."""
    out = dict(rule)
    for k in cls.__mro__:
        for c, s in zip(classes, settings):
            if k is c and s is not None:
                for key in s:
                    if key not in out:
                        out[key] = s[key]
    return out


def shown(s):
    return "".join([k + str(s.get(k, "-")) for k in "pqr"])


def hierarchy(h, shape, n, keys):
    """Any subset of the keys defined at any class, any value, any rule settings."""
    settings = []
    for i in range(n):
        s = {k: h.char("%s%d" % (k, i), ["a-z"]) for k in keys if h.bool("define %s%d" % (k, i))}
        settings.append(s if s or h.bool("empty %d" % i) else None)
    classes = family(shape, settings)
    rule = {k: h.char("rule " + k, ["a-z"]) for k in keys if h.bool("in rule %s" % k)}
    cls = classes[-1]
    other = h.pick("other", range(len(classes)))
    out = convert("<x>t</x><y>u</y><x>v</x>", renderers={"x": (cls, dict(rule)), "y": classes[other]})
    h.observe("out", out)
    h.reach("converted")
    a = shown(resolved(cls, classes, settings, rule))
    b = shown(resolved(classes[other], classes, settings, {}))
    h.equal(out, a + "(t)" + b + "(u)" + a + "(v)", "settings")
    # and nothing was changed by it
    for c, s in zip(classes, settings):
        h.equal(dict(c.__dict__["settings"]), s or {}, "settings of a class")


DOC = ("<h1>head line</h1><p>some <em>te@t</em> here <a href='/x.txt' title='tt'>a link of words</a></p><ol><li>one</li><li>two</li></ol>"
       "<ul><li>three<p>four</p></li></ul><blockquote><p>q <b>r</b></p></blockquote><pre>pre\n  text</pre><dl><dt>t</dt><dd>d</dd></dl><img src='i.gif' alt='pic'>")
RULES = {
    "none": {},
    "em": {"em": (EmRenderer, dict(template="<{}>", capitalized=True))},
    "p": {"p": (ParagraphRenderer, dict(margin=[2, 1, 2, 3], justification="right", initial_indent=2)), "p:first-child": (None, dict(margin=[0, 0, 0, 1]))},
    "ol": {"ol > li": (OrderedListItemRenderer, dict(start_index=7, step=3, line_template="({0}) {1}"))},
    "li": {"li": (ListItemRenderer, dict(line_template="- {}", margin=[2, 0, 0, 0])), "li:first-child": (None, dict(margin=[1, 0, 0, 2]))},
    "quote": {"blockquote": (BlockQuoteRenderer, dict(line_template="| {}", border=["=", "", "=", ""], padding=[0, 1, 0, 1]))},
    "h1": {"h1": (HeaderRenderer, dict(spread=1, underlined=True, centered=True, template="<{}>"))},
    "markdown": {"h1": (MarkdownHeaderRenderer, dict(capitalized=True))},
    "links": {"a": (LinkRenderer, dict(templates={"reference": "<{content}>{link_reference}", "inline": ["{content}", "{content}"]}))},
    "pre": {"pre": (PreRenderer, dict(indent=1, line_template="|{}")), "dd": (DefinitionListItemRenderer, dict(line_template="= {}"))},
    "default": {"": (InlineRenderer, dict(template="[{}]")), "b": (AnsiEscapeCodeRenderer, dict(bold=True, foreground_colour="red"))},
    "*": {"*": (None, dict(margin=[0, 0, 0, 0], capitalized=True, line_template="# {}", template="!{}"))},
}
EXTRACTED = {"a": (ExtractedLinkRenderer, dict(max_link_description=3, templates=["\n{link_reference} {description}", "\n{link_reference} {description} {title}"]))}
PLAIN = """
# head line #

some _te@t_ here [a link of words][1]

1. one
2. two

* three
  four

> q **r**

    pre
      text

t
: d
![pic](i.gif)

[1] a link of ...: /x.txt "tt\""""
PLAIN = PLAIN[:-1] + '"'


def histories(h, n):
    """Conversions with other rules never show in a later or repeated conversion."""
    c = h.char("c", ["a-z"])
    src = DOC.replace("@", c)
    for i in range(n):
        name = h.pick("rules %d" % i, list(RULES))
        extracted = EXTRACTED if h.bool("extracted %d" % i) else {}
        ren = RULES[name]
        before = repr((ren, extracted))
        one = convert(src, renderers=ren, extracted_link_renderers=extracted, width=30)
        h.equal(repr((ren, extracted)), before, "the caller's rules")
        two = convert(src, renderers=ren, extracted_link_renderers=extracted, width=30)
        h.equal(one, two, "the same conversion again")
    out = convert(src)
    h.observe("out", out)
    h.reach("converted")
    h.equal(strip(out), PLAIN.replace("@", c), "default conversion afterwards")


def strip(s):
    return "\n".join([l.rstrip() for l in s.split("\n")]).rstrip("\n")


CASES = {
    "em": ("em", EmRenderer, "template", ["_{}_", "a{}", "{}b"], lambda t, v: v.replace("{}", t)),
    "li": ("li", ListItemRenderer, "line_template", ["* {}", "- {}", "+ {}"], lambda t, v: v.replace("{}", t) + "\n"),
    "ol": ("ol > li", OrderedListItemRenderer, "start_index", [1, 5, 9], lambda t, v: str(v) + ". " + t + "\n"),
    "quote": ("blockquote", BlockQuoteRenderer, "line_template", ["> {}", "| {}", "] {}"], lambda t, v: v.replace("{}", t) + "\n"),
    "h2": ("h2", HeaderRenderer, "template", ["{}", "~{}", "{}~"], lambda t, v: v.replace("{}", t) + "\n"),
    "p": ("p", ParagraphRenderer, "line_template", ["{}", "; {}", "{};"], lambda t, v: v.replace("{}", t) + "\n"),
}


def neighbours(h, kind):
    """Elements of one class with different rules: each has its own settings, in any order."""
    sel, cls, key, values, want = CASES[kind]
    tag = sel.split()[-1]
    ren = {sel: (cls, {})}
    src, exp = "", ""
    for i in range(3):
        v = h.pick("value %d" % i, [None] + values)
        attr = ""
        if v is not None:
            ren[sel + ".k%d" % i] = (None, {key: v})
            attr = " class='k%d'" % i
        t = h.text("t%d" % i, 1, ["a-z"])
        item = "<%s" % tag + attr + ">" + t + "</%s>" % tag
        if kind in ("li", "ol"):
            item = ("<ul>@</ul>" if kind == "li" else "<ol>@</ol>").replace("@", item)
        src += item
        exp += ("\n" if kind != "em" else "") + want(t, values[0] if v is None else v)
    out = convert(src, renderers=ren)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, exp, "settings of each element")


def instances(h):
    """A renderer instance's changed settings are its own."""
    k, v, w = h.pick("key", ["template", "capitalized", "new"]), h.char("v", ["a-z"]), h.char("w", ["a-z"])
    cls = h.pick("class", [InlineRenderer, EmRenderer, LinkRenderer, AnsiEscapeCodeRenderer])
    before = [dict(c.__dict__["settings"]) for c in cls.__mro__ if "settings" in c.__dict__]
    a, b = cls(None), cls(None, settings={k: w})
    was = dict(a.settings)
    how = h.choose("how", 3)
    if how == 0:
        a.settings[k] = v
    elif how == 1:
        setattr(a.settings, k, v)
    else:
        a.settings = {k: v}
    c = cls(None)
    h.reach("converted")
    h.equal(a.settings[k], v, "own setting")
    h.equal(b.settings[k], w, "setting of another instance")
    h.equal(dict(c.settings), was, "settings of a later instance")
    h.equal([dict(x.__dict__["settings"]) for x in cls.__mro__ if "settings" in x.__dict__], before, "settings of the classes")

DEEP = (Renderer, InlineRenderer, ParagraphRenderer, AnsiEscapeCodeRenderer)


def deep(h, n, base):
    """A long chain of classes; what the settings are, and by which of them they are given."""
    base = {b.__name__: b for b in DEEP}[base]
    i, j = h.choose("first", n), h.choose("second", n)
    settings = [None] * n
    settings[i] = {"p": h.char("p", ["a-z"])}
    settings[j] = dict(settings[j] or {}, q=h.char("q", ["a-z"]))
    if h.bool("again"):
        settings[n - 1] = dict(settings[n - 1] or {}, p=h.char("p2", ["a-z"]))
    rule = {"r": h.char("r", ["a-z"])} if h.bool("rule") else {}
    cls, classes = base, []
    for k in range(n):
        ns = {} if k else {"render": lambda self, content: "".join([k + str(self.settings.get(k, "-")) for k in "pqr"]) + "(" + base.render(self, content) + ")"}
        if settings[k] is not None:
            ns["settings"] = dict(settings[k])
        cls = type(Renderer)("K%d" % k, (cls,), ns)
        classes.append(cls)
    out = convert("<x>t</x>", renderers={"x": (cls, rule)})
    plain = convert("<x>t</x>", renderers={"x": (base, {})})
    h.observe("out", out)
    h.reach("converted")
    h.check(shown(resolved(cls, classes, settings, rule)) in out, "settings of the chain")
    h.equal(out.replace(shown(resolved(cls, classes, settings, rule)), "").replace("(", "").replace(")", "").strip(), plain.strip(), "settings of the base class")

def forms(h, what):
    """The settings of a link in the text and of its entry in the list are those of their own rules, wherever it is placed."""
    own, entry = ({"p": h.char("own p", ["a-z"])} if h.bool("own has p") else {}), ({"p": h.char("entry p", ["a-z"])} if h.bool("entry has p") else {})
    if h.bool("q"):
        own["q"] = h.char("own q", ["a-z"])
    placement = h.pick("placement", ["inline", "footer", "after_block"])
    base = LinkRenderer if what == "a" else ImageRenderer
    ebase = ExtractedLinkRenderer if what == "a" else ExtractedImageLinkRenderer
    show = lambda tag: lambda self, content: tag + "".join([k + str(self.settings.get(k, "-")) for k in "pq"]) + tag
    text, item = type(Renderer)("K", (base,), {"render": show("!")}), type(Renderer)("E", (ebase,), {"render": show("?")})
    src = {"a": "<p>x <a href='u'>t</a></p>", "img": "<p>x <img src='u' alt='t'></p>"}[what]
    out = convert(src, link_placement=placement, image_placement=placement, renderers={what: (text, own)}, extracted_link_renderers={what: (item, entry)})
    h.observe("out", out)
    h.reach("converted")
    want = "!p" + own.get("p", "-") + "q" + own.get("q", "-") + "!"
    if placement != "inline":
        want += "?p" + entry.get("p", "-") + "q-?"
    h.equal("".join([c for c in out if c not in " \n"]), "x" + want, "settings of the two forms")


WITNESS = {f: ["converted"] for f in ("forms", "deep", "hierarchy", "histories", "neighbours", "instances")}


def tasks(tier):
    q = tier == "quick"
    out = []
    for shape, n in (("one", 1), ("chain", 3), ("mixin", 3), ("inline", 3), ("chain4", 4), ("diamond", 4), ("mixin-last", 4)):
        out.append(("class-" + shape, "hierarchy", dict(shape=shape, n=n, keys="pq" if n < 4 else "p")))
        if not q:
            out.append(("class3-" + shape, "hierarchy", dict(shape=shape, n=n, keys="pqr" if n < 4 else "pq")))
    out.append(("histories", "histories", dict(n=2 if q else 3)))
    for k in CASES:
        out.append(("neighbours-" + k, "neighbours", dict(kind=k)))
    out.append(("instances", "instances", {}))
    for b in DEEP:
        out.append(("deep-" + b.__name__, "deep", dict(n=9 if q else 14, base=b.__name__)))
    for w in ("a", "img"):
        out.append(("forms-" + w, "forms", dict(what=w)))
    return out
