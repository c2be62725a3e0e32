"""C35: settings have the same effect however they are given."""
from gopher_render import rendering as R
from gopher_render.rendering import Box
from harness.lib import convert

ASSUMPTIONS = [
    "rules match by one class; where several rules match, their specificity or order tells which is stronger",
]
BOUNDS = {
    "quick": "38 settings of all renderers, each given in a subclass, in a subclass of a subclass, in the farthest of nine, in the rule, in a second rule that names no renderer, in parts by two rules, by a rule with several selectors, by assignment to the settings of a class, as a dict, a namedict and for the default renderer where there is one; texts of 2 symbolic letters, widths 16 and 40",
    "thorough": "texts of 4 letters",
}
LONG = "@ bbb. ccc ddd-ddd eee fff ggg"
# renderer, settings, document (the element has class s), how links are placed
CASES = [
    ("ParagraphRenderer", dict(initial_indent=3), "<p class='s'>" + LONG + "</p>"),
    ("ParagraphRenderer", dict(subsequent_indent=2), "<p class='s'>" + LONG + "</p>"),
    ("ParagraphRenderer", dict(justification="full"), "<p class='s'>" + LONG + "</p>"),
    ("ParagraphRenderer", dict(justification="right", margin=[2, 1, 1, 2]), "<p class='s'>" + LONG + "</p>"),
    ("ParagraphRenderer", dict(capitalized=True), "<p class='s'>" + LONG + "</p>"),
    ("ParagraphRenderer", dict(fix_sentence_endings=False), "<p class='s'>" + LONG + "</p>"),
    ("ParagraphRenderer", dict(break_long_words=False), "<p class='s'>@" + "x" * 50 + " b</p>"),
    ("ParagraphRenderer", dict(skip_for_code_or_pre=False), "<p class='s'><code>" + LONG + "</code></p>"),
    ("ParagraphRenderer", dict(line_template="|{}|", padding=[1, 1, 1, 1]), "<p class='s'>" + LONG + "</p>"),
    ("ParagraphRenderer", dict(border=["-", "|", "=", "|"], padding=[0, 1, 0, 1]), "<p class='s'>" + LONG + "</p>"),
    ("BlockRenderer", dict(border=["-", "", "-", "> "], margin=[1, 0, 1, 0]), "<x class='s'>@<p>b</p></x>"),
    ("HeaderRenderer", dict(spread=1, spread_char="."), "<h1 class='s'>@</h1>"),
    ("HeaderRenderer", dict(centered=True, capitalized=True), "<h1 class='s'>@</h1>"),
    ("HeaderRenderer", dict(underlined=True, underline_char="~"), "<h1 class='s'>@ b</h1>"),
    ("HeaderRenderer", dict(underlined=True, underline_full=True), "<h1 class='s'>@</h1>"),
    ("HeaderRenderer", dict(template="<{}>", margin=[0, 0, 2, 0]), "<h1 class='s'>@</h1>"),
    ("MarkdownHeaderRenderer", dict(margin=[2, 0, 0, 3], capitalized=True), "<h3 class='s'>@</h3>"),
    ("InlineRenderer", dict(template="({})", capitalized=True), "<p>a <x class='s'>@</x></p>"),
    ("EmRenderer", dict(template="/{}/"), "<p>a <em class='s'>@</em></p>"),
    ("CodeRenderer", dict(inline_template="<{}>"), "<p>a <code class='s'>@</code></p>"),
    ("CodeRenderer", dict(block_template="<\n{}\n>"), "<x><code class='s'>@\n\n<br>b</code></x>"),
    ("PreRenderer", dict(indent=2, line_template=">{}"), "<pre class='s'>@\n b</pre>"),
    ("BlockQuoteRenderer", dict(line_template=": {}"), "<blockquote class='s'><p>" + LONG + "</p></blockquote>"),
    ("ListItemRenderer", dict(line_template="-- {}"), "<ul><li class='s'>" + LONG + "</li></ul>"),
    ("ListItemRenderer", dict(initial_indent=2, subsequent_indent=1, padding=[0, 0, 0, 2]), "<ul><li class='s'>" + LONG + "</li></ul>"),
    ("OrderedListItemRenderer", dict(start_index=9, step=3), "<ol><li class='s'>@</li><li class='s'>b</li></ol>"),
    ("OrderedListItemRenderer", dict(line_template="({0}) {1}"), "<ol><li class='s'>@</li><li class='s'>" + LONG + "</li></ol>"),
    ("DefinitionListItemRenderer", dict(line_template="= {}", justification="center"), "<dl><dt>a</dt><dd class='s'>" + LONG + "</dd></dl>"),
    ("DefinitionListTermHeaderRenderer", dict(underlined=True, template="{}:"), "<dl><dt class='s'>@</dt><dd>b</dd></dl>"),
    ("LinkRenderer", dict(templates={"reference": "<{content}|{link_reference}>", "inline": ["{content}: {href}", "{title}"]}), "<p>k <a class='s' href='/u'>@</a></p>"),
    ("LinkRenderer", dict(templates={"reference": "<{content}>", "inline": ["{content}: {href}", "{title}"]}, capitalized=True), "<p>k <a class='s' href='/u' title='q'>@</a></p>", dict(link_placement="inline")),
    ("ImageRenderer", dict(templates={"reference": "<{title}|{link_reference}>", "inline": "({title})"}), "<p>k <img class='s' src='/u' alt='@'></p>"),
    ("ExtractedLinkRenderer", dict(max_link_description=1), "<p>k <a class='s' href='/u'>@</a></p>"),
    ("ExtractedLinkRenderer", dict(templates=["\n{link_reference}={href}", "{title}"], margin=[1, 0, 0, 2]), "<p>k <a class='s' href='/u'>@</a></p>"),
    ("ExtractedLinkRenderer", dict(gophermap_template="{type}{description}\t{selector}\t{host}\t{port}\n"), "<p>k <a class='s' href='/u'>@</a></p>", dict(output_format="gophermap", gopher_host="h")),
    ("ExtractedImageLinkRenderer", dict(max_link_description=1), "<p>k <img class='s' src='/u' alt='@'></p>", dict(image_placement="footer")),
    ("AnsiEscapeCodeRenderer", dict(bold=True, foreground="red"), "<p>k <b class='s'>@</b></p>"),
    ("AnsiEscapeCodeRenderer", dict(background=(1, 2, 3), underline=True), "<p>k <x class='s'>@</x> l</p>"),
]
WAYS = ["subclass", "twice", "second", "first", "parts", "selectors", "order", "kinds", "mixed", "assigned", "attributes", "deep", "default"]


def given(h, at, n, width):
    """All ways have the effect that settings in the rule have."""
    case = CASES[at]
    name, settings, doc = case[:3]
    kw = dict(case[3]) if len(case) > 3 else {}
    base = getattr(R, name)
    doc = doc.replace("@", h.text("t", n, ["a-z"]))
    way = h.pick("way", WAYS)
    keys = sorted(settings)

    def render(rules):
        if name.startswith("Extracted"):
            return convert(doc, width=width, extracted_link_renderers=rules, **kw)
        return convert(doc, width=width, renderers=rules, **kw)
    want = render({".s": (base, dict(settings))})
    if way == "subclass":
        class Mine(base):
            pass
        Mine.settings = dict(settings)
        rules = {".s": Mine}
    elif way == "twice":
        class Far(base):
            settings = {}
        class Near(Far):
            settings = {}
        Far.settings = R.namedict(settings)
        rules = {".s": (Near, {})}
    elif way == "second":
        rules = {".s": base, "*.s": (None, dict(settings))}
    elif way == "first":
        rules = {".s.s.s": (None, dict(settings)), ".s.s": base}
    elif way == "parts":
        rules = {".s": (base, {keys[0]: settings[keys[0]]}), "*.s": (None, {k: settings[k] for k in keys[1:]})}
    elif way == "selectors":
        rules = {".other, .s, nothing": (base, dict(settings))}
    elif way == "order":
        rules = {".s": (base, {k: settings[k] for k in keys[::-1]})}
    elif way == "kinds":
        rules = {".s": [base, R.namedict(settings)]}
    elif way == "mixed":
        # a weaker rule's are overridden
        class Other(base):
            pass
        Other.settings = {k: settings[k] for k in keys[:1]}
        rules = {".s": (Other, {k: settings[k] for k in keys[1:]})}
    elif way in ("assigned", "attributes"):
        before = render({".s": base})
        class Set(base):
            pass
        class Late(Set):
            settings = dict()
        for k in keys:
            if way == "assigned":
                Late.settings[k] = settings[k]
            else:
                setattr(Set.settings, k, settings[k])
        rules = {".s": Late}
        h.equal(render({".s": base}), before, "the base class")
    elif way == "deep":
        class Deep(base):
            pass
        Deep.settings = dict(settings)
        for k in range(9):
            class Deep(Deep):
                settings = dict(unknown=k)
        rules = {".s": Deep}
    else:
        # elements without a rule of their own
        h.assume("<x class" in doc and not name.startswith("Extracted"))
        doc = doc.replace(" class='s'", "")
        rules = {"": (base, dict(settings))}
    out = render(rules)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want, "as with settings in the rule")


def matters(h, at, n, width):
    """They do have an effect."""
    case = CASES[at]
    name, settings, doc = case[:3]
    kw = dict(case[3]) if len(case) > 3 else {}
    base = getattr(R, name)
    doc = doc.replace("@", h.text("t", n, ["a-z"]))
    which = "extracted_link_renderers" if name.startswith("Extracted") else "renderers"
    out = convert(doc, width=width, **{which: {".s": (base, dict(settings))}}, **kw)
    h.observe("out", out)
    h.reach("converted")
    h.check(out != convert(doc, width=width, **{which: {".s": base}}, **kw), "no effect")


WITNESS = {f: ["converted"] for f in ("given", "matters")}


def tasks(tier):
    n = 2 if tier == "quick" else 4
    out = []
    for i in range(len(CASES)):
        for w in (16, 40):
            out.append(("given-%d-%d" % (i, w), "given", dict(at=i, n=n, width=w)))
        out.append(("matters-%d" % i, "matters", dict(at=i, n=n, width=16)))
    return out
