"""C05: ANSI styling is invisible to layout and never damaged."""
from gopher_render import rendering
from gopher_render.rendering import (Box, BlockRenderer, HeaderRenderer, ParagraphRenderer, ListItemRenderer,
                                     AnsiEscapeCodeRenderer, InlineRenderer, EmRenderer)
from harness.lib import convert, sized, greedy, justified, even, tokens, unstyled, wrap, ESC

ASSUMPTIONS = [
    "an escape sequence is ESC [ followed by any digits and semicolons and m",
    "exact layout is compared for sequences next to a visible character (sequences alone between spaces are checked for width and damage only)",
    "text of lower-case letters and spaces (other characters are the matter of C01, C03 and C04)",
]
BOUNDS = {
    "quick": "2 words of 1 to 4 letters with 2 or 3 escape sequences of up to 2 symbolic parameter characters at every position, widths 3 and 5; every sequence of 6 of {letter, space, escape, escape}; 19 document shapes with text of 3 words, two of them styled, compared with the unstyled conversion; texts of 30 words with a sequence at every 7th character, widths 10 to 67; sequences of up to 61 parameter characters; 7 renderers whose line templates have 2 sequences at any places",
    "thorough": "3 escape sequences, words of up to 8 letters, sequences of 7; 3 styled words",
}

HOWS = ["full", "left", "right", "center"]


def insert(h, text, k, params):
    """k escape sequences at any positions of the text."""
    at = []
    prev = 0
    for i in range(k):
        prev = prev + h.choose("position %d" % i, len(text) + 1 - prev)
        at.append(prev)
    out = ""
    last = 0
    for i, p in enumerate(at):
        out += text[last:p] + ESC + "[" + h.text("params %d" % i, params[i % len(params)], "0123456789;") + "m"
        last = p
    return out + text[last:]


def wrapping(h, how, counts, k, params, width):
    ws = sized(h, "w", counts, ["a-z"])
    text = insert(h, " ".join(ws), k, params)
    want = greedy(ws, width)
    if how == "wrap":
        got = wrap(text, width)
    else:
        got = rendering.justifications[how](text, width).split("\n")
    h.observe("lines", got)
    h.reach("wrapped")
    h.equal(tokens("\n".join(got)), tokens(text), "escape sequences and characters")
    seen = [unstyled(l) for l in got]
    h.equal(len(seen), len(want), "number of lines")
    if how == "center":
        for g, l in zip(seen, want):
            h.check(even(g, l, width), "centred line")
    else:
        h.equal(seen, justified(want, width, how), "visible lines")
    if len(want) > 1:
        h.reach("several lines")


def mixture(h, n, width, how):
    """Any sequence of letters, spaces and escape sequences: nothing damaged, nothing too wide."""
    pieces = {"a": "a", " ": " ", "b": ESC + "[1m", "c": ESC + "[38;5;0m"}
    text = ""
    for i in range(n):
        text += pieces[h.pick("p%d" % i, ["a", " ", "b", "c"])]
    if how == "wrap":
        got = wrap(text, width)
    else:
        got = rendering.justifications[how](text, width).split("\n")
    h.observe("lines", got)
    h.reach("wrapped")
    h.equal(tokens("\n".join(got)), tokens(text), "escape sequences and characters")
    for l in got:
        h.check(len(unstyled(l)) <= width, "visible width")
        if l and (how == "right" or how == "center"):
            h.equal(len(unstyled(l)), width, "padded width")


BORDER = dict(border=["-", "|", "=", "!"], padding=[0, 1, 0, 2], margin=[0, 0, 0, 0])
SHAPES = {
    "p": ("<p>@</p>", {}),
    "p-full": ("<p>@</p>", {"p": (ParagraphRenderer, dict(justification="full"))}),
    "p-right": ("<p>@</p>", {"p": (ParagraphRenderer, dict(justification="right"))}),
    "p-center": ("<p>@</p>", {"p": (ParagraphRenderer, dict(justification="center"))}),
    "p-capital": ("<p>@</p>", {"p": (ParagraphRenderer, dict(capitalized=True))}),
    "p-border": ("<p>@</p>", {"p": (ParagraphRenderer, BORDER)}),
    "div-border": ("<div>@</div>", {"div": (BlockRenderer, BORDER)}),
    "ul": ("<ul><li>@</li></ul>", {}),
    "ol-capital": ("<ol><li>@</li></ol>", {"ol > li": (rendering.OrderedListItemRenderer, dict(capitalized=True))}),
    "dt": ("<dl><dt>@</dt><dd>x</dd></dl>", {}),
    "dd": ("<dl><dd>@</dd></dl>", {}),
    "quote": ("<blockquote><p>@</p></blockquote>", {}),
    "pre": ("<pre>@</pre>", {}),
    "em": ("<p><em>@</em></p>", {"em": (EmRenderer, dict(capitalized=True))}),
    "h1": ("<h1>@</h1>", {}),
    "h1-spread": ("<h1>@</h1>", {"h1": (HeaderRenderer, dict(spread=2, spread_char="."))}),
    "h1-under": ("<h1>@</h1>", {"h1": (HeaderRenderer, dict(underlined=True, capitalized=True))}),
    "h1-center": ("<h1>@</h1>", {"h1": (HeaderRenderer, dict(underlined=True, centered=True, spread=1))}),
    "h1-border": ("<h1>@</h1>", {"h1": (HeaderRenderer, dict(BORDER, centered=True))}),
    "link": ("<p><a href='u'>@</a></p>", {}),
}


def metamorphic(h, shape, counts, width):
    """A conversion with styled spans is the conversion without the styles, plus the sequences."""
    src, ren = SHAPES[shape]
    ws = sized(h, "w", counts, ["a-z"])
    text = ws[0]
    style = dict(foreground_colour=h.pick("colour", ["red", 200, (1, 20, 0)]), bold=True)
    for i, w in enumerate(ws[1:]):
        text += " <span>" + w + "</span>" if i % 2 == 0 else "<span>" + w + "</span>" + " c"
    doc = src.replace("@", text)
    plain = convert(doc, width=width, optimise=False, renderers=dict(ren, span=InlineRenderer))
    styled = convert(doc, width=width, optimise=False, renderers=dict(ren, span=(AnsiEscapeCodeRenderer, style)))
    h.observe("styled", styled)
    h.reach("converted")
    h.equal(unstyled(styled), plain, "visible output")
    on = [t for t in tokens(styled) if len(t) > 1]
    spans = len(ws) - 1
    if shape == "link":
        spans = 2 * spans         # in the text and in the list
    colour = {"red": "31", 200: "38;5;200"}.get(style["foreground_colour"], "38;2;1;20;0")
    h.equal(on, [ESC + "[1m", ESC + "[" + colour + "m", ESC + "[22m", ESC + "[39m"] * spans, "sequences")


def large(h, n):
    """Long texts at usual widths with many sequences in and between their words."""
    how = h.pick("how", ["wrap"] + HOWS)
    width = h.pick("width", [10, 40, 67])
    at = h.choose("start", 7)
    c, p = h.text("c", 1, ["a-z"]), h.text("p", 2, "0123456789;")
    ws = [("abcdefghijklmnopqrstuvw"[i % 5:])[:i * 5 % 9 + 1 + (11 if i % 9 == 8 else 0)] + (c if i % 4 == 0 else "") for i in range(n)]
    text, k = "", 0
    for i, ch in enumerate(" ".join(ws)):
        if (i + at) % 7 == 0:
            text += ESC + "[" + ["1", "38;5;200", p, "", "0;31"][k % 5] + "m" + (ESC + "[4m") * (k % 3 == 1)
            k += 1
        text += ch
    got = wrap(text, width) if how == "wrap" else rendering.justifications[how](text, width).split("\n")
    h.observe("lines", got)
    h.reach("wrapped")
    want = greedy(ws, width)
    h.equal(tokens("\n".join(got)), tokens(text), "escape sequences and characters")
    seen = [unstyled(l) for l in got]
    h.equal(len(seen), len(want), "number of lines")
    if how == "center":
        for g, l in zip(seen, want):
            h.check(even(g, l, width), "centred line")
    else:
        h.equal(seen, justified(want, width, how), "visible lines")


def long(h, how, n):
    """Sequences of many characters."""
    width = h.pick("width", [3, 9])
    params = h.pick("params", ["38;2;255;255;@;48;2;@;255;0", "@" * 4 + ";255" * 3 + ";@", "1;2;3;4;5;6;7;8;9;21;22;23;24;25;@", "0" * 60 + "@", "@;" * 3])
    for i in range(params.count("@")):
        params = params.replace("@", h.char("digit %d" % i, "0123456789;" if i % 2 else "0123456789"), 1)
    text = h.text("w", 4, ["a-z"]) + " " + h.text("v", n, ["a-z"])
    at = h.choose("position", len(text) + 1)
    marked = text[:at] + ESC + "[" + params + "m" + text[at:] + ESC + "[" + params[1:] + "m"
    want = greedy(text.split(" "), width)
    got = wrap(marked, width) if how == "wrap" else rendering.justifications[how](marked, width).split("\n")
    h.observe("lines", got)
    h.reach("wrapped")
    h.equal(tokens("\n".join(got)), tokens(marked), "escape sequences and characters")
    seen = [unstyled(l) for l in got]
    h.equal(len(seen), len(want), "number of lines")
    if how == "center":
        for g, l in zip(seen, want):
            h.check(even(g, l, width), "centred line")
    else:
        h.equal(seen, justified(want, width, how), "visible lines")

TEMPLATES = {"p": ("<p>@</p>", ParagraphRenderer, "{}"), "p-bar": ("<blockquote><p>@</p></blockquote>", ParagraphRenderer, "| {} |"), "blockquote": ("<blockquote><p>@</p></blockquote>", rendering.BlockQuoteRenderer, "> {}"),
             "li": ("<ul><li>@</li><li>k</li></ul>", ListItemRenderer, "* {}"), "li-nested": ("<ul><li>@<ul><li>k l</li></ul></li></ul>", ListItemRenderer, "* {}"),
             "dd": ("<dl><dd>@</dd></dl>", rendering.DefinitionListItemRenderer, ": {}"), "ol > li": ("<ol><li>@</li></ol>", rendering.OrderedListItemRenderer, "{}. {}")}


def templates(h, shape, counts, k, params):
    """Sequences in the templates of lines take no room."""
    src, renderer, plain = TEMPLATES[shape]
    at = sorted([h.choose("position %d" % i, len(plain) + 1) for i in range(k)])
    h.assume(not [p for p in at if plain[p - 1:p] == "{"])
    styled, last, seqs = "", 0, ""
    for i, p in enumerate(at):
        s = ESC + "[" + h.text("params %d" % i, params, "0123456789;") + "m"
        styled, last, seqs = styled + plain[last:p] + s, p, seqs + s
    styled += plain[last:]
    doc = src.replace("@", " ".join(sized(h, "w", counts, ["a-z"])))
    rule = shape.split("-")[0]
    width = h.pick("width", [7, 12])
    kw = dict(width=width, optimise=False)
    want = convert(doc, renderers={rule: (renderer, dict(line_template=plain))}, **kw)
    got = convert(doc, renderers={rule: (renderer, dict(line_template=styled))}, **kw)
    h.observe("out", got)
    h.reach("converted")
    h.equal(unstyled(got), want, "visible output")
    found = [t for t in tokens(got) if len(t) > 1]
    h.check(found != [] and len(found) % k == 0 and "".join(found) == seqs * (len(found) // k), "sequences")


WITNESS = {"templates": ["converted"], "long": ["wrapped"], "large": ["wrapped"], "wrapping": ["wrapped", "several lines"], "mixture": ["wrapped"], "metamorphic": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    for how in ["wrap"] + HOWS:
        out.append(("%s-2" % how, "wrapping", dict(how=how, counts=[(1, 4), (1, 4)], k=2 if q and how not in ("wrap", "full") else 3, params=[2, 0], width=5)))
        out.append(("%s-long" % how, "wrapping", dict(how=how, counts=[(4, 7)] if q else [(1, 2), (4, 8)], k=2, params=[1, 3], width=3)))
        if not q or how == "full":
            out.append(("%s-3" % how, "wrapping", dict(how=how, counts=[(1, 3)] * 3 if not q else [(1, 2)] * 4, k=1 if q else 2, params=[1], width=6)))
        out.append(("mixture-%s" % how, "mixture", dict(n=(6 if how == "wrap" else 5) if q else 7, width=2, how=how)))
    for s in SHAPES:
        out.append(("styled-%s" % s, "metamorphic", dict(shape=s, counts=[(1, 3), (1, 4), (1, 3)] if q else [(1, 3), (1, 4), (1, 5), (1, 4)], width=14 if "border" in s or "h1" in s else 8)))
    out.append(("large", "large", dict(n=30 if q else 120)))
    for how in ["wrap"] + HOWS:
        out.append(("longseq-%s" % how, "long", dict(how=how, n=4 if q else 9)))
    for s in TEMPLATES:
        out.append(("template-%s" % s, "templates", dict(shape=s, counts=[(1, 3), (2, 3), (1, 2)] if q else [(1, 4)] * 4, k=2, params=1)))
    return out
