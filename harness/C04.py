"""C04: justification pads every line to the exact width and keeps the words."""
from gopher_render import rendering
from gopher_render.rendering import ParagraphRenderer, ListItemRenderer, DefinitionListItemRenderer
from harness.lib import convert, ANY, WORDY_MINUS, sized, greedy, ODD_SPACE, justified, even, words_of

ASSUMPTIONS = [
    "single spaces between the words (paragraphs collapse white space first); no '-', '.', '!' or '?', which add breaks and sentence spacing",
    "no control characters; white space beyond ASCII (no-break, em space) stands between visible characters only",
]
BOUNDS = {
    "quick": "up to 5 words of 1 to 4 letters at widths 4 to 8, indents up to 2, texts of 9 letters and spaces and of 4 arbitrary code points; directly and as paragraph, item and definition settings; lines of 2 to 24 words with up to 47 spaces to spread",
    "thorough": "up to 5 words of 1 to 5 letters at widths 3 to 10; texts of 12 letters and spaces and of 5 arbitrary code points",
}

# white space of other kinds, but for what textwrap takes for a space and what ends a line
SPACES = "".join([c for c in ODD_SPACE if c > "\x85" and c not in "\u2028\u2029"])
FUNCS = {"full": rendering.full_justify, "left": rendering.left_justify, "right": rendering.right_justify,
         "center": rendering.center_justify}


def judge(h, got, lines, width, how):
    """got (a list of lines) is the justification of the given wrapped lines."""
    h.equal(len(got), len(lines), "number of lines")
    if how == "center":
        for g, l in zip(got, lines):
            h.check(even(g, l, width), "centred line")
    else:
        h.equal(got, justified(lines, width, how), "justified lines")
    if how == "full" and len(lines) > 1 and got[0] != lines[0]:
        h.reach("gaps widened")


def direct(h, how, counts, widths, indents, dom):
    ws = sized(h, "w", counts, dom, WORDY_MINUS + "<& ")
    width = h.pick("width", widths)
    kw = {}
    first = rest = 0
    if indents:
        first, rest = h.pick("first indent", [0, 1, 2]), h.pick("other indent", [0, 1])
        kw = dict(initial_indent=" " * first, subsequent_indent=" " * rest)
    got = rendering.justifications[how](" ".join(ws), width, **kw)
    h.observe("text", got)
    h.reach("justified")
    h.equal(FUNCS[how](" ".join(ws), width, **kw), got, "function and setting")
    judge(h, got.split("\n"), greedy(ws, width, first, rest), width, how)


def raw(h, how, n, dom, width):
    t = h.text("t", n, dom, "" if isinstance(dom, str) else WORDY_MINUS + "<&")
    ws = words_of(t)
    got = rendering.justifications[how](" ".join(ws), width)
    h.observe("text", got)
    h.reach("justified")
    judge(h, got.split("\n") if ws else [], greedy(ws, width), width, how)


def odd(h, how, width):
    """No-break and other spaces inside of words belong to the words."""
    ws = [h.text("a", 1 + h.choose("a length", 2), ["a-z"]),
          h.char("b", ["a-z"]) + h.char("space", SPACES) + h.char("c", ["a-z"]),
          h.text("d", 1 + h.choose("d length", 3), ["a-z"]),
          h.text("e", 1 + h.choose("e length", 3), ["a-z"])]
    at = h.choose("place", 3)
    ws[0], ws[at + 1] = ws[at + 1], ws[0]
    got = rendering.justifications[how](" ".join(ws), width)
    h.observe("text", got)
    h.reach("justified")
    judge(h, got.split("\n"), greedy(ws, width), width, how)


def setting(h, how, element, counts, content):
    """The same as a renderer setting: each line stands behind its marker, padded to the width."""
    used = dict(p=0, li=2, dd=2)[element]
    ws = sized(h, "w", counts, ["a-z"])
    indent = h.pick("first indent", [0, 1])
    cls = dict(p=ParagraphRenderer, li=ListItemRenderer, dd=DefinitionListItemRenderer)[element]
    src = dict(p="<p>@</p>", li="<ul><li>@</li></ul>", dd="<dl><dd>@</dd></dl>")[element]
    out = convert(src.replace("@", " \n ".join(ws)), width=content + used, optimise=False,
                  renderers={element: (cls, dict(justification=how, margin=[0, 0, 0, 0], initial_indent=indent))})
    h.observe("out", out)
    h.reach("converted")
    lines = greedy(ws, content, indent, 0)
    got = []
    for i, l in enumerate(out.strip("\n").split("\n")):
        mark = "" if element == "p" else (dict(li="* ", dd=": ")[element] if i == 0 else "  ")
        h.check(l.startswith(mark), "marker")
        h.equal(len(l), content + used, "padded width")
        got.append(l[len(mark):])
    want = [l + " " * (content - len(l)) for l in justified(lines, content, how)]
    if how == "center":
        for g, l in zip(got, lines):
            h.check(even(g, l, content), "centred line")
    else:
        h.equal(got, want, "lines")


def large(h, how, n):
    """Long texts at usual widths."""
    width = h.pick("width", [13, 20, 40, 60, 67, 80, 81, 100, 132, 200])
    ws = [("abcdefghijklmnopq" * 2)[:i * 7 % 13 + 1] for i in range(n)]
    at = h.choose("place", n)
    ws[at] = h.text("w", 2, ["a-z"])
    ws[n // 3] = "x" * (width - 1)
    lines = greedy(ws, width)
    got = rendering.justifications[how](" ".join(ws), width)
    h.observe("text", got)
    h.reach("justified")
    judge(h, got.split("\n"), lines, width, how)
    out = convert("<p>" + " ".join(ws) + "</p>", width=width, optimise=False,
                  renderers={"p": (ParagraphRenderer, dict(justification=how, margin=[0, 0, 0, 0]))})
    judge(h, [l.rstrip(" ") if how != "center" else l for l in out.split("\n")] if how != "right" else out.split("\n"), lines, width, how)


def gaps(h, how, n):
    """Lines of many words and any number of spaces to spread over them."""
    a, b = h.text("a", 1, ["a-z"]), h.text("b", 1, ["a-z"])
    k = 2 + h.choose("words", n - 1)
    spare = h.choose("spare", 2 * n)
    size = h.pick("size", [1, 3])
    line = [(a if i % 5 == 0 else "k") * size for i in range(k)]
    width = k * size + k - 1 + spare
    ws = line + [b * (width - 1), "z"]
    lines = greedy(ws, width, break_long=False)
    # words longer than what is left of a line, but not than a line, go to the next
    got = FUNCS[how](" ".join(ws), width)
    h.observe("text", got)
    h.reach("justified")
    judge(h, got.split("\n"), lines, width, how)


WITNESS = {"gaps": ["justified"], "odd": ["justified"], "direct": ["justified"], "raw": ["justified"], "setting": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    for how in FUNCS:
        top = 4 if q else 5
        for n in ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5)):
            out.append(("%s-%d" % (how, n), "direct", dict(how=how, counts=[(1, top)] * n, widths=[4, 5, 7, 8] if q else [3, 4, 5, 6, 7, 8, 9, 10], indents=False, dom=["a-z"])))
        out.append(("%s-indent" % how, "direct", dict(how=how, counts=[(1, top)] * 3, widths=[5, 7] if q else [4, 6, 7, 8, 9], indents=True, dom=["a-z"])))
        if how == "full":
            out.append(("full-many", "direct", dict(how=how, counts=[(1, 2)] * (7 if q else 10), widths=[9, 10, 11], indents=False, dom=["a-z"], _witness=["justified", "gaps widened"])))
        out.append(("%s-long" % how, "direct", dict(how=how, counts=[(1, 3), (5, 8), (1, 3)], widths=[5], indents=False, dom=["a-z"])))
        out.append(("%s-any" % how, "direct", dict(how=how, counts=[(1, 2)] * 2 + [(1, 1)], widths=[4], indents=False, dom=ANY)))
        out.append(("%s-raw" % how, "raw", dict(how=how, n=9 if q else 12, dom="a ", width=4 if q else 5)))
        if not q:
            out.append(("%s-raw-any" % how, "raw", dict(how=how, n=5, dom=ANY, width=3)))
        out.append(("%s-odd" % how, "odd", dict(how=how, width=8)))
        for e in ("p", "li", "dd"):
            out.append(("setting-%s-%s" % (how, e), "setting", dict(how=how, element=e, counts=[(1, 4)] * (4 if q else 5), content=6)))
    for how in FUNCS:
        out.append(("large-%s" % how, "large", dict(how=how, n=24 if q else 60)))
    for how in FUNCS:
        out.append(("gaps-%s" % how, "gaps", dict(how=how, n=(24 if how == "full" else 9) if q else 48)))
    return out
