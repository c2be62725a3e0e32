"""C29: the text settings of paragraphs, list items and definitions take effect."""
from gopher_render.rendering import ParagraphRenderer, ListItemRenderer, DefinitionListItemRenderer, OrderedListItemRenderer
from harness.lib import convert, sized, greedy, justified, even, ESC, unstyled

ASSUMPTIONS = [
    "text of lower-case letters, single spaces, line breaks (br), hyphens between parts of two letters or more and sentence ends (letter, mark, quote) before a space",
    "sentence spacing is not combined with full justification or capitals; the width is at least 3 columns more than the indents",
]
BOUNDS = {
    "quick": "paragraph, list item (of both lists) and definition; 3 words of 1 to 5 letters in 1 to 3 lines, indents 0 to 2, capitals, all justifications, breaking of long words and at hyphens, sentence spacing, line templates, each given or left to its default; a paragraph of code only, of any 6 letters and spaces; texts of 50 words at widths 20 to 67 with indents up to 10; paragraph templates with braces and escape sequences; indents of 0 to 3 inside 4 line templates",
    "thorough": "4 words, in up to 4 lines",
}
KINDS = {
    "p": ("<p>@</p>", "p", ParagraphRenderer, "", ""),
    "li": ("<ul><li>@</li></ul>", "li", ListItemRenderer, "* ", "  "),
    "ol": ("<ol><li>@</li></ol>", "ol > li", OrderedListItemRenderer, "1. ", "   "),
    "dd": ("<dl><dd>@</dd></dl>", "dd", DefinitionListItemRenderer, ": ", "  "),
}


def flow(pieces, width, first, rest, break_long):
    """Reference wrapping of pieces (gap before, text): greedy, with any gaps."""
    lines = []
    cur = ""

    def room():
        return width - (rest if lines else first)

    def end():
        lines.append(" " * (rest if lines else first) + cur)

    for gap, w in pieces:
        if not cur:
            gap = 0
        if len(cur) + gap + len(w) <= room():
            cur = cur + " " * gap + w
            continue
        if break_long and len(w) > room():
            left = room() - len(cur) - gap
            if left > 0:
                cur = cur + " " * gap + w[:left]
                w = w[left:]
        if cur:
            end()
            cur = ""
        while break_long and len(w) > room():
            cur = w[:room()]
            w = w[room():]
            end()
            cur = ""
        cur = w
    if cur:
        end()
    return lines


def block(h, kind, src, settings, rows, width, bare=False):
    """Convert a text in a block of the kind with the settings; rows are the wrapped lines expected,
    a list of lines for each line break, to be justified."""
    doc, sel, cls, mark, pad = KINDS[kind]
    how = settings.get("justification", "left")
    if bare:
        ren = {sel + ":nth-child(1)": (None, dict(settings, margin=[0, 0, 0, 0]))}
    else:
        ren = {sel: (cls, dict(settings, margin=[0, 0, 0, 0]))}
    out = convert(doc.replace("@", src), width=width + len(mark), renderers=ren, optimise=False)
    lines = [l[:len(l.rstrip(" "))] for l in out.strip("\n").split("\n")]
    h.observe("out", out)
    h.reach("converted")
    if len(lines) > len(rows):
        h.reach("wrapped")
    want = []
    for row in rows:
        if how == "center":
            want += [l for l in row]
        else:
            want += justified(row, width, how) if row else [""]
    h.equal(len(lines), len(want), "number of lines")
    at = 0
    for row in rows:
        for l in row if row else [""]:
            left = mark if at == 0 else pad
            if how == "center":
                # the reference is centred to either side
                a = (width - len(l)) // 2
                h.check(lines[at] == (left + " " * a + l).rstrip(" ") or lines[at] == (left + " " * (width - len(l) - a) + l).rstrip(" "), "centred line")
            else:
                h.equal(lines[at], (left + want[at]).rstrip(" "), "line")
            at += 1


def indents(h, kind, counts, width, how):
    """Both indents, for the text after every line break anew; and every justification."""
    settings = {}
    first = rest = 0
    if h.bool("first given"):
        first = settings["initial_indent"] = h.pick("first", [0, 1, 2])
    if h.bool("other given"):
        rest = settings["subsequent_indent"] = h.pick("other", [0, 1, 2])
    if how:
        settings["justification"] = how
    ws = sized(h, "w", counts, ["a-z"])
    rows = [[ws[0]]]
    for i, w in enumerate(ws[1:]):
        if h.bool("break %d" % i):
            rows.append([])
        rows[-1].append(w)
    src = h.pick("br", ["<br>", " <br/>\n"] if len(rows) > 1 else [""]).join([" ".join(r) for r in rows])
    block(h, kind, src, settings, [greedy(r, width, first, rest) for r in rows], width, h.bool("settings only"))


def unwrapped(h, kind, n, width):
    """Without justification the text stays as it is."""
    ws = sized(h, "w", [(1, 5)] * n, ["a-z"])
    at = h.choose("break", len(ws))
    rows = [ws] if at == 0 else [ws[:at], ws[at:]]
    src = "<br>".join([" ".join(r) for r in rows])
    block(h, kind, src, dict(justification="none", initial_indent=1), [[" ".join(r)] for r in rows], width)


def capitals(h, kind, counts, width):
    """Capitals for all of the text, markup included."""
    ws = sized(h, "w", counts, ["a-z"])
    up = h.bool("capitals")
    styled = h.choose("styled", len(ws) + 1)
    shown, src = [], []
    for i, w in enumerate(ws):
        s = w.upper() if up else w
        if i == styled:
            shown.append("_" + s + "_")
            src.append("<em>" + w + "</em>")
        else:
            shown.append(s)
            src.append(w)
    block(h, kind, " ".join(src), dict(capitalized=up), [greedy(shown, width)], width, h.bool("settings only"))


def long_words(h, kind, counts, width):
    """Words longer than the line are cut, or kept."""
    ws = sized(h, "w", counts, ["a-z"])
    how = h.pick("break_long_words", [None, True, False])
    settings = {} if how is None else dict(break_long_words=how)
    block(h, kind, " ".join(ws), settings, [greedy(ws, width, 0, 0, how is not False)], width)


def hyphens(h, kind, n, width):
    """Compounds are separated at their hyphens, or kept."""
    ws = sized(h, "w", [(2, 4)] * n, ["a-z"])
    how = h.pick("break_on_hyphens", [None, True, False])
    settings = {} if how is None else dict(break_on_hyphens=how)
    pieces = []
    src = ""
    joined = False
    for i, w in enumerate(ws):
        hyphen = i < n - 1 and h.bool("hyphen %d" % i)
        w = w + "-" if hyphen else w
        src += ("" if joined or not src else " ") + w
        if joined and how is False:
            pieces[-1] = (pieces[-1][0], pieces[-1][1] + w)
        else:
            pieces.append((0 if joined else 1, w))
        joined = hyphen
    block(h, kind, src, settings, [flow(pieces, width, 0, 0, True)], width)


def sentences(h, kind, n, width, most):
    """Two spaces follow the end of a sentence, or one."""
    ws = sized(h, "w", [(1, most)] * n, ["a-z"])
    how = h.pick("fix_sentence_endings", [None, True, False])
    settings = {} if how is None else dict(fix_sentence_endings=how)
    pieces = []
    gap = 1
    src = []
    for i, w in enumerate(ws):
        end = h.pick("end %d" % i, ["", ".", "!", "?\"", ".'", ",", "..", "1.", ".)"] if i == 0 else ["", ".", "?'"])
        src.append(w + end)
        pieces.append((gap, w + end))
        gap = 2 if how is not False and end in (".", "!", "?\"", "?'", ".'") else 1
    block(h, kind, " ".join(src), settings, [flow(pieces, width, 0, 0, True)], width)


TEMPLATES = [("{}", "", ""), ("| {}", "| ", ""), ("{} |", "", " |"), ("<{}>", "<", ">"), ("{{{}", "{", ""), ("{{0}} {}}}", "{0} ", "}"), (ESC + "[1m>" + ESC + "[0m {}" + ESC + "[4m", ESC + "[1m>" + ESC + "[0m ", ESC + "[4m")]


def templates(h, counts, width):
    """The line template of a paragraph is around each of its lines, and the text gets the rest of the width."""
    ws = sized(h, "w", counts, ["a-z"])
    t, left, right = h.pick("template", TEMPLATES)
    at = h.choose("break", len(ws))
    rows = [ws] if at == 0 else [ws[:at], ws[at:]]
    inner = width - len(unstyled(left + right))
    out = convert("<p>" + "<br>".join([" ".join(r) for r in rows]) + "</p>", width=width, renderers={"p": (ParagraphRenderer, dict(line_template=t))})
    h.observe("out", out)
    h.reach("converted")
    want = []
    for r in rows:
        want += [left + l + right for l in greedy(r, inner)]
    h.equal(out, "\n" + "\n".join(want) + "\n", "lines")


def code_only(h, n, width):
    """A paragraph of code only keeps its layout, unless it is told not to."""
    t = h.text("t", n, "ab ")
    how = h.pick("skip_for_code_or_pre", [None, True, False])
    h.assume(t.strip(" ") == t and "  " not in t)
    settings = {} if how is None else dict(skip_for_code_or_pre=how)
    tag = h.pick("tag", ["code", "pre"])
    more = h.pick("more", ["", "x", "<em>x</em>"])
    h.assume(tag == "code" or not more)
    src = "<p><" + tag + ">" + t + "</" + tag + ">" + more + "</p>"
    out = convert(src, width=width, renderers={"p:first-child": (None, settings)})
    h.observe("out", out)
    h.reach("converted")
    text = "`" + t + "`" + {"": "", "x": "x", "<em>x</em>": "_x_"}[more] if tag == "code" else t
    if how is False or more:
        h.assume(tag == "code")
        h.reach("wrapped")
        want = "\n" + "\n".join(greedy(text.split(" "), width)) + "\n"
    elif tag == "code":
        want = "\n" + text + "\n"
    else:
        want = "\n\n    " + text + "\n\n"
    h.equal(out, want, "code only")


def large(h, kind, n):
    """Long texts at usual widths."""
    width = h.pick("width", [20, 40, 67])
    first, rest = h.pick("first", [0, 4, 10]), h.pick("other", [0, 3, 8])
    how = h.pick("justification", ["left", "right", "full"])
    c = h.text("c", 1, ["a-z"])
    ws = [("abcdefghijklmnopqrstuvw"[i % 5:])[:i * 5 % 9 + 1 + (11 if i % 9 == 8 else 0)] + (c if i % 4 == 0 else "") for i in range(n)]
    rows = [ws[:n // 3], ws[n // 3:n // 3 + 1], ws[n // 3 + 1:]]
    if how == "full":
        h.assume(first == rest)
    settings = dict(initial_indent=first, subsequent_indent=rest, justification=how, capitalized=h.bool("capitals"))
    show = [[w.upper() for w in r] for r in rows] if settings["capitalized"] else rows
    block(h, kind, "<br>".join([" ".join(r) for r in rows]), settings, [greedy(r, width, first, rest) for r in show], width)

def indented(h, n):
    """The indents of a paragraph with a line template are those of its text, inside the template."""
    first, rest = h.choose("first", 4), h.choose("rest", 4)
    t = h.pick("template", ["| {}", "{}!", "-{}-", " {} "])
    how = h.pick("justification", ["left", "full"])
    ws = [h.text("w%d" % i, 1 + h.choose("length %d" % i, 3), ["a-z"]) for i in range(n)]
    width = 8
    out = convert("<p>" + " ".join(ws) + "</p>", width=width + len(t) - 2, renderers={"p": (ParagraphRenderer, dict(line_template=t, initial_indent=first, subsequent_indent=rest, justification=how))}, optimise=False)
    h.observe("out", out)
    h.reach("converted")
    lines = greedy(ws, width, first, rest)
    want = [t.replace("{}", l) for l in justified(lines, width, how)]
    h.equal([l.rstrip() for l in out.split("\n")[1:-1]], [l.rstrip() for l in want], "lines")


WITNESS = {f: ["converted"] for f in ("indented", "large", "indents", "unwrapped", "capitals", "hyphens", "sentences", "templates", "long_words")}
for f in ("indents", "hyphens", "sentences", "long_words", "capitals"):
    WITNESS[f] = ["converted", "wrapped"]
WITNESS["code_only"] = ["converted", "wrapped"]


def tasks(tier):
    q = tier == "quick"
    out = []
    n = 3 if q else 4
    for k in KINDS:
        for how in (None, "full", "right", "center"):
            if q and how and k in ("ol", "dd"):
                continue
            c = [(1, 3), (2, 6), (1, 2)] if not how else [(1, 3)] * 3
            out.append(("indents-%s-%s" % (k, how), "indents", dict(kind=k, counts=c if q else c + [(1, 2)], width=6, how=how)))
        out.append(("unwrapped-" + k, "unwrapped", dict(kind=k, n=n, width=6)))
        out.append(("capitals-" + k, "capitals", dict(kind=k, counts=[(1, 4)] * n, width=8)))
        out.append(("long-" + k, "long_words", dict(kind=k, counts=[(1, 8)] * (n - 1), width=4)))
        out.append(("hyphens-" + k, "hyphens", dict(kind=k, n=n, width=7)))
        out.append(("sentences-" + k, "sentences", dict(kind=k, n=n, width=7, most=2 if q else 3)))
    out.append(("templates", "templates", dict(counts=[(1, 4)] * n, width=8)))
    out.append(("code-only", "code_only", dict(n=7, width=5)))
    for k in KINDS:
        out.append(("large-" + k, "large", dict(kind=k, n=50 if q else 300)))
    out.append(("indented", "indented", dict(n=4 if q else 5)))
    return out
