"""C03: wrapping is greedy, breaks only between words and loses nothing."""
from gopher_render.rendering import left_justify, ParagraphRenderer
from harness.lib import convert, TEXT, ANY, ODD_SPACE, WORDY_MINUS, sized, greedy, collapse, words_of, visible, wrap

ASSUMPTIONS = [
    "no control characters other than tab and line feed; white space beyond ASCII stands between visible characters only",
    "a hyphenated compound may be separated after its hyphens and a sentence may be followed by two spaces, so the exact reference is compared for texts without '-', '.', '!' and '?'; texts with those are checked for width, lost characters and the places of the breaks",
]
BOUNDS = {
    "quick": "up to 4 words of up to width+2 letters at widths 3 and 5, indents up to 2; texts of 4 arbitrary code points and of 8 spaces and letters at widths 1 to 4; indents of up to 4 at widths 1 to 3 with leading spaces",
    "thorough": "up to 5 words; texts of 5 arbitrary code points and of 11 spaces and letters",
}


# white space of other kinds, but for what textwrap takes for a space and what ends a line
SPACES = "".join([c for c in ODD_SPACE if c > "\x85" and c not in "\u2028\u2029"])


def words(h, n, width, indents):
    """Single-spaced words of every length against the reference, through the library function."""
    ws = sized(h, "w", [(1, width + 2)] * n, ["a-z"])
    kw = {}
    first = rest = 0
    if indents:
        first, rest = h.pick("first indent", [0, 1, 2]), h.pick("other indent", [0, 1, 2])
        kw = dict(initial_indent=" " * first, subsequent_indent=" " * rest)
    if h.bool("keep long words"):
        kw["break_long_words"] = False
    got = wrap(" ".join(ws), width, **kw)
    h.observe("lines", got)
    h.reach("wrapped")
    if len(got) > 1:
        h.reach("several lines")
    want = greedy(ws, width, first, rest, "break_long_words" not in kw)
    h.equal(got, want, "lines")
    h.equal(left_justify(" ".join(ws), width, **kw), "\n".join(want), "left-justified")


def paragraph(h, n, dom, widths):
    """Any white space in a paragraph: the reference on its words."""
    width = h.pick("width", widths)
    t = h.text("t", n, dom, "<&-.!?\xa0" + WORDY_MINUS if not isinstance(dom, str) else "")
    setting = h.bool("indented")
    ren = {"p": (ParagraphRenderer, dict(initial_indent=1, subsequent_indent=0, margin=[0, 0, 0, 0]))} if setting else {}
    h.assume(not setting or width > 1)
    out = convert("<p>" + t + "</p>", width=width, renderers=ren)
    h.observe("out", out)
    want = greedy(words_of(t), width, 1 if setting else 0, 0)
    h.reach("converted")
    if len(want) > 1:
        h.reach("several lines")
    h.equal(out.strip("\n"), "\n".join(want), "paragraph lines")


def odd(h, n, width):
    """No-break and other spaces inside of words belong to the words."""
    ws = sized(h, "w", [(1, 4)] * n, ["a-z"])
    k = h.choose("word", n)
    ws[k] = ws[k] + h.char("space", SPACES) + h.char("c", ["a-z"])
    got = wrap(" ".join(ws), width)
    h.observe("lines", got)
    h.reach("wrapped")
    h.equal(got, greedy(ws, width), "lines")


def loose(h, n, dom, minus, width):
    """Any text at all: nothing lost, nothing too wide, no break inside a word that fits."""
    t = h.text("t", n, dom, minus)
    got = wrap(t, width)
    h.observe("lines", got)
    h.reach("wrapped")
    ws = words_of(t)
    ink = "".join(ws)
    inks = ["".join(words_of(line)) for line in got]
    h.equal("".join(inks), ink, "characters")
    for line in got:
        h.check(len(line) <= width, "a line is wider than the width")
        h.check(line != "", "an empty line")
    # where one line ends and the next goes on inside a word, the word is too long or has a hyphen there
    ends = [0]
    for wd in ws:
        ends.append(ends[-1] + len(wd))
    at = 0
    for line in inks[:-1]:
        at += len(line)
        if at not in ends:
            for a, b in zip(ends, ends[1:]):
                if a < at < b:
                    h.reach("word split")
                    h.check(b - a > width or ink[at - 1] == "-", "a word that fits is split")


def large(h, n):
    """Long texts at usual widths."""
    width = h.pick("width", [9, 20, 40, 60, 67, 80, 81, 100, 132, 200])
    first, rest = h.pick("first indent", [0, 4, 7]), h.pick("other indent", [0, 4, 7])
    ws = [("abcdefghijklmnopq" * 2)[:i * 7 % 13 + 1] for i in range(n)]
    ws[n // 3] = "x" * (width * 2 + 3)
    at = h.choose("place", n)
    ws[at] = h.text("w", 2, ["a-z"])
    got = wrap(" ".join(ws), width, initial_indent=" " * first, subsequent_indent=" " * rest)
    h.observe("lines", got)
    h.reach("wrapped")
    h.equal(got, greedy(ws, width, first, rest), "lines")


def cramped(h, n):
    """No room for the text beside the indents: still all of it, in order."""
    t = h.text("t", n, "ab ")
    width = h.pick("width", [1, 2, 3])
    first, rest = h.choose("first", 5), h.choose("rest", 5)
    lines = wrap(t, width, initial_indent=" " * first, subsequent_indent=" " * rest)
    h.observe("lines", lines)
    h.reach("wrapped")
    h.equal(visible("".join(lines)), visible(t), "text")
    for i, l in enumerate(lines):
        h.check(l[:rest if i else first] == " " * (rest if i else first), "indent")
        h.check(len(l) <= max(width, 1 + (rest if i else first)), "width")


WITNESS = {"cramped": ["wrapped"], "words": ["wrapped", "several lines"], "paragraph": ["converted", "several lines"], "odd": ["wrapped"], "loose": ["wrapped", "word split"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    for w in (3, 5):
        for n in ((1, 2, 3) if q else (1, 2, 3, 4)):
            for ind in (False, True):
                out.append(("words-%d-w%d%s" % (n, w, "-indents" if ind else ""), "words", dict(n=n, width=w, indents=ind, _nowitness=n == 1)))
    out.append(("words-4-w3", "words", dict(n=4, width=3, indents=False)))
    if not q:
        out.append(("words-5-w3", "words", dict(n=5, width=3, indents=False)))
    out.append(("odd", "odd", dict(n=3 if q else 4, width=6)))
    out.append(("paragraph-any", "paragraph", dict(n=4 if q else 5, dom=((9, 10),) + ANY, widths=[1, 2, 3])))
    out.append(("paragraph-space", "paragraph", dict(n=8 if q else 11, dom="a \n", widths=[4] if q else [3, 4])))
    out.append(("loose-any", "loose", dict(n=4 if q else 5, dom=TEXT, minus=ODD_SPACE, width=2)))
    out.append(("loose-hyphens", "loose", dict(n=6 if q else 9, dom="ab-. ", minus="", width=3)))
    out.append(("loose-spaces", "loose", dict(n=8 if q else 11, dom="a \t\n"[:3 if q else 4], minus="", width=3)))
    out.append(("large", "large", dict(n=30 if q else 80)))
    out.append(("cramped", "cramped", dict(n=4 if q else 6)))
    return out
