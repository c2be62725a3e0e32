"""C31: apart from styling, wrapping is that of the standard library, with all of its options."""
import textwrap
from gopher_render import rendering
from harness.lib import wrap, ESC, unstyled, tokens

ASSUMPTIONS = [
    "Python's own textwrap (run symbolically alongside) is the definition; blank space at the ends of lines is not compared: the standard library keeps a separator before the first part of a word it starts on the line in no room (that can be an empty line, so these are not compared either, unless white space is to be kept)",
    "for styled text, escape sequences stand next to a letter (not alone between spaces), words are shorter than the line and long words and hyphens are not broken with the ellipsis",
]
BOUNDS = {
    "quick": "every text of 6 characters of {letter, space, hyphen, tab, full stop} at widths 1 to 4 with every single option (indents, expanded tabs, tab size, replaced and dropped white space, breaking of words and at hyphens, sentence spacing, line limit with several placeholders), every pair of options for texts of 5 of {letter, space, hyphen}; line limits with 4 words of 1 to 3 letters and one styled word at widths 5 and 6; parameters that are refused; texts of 60 words at widths 12 to 500 with each option; indents of 0 to 5 against 4 placeholders and line limits of 1 to 3; texts that start with blanks, tabs or a line break before 4 words",
    "thorough": "texts of 8 characters, pairs with texts of 7",
}
OPTIONS = {
    "initial_indent": [" ", "> ", "abc"],
    "subsequent_indent": [" ", "--", "  "],
    "expand_tabs": [False],
    "tabsize": [1, 3],
    "replace_whitespace": [False],
    "drop_whitespace": [False],
    "break_long_words": [False],
    "break_on_hyphens": [False],
    "fix_sentence_endings": [True],
    "max_lines": [1, 2],
    "placeholder": ["", ".", " ..", " [...]"],
}


def either(fn, *a, **kw):
    """Lines, or the message of the refusal."""
    try:
        return fn(*a, **kw)
    except ValueError as e:
        return "ValueError"


def shown(lines, kw):
    """The lines without blank space at their ends; blank ones count only if white space is kept."""
    lines = [l.rstrip() for l in lines]
    return [l for l in lines if l] if kw.get("drop_whitespace", True) else lines


def ours(text, width, kw):
    return either(lambda: shown(wrap(text, width, **kw), kw))


def theirs(text, width, kw):
    return either(lambda: shown("\n".join(textwrap.wrap(text, width, **kw)).split("\n"), kw))


def compare(h, text, width, kw):
    got = ours(text, width, kw)
    h.observe("lines", got)
    h.reach("wrapped")
    if got == "ValueError":
        h.reach("refused")
    elif len(got) > 1:
        h.reach("several lines")
    h.equal(got, theirs(text, width, kw), "lines")


def single(h, option, n, dom, widths):
    """Every value of one option."""
    width = h.pick("width", widths)
    kw = {option: h.pick(option, OPTIONS[option])} if option else {}
    if option == "placeholder":
        kw["max_lines"] = h.pick("max_lines", [1, 2])
    t = h.text("t", n, dom)
    h.assume(t[0] not in " \t\n\x0b")
    h.assume("max_lines" not in kw or "  " not in t)
    compare(h, t, width, kw)


def pair(h, option, n, dom, widths):
    """Every value of two options."""
    width = h.pick("width", widths)
    others = [o for o in OPTIONS if o > option]
    o = h.pick("other", others)
    kw = {option: h.pick(option, OPTIONS[option][:2]), o: h.pick(o, OPTIONS[o][:2])}
    if "placeholder" in kw and "max_lines" not in kw:
        kw["max_lines"] = 2
    t = h.text("t", n, dom)
    h.assume(t[0] not in " \t\n\x0b")
    h.assume("max_lines" not in kw or "  " not in t)
    compare(h, t, width, kw)


def limited(h, n, width):
    """The line limit and placeholder, for a text of which one word is styled."""
    ws = []
    for i in range(n):
        ws.append(h.text("w%d" % i, 1 + h.choose("length %d" % i, 3), ["a-z"]))
    k = h.choose("styled", n)
    kw = dict(max_lines=h.pick("max_lines", [1, 2, 3]), placeholder=h.pick("placeholder", [" ..", "~", ""]))
    if h.bool("indented"):
        kw["subsequent_indent"] = kw["initial_indent"] = " "
    plain = " ".join(ws)
    cut = h.choose("where", 2)
    styled = list(ws)
    styled[k] = ESC + "[1m" + ws[k] + ESC + "[22m" if cut == 0 else ws[k] + ESC + "[0;31m"
    got = ours(" ".join(styled), width, kw)
    h.observe("lines", got)
    h.reach("wrapped")
    h.equal([unstyled(l) for l in got], theirs(plain, width, kw), "visible lines")


def large(h, n):
    """Long texts at usual widths, every option."""
    c = h.text("c", 1, ["a-z"])
    t = ""
    for i in range(n):
        t += ("abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"[i % 5:])[:i * 5 % 9 + 1 + (i * 7 % 37 if i % 9 == 8 else 0)] + (c if i % 4 == 0 else "")
        t += ["", ".", "!\"", "-" + c + "x", ",", "--y"][i % 6] + " "
    width = h.pick("width", [12, 30, 67, 100, 500])
    option = h.pick("option", list(OPTIONS))
    kw = {option: h.pick("value", OPTIONS[option])}
    if option in ("placeholder", "max_lines") and h.bool("several"):
        kw["max_lines"] = h.pick("max_lines", [2, 5, 9, 1000])
    compare(h, t, width, kw)

def limits(h, n):
    """Indents against the placeholder and the width: what is refused, and what is shown."""
    first, rest = " " * h.choose("first", 6), " " * h.choose("rest", 6)
    kw = dict(initial_indent=first, subsequent_indent=rest, max_lines=h.pick("max_lines", [1, 2, 3]), placeholder=h.pick("placeholder", ["...", " ...", ".", "  ."]))
    t = h.text("w", 2, ["a-z"]) + " " + h.text("v", n, "a ") + " c"
    h.assume("  " not in t)
    compare(h, t, h.pick("width", [3, 5, 7]), kw)

def leading(h, n):
    """White space at the start of a text is kept, in front of words that fit the line."""
    option = h.pick("option", list(OPTIONS))
    kw = {option: h.pick("value", OPTIONS[option])}
    if option == "placeholder":
        kw["max_lines"] = 2
    t = h.pick("blanks", [" ", "  ", "   ", "\t", " \t", "\n"])
    for i in range(n):
        t += h.text("w%d" % i, 1 + h.choose("length %d" % i, 3), ["a-z"]) + (" " if i < n - 1 else "")
    compare(h, t, h.pick("width", [9, 12]), kw)


WITNESS = {"leading": ["wrapped"], "limits": ["wrapped", "refused", "several lines"], "large": ["wrapped"], "single": ["wrapped"], "pair": ["wrapped"], "limited": ["wrapped"]}


def tasks(tier):
    q = tier == "quick"
    out = [("no-option", "single", dict(option=None, n=6 if q else 8, dom="a -\t.", widths=[1, 2, 3, 4]))]
    for o in OPTIONS:
        tabs = o in ("expand_tabs", "tabsize", "replace_whitespace", "drop_whitespace")
        dom = "a \x0b" if o == "replace_whitespace" else "a \t\n" if tabs else "a .\"" if o == "fix_sentence_endings" else "a -"
        out.append(("single-" + o, "single", dict(option=o, n=(6 if o != "placeholder" else 5) if q else 8, dom=dom, widths=[2, 4] if q else [1, 2, 3, 4, 5])))
        if [p for p in OPTIONS if p > o]:
            out.append(("pair-" + o, "pair", dict(option=o, n=4 if q else 6, dom="a -", widths=[3])))
    for w in (5, 6):
        out.append(("limited-%d" % w, "limited", dict(n=4 if q else 5, width=w)))
    out.append(("large", "large", dict(n=60 if q else 300)))
    out.append(("limits", "limits", dict(n=3 if q else 5)))
    out.append(("leading", "leading", dict(n=4 if q else 6)))
    return out
