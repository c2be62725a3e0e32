"""C12: whitespace outside pre collapses but never glues or splits words."""
from harness.lib import convert, collapse, words_of, rstrip_lines, ANY, ODD_SPACE, WORDY_MINUS

ASSUMPTIONS = [
    "white space is the space, the tab, the line feed and the pair CR LF; other white space (no-break space, em space) stands between visible characters only",
    "no '.', '!' or '?' where exact spacing in paragraphs is compared: a double space after a sentence is deliberate",
    "paragraphs shorter than the width (C03 decides what line breaks do)",
]
BOUNDS = {
    "quick": "texts of 7 characters of {letter, space, tab, line feed}, 4 arbitrary code points; 2 inline elements with 3 characters of text in and 2 around each; in p, h3, div, li, dd, span, and at the root; texts of 30 words with runs of up to 57 characters of white space; runs of 1 to 140 characters of white space",
    "thorough": "texts of 10 and 6 characters, 4 characters in and around inline elements",
}
WHERE = {"p": "<p>@</p>", "h3": "<h3>@</h3>", "div": "<div>@</div>", "li": "<ul><li>@</li></ul>", "dd": "<dl><dd>@</dd></dl>",
         "span": "<p><span>@</span></p>", "root": "@", "dt": "<dl><dt>@</dt></dl>", "em": "<p>a <em>@</em> b</p>", "x": "<p>a <x>@</x>b</p>",
         "li span": "<ul><li><span>@</span></li></ul>", "dd x": "<dl><dd><x></x><x><sub>@</sub></x></dd></dl>", "li x": "<ul><li> <x>\n<y>@</y></x></li></ul>"}


def want_of(where, t):
    """What a collapsed text becomes."""
    if where in ("p", "span"):
        return "\n" + t.strip(" ") + "\n"
    if where == "h3":
        return "\n### " + t + " ###\n"
    if where == "em":
        return "\na _" + t + "_ b\n"
    if where == "x":
        return "\na " + t + "b\n"
    if where in ("li", "li span", "li x"):
        return "\n* " + t.strip(" ") + "\n"
    if where in ("dd", "dd x"):
        return "\n\n: " + t.strip(" ") + "\n"
    if where == "dt":
        return "\n" + t.rstrip(" ") + "\n"
    return t.rstrip(" ")


def alone(h, where, n, dom, minus):
    t = h.text("t", n, dom, minus)
    h.assume(words_of(t) != [])
    out = convert(WHERE[where].replace("@", t))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want_of(where, collapse(t)), "white space")


def neighbours(h, n, m, tag, mark):
    """Texts in and around inline elements: words are separated exactly where they were."""
    a, b, c = h.text("a", m, "x \n"), h.text("b", n, "y \t\n"), h.text("c", m, "z \n")
    h.assume(words_of(b) != [])
    src = a + "<" + tag + ">" + b + "</" + tag + ">" + c
    out = convert("<p>" + src + "</p>")
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\n" + (collapse(a) + mark + collapse(b) + mark + collapse(c)).strip(" ") + "\n", "white space")
    if mark == "":
        h.equal(words_of(out), words_of(a + b + c), "words")


def two(h, n):
    """Text between two inline elements, and nothing but white space there."""
    a, b, c, d = h.text("a", 1, "x \n"), h.text("b", n, "y \n"), h.text("c", n, " \n\t"), h.text("d", 1, "z \n")
    h.assume(words_of(b) != [])
    gap = h.bool("gap")
    out = convert("<p>k" + a + "<em>" + b + "</em>" + (c if gap else "") + "<b>" + b + "</b>" + d + "l</p>")
    h.observe("out", out)
    h.reach("converted")
    want = "k" + collapse(a) + "_" + collapse(b) + "_" + (" " if gap else "") + "**" + collapse(b) + "**" + collapse(d) + "l"
    h.equal(out, "\n" + want + "\n", "white space")


def crlf(h, n, where):
    """CR LF line ends."""
    t = ""
    for i in range(n):
        t += h.pick("piece %d" % i, ["a", " ", "\r\n", "\n"])
    h.assume(words_of(t.replace("\r", "")) != [])
    out = convert(WHERE[where].replace("@", t))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want_of(where, collapse(t.replace("\r\n", "\n"))), "white space")


def fixed(h, where, n, dom):
    """Spaces that are no separators, such as the no-break space, are text."""
    t = "x" + h.text("t", n, dom) + "x"
    out = convert(WHERE[where].replace("@", t))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want_of(where, collapse(t)), "white space")


def code(h, n):
    """Code spans and links have their white space collapsed as well; pre inside does not change what follows."""
    t, u = h.text("t", n, "a \n"), h.text("u", n, "b \n\t")
    h.assume(words_of(t) != [])
    h.assume(words_of(u) != [])
    out = convert("<p>x<code>" + t + "</code></p><pre>k  l</pre><p>" + u + "<a href='h'>" + t + "</a></p>", link_placement="inline")
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, "\nx`" + collapse(t) + "`\n\n    k  l\n\n" + (collapse(u) + "[" + collapse(t) + "](h)").strip(" ") + "\n", "white space")


def mixed(h, where, n):
    """White space separates inline elements, and is nothing next to blocks, whatever stands further on."""
    t = [h.text("t%d" % i, 1, ["a-z"]) for i in range(5)]
    gaps = [h.text("gap%d" % i, n, " \n") if h.bool("gap %d" % i) else "" for i in range(5)]
    block = h.pick("block", ["p", "pre", "h1"])
    shown = {"p": "@", "pre": "    @", "h1": "# @ #"}[block].replace("@", t[2])
    src = gaps[0] + "<em>" + t[0] + "</em>" + gaps[1] + "<b>" + t[1] + "</b>" + gaps[2] + "<" + block + ">" + t[2] + "</" + block + ">" + gaps[3] + "<i>" + t[3] + "</i>" + gaps[4] + "<s>" + t[4] + "</s>"
    lead = " " if gaps[0] else ""
    one = "_" + t[0] + "_" + (" " if gaps[1] else "") + "**" + t[1] + "**"
    two = "_" + t[3] + "_" + (" " if gaps[4] else "") + "~~" + t[4] + "~~"
    a, b, first, rest = {"root": ("", "", "", ""), "div": ("<div>", "</div>", "", ""), "x": ("<x>", "</x>", "", ""), "li": ("<ul><li>", "</li></ul>", "* ", "  ")}[where]
    out = convert(a + src + b)
    h.observe("out", out)
    h.reach("converted")
    if where == "li":
        want = "\n* " + one + "\n  " + shown + "\n  " + two + "\n"
    else:
        want = lead + one + "\n" + shown + "\n" + two
    h.equal(out, want, "white space")


def breaks(h, where, n):
    """White space after a line break is not part of the next line."""
    a, b, c = "x" + h.text("a", 1, "x\u00a0") + "x", h.text("b", n, "y \t\n"), h.text("c", n, "z \n")
    h.assume(words_of(b) != [])
    h.assume(words_of(c) != [])
    br = h.pick("br", ["<br>", "<br/>", "<br />"])
    out = convert(WHERE[where].replace("@", a + br + b + br + "<sub>k</sub>" + c + br + c))
    h.observe("out", out)
    h.reach("converted")
    lines = [a, collapse(b).lstrip(" "), "k" + collapse(c), collapse(c).lstrip(" ")]
    if where == "li" or where == "dd":
        want = want_of(where, lines[0] + "\n" + "\n".join(["  " + l for l in lines[1:]]))
    elif where == "h3":
        want = want_of(where, "\n".join(lines))
    else:
        want = want_of(where, "\n".join(lines))
    h.equal(rstrip_lines(out), rstrip_lines(want), "lines")


def large(h, where, n):
    """Long texts with long runs of white space."""
    c, s = h.text("c", 1, ANY, WORDY_MINUS.replace("-", "\x7f")), h.text("s", 2, " \t\n")
    runs = [" ", "\n", "\t\t", " " * 40, "\n" * 30, " \n" * 20 + "\t", s, s + " " * 17 + s, "\r\n  "]
    t = runs[h.choose("first", len(runs))]
    for i in range(n):
        t += "w%d" % i + (c if i % 3 == 0 else "") + runs[i * 5 % len(runs)]
    out = convert(WHERE[where].replace("@", t), width=12 * n)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want_of(where, collapse(t.replace("\r\n", "\n"))), "white space")


def runs(h, where, top):
    """Runs of white space of any length, several in a text."""
    n = 1 + h.choose("length", top)
    s = h.text("s", 1, " \t\n")
    how = h.choose("how", 5)
    run = [s * n, s + " " * (n - 1), "\t" * (n - 1) + s, (" " + s) * (n // 2) + s, "\n" * (n // 3) + s + " " * (n - n // 3)][how]
    t = "k" + run + "l m" + run + "n"
    out = convert(WHERE[where].replace("@", t))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want_of(where, collapse(t)), "white space")


WITNESS = {f: ["converted"] for f in ("runs", "large", "alone", "neighbours", "two", "crlf", "code", "fixed", "mixed", "breaks")}


def tasks(tier):
    q = tier == "quick"
    out = []
    for w in WHERE:
        out.append(("space-" + w, "alone", dict(where=w, n=7 if q else 10, dom="a \t\n", minus="")))
        out.append(("any-" + w, "alone", dict(where=w, n=4 if q else 6, dom=((9, 10),) + ANY, minus=WORDY_MINUS.replace("-", "\x7f"))))
        out.append(("crlf-" + w, "crlf", dict(where=w, n=5 if q else 7)))
    for t, m in (("em", "_"), ("span", ""), ("sub", ""), ("code", "`"), ("b", "**")):
        out.append(("neighbours-" + t, "neighbours", dict(n=3 if q else 4, m=2 if q else 3, tag=t, mark=m)))
    for w in ("p", "h3", "div", "li", "root"):
        out.append(("fixed-" + w, "fixed", dict(where=w, n=4 if q else 6, dom="a \n\u00a0\u2003")))
    for w in ("root", "div", "x", "li"):
        out.append(("mixed-" + w, "mixed", dict(where=w, n=1 if q else 2)))
    for w in ("p", "h3", "div", "li", "dd", "root"):
        out.append(("breaks-" + w, "breaks", dict(where=w, n=2 if q else 3)))
    out.append(("two", "two", dict(n=2 if q else 4)))
    out.append(("code", "code", dict(n=3 if q else 5)))
    for w in WHERE:
        out.append(("large-" + w, "large", dict(where=w, n=30 if q else 120)))
    for w in WHERE:
        out.append(("runs-" + w, "runs", dict(where=w, top=(140 if w in ("p", "h3") else 72) if q else 320)))
    return out
