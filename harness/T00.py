"""Self-test of the encoding: results of string, regex and library operations under every path's
model are compared with the plain interpreter."""
import re

RATE = 1.0
import textwrap
import html
from urllib.parse import urlparse

PATS = [r"\s+", r"[ \t]+", r"(a|b)+?c", r"(?<=a)b|c*", r"(a*)(b?)", r"((a|b)*)c", r"\ba+\b", r"^a|b$", r"(?i)[a-c]x?",
        r"(?:a|ab)(?:c|bcd)?", r"(?P<x>a)?b(?(x)c|a)", r"(a)(?=b)|(?!a)b", r"[^a-c]", r"(?m)^.", r".", r"(a+)+b", r"a{1,2}?b",
        r"(?:(a)|b)*", r"\x1b\[[;\d]*m", r"(.)\1", r"a*+b", r"(?>a|ab)c", r"(?s:.)a"]

OPS = {
    "strip": lambda s: (s.strip(), s.lstrip(), s.rstrip(), s.strip("ab")),
    "split": lambda s: (s.split(), s.split("a"), s.split(None, 1), s.rsplit("a", 1), s.splitlines(), s.splitlines(True)),
    "part": lambda s: (s.partition("a"), s.rpartition("ab"), s.find("ba"), s.rfind("a"), s.count("a"), s.replace("a", "xy", 1)),
    "case": lambda s: (s.upper(), s.lower(), s.title(), s.capitalize(), s.swapcase(), s.isspace(), s.isdigit(), s.isalpha()),
    "pad": lambda s: (s.center(6), s.rjust(5), s.ljust(5, "."), s.expandtabs(3), s.zfill(5)),
    "fmt": lambda s: ("{}-{:>5}|{:^6}".format(s, s, s), "%s|%5s" % (s, s), f"{s}{s!s:<4}", "-".join([s, "x", s]), "-".join(s)),
    "cmp": lambda s: (s == "ab", s < "ab", s >= "b", s in "abcab", "a" in s, s in ("a", "ab"), s.startswith("a"), s.endswith(("a", "b")), s[::-1], s[1:], s * 2),
    "num": lambda s: num(s),
    "wrap": lambda s: (textwrap.wrap(s, 3), textwrap.wrap(s, 2, fix_sentence_endings=True, break_long_words=False)),
    "unescape": lambda s: (html.unescape("&" + s), html.escape(s)),
    "url": lambda s: url(s),
    "format": lambda s: fmt(s),
    "dict": lambda s: ({"a": 1, "ab": 2}.get(s, 3), s in {"a", "b "}, {"a": 1}.get(s)),
    "ints": lambda s: [ord(c) % 7 for c in s] + [chr(ord(c) + 1) for c in s],
}


def num(s):
    r = []
    for b in (10, 16):
        try:
            r.append(int(s, b))
        except ValueError:
            r.append("bad")
    return r


def url(s):
    try:
        p = urlparse(s)
        return (p.scheme, p.netloc, p.path, p.query, p.fragment, p.hostname, p.port)
    except ValueError as e:
        return "bad"


def fmt(s):
    try:
        return s.format("X", a="Y")
    except (ValueError, IndexError, KeyError) as e:
        return type(e).__name__


def op(h, name, n, dom):
    s = h.text("s", n, dom)
    h.observe("r", OPS[name](s))


def rx(h, pat, n, dom):
    s = h.text("s", n, dom)
    p = re.compile(pat)
    out = []
    for f in (p.match, p.search, p.fullmatch):
        m = f(s)
        out.append(None if m is None else (m.group(), m.span(), m.groups(), m.lastindex))
    out.append(p.findall(s))
    out.append(p.split(s))
    out.append(p.sub("<>", s))
    out.append([m.span() for m in p.finditer(s)])
    if p.groups:
        out.append(p.sub(r"[\1]", s, count=1))
    h.observe("r", out)


DOMS = {"strip": ["ab \n\u00a0"], "split": ["ab \n\r\u2028"], "case": ["aZ\u00df\u01c5\u03a9 1"], "num": ["09aF-+ _x"], "wrap": ["ab -.\n"],
        "unescape": ["#x1;lt&"], "url": [":/#?a.@1[]"], "format": ["{}0a!:"]}


def tasks(tier):
    out = []
    for k in OPS:
        for n in (1, 2, 3, 4):
            out.append(("%s-%d" % (k, n), "op", dict(name=k, n=n, dom=DOMS.get(k, ["ab \t\n"])[0])))
    for i, p in enumerate(PATS):
        for n in (1, 2, 3, 4):
            out.append(("rx%d-%d" % (i, n), "rx", dict(pat=p, n=n, dom="abc A\n" if "x1b" not in p else "\x1b[m0;a")))
    return out
