"""C14: selectors match exactly the elements that CSS says they match."""
from cssselect import parse
from gopher_render._selectors import tag_matches
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer
from harness.lib import convert

ASSUMPTIONS = [
    "selectors are read by the cssselect library (trusted); the names of pseudo-classes are lower-case",
    "an unsupported simple selector (another pseudo-class, a pseudo-element) matches no element",
    "reference: an independent reading of the CSS definitions over plain tuples, in the harness",
]
BOUNDS = {
    "quick": "a tree of 7 elements in 3 levels with text between, tags, classes and ids of up to 3 symbolic values each; compounds of any 2 of 24 simple selectors, with any of 4 combinators between 2 and 3 compounds, negation, lists of 2; attribute values of up to 4 symbolic characters against 8 operands with 7 operators; nth-child and nth-last-child for a from -3 to 3 and b from -4 to 6 in 9 spellings with up to 7 siblings; 29 selectors and the source's names in lower and upper case; 16 levels and 16 siblings with one class anywhere",
    "thorough": "3 simple selectors and 3 combinators, attribute values of 5 characters, 10 siblings",
}


# ---- reference: an element is a dict(tag, classes, id, attrs, parent, children)

def siblings(e):
    return e["parent"]["children"]


def index(e):
    for i, x in enumerate(siblings(e)):
        if x is e:
            return i


def in_series(a, b, pos):
    """pos = a n + b for some n >= 0"""
    if a == 0:
        return pos == b
    if a > 0:
        return pos >= b and (pos - b) % a == 0
    return pos <= b and (b - pos) % -a == 0


def simple(e, s):
    k = s[0]
    if k == "any":
        return True
    if k == "tag":
        return e["tag"] == s[1]
    if k == "class":
        return s[1] in e["classes"]
    if k == "id":
        return e["id"] is not None and e["id"] == s[1]
    if k == "first":
        return index(e) == 0
    if k == "last":
        return index(e) == len(siblings(e)) - 1
    if k == "nth":
        return in_series(s[1], s[2], index(e) + 1)
    if k == "nthlast":
        return in_series(s[1], s[2], len(siblings(e)) - index(e))
    if k == "not":
        return not simple(e, s[1])
    if k == "attr":
        return attribute(e["attrs"].get(s[1]), s[2], s[3])
    return False                       # unsupported


def attribute(v, op, x):
    if v is None:
        return False
    if op == "exists":
        return True
    if op == "=":
        return v == x
    if op == "~=":
        if x == "" or " " in x:
            return False
        return (" " + v.replace("\t", " ").replace("\n", " ") + " ").find(" " + x + " ") >= 0
    if op == "|=":
        return v == x or v[:len(x) + 1] == x + "-"
    if x == "":
        return False
    if op == "^=":
        return v[:len(x)] == x
    if op == "$=":
        return len(v) >= len(x) and v[len(v) - len(x):] == x
    if op == "*=":
        return v.find(x) >= 0


def compound(e, c):
    for s in c:
        if not simple(e, s):
            return False
    return True


def complex_(e, parts):
    """parts: compound, combinator, compound, ... ; the last compound is the subject."""
    if not compound(e, parts[-1]):
        return False
    if len(parts) == 1:
        return True
    comb, rest = parts[-2], parts[:-2]
    if comb == ">":
        return e["parent"]["tag"] is not None and complex_(e["parent"], rest)
    if comb == " ":
        p = e["parent"]
        while p["tag"] is not None:
            if complex_(p, rest):
                return True
            p = p["parent"]
        return False
    i = index(e)
    before = siblings(e)[:i]
    if comb == "+":
        return i > 0 and complex_(before[-1], rest)
    for x in before:
        if complex_(x, rest):
            return True
    return False


def text_of(s):
    k = s[0]
    if k == "any":
        return "*"
    if k == "tag":
        return s[1]
    if k == "class":
        return "." + s[1]
    if k == "id":
        return "#" + s[1]
    if k == "first":
        return ":first-child"
    if k == "last":
        return ":last-child"
    if k in ("nth", "nthlast"):
        return ":nth-%schild(%s)" % ("last-" * (k == "nthlast"), s[3])
    if k == "not":
        return ":not(%s)" % text_of(s[1])
    if k == "attr":
        return "[%s]" % s[1] if s[2] == "exists" else "[%s%s'%s']" % (s[1], s[2], s[3])
    return s[1]


def selector_text(parts):
    out = ""
    for i, p in enumerate(parts):
        out += "".join([text_of(s) for s in p]) if i % 2 == 0 else (p if p == " " else " " + p + " ")
    return out


# ---- the trees

def element(tag, classes, id_, attrs, children):
    e = dict(tag=tag, classes=classes, id=id_, attrs=dict(attrs), parent=None, children=children)
    if classes:
        e["attrs"]["class"] = " ".join(classes)
    if id_ is not None:
        e["attrs"]["id"] = id_
    for c in children:
        c["parent"] = e
    return e


def real(e, parser, out):
    """The parser's tree for a reference tree, with text around every element."""
    parser.handle_starttag(e["tag"], list(e["attrs"].items()))
    t = parser.tree if e["parent"]["parent"] is None else out[e["parent"]["at"]][1]
    t = t.children[-1]
    e["at"] = len(out)
    out.append((e, t))
    parser.handle_data("text")
    for c in e["children"]:
        real(c, parser, out)
        parser.handle_data("\n")
    parser.handle_endtag(e["tag"])
    return t


def forest(top):
    root = dict(tag=None, classes=[], id=None, attrs={}, parent=None, children=top)
    for e in top:
        e["parent"] = root
    parser = GopherHTMLParser()
    out = []
    for e in top:
        parser.handle_data("x")
        real(e, parser, out)
    return root, parser, out


def verdict(h, pairs, selectors):
    """Any one of the elements matches exactly if the reference says so."""
    sel = parse(", ".join([selector_text(p) for p in selectors]))
    e, t = pairs[h.choose("subject", len(pairs))]
    want = False
    for p in selectors:
        if complex_(e, p):
            want = True
            break
    got = bool(tag_matches(t, sel)[0])
    h.observe("match", got)
    h.reach("match" if want else "no match")
    h.check(got == want, "match")
    for c in t.children:
        if c.tag is None:
            h.check(not tag_matches(c, sel)[0], "text never matches")


SIMPLE = [("any",), ("tag", "u"), ("tag", "b"), ("class", "c"), ("class", "d"), ("id", "i"), ("first",), ("last",),
          ("nth", 2, 0, "even"), ("nth", 0, 2, "2"), ("nthlast", 0, 2, "2"), ("attr", "k", "exists", None), ("attr", "k", "=", "v"),
          ("not", ("class", "c")), ("not", ("tag", "u")), ("not", ("id", "i")), ("not", ("first",)), ("not", ("attr", "k", "=", "v")),
          ("no", ":empty"), ("no", ":hover"), ("no", "::first-line"), ("no", ":nth-of-type(1)"), ("no", ":only-child"), ("attr", "class", "~=", "c")]


def tree(h, rich):
    """Seven elements; which tags, classes, ids and attributes is symbolic."""
    count = [0]

    def one(children):
        i = count[0]
        count[0] += 1
        tag = h.char("tag %d" % i, "ub")
        cls = [h.char("class %d" % i, "cde")] if i % 2 == 0 or rich else []
        if i == 2:
            cls = cls + ["c"]
        id_ = h.char("id %d" % i, "ij") if i % 3 == 1 or rich else None
        attrs = {"k": h.char("k %d" % i, "vw")} if i % 3 == 2 or rich else {}
        return element(tag, cls, id_, attrs, children)
    return [one([one([one([]), one([]), one([])]), one([])]), one([])]


def compounds(h, kinds, combs, n, per, lists, rich, rest=None):
    """Compounds of simple selectors, with combinators between."""
    def part(i, j):
        return h.pick("simple %d %d" % (i, j), kinds if i == 0 else SIMPLE if rest is None else rest)

    def one(l):
        parts = []
        for i in range(n):
            if i:
                parts.append(h.pick("combinator %d %d" % (l, i), combs))
            c = [part(10 * l + i, j) for j in range(per[i])]
            # a type or universal selector comes first, a pseudo-element last
            for j in range(1, len(c)):
                h.assume(c[j][0] not in ("tag", "any"))
            for j in range(len(c)):
                h.assume(not text_of(c[j]).startswith("::") or (i == n - 1 and j == len(c) - 1))
            parts.append(c)
        return parts
    sels = [one(l) for l in range(lists)]
    _, _, pairs = forest(tree(h, rich))
    verdict(h, pairs, sels)


def attributes(h, n, dom, op, name):
    """An attribute value against every operand."""
    k = h.choose("length", n + 1)
    v = h.text("v", k, dom)
    x = h.pick("operand", ["", "a", "ab", "b", "a-b", "a b", "-", "aa"])
    attrs = [] if h.bool("absent") else [(name, v)]
    parser = GopherHTMLParser()
    parser.handle_starttag("p", attrs)
    t = parser.tree.children[0]
    s = ("attr", name, op, x)
    want = attribute(v if attrs else None, op, x)
    got = tag_matches(t, parse(selector_text([[s]])))[0]
    h.observe("got", bool(got))
    h.reach("match" if want else "no match")
    h.check(bool(got) == want, "match")


SPELL = ["%(a)dn%(b)+d", " %(a)dn %(b)+d ", "%(a)dn", "%(b)d", "n%(b)+d", "-n%(b)+d", "odd", "even", "%(b)+d", "+n%(b)+d", "-n"]


def series(h, kind, m, alo, ahi, blo, bhi):
    """an+b arguments."""
    how = h.choose("spelling", len(SPELL))
    s = SPELL[how]
    a = alo + h.choose("a", ahi - alo + 1) if "%(a)" in s else 0
    b = blo + h.choose("b", bhi - blo + 1) if "%(b)" in s else 0
    arg = s % dict(a=a, b=b)
    if s in ("n%(b)+d", "+n%(b)+d"):
        a = 1
    if s in ("-n%(b)+d", "-n"):
        a = -1
    if s == "odd":
        a, b = 2, 1
    if s == "even":
        a = 2
    if "%(b)" not in s and s != "odd":
        b = 0
    n = 1 + h.choose("siblings", m)
    top = [element("ub"[i % 2], [], None, {}, []) for i in range(n)]
    _, _, pairs = forest([element("d", [], None, {}, top)])
    only = h.pick("type", ["", "u"])
    verdict(h, pairs[1:], [[([("tag", only)] if only else []) + [(kind, a, b, arg)]]])


def rules(h):
    """The same through a whole conversion: marked are exactly the elements that match."""
    kinds = [("tag", "x"), ("class", "c"), ("first",), ("last",), ("nth", 0, 2, "2"), ("not", ("class", "c")), ("attr", "k", "^=", "v"), ("id", "i")]
    first = [h.pick("first", kinds)]
    comb = h.pick("combinator", ["", " ", ">", "+", "~"])
    parts = [first] if comb == "" else [first, comb, [h.pick("second", kinds)]]
    e = []
    for i in range(5):
        e.append(dict(tag=h.pick("tag %d" % i, ["x", "y"]) if i < 3 else "x", cls=h.bool("class %d" % i) if i != 2 else False))

    def make(i, children):
        return element(e[i]["tag"], ["c"] if e[i]["cls"] else [], "i" if i == 1 else None, {"k": "vv"} if i == 3 else {}, children)
    top = [make(0, [make(1, []), make(2, [make(3, [])])]), make(4, [])]
    root, _, pairs = forest(top)
    src, want = "", ""
    names = iter("mnopq")

    def walk(x):
        src = "<" + x["tag"] + "".join([" %s='%s'" % (k, v) for k, v in x["attrs"].items()]) + ">"
        name = next(names)
        s, w = name, name
        for c in x["children"]:
            cs, cw = walk(c)
            s, w = s + cs + name, w + cw + name
        if complex_(x, parts):
            w = "[" + w + "]"
        return src + s + "</" + x["tag"] + ">", w
    for x in top:
        s, w = walk(x)
        src, want = src + s + " ", want + w + " "
    out = convert(src, renderers={selector_text(parts): (InlineRenderer, dict(template="[{}]"))})
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want.rstrip(" "), "marked elements")


def spelling(h, part):
    """The case of element and attribute names does not matter, in selectors and in the source; that of classes, ids and values does."""
    tag = h.pick("tag", ["em", "Em", "eM", "EM"])
    key = h.pick("key", ["k", "K"])
    s = h.pick("selector", {
        "tag": ["@", "@.c", "x @", "y > @", "@ + @", "@:first-child", ":not(@)", "w, @"],
        "attr": ["[#]", "[#='v']", "[#^='v']", "[#~='v']", "[#|='v']", "@[#$='v']", "x [#*='v']", ":not([#])", "[TITLE]", "[Title='t']"],
        "other": [".c", ".C", "@.C", "#i", "#I", "[k='V']", "[CLASS='c']", "[class='C']", "[Class~='c']", "[ID='i']", "[iD='I']"],
    }[part])
    x = h.pick("x", ["x", "X", "y"])
    a = (h.char("e", "eE") + h.char("m", "mM"))
    b = h.char("key letter", "kK")
    src = "<" + x + ">a<" + a + " class='c' " + b + "='v' title='t'>b</" + a + "> <" + a + " id='i'>c</" + a + "></" + x + "> <w>d</w>"
    sel = s.replace("@", tag).replace("#i", "\0").replace("#I", "\1").replace("#", key).replace("\0", "#i").replace("\1", "#I")
    low = s.replace("@", "em").replace("#i", "\0").replace("#I", "\1").replace("#", "k").replace("\0", "#i").replace("\1", "#I")
    for name in ("TITLE", "Title", "CLASS", "Class", "ID", "iD"):
        low = low.replace("[" + name, "[" + name.lower())
    # by hand for the lower-case selector
    x = x.lower()
    B = {"em": 1, "em.c": 1, "x em": x == "x", "y > em": x == "y", "em + em": 0, "em:first-child": 1, ":not(em)": 0, "w, em": 1,
         "[k]": 1, "[k='v']": 1, "[k^='v']": 1, "[k~='v']": 1, "[k|='v']": 1, "em[k$='v']": 1, "x [k*='v']": x == "x", ":not([k])": 0, "[title]": 1, "[title='t']": 1,
         ".c": 1, ".C": 0, "em.C": 0, "#i": 0, "#I": 0, "[k='V']": 0, "[class='c']": 1, "[class='C']": 0, "[class~='c']": 1, "[id='i']": 0, "[id='I']": 0}[low]
    C = {"em": 1, "x em": x == "x", "y > em": x == "y", "em + em": 1, "w, em": 1, ":not([k])": 1, "#i": 1, "[id='i']": 1}.get(low, 0)
    root = low in (":not(em)", ":not([k])")
    w = low in (":not(em)", ":not([k])", "w, em")
    f = lambda on, t: "(" + t + ")" if on else t
    want = f(root, "a" + f(B, "b") + " " + f(C, "c")) + " " + f(w, "d")
    out = convert(src, renderers={"em": InlineRenderer, sel: (InlineRenderer, dict(template="({})"))})
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, want, "marked elements")


def lines(h, shape, n, combs):
    """Long chains of descendants and rows of siblings, where the first candidate of a combinator may be the wrong one."""
    def one(i, children):
        return element(h.char("tag %d" % i, "ub"), [h.char("class %d" % i, "cd")] if i % 2 else [], None, {}, children)
    if shape == "chain":
        top = []
        for i in range(n):
            top = [one(i, top)]
    elif shape == "row":
        top = [element("d", [], None, {}, [one(i, []) for i in range(n)])]
    else:
        # pairs of siblings, the second one with the next pair in it
        top = []
        for i in range(0, n, 2):
            top = [one(i, []), one(i + 1, top)]
    _, _, pairs = forest(top)
    parts = []
    for i in range(len(combs) + 1):
        if i:
            parts.append(combs[i - 1])
        parts.append([h.pick("compound %d" % i, [("tag", "u"), ("tag", "b"), ("class", "c")])])
    verdict(h, pairs, [parts])

def far(h, shape, n):
    """The element that the first part matches may be many levels up or many siblings before."""
    at = h.choose("place", n)
    tags = [h.char("tag %d" % i, "ub") if i in (0, n - 1) else "ub"[i % 2] for i in range(n)]
    els = [element(tags[i], ["c"] if i == at else [], None, {}, []) for i in range(n)]
    if shape == "levels":
        for i in range(n - 1):
            els[i]["children"].append(els[i + 1])
            els[i + 1]["parent"] = els[i]
        top = els[:1]
    else:
        top = [element("d", [], None, {}, els)]
    _, _, pairs = forest(top)
    comb = h.pick("combinator", [" ", ">"] if shape == "levels" else ["~", "+"])
    verdict(h, pairs, [[[("class", "c")], comb, [h.pick("subject kind", [("tag", "u"), ("any",), ("last",)])]]])


WITNESS = {"far": ["match", "no match"], "compounds": ["match", "no match"], "attributes": ["match", "no match"], "series": ["match", "no match"], "lines": ["match", "no match"], "rules": ["converted"], "spelling": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    C = [" ", ">", "+", "~"]
    out.append(("one", "compounds", dict(kinds=SIMPLE, combs=C, n=1, per=[1], lists=1, rich=True)))
    out.append(("two-in-one", "compounds", dict(kinds=SIMPLE, combs=C, n=1, per=[2], lists=1, rich=True)))
    for c in C:
        out.append(("pair%s" % c, "compounds", dict(kinds=SIMPLE, combs=[c], n=2, per=[1, 1], lists=1, rich=False)))
    few = [("class", "c"), ("tag", "u"), ("id", "i"), ("first",), ("any",), ("not", ("class", "c"))]
    for a in C:
        for b in C:
            out.append(("triple%s%s" % (a, b), "compounds", dict(kinds=few[:4] if q else SIMPLE, combs=[a, b], n=3, per=[1, 1, 1], lists=1, rich=False, rest=few)))
    out.append(("pair-two", "compounds", dict(kinds=few if q else SIMPLE, combs=C, n=2, per=[1, 2], lists=1, rich=False, rest=SIMPLE[3:8] + SIMPLE[9:11] + SIMPLE[12:14])))
    out.append(("list", "compounds", dict(kinds=SIMPLE, combs=C, n=1, per=[1], lists=2, rich=False)))
    if not q:
        out.append(("three-in-one", "compounds", dict(kinds=SIMPLE, combs=C, n=1, per=[3], lists=1, rich=True)))
        out.append(("two-pair", "compounds", dict(kinds=SIMPLE, combs=C, n=2, per=[2, 1], lists=1, rich=False, rest=few)))
    for op in ("exists", "=", "~=", "|=", "^=", "$=", "*="):
        for name in ("k", "title") if q else ("k", "title", "href"):
            out.append(("attr%s%s" % (op, name), "attributes", dict(n=4 if q else 5, dom="ab -", op=op, name=name)))
    for k in ("nth", "nthlast"):
        out.append((k, "series", dict(kind=k, m=7 if q else 10, alo=-3, ahi=3 if q else 4, blo=-4, bhi=6 if q else 9)))
    out.append(("rules", "rules", {}))
    for part in ("tag", "attr", "other"):
        out.append(("spelling-" + part, "spelling", dict(part=part)))
    for a in C:
        for b in C:
            for shape, k in (("chain", 5), ("row", 5), ("stairs", 6)):
                if {"chain": "+" not in a + b and "~" not in a + b, "row": not set(" >") & set(a + b), "stairs": True}[shape]:
                    out.append(("%s%s%s" % (shape, a, b), "lines", dict(shape=shape, n=k if q else k + 1 + k % 2, combs=[a, b], _nowitness=shape == "stairs")))
    if not q:
        for x in ("  >", "> >", "~~+", "+~+", " ~ ", "> ~"):
            out.append(("long%s" % x, "lines", dict(shape="stairs", n=8, combs=list(x), _nowitness=True)))
    for shape in ("levels", "siblings"):
        out.append(("far-" + shape, "far", dict(shape=shape, n=16 if q else 40)))
    return out
