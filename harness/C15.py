"""C15: rules cascade by specificity, later rules winning ties."""
from gopher_render._selectors import Specificity
from gopher_render.rendering import Renderer
from harness.lib import convert

ASSUMPTIONS = [
    "which element a selector matches is C14's matter: here the selectors plainly match or plainly do not",
    "rules are told apart by their selector text (a dictionary holds one rule per selector)",
]
BOUNDS = {
    "quick": "2 rules of any of 22 selectors and 9 forms (renderer, settings, both, neither) in any order, 3 rules of 9 selectors and 4 forms, 4 and 5 matching rules in every order, with symbolic setting values; 3 default rules; the same for extracted links; comparisons of 2 and 3 specificities of three integers of any size; all 22 selectors together in 22 x 10 orders",
    "thorough": "2 rules with every default rule, 3 rules of 14 selectors and 6 forms, 6 matching rules in every order, 4 rules of 6 selectors and 3 forms",
}


class Zero(Renderer):
    name = "Z"
    settings = dict(k="-", m="-")

    def render(self, content):
        return self.name + self.settings["k"] + self.settings["m"] + "(" + content + ")"


class One(Zero):
    name = "A"


class Two(Zero):
    name = "B"


class Three(Zero):
    name = "C"


class Four(Zero):
    name = "D"


class Five(Zero):
    name = "E"


class Six(Zero):
    name = "F"


CLASSES = [One, Two, Three, Four, Five, Six]

# selector: specificity if it matches <x id=i class="c d" k=v> as the first child of <w>, else None
SELECTORS = {
    "x": (0, 0, 1), ".c": (0, 1, 0), "#i": (1, 0, 0), "*": (0, 0, 0), ".d": (0, 1, 0), "x.c": (0, 1, 1),
    "w x": (0, 0, 2), ".q": None, "x, #i": (1, 0, 0), ".c.d": (0, 2, 0), "[k]": (0, 1, 0), "x:first-child": (0, 1, 1), "w > .c": (0, 1, 1),
    "#j, x": (0, 0, 1), "*, .q, .c.d, x": (0, 2, 0), "y": None, "x#j, .q": None, "x:not(.q)": (0, 1, 1), "x#i": (1, 0, 1),
    ".c.c.c.c.c.c.c.c.c.c.c.c": (0, 12, 0), "w w x, w x x": None, "x:not(#j)": (1, 0, 1),
}
NAMES = list(SELECTORS)
FORMS = ["R", "Rk", "k", "m", "km", "Rkm", "R0", "none", "R-"]


def rule(form, cls, k, m):
    """(what to configure, renderer, its settings)"""
    if form == "R":
        return cls, cls, {}
    if form == "R0":
        return (cls, {}), cls, {}
    if form == "R-":
        return (cls, None), cls, {}
    if form == "none":
        return (None, None), None, {}
    s = {}
    if "k" in form:
        s["k"] = k
    if "m" in form:
        s["m"] = m
    return (cls if "R" in form else None, dict(s)), cls if "R" in form else None, s


def winner(rules):
    """rules: (specificity, renderer, settings) in order of declaration; the reference cascade."""
    best, at = None, None
    values, given = {}, {}
    for i, (spec, r, s) in enumerate(rules):
        if spec is None:
            continue
        if r is not None and (at is None or not lower(spec, at)):
            best, at = r, spec
        for key in s:
            if key not in given or not lower(spec, given[key]):
                values[key], given[key] = s[key], spec
    return best, values


def lower(a, b):
    for i in range(3):
        if a[i] != b[i]:
            return a[i] < b[i]
    return False


def expect(rules, default, content):
    best, values = winner(rules)
    base = {"k": "-", "m": "-"}
    if best is None:
        best = default[0]
        base.update(default[1])
        if best is Renderer:
            return content
    base.update(values)
    return best.name + base["k"] + base["m"] + "(" + content + ")"


def cascade(h, n, names, forms, defaults, link):
    d = h.pick("default", defaults)
    conf, rules, used = {}, [], []
    if d == "plain":
        default = (Renderer, {})
    elif d == "class":
        conf[""] = Zero
        default = (Zero, {})
    else:
        v = h.char("default k", ["a-z"])
        conf[""] = (Zero, dict(k=v))
        default = (Zero, dict(k=v))
    for i in range(n):
        sel = h.pick("selector %d" % i, names)
        h.assume(sel not in used)
        used.append(sel)
        form = h.pick("form %d" % i, forms)
        what, r, s = rule(form, CLASSES[i], h.char("k %d" % i, ["a-z"]), h.char("m %d" % i, ["a-z"]))
        conf[sel] = what
        rules.append((SELECTORS[sel], r, s))
    if not link:
        out = convert("<w><x id='i' class='c d' k='v'>t</x></w>", renderers=dict(conf, w=Renderer))
        want = expect(rules, default, "t")
        h.observe("out", out)
    else:
        conf = {s.replace("x", "a"): r for s, r in conf.items() if s != ""}
        # the rule for a also stands in for links without any other renderer, so it has to name one
        h.assume("a" not in conf or conf["a"] is not None and (not isinstance(conf["a"], tuple) or conf["a"][0] is not None))
        out = convert("<w><a id='i' class='c d' k='v' href='u'>t</a></w>", extracted_link_renderers=conf, renderers={"w": Renderer, "a": Renderer})
        h.observe("out", out)
        want = expect(([] if "a" in conf else [((0, 0, 1), Zero, {})]) + rules, (Zero, {}), "t")
        if want[:1] == "Z":
            want = None         # the built-in renderer
        else:
            want = "t\n" + want
    h.reach("converted")
    if want is not None:
        h.equal(out, want, "chosen renderer and settings")
        h.reach("compared")


def elements(h, forms):
    """Two elements and a rule set: each element gets its own."""
    sels = {"x": ((0, 0, 1), None), "y": (None, (0, 0, 1)), "*": ((0, 0, 0), (0, 0, 0)), ".c": (None, (0, 1, 0)), "x + y": (None, (0, 0, 2)), "#i": ((1, 0, 0), None), "y, #i": ((1, 0, 0), (0, 0, 1))}
    conf, first, second, used = {}, [], [], []
    for i in range(3):
        sel = h.pick("selector %d" % i, list(sels))
        h.assume(sel not in used)
        used.append(sel)
        what, r, s = rule(h.pick("form %d" % i, forms), CLASSES[i], h.char("k %d" % i, ["a-z"]), h.char("m %d" % i, ["a-z"]))
        conf[sel] = what
        first.append((sels[sel][0], r, s))
        second.append((sels[sel][1], r, s))
    conf[""] = Zero
    out = convert("<x id='i'>s</x><y class='c'>t</y>", renderers=conf)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, expect(first, (Zero, {}), "s") + expect(second, (Zero, {}), "t"), "chosen renderers and settings")


def specificities(h):
    """The order of specificities, for integers of any size."""
    a = [h.int("a%d" % i, 0) for i in range(3)]
    b = [h.int("b%d" % i, 0) for i in range(3)]
    x, y = Specificity(tuple(a)), Specificity(tuple(b))
    less, same = lower(a, b), a[0] == b[0] and a[1] == b[1] and a[2] == b[2]
    h.reach("compared")
    h.check(bool(x < y) == bool(less), "<")
    h.check(bool(x == y) == bool(same), "==")
    h.check(bool(x <= y) == (bool(less) or bool(same)), "<=")
    h.check(bool(x > y) == (not less and not same), ">")
    h.check(bool(x >= y) == (not less), ">=")


def sorting(h, n):
    """Sorting rules by specificity is by the tuples, and stable."""
    items = [tuple([h.int("s%d%d" % (i, j), 0) for j in range(3)]) for i in range(n)]
    got = sorted([(Specificity(s), i) for i, s in enumerate(items)], key=lambda t: t[0])
    order = [i for _, i in got]
    h.observe("order", order)
    h.reach("compared")
    for p in range(n - 1):
        i, j = order[p], order[p + 1]
        h.check(not lower(items[j], items[i]), "in order")
        if not lower(items[i], items[j]):
            h.check(i < j, "ties keep the order of declaration")


def large(h):
    """All the selectors at once, declared in many orders, in many mixtures of what they configure."""
    at, step = h.choose("rotation", len(NAMES)), h.pick("step", [1, 3, 5, 7, 9, 13, 15, 17, 19, 21])
    forms = h.pick("forms", [["Rk", "m", "k"], ["R", "km", "none", "Rkm", "k"], ["k", "Rm"]])
    c = h.char("k", ["a-z"])
    conf, rules = {"": Zero}, []
    for i in range(len(NAMES)):
        sel = NAMES[(at + i * step) % len(NAMES)]
        if sel in conf:
            continue
        cls = CLASSES[i % 6]
        conf[sel], r, s = rule(forms[i % len(forms)], cls, c + str(i), str(i) + c)
        rules.append((SELECTORS[sel], r, s))
    out = convert("<w><x id='i' class='c d' k='v'>t</x></w>", renderers=dict(conf, w=Renderer))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, expect(rules, (Zero, {}), "t"), "chosen renderer and settings")


WITNESS = {"large": ["converted"], "cascade": ["converted", "compared"], "elements": ["converted"], "specificities": ["compared"], "sorting": ["compared"]}


def tasks(tier):
    q = tier == "quick"
    D = ["plain", "class", "settings"]
    out = [("one", "cascade", dict(n=1, names=NAMES, forms=FORMS, defaults=D, link=False)),
           ("two", "cascade", dict(n=2, names=NAMES, forms=FORMS[:5], defaults=["settings"] if q else D, link=False)),
           ("two-forms", "cascade", dict(n=2, names=NAMES[:9], forms=FORMS, defaults=D, link=False)),
           ("three", "cascade", dict(n=3, names=NAMES[:7] if q else NAMES[:14], forms=FORMS[:3] + ["m"] if q else FORMS[:6], defaults=["class"], link=False)),
           ("orders", "cascade", dict(n=5 if q else 6, names=[".c", "#i", "x", ".d", "x.c", "*"], forms=["Rk"], defaults=["class"], link=False)),
           ("orders-settings", "cascade", dict(n=4 if q else 5, names=["x", ".c", "#i", "[k]", "*"], forms=["k", "Rkm"], defaults=["class"], link=False)),
           ("links", "cascade", dict(n=2, names=[x for x in NAMES if x != "x, #i"][:12], forms=FORMS[:5], defaults=["plain"], link=True)),
           ("elements", "elements", dict(forms=FORMS[:3] if q else FORMS)),
           ("specificities", "specificities", {}),
           ("sorting", "sorting", dict(n=3))]
    if not q:
        out.append(("four", "cascade", dict(n=4, names=NAMES[:6], forms=FORMS[:3], defaults=["class"], link=False)))
    out.append(("large", "large", {}))
    return out
