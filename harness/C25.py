"""C25: ANSI styles are switched on and off again exactly as configured."""
import os
from gopher_render.rendering import AnsiEscapeCodeRenderer
from harness.lib import convert, ESC, ANY

ASSUMPTIONS = [
    "effects are True or False, fonts 0 to 9, palette numbers 0 to 255, colour parts 0 to 255, HTML colours # and 3 or 6 hexadecimal digits",
    "the order of the sequences and whether they are joined (ESC [ 1 ; 3 m) is not compared, only what they set",
    "theme selectors are lists of classes and pairs of classes",
]
BOUNDS = {
    "quick": "all 8192 combinations of the 13 effects; every pair of effects with every font, kinds of colour and normalise; all 16 names, all 256 palette numbers, triples with one part of 0 to 255 and the others of 0, 7 and 255, HTML colours with 2 arbitrary digits at 3 places (and all with 3 digits), foreground and background; contents of 3 arbitrary code points; nested and repeated styles; every entry of every theme",
    "thorough": "HTML colours with 3 arbitrary digits",
}

# ECMA-48 / ISO 6429 and the common extensions of it
EFFECTS = {"bold": (1, 22), "faint": (2, 22), "italic": (3, 23), "underline": (4, 24), "slow_blink": (5, 25), "rapid_blink": (6, 25), "invert": (7, 27), "conceal": (8, 28), "crossed_out": (9, 29),
           "fraktur": (20, 23), "framed": (51, 54), "encircled": (52, 54), "overlined": (53, 55)}
ORDER = list(EFFECTS)
NAMES = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"]
TXT_MINUS = "<&\x7f\x0b\x0c\r\x1c\x1d\x1e\x1f\x85\u2028\u2029"


def parameters(s):
    """The settings in a string of nothing but SGR sequences; None if it is not."""
    out = []
    i = 0
    while i < len(s):
        if s[i:i + 2] != ESC + "[":
            return None
        i += 2
        num = ""
        nums = []
        while i < len(s) and s[i] != "m":
            if s[i] == ";":
                nums.append(num)
                num = ""
            elif "0" <= s[i] <= "9":
                num += s[i]
            else:
                return None
            i += 1
        if i == len(s):
            return None
        i += 1
        nums.append(num)
        k = 0
        while k < len(nums):
            if nums[k] in ("38", "48"):
                n = 3 if nums[k + 1:k + 2] == ["5"] else 5
                out.append(";".join(nums[k:k + n]))
                k += n
            else:
                out.append(nums[k])
                k += 1
    return out


def leading(s):
    """Where the sequences at the start end."""
    i = 0
    while s[i:i + 2] == ESC + "[":
        while i < len(s) and s[i] != "m":
            i += 1
        i += 1
    return i


def colour_code(colour, background):
    """The setting for a colour of any of the four kinds."""
    if isinstance(colour, str) and colour[:1] != "#":
        bright = colour[:7] == "bright_"
        return str(NAMES.index(colour[7:] if bright else colour) + (90 if bright else 30) + (10 if background else 0))
    lead = "48" if background else "38"
    if isinstance(colour, str):
        digits = colour[1:]
        if len(digits) == 3:
            digits = digits[0] * 2 + digits[1] * 2 + digits[2] * 2
        colour = [16 * value(digits[i]) + value(digits[i + 1]) for i in (0, 2, 4)]
    if isinstance(colour, (tuple, list)):
        return lead + ";2;" + ";".join([str(x) for x in colour])
    return lead + ";5;" + str(colour)


def value(digit):
    for i, c in enumerate("0123456789abcdef"):
        if digit in (c, c.upper()):
            return i


def expected(settings):
    """What is switched on, and what is to be switched off."""
    on, off = [], []
    for e in EFFECTS:
        if settings.get(e):
            on.append(str(EFFECTS[e][0]))
            off.append(str(EFFECTS[e][1]))
    if settings.get("font") is not None:
        on.append(str(10 + settings["font"]))
        off.append("10")
    for key, back, default in (("foreground_colour", False, "39"), ("background_colour", True, "49")):
        if settings.get(key) is not None:
            on.append(colour_code(settings[key], back))
            off.append(default)
    return on, off


def judge(h, got, content, settings):
    """The output is the content between the sequences for the settings."""
    on, off = expected(settings)
    if not on and not settings.get("normalise"):
        h.equal(got, content, "content without styles")
        return
    at = leading(got)
    h.check(got[at:at + len(content)] == content, "content changed")
    before, after = parameters(got[:at]), parameters(got[at + len(content):])
    h.check(before is not None and after is not None, "content changed or broken sequences")
    h.equal(sorted(before), sorted(on), "switched on")
    if settings.get("normalise"):
        h.equal(after, ["0"], "reset")
    else:
        h.equal(sorted(set(after)), sorted(set(off)), "switched off")


def styled(content, settings):
    return convert("<x>" + content + "</x>", renderers={"x": (AnsiEscapeCodeRenderer, dict(settings))})


def effects(h, fixed, rest):
    """Every combination of effects."""
    settings = {}
    for i, e in enumerate(ORDER):
        if i < len(fixed):
            settings[e] = fixed[i] == "1"
        else:
            settings[e] = h.bool(e)
    out = styled("abc", settings)
    h.observe("out", out)
    h.reach("converted")
    judge(h, out, "abc", settings)


def mixed(h, a):
    """Pairs of effects with fonts and colours."""
    settings = {ORDER[a]: True}
    b = h.choose("other", len(ORDER) + 1)
    if b < len(ORDER):
        settings[ORDER[b]] = True
    f = h.choose("font", 12)
    if f:
        settings["font"] = f - 1 if f < 11 else None
    for k in ("foreground_colour", "background_colour"):
        c = h.pick(k, [None, "red", "bright_blue", 0, 17, (1, 2, 3), "#abc"]) if f in (0, 2) else h.pick(k, [None, "black"])
        if c is not None:
            settings[k] = c
    if h.bool("normalise"):
        settings["normalise"] = True
    out = styled("abc", settings)
    h.observe("out", out)
    h.reach("converted")
    judge(h, out, "abc", settings)


def nothing(h, n):
    """Nothing configured, or everything off."""
    t = h.text("t", n, ANY, TXT_MINUS)
    h.assume(t.strip() != "")
    settings = h.pick("settings", [{}, {e: False for e in ORDER}, {"font": None, "foreground_colour": None, "background_colour": None}, {"normalise": False}])
    out = convert("a<x>" + t + "</x>b", renderers={"x": (AnsiEscapeCodeRenderer, dict(settings))})
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert("a<span>" + t + "</span>b"), "content without styles")


def contents(h, n):
    """The content is unchanged, whatever it is."""
    t = h.text("t", n, ANY, TXT_MINUS)
    settings = h.pick("settings", [{"bold": True}, {"foreground_colour": "#123456", "normalise": True}, {"font": 3, "background_colour": 200, "encircled": True}])
    plain = convert("a<span>" + t + "</span>b", optimise=False)
    out = convert("a<x>" + t + "</x>b", renderers={"x": (AnsiEscapeCodeRenderer, dict(settings))}, optimise=False)
    h.observe("out", out)
    h.reach("converted")
    h.check(out[:1] == "a" and out[-1:] == "b", "surroundings changed")
    judge(h, out[1:-1], plain[1:-1], settings)


def one_colour(h, settings, key, colour):
    settings = dict(settings)
    settings[key] = colour
    out = styled("abc", settings)
    h.observe("out", out)
    h.reach("converted")
    judge(h, out, "abc", settings)


KEYS = ["foreground_colour", "background_colour"]


def named(h):
    name = h.pick("name", NAMES + ["bright_" + x for x in NAMES])
    one_colour(h, {"normalise": h.bool("normalise")}, h.pick("key", KEYS), name)


def palette(h, key):
    one_colour(h, {}, key, h.int("colour", 0, 255))


def triple(h, key, at):
    rest = [h.pick("first", [0, 7, 255]), h.pick("second", [0, 255])]
    rest.insert(at, h.int("part", 0, 255))
    one_colour(h, {"bold": True}, key, tuple(rest))


HEX = ((48, 57), (65, 70), (97, 102))


def html(h, key, at, n, length):
    """HTML colours with arbitrary digits at a place."""
    digits = "0fA935"[:length]
    some = h.text("digits", n, HEX)
    one_colour(h, {}, key, "#" + digits[:at] + some + digits[at + n:])


def nested(h, n):
    """Styles inside styles, and one after the other."""
    a, b = h.text("a", n, ["a-z"]), h.text("b", n, ["a-z"])
    s = [{"bold": True}, {"foreground_colour": "red"}, {"italic": True, "normalise": True}, {"background_colour": (1, 2, 3), "font": 2}]
    x, y = h.pick("outer", s), h.pick("inner", s)
    how = h.pick("how", ["nested", "after", "same"])
    src = {"nested": "<x>" + a + "<y>" + b + "</y>" + a + "</x>", "after": "<x>" + a + "</x><y>" + b + "</y>", "same": "<x>" + a + "</x>" + b + "<x>" + a + "</x>"}[how]
    out = convert(src, renderers={"x": (AnsiEscapeCodeRenderer, dict(x)), "y": (AnsiEscapeCodeRenderer, dict(y))})
    h.observe("out", out)
    h.reach("converted")
    ax, ay = styled(a, x), styled(b, y)
    cut = lambda s, t: (s[:leading(s)], s[leading(s) + len(t):])
    on, off = cut(ax, a)
    if how == "nested":
        h.equal(out, on + a + ay + a + off, "nested styles")
    elif how == "after":
        h.equal(out, ax + ay, "styles one after the other")
    else:
        h.equal(out, ax + b + ax, "styles repeated")


def theme(h, name):
    """Every entry of a bundled theme is valid."""
    module = __import__("gopher_render.code_themes." + name, fromlist=["renderers"])
    entries = list(module.renderers)
    h.check(len(entries) > 0, "an empty theme")
    key = entries[h.choose("entry", len(entries))]
    cls, settings = module.renderers[key]
    h.check(cls is AnsiEscapeCodeRenderer or issubclass(cls, AnsiEscapeCodeRenderer), "not an ANSI renderer: " + key)
    for k in settings:
        h.check(k in EFFECTS or k in ("foreground_colour", "background_colour", "font", "normalise"), "unknown setting " + k + " of " + key)
    t = h.text("t", 2, ["a-z"])
    for one in key.split(","):
        path = one.split()
        h.check(all([p[:1] == "." for p in path]), "not a selector of classes: " + key)
        # the element alone, the outer ones without the theme
        src = "".join(["<span class='" + p[1:] + "'>" for p in path]) + t + "</span>" * len(path)
        out = convert("<pre>" + src + "</pre>", renderers={key: (cls, settings)})
        h.reach("converted")
        h.check(out[:5] == "\n    " and out[-1:] == "\n", "not in a pre")
        judge(h, out[5:-1], t, settings)
        # with the whole theme: the styles of all rules that match
        out = convert("<pre>" + src + "</pre>", renderers=module.renderers)
        h.observe("out", out)
        body = out[5:-1]
        at = leading(body)
        h.check(body[at:at + len(t)] == t, "content changed")
        inner = parameters(body[:at])
        h.check(inner is not None and parameters(body[at + len(t):]) is not None, "broken sequences")
        for on in expected(settings)[0]:
            h.check(on in inner, "style of " + key + " not switched on with the whole theme")


WITNESS = {k: ["converted"] for k in ("effects", "mixed", "nothing", "contents", "named", "palette", "triple", "html", "nested", "theme")}


def themes():
    where = os.path.join(os.environ.get("SX_REPO", "/repo"), "gopher_render", "code_themes")
    return sorted([f[:-3] for f in os.listdir(where) if f[-3:] == ".py" and f[0] != "_"])


def tasks(tier):
    q = tier == "quick"
    out = []
    for i in range(8):
        out.append(("effects-%d" % i, "effects", dict(fixed=format(i, "03b"), rest=10)))
    for a in range(len(ORDER)):
        out.append(("mixed-" + ORDER[a], "mixed", dict(a=a)))
    out.append(("nothing", "nothing", dict(n=3)))
    out.append(("contents", "contents", dict(n=3)))
    out.append(("named", "named", dict()))
    for k in KEYS:
        out.append(("palette-" + k, "palette", dict(key=k)))
        for at in range(3):
            out.append(("triple-%s-%d" % (k, at), "triple", dict(key=k, at=at)))
        n = 2 if q else 3
        for at in (0, 1, 2, 3, 4):
            if at + n <= 6:
                out.append(("html-%s-%d" % (k, at), "html", dict(key=k, at=at, n=n, length=6)))
        out.append(("short-html-%s" % k, "html", dict(key=k, at=0, n=n, length=3)))
        out.append(("short-html-%s-1" % k, "html", dict(key=k, at=3 - n, n=n, length=3)))
    out.append(("nested", "nested", dict(n=2)))
    for name in themes():
        out.append(("theme-" + name, "theme", dict(name=name)))
    return out
