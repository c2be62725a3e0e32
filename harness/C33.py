"""C33: how markup is spelt makes no difference."""
from gopher_render.rendering import InlineRenderer, BlockRenderer, NonRenderer
from harness.lib import convert, ink, source as html, book, ANY, PLAIN_MINUS

ASSUMPTIONS = [
    "the spellings are those that HTML says are the same: letter case of the names of elements and attributes, quotes around values, white space inside tags, order of different attributes, the slash of void elements, comments, declarations and instructions, character references",
]
BOUNDS = {
    "quick": "17 documents of all kinds of elements with any 2 visible characters; each tag in 6 spellings and each attribute in 9; comments, declarations and instructions with any 2 characters (- and > apart) at 20 places, next to white space too; 12 documents with some or all of the last end tags missing, with references and lone ampersands; references in decimal, hexadecimal and by name to any character up to 0xffff, in texts, titles and alternative texts; documents of 40 blocks in capitals",
    "thorough": "4 characters",
}
# tags are written <tag|attributes>, </tag>; attributes name=value with ~ for spaces
DOCS = ["<p|>@ b</p>", "<h2|>@</h2><p|>b<br|>c</p>", "<ul|><li|>@</li><li|>b</li></ul><ol|><li|>@</li></ol>", "<blockquote|><p|>@</p></blockquote>", "<div|><pre|>@\n b</pre></div>", "<dl|><dt|>@</dt><dd|>b</dd></dl>",
        "<p|><em|>@</em> <strong|>b</strong> <code|>c</code> <s|>d</s> <u|>e</u></p>", "<p|>k <a|href=/u title=q~r>@</a> <img|src=/i.png alt=@>l</p>", "<p|class=c~d id=i>@</p><p|id=j class=c>b</p>", "<x|class=d>@</x> <y|data-k=v>b</y><hr|>c",
        "<x|a=1 b=2 class=c>@</x><x|b=2>c</x>", "<img|alt=@ title=q src=/u>", "<p|class=no>@</p>b<x|id=i class=no>@</x>", "<ol|><li|><p|>@</p><ul|><li|>b</li></ul></li></ol>",
        "<p|>a<wbr|>@<input|name=q></p>b<area|><hr|id=j>d<meta|><p|>e<embed|></p>", "<x|a=1 b=2 class=d id=i><em|>@<br|class=d~c></em><br|>b</x><param|>", "<p|><a|href=/u~v class=c id=m title=@>b</a><img|src=/v alt=@ title=q id=i></p>"]
RULES = {".c": (InlineRenderer, dict(template="<{}>")), "#i": (None, dict(margin=[1, 0, 0, 1])), "y[data-k=v]": (InlineRenderer, dict(template="!{}")), "x[a=\"1\"]": (InlineRenderer, dict(template="?{}")), ".no": NonRenderer,
         "p#j.c": BlockRenderer, "x#i": (InlineRenderer, dict(template="[{}]"))}
KW = dict(renderers=RULES, width=24)
VOID = ("br", "hr", "img", "wbr", "input", "area", "meta", "embed", "param")


def tags(doc, start, end):
    """The document with its tags written by start(name, [(attribute, value)]) and end(name)."""
    out = ""
    for part in doc.replace("<", "\0<").split("\0"):
        if part[:2] == "</":
            name, rest = part[2:].split(">", 1)
            out += end(name) + rest
        elif part[:1] == "<":
            tag, rest = part[1:].split(">", 1)
            name, attrs = tag.split("|")
            pairs = []
            for a in attrs.split(" "):
                if a:
                    k, v = a.split("=", 1)
                    pairs.append((k, v.replace("~", " ")))
            out += start(name, pairs) + rest
        else:
            out += part
    return out


def normal(name, pairs):
    return "<" + name + "".join([" " + k + '="' + v + '"' for k, v in pairs]) + ">"


def closing(name):
    return "</" + name + ">"


def doc(at, t, start=normal, end=closing):
    return tags(DOCS[at], start, end).replace("@", t)


def names(h, at, n):
    """Letter case of names, white space in tags, the slash of void elements."""
    t = h.text("t", n, ANY, PLAIN_MINUS + '"')
    how = h.pick("spelling", ["capitals", "some capitals", "white space", "new lines", "slash", "classes"])
    sep = h.pick("between classes", [" ", "  ", "\n", "\t"]) if how == "classes" else ""

    def start(name, pairs):
        if how == "capitals":
            return normal(name.upper(), [(k.upper(), v) for k, v in pairs])
        if how == "some capitals":
            return normal(name[0].upper() + name[1:], [(k[0].upper() + k[1:], v) for k, v in pairs])
        if how == "classes":
            return normal(name, [(k, sep.join(["", *v.split(" "), ""]) if k == "class" else v) for k, v in pairs])
        gap = " " if how == "white space" else "\n" if how == "new lines" else ""
        slash = ["/", " /"][len(pairs) % 2] if how == "slash" and name in VOID else ""
        return "<" + name + "".join([" " + gap + k + gap + "=" + gap + '"' + v + '"' for k, v in pairs]) + gap + slash + ">"

    def end(name):
        if how == "capitals":
            return "</" + name.upper() + ">"
        if how == "some capitals":
            return "</" + name[:-1] + name[-1].upper() + ">"
        return "</" + name + (" " if how == "white space" else "\n" if how == "new lines" else "") + ">"
    out = convert(doc(at, t, start, end), **KW)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(doc(at, t), **KW), "as spelt normally")


def attributes(h, at, n):
    """Quotes and order of attributes."""
    t = h.text("t", n, ANY, PLAIN_MINUS + "\"'`=/>")
    how = h.pick("quotes", ["'", "", '"'])
    turn = h.choose("first attribute", 4)
    reverse = h.bool("reverse")
    h.assume(turn < 2 or "=" in DOCS[at])

    def start(name, pairs):
        k = turn % max(len(pairs), 1)
        pairs = pairs[k:] + pairs[:k]
        if reverse:
            pairs = pairs[::-1]
        out = "<" + name
        for k, v in pairs:
            q = "'" if not how and (" " in v or v[:1] == "/") else how
            out += " " + k + "=" + q + v + q
        return out + ">"
    out = convert(doc(at, t, start), **KW)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(doc(at, t), **KW), "as spelt normally")


ASIDES = ["<!--#-->", "<!---->", "<!-- # <p>#</p> -->", "<!doctype html>", "<!DOCTYPE html PUBLIC 'a' \"b\">", "<?x #?>", "<!-- <a href='#'>-->"]
AROUND = ["%<p>@ b</p>", "<p>%@</p>", "<p>@%b</p>", "<p>@</p>%<p>b</p>", "<ul><li>@</li>%<li>b</li>%</ul>", "@%", "<pre>@%\n b</pre>", "<p>k <em>@%</em>%<b>%l</b></p>%", "<ol><li>%<p>@</p>%</li></ol>", "<blockquote>%<p>@</p>%</blockquote>",
          "<p><a href='/u'>@%b</a>%</p>", "<p>@ % b</p>", "<h2>@ %\n b %</h2>", "a\n%\n@ % ", "<p>@<br> % b</p>", "<ul> % <li>@ %</li>\n%\n<li> % b</li> % </ul> %", "<pre>@ %\n % b\n%</pre>", "<p> % @</p> % <p>b % </p> % ",
          "<dl><dt>@ % k</dt> % <dd>% b</dd></dl>", "<p>k <code>@ % l</code> % <b> % m</b></p>"]


ENDS = ["<p>a @", "<p>a</p>@", "<ul><li>a</li><li>@", "<p>a <em>b @", "<h2>@", "<blockquote><p>a</p><p>@", "<div><p>@", "<pre>a\n@", "<dl><dt>a</dt><dd>@", "<ol><li>a<ul><li>@", "<p><code>@", "<p>a <a href='/u'>@"]


def ends(h, at, n):
    """End tags at the very end of a document can be left out."""
    t = ink(h, "t", n)
    # the reader of the source holds back what might be the start of a reference
    t = h.pick("in front", ["", "&amp;", "& ", "&", "&#38;", "&lt;"]) + t + h.pick("behind", ["", " &amp;", "&", "& b", "&gt; b"])
    src = ENDS[at]
    stack = []
    for part in src.split("<")[1:]:
        name = part.split(">")[0].split(" ")[0]
        if name[:1] == "/":
            stack.pop()
        else:
            stack.append(name)
    src = src.replace("@", t)
    out = convert(src)
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(src + "".join(["</" + x + ">" for x in stack[::-1]])), "as with the end tags")
    for keep in range(1, len(stack)):
        h.equal(convert(src + "".join(["</" + x + ">" for x in stack[::-1][:keep]])), out, "with some of the end tags")


def asides(h, at, n):
    """Comments, declarations and instructions leave nothing."""
    t = ink(h, "t", 1)
    c = h.text("c", n, ANY, PLAIN_MINUS + "'\">")
    what = h.pick("what", ASIDES).replace("#", c)
    if at % 2:
        what = what.replace("<?x", "<?" + h.text("name", 3, ["a-z"]))
    out = convert(what.join([x.replace("@", t) for x in AROUND[at].split("%")]))
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(AROUND[at].replace("%", "").replace("@", t)), "as without it")


SPOTS = ["<p>@ b</p>", "a@b", "<pre>@\n@</pre>", "<h1>k @</h1>", "<p><a href='/u' title='@'>@</a></p>", "<img src='/u' alt='k@'>", "<ul><li>@</li></ul>", "<p class='@'>b</p>", "<p><a href='/@'>b</a></p>"]
NAMED = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "eacute": "\xe9", "nbsp": "\xa0", "hellip": "\u2026", "copy": "\xa9", "mdash": "\u2014", "euro": "\u20ac"}


def references(h, at, digits):
    """A character reference is the character."""
    kind = h.pick("kind", ["decimal", "hexadecimal", "capitals"])
    if kind == "decimal":
        d = h.text("d", digits, ["0-9"])
        ref, code = "&#" + d + ";", int(d)
    else:
        d = h.text("d", digits, ["0-9"] if kind == "decimal" else ["0-9", "a-f"])
        ref, code = "&#" + ("x" if kind == "hexadecimal" else "X") + d + ";", int(d, 16)
    h.assume(code >= 0xa1)
    h.assume(code not in (0xad,) and not 0x1680 <= code <= 0x206f and code != 0x3000 and not 0xd800 <= code <= 0xf8ff and not 0xfdd0 <= code <= 0xfdef and code < 0xfff0)
    c = chr(code)
    out = convert(SPOTS[at].replace("@", ref), renderers={"p." + "c": NonRenderer})
    h.observe("out", out)
    h.reach("converted")
    h.equal(out, convert(SPOTS[at].replace("@", c)), "as with the character")


def named(h, at):
    """By name, and those of characters with a role in markup."""
    name = h.pick("name", sorted(NAMED))
    c = NAMED[name]
    t = ink(h, "t", 1)
    form = h.pick("form", ["name", "decimal", "hexadecimal"])
    ref = "&" + name + ";" if form == "name" else "&#%d;" % ord(c) if form == "decimal" else "&#x%x;" % ord(c)
    out = convert(SPOTS[at].replace("@", ref + t))
    h.observe("out", out)
    h.reach("converted")
    # a letter in its place that has no role shows where it goes
    h.assume(t != "Q")
    if c in "&<>\"":
        want = convert(SPOTS[at].replace("@", "Q" + t)).replace("Q", c)
    else:
        want = convert(SPOTS[at].replace("@", c + t))
    h.equal(out, want, "as with the character")


def large(h, n):
    """Long documents in capitals, with comments and white space in tags."""
    src = html(book(h, n))
    how = h.pick("how", ["capitals", "white space", "comments"])
    other = src
    for name in ("blockquote", "pre", "div", "ul", "ol", "li", "dl", "dt", "dd", "p", "h1", "h2", "h3", "h4", "h5", "h6"):
        if how == "capitals":
            other = other.replace("<" + name + ">", "<" + name.upper() + ">").replace("</" + name + ">", "</" + name.upper() + ">")
        elif how == "white space":
            other = other.replace("<" + name + ">", "<" + name + "\n >").replace("</" + name + ">", "</" + name + "\n>")
        else:
            other = other.replace("<" + name + ">", "<" + name + "><!-- k -->").replace("</" + name + ">", "<!-- l --></" + name + ">")
    out = convert(other)
    h.observe("out", out)
    h.reach("converted")
    h.check(other != src, "nothing changed")
    h.equal(out, convert(src), "as spelt normally")


WITNESS = {f: ["converted"] for f in ("names", "attributes", "asides", "ends", "references", "named", "large")}


def tasks(tier):
    n = 2 if tier == "quick" else 4
    out = []
    for i in range(len(DOCS)):
        out += [("%s-%d" % (f, i), f, dict(at=i, n=n)) for f in ("names", "attributes")]
    out += [("asides-%d" % i, "asides", dict(at=i, n=n)) for i in range(len(AROUND))]
    out += [("ends-%d" % i, "ends", dict(at=i, n=1 if tier == "quick" else 2)) for i in range(len(ENDS))]
    for i in range(len(SPOTS)):
        out += [("references-%d-%d" % (i, d), "references", dict(at=i, digits=d)) for d in ((2, 3, 4) if i < 7 else ())]
        if i < 7:
            out.append(("named-%d" % i, "named", dict(at=i)))
    return out + [("large-%d" % k, "large", dict(n=k)) for k in ((6,) if tier == "quick" else (6, 20))]
