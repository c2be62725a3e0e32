"""C28: the command line tool prints the library's conversion of the source file."""
import builtins
import io
import sys
import types
from gopher_render.rendering import Box
from gopher_render.code_themes.iced_gopher import renderers
from harness.lib import convert, ANY, source as html, book

ASSUMPTIONS = [
    "the markdown package is replaced with a stand-in (its result is a fixed function of the text, of the names of the extensions and of the class for highlighted code); files and the standard output are stand-ins that hold the text",
    "the source file exists and can be read",
]
BOUNDS = {
    "quick": "9 names of source files, with and without --dump, sources of 3 arbitrary code points in 5 contexts (text, pre, links, code with classes, malformed); a file of 40 blocks",
    "thorough": "sources of 4 arbitrary code points",
}
NAMES = ["a.html", "a.md", "dir/b.htm", "./c.txt", "noext", "x.y.md", "md", "a.md.html", "/tmp/never there/k.md"]
CONTEXTS = ["@", "<p>@ b</p><pre>c\n @</pre>", "<p>k <a href='/u'>@</a> <img src='/i' alt='x'></p>", "<div class='highlight'><pre><span class='k'>@</span> <span class='s'>b</span></pre></div>", "<p>@</x><ol><li>b"]


class File:
    """An open file."""

    def __init__(self, text):
        self.text = text

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self, *a):
        return self.text

    def close(self):
        pass


def known(extensions, configs):
    """The extensions in use, by their short names, and the class codehilite gives to code."""
    short = lambda e: (e if isinstance(e, str) else type(e).__name__).rpartition(".")[2]
    css = "codehilite"
    for e in configs or {}:
        if short(e) == "codehilite":
            css = configs[e].get("css_class", css)
    for e in extensions or []:
        if not isinstance(e, str):
            css = e.settings.get("css_class", css)
    return sorted([short(e) for e in extensions or []]), css


def markdown(text, extensions=None, extension_configs=None, **kw):
    """The stand-in for the Markdown package: a function of the text and of the extensions."""
    names, css = known(extensions, extension_configs)
    return "<h1>m</h1><p>" + " ".join(names) + "</p><div class='" + css + "'><pre><span class='k'>k</span></pre></div><p>" + text + "</p>"


def stand_ins():
    class Markdown:
        def __init__(self, **kw):
            self.kw = kw

        def convert(self, text):
            return markdown(text, **self.kw)

        def reset(self):
            return self

    out = {}
    for name in ("markdown", "markdown.extensions", "markdown.extensions.codehilite", "markdown.extensions.extra", "markdown.extensions.meta", "pygments"):
        out[name] = types.ModuleType(name)
    out["markdown"].Markdown = Markdown
    out["markdown"].markdown = markdown
    out["markdown"].extensions = out["markdown.extensions"]
    for e in ("codehilite", "extra", "meta"):
        setattr(out["markdown.extensions"], e, out["markdown.extensions." + e])
        name = {"codehilite": "CodeHiliteExtension", "extra": "ExtraExtension", "meta": "MetaExtension"}[e]
        cls = type(e, (), {"__init__": lambda self, **kw: setattr(self, "settings", kw)})
        setattr(out["markdown.extensions." + e], name, cls)
        out["markdown.extensions." + e].makeExtension = cls

    return out


def run(arguments, text):
    """What the tool prints for a file with the text."""
    printed = []
    name = arguments[0]

    class Out:
        def write(self, s):
            printed.append(s)

        def flush(self):
            pass

    real = io.open

    def opened(path, *a, **kw):
        if str(path).lstrip("./") == name.lstrip("./"):
            return File(text)
        return real(path, *a, **kw)

    modules = stand_ins()
    had = {m: sys.modules.get(m) for m in modules}
    argv, stdout = sys.argv, sys.stdout
    try:
        sys.modules.update(modules)
        from gopher_render import cli
        cli.open = opened
        for m in ("markdown", "Markdown"):
            if hasattr(cli, m):
                setattr(cli, m, modules["markdown"] if m == "markdown" else modules["markdown"].Markdown)
        io.open = builtins.open = opened
        sys.argv = ["gopher-render"] + arguments
        sys.stdout = Out()
        cli.main()
    finally:
        sys.argv, sys.stdout = argv, stdout
        io.open = builtins.open = real
        for m in had:
            if had[m] is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = had[m]
    return "".join(printed)


def tool(h, n, context):
    name = h.pick("name", NAMES)
    dump = h.pick("dump", ["", "-d", "--dump"])
    text = CONTEXTS[context].replace("@", h.text("t", n, ANY, "<&\x7f"))
    out = run([name, "out.txt"] + ([dump] if dump else []), text)
    h.observe("out", out)
    h.reach("printed")
    if name[-3:] == ".md":
        h.reach("markdown")
        text = markdown(text, extensions=["codehilite", "extra", "meta"], extension_configs={"codehilite": {"css_class": "highlight"}})
    want = convert(text, output_format="text", box=Box(width=67, margin=[1, 0, 1, 0]), link_placement="footer", image_placement="inline", renderers=renderers)
    h.equal(out, (text + "\n" if dump else "") + want + "\n", "printed output")


def large(h, n):
    """A long file."""
    text = html(book(h, n), lambda: "\n")
    name = h.pick("name", ["a.html", "a.md"])
    out = run([name, "out.txt"], text)
    h.observe("out", out)
    h.reach("printed")
    if name == "a.md":
        text = markdown(text, extensions=["codehilite", "extra", "meta"], extension_configs={"codehilite": {"css_class": "highlight"}})
    want = convert(text, output_format="text", box=Box(width=67, margin=[1, 0, 1, 0]), link_placement="footer", image_placement="inline", renderers=renderers)
    h.equal(out, want + "\n", "printed output")


WITNESS = {"large": ["printed"], "tool": ["printed", "markdown"]}


def tasks(tier):
    n = 3 if tier == "quick" else 4
    return [("tool-%d" % i, "tool", dict(n=n, context=i)) for i in range(len(CONTEXTS))] + [("large", "large", dict(n=8 if tier == "quick" else 40))]
