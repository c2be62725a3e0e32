"""C20: link targets map to the right gopher type, selector, host and port."""
from harness.lib import convert, item_type, without, ANY

ASSUMPTIONS = [
    "targets have no white space at their ends, tabs or line breaks, and no double quotes or character references in them",
    "letters that have two cases, other than ASCII ones, are left out of paths (extensions are lower-cased)",
    "paths do not end in a dot",
    "the query and fragment of gopher and relative targets are not part of the path, and the host of a gopher URL is compared without its case",
]
BOUNDS = {
    "quick": "relative paths of 3 arbitrary code points; names with 17 known and unknown extensions in every case, 1 arbitrary character before and after, in directories with and without dots; schemes of 1 to 3 arbitrary scheme characters and the known ones in every case, with and without an authority; gopher hosts of 1 and 2 characters, ports of 0 to 2 digits and signs, and 65500 to 65599; invalid authorities: 4 characters out of [ ] : @ / ? # 1 a; configured hosts of 2 characters, 4 ports; as link and as image; paths of 8 and 40 segments, hosts of as many labels, long queries and extensions",
    "thorough": "paths of 4, gopher hosts of 3, authorities of 5 characters",
}
ATTR_MINUS = "\"&\x7f"
PATH = ((0x20, 0x84), (0x86, 0x9f), (0xa1, 0xb4), (0xb6, 0xb6), (0x600, 0x6ff), (0x3001, 0x31ff), (0x4e00, 0x9fff), (0x1f300, 0x1f5ff))
KNOWN = ["html", "htm", "gif", "jpg", "jpeg", "png", "bmp", "tiff", "txt", "csv", "tsv", "md", "zip", "gz", "tif", "xhtml", "text"]


def menu(h, target, what="a", host="ho.st", port=70):
    """The menu line of a link or image with the target."""
    src = '<a href="' + target + '">t</a>' if what == "a" else '<img src="' + target + '" alt="t">'
    out = convert(src, output_format="gophermap", gopher_host=host, gopher_port=port, image_placement="footer")
    h.observe("out", out)
    return out.split("\n")[1]


def line(kind, selector, host="ho.st", port="70"):
    return kind + "[1] t\t" + selector + "\t" + host + "\t" + port


def web(target, host="ho.st", port="70"):
    return line("h", "URL:" + target, host, port)


def path_of(rest):
    """The path part of what follows the authority."""
    out = ""
    for c in rest:
        if c in "?#":
            break
        out += c
    return out


SCHEME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-."


def scheme_of(target):
    """The scheme of a target, or none."""
    for i, c in enumerate(target):
        if c == ":":
            s = target[:i]
            if i and s[0] in SCHEME[:52] and all([x in SCHEME for x in s]):
                return s
            return ""
        if c in "/?#":
            return ""
    return ""


def relative(h, n, prefix, what):
    """Arbitrary paths."""
    p = prefix + h.text("p", n, PATH, ATTR_MINUS)
    h.assume(p[0] != " " and p[-1] != " " and p[:2] != "//")
    got = menu(h, p, what)
    h.reach("converted")
    if scheme_of(p):
        h.reach("scheme")
        h.equal(got, web(p), "menu line")
    else:
        path = path_of(p)
        h.assume(path[-1:] != ".")
        h.equal(got, line(item_type(path), path), "menu line")


def extension(h, what, n):
    """Known and unknown extensions, in capitals or not."""
    ext = h.pick("extension", KNOWN)
    k = h.choose("capital", len(ext) + 2)
    ext = ext.upper() if k == len(ext) + 1 else ext if k == len(ext) else ext[:k] + ext[k].upper() + ext[k + 1:]
    start = h.pick("start", ["/", "/d.txt/", "", "gopher://ho.st/", "gopher://ho.st:70/1/d.x/", "http://x/", "/.", "/b.gif.", "/d/../"])
    end = h.pick("end", ["", "?q.gif", "#f.gif", "?q/x.gif", "/", "/x"])
    a = h.text("a", n, PATH, ATTR_MINUS + "/?#:; .")
    target = start + a + "." + ext + end
    got = menu(h, target, what)
    h.reach("converted")
    if start == "http://x/":
        h.equal(got, web(target), "menu line")
    else:
        path = (start[start.index("/", 9):] if start[:1] == "g" else start) + a + "." + ext + (end if end[:1] == "/" else "")
        h.equal(got, line(item_type(path), path), "menu line")


def unknown_extension(h, n, what):
    """Extensions one character away from the known ones."""
    ext = h.pick("extension", ["gif", "txt", "md", "htm"])
    a = h.text("a", n, PATH, ATTR_MINUS + "?#/ :.")
    where = h.choose("where", len(ext) + 1)
    drop = h.bool("drop")
    ext = ext[:where] + a + ext[where + drop:]
    got = menu(h, "/f." + ext, what)
    h.reach("converted")
    h.equal(got, line(item_type("f." + ext), "/f." + ext), "menu line")


def schemes(h, n, what):
    """Anything but gopher is a web link."""
    s = h.text("s", n, ((43, 43), (45, 46), (48, 57), (65, 90), (97, 122)))
    sep = h.pick("separator", [":", "://", ":/"])
    r = h.text("r", 1, ((33, 126),), ATTR_MINUS + "[]") + "x"
    target = s + sep + r
    got = menu(h, target, what)
    h.reach("converted")
    if s[0] in SCHEME[:52]:
        h.equal(got, web(target), "menu line")
    elif sep == "://" or r[0] in "/":
        h.check(got[:5] in ("1[1] ", "9[1] ", "0[1] ", "h[1] ", "g[1] ", "I[1] "), "no menu line")
    else:
        h.equal(got, line(item_type(path_of(target)), path_of(target)), "menu line")


def cased(h, what, host):
    """Known schemes, in any case."""
    s = h.pick("scheme", ["http", "https", "gopher", "ftp", "mailto", "gophers", "data"])
    k = h.choose("capital", len(s) + 2)
    scheme = s.upper() if k == len(s) + 1 else s if k == len(s) else s[:k] + s[k].upper() + s[k + 1:]
    p = h.text("p", 2, PATH, ATTR_MINUS + "?#. ")
    h.assume(host or p[0] != "/")
    target = scheme + ":" + ("//" + host if host else "") + "/" + p
    got = menu(h, target, what)
    h.reach("converted")
    if s == "gopher":
        h.equal(got, line("1", "/" + p, host.lower() if host else "ho.st"), "menu line")
    else:
        h.equal(got, web(target), "menu line")


def gopher(h, n, digits, what):
    """Hosts and ports of gopher URLs."""
    host = h.text("host", n, ((97, 122), (65, 90), (48, 57), (45, 46)))
    d = h.choose("digits", digits + 1)
    start = h.pick("start", ["", "655", "00"]) if d else ""
    port = start + h.text("port", d, "0123456789x-+" if not start else "0123456789")
    colon = d > 0 or h.bool("colon")
    user = h.pick("user", ["", "u@", "u:p@"])
    tail = h.pick("tail", ["", "/x.txt", "?q", "/"])
    target = "gopher://" + user + host + (":" if colon else "") + port + tail
    got = menu(h, target, what, "other", 7071)
    h.reach("converted")
    number = 70
    if port:
        if not all([c in "0123456789" for c in port]) or int(port) > 65535:
            h.reach("invalid")
            h.equal(got, web(target, "other", "7071"), "menu line")
            return
        number = int(port)
    h.reach("valid")
    path = tail if tail[:1] == "/" else ""
    h.equal(got, line(item_type(path), path, host.lower(), str(number)), "menu line")


def hostless(h, n):
    """No host in a gopher URL: the configured one."""
    start = h.pick("start", ["gopher:", "gopher:/", "gopher:///", "gopher://:7070/", "gopher://:/"])
    p = h.text("p", n, PATH, ATTR_MINUS + "?#/. ")
    got = menu(h, start + p, "a", "other", 7071)
    h.reach("converted")
    h.equal(got, line("1", ("" if start == "gopher:" else "/") + p, "other", "7070" if "7070" in start else "70"), "menu line")


def invalid(h, n, start, what):
    """Whatever the authority: the conversion completes, and the line is of one of the documented forms."""
    a = h.text("a", n, "[]:@/?#1a")
    target = start + a
    got = menu(h, target, what)
    h.reach("converted")
    f = got.split("\t")
    h.check(len(f) == 4, "a menu line has four fields")
    if start[:4] == "http":
        h.equal(got, web(target), "menu line")
        return
    if f[1][:4] == "URL:":
        # not a valid URL
        h.reach("web")
        h.equal(got, web(target), "menu line")
        h.check("[" in a or "]" in a or ":" in a, "a valid URL is taken for an invalid one")
        return
    h.reach("gopher")
    auth, i = "", 0
    while i < len(a) and a[i] not in "/?#":
        auth += a[i]
        i += 1
    path = path_of(a[i:])
    h.equal(f[0] + "\t" + f[1], item_type(path) + "[1] t\t" + path, "type and selector")
    if "[" not in auth and "]" not in auth:
        h.reach("host")
        # as the generic syntax has it: user information, host, port
        while "@" in auth:
            auth = auth[auth.index("@") + 1:]
        host, port = auth, ""
        if ":" in auth:
            host, port = auth[:auth.index(":")], auth[auth.index(":") + 1:]
        h.equal(f[2], host if host else "ho.st", "host")
        h.equal(f[3], port if port and (host or start == "gopher://") else "70", "port")


def configured(h, n):
    """The configured host and port."""
    host = h.text("host", n, ANY)
    port = h.pick("port", [70, 0, 7070, 65535])
    what = h.pick("what", ["a", "img"])
    t = h.pick("target", ["/x.txt", "http://x/", "x", "", "//other:71/x", "gopher:/x", "mailto:x", "gopher://other/x", "gopher://other:71/x", "gopher://other:0"])
    out = convert('<a href="' + t + '">t</a>' if what == "a" else '<img src="' + t + '" alt="t">', output_format="gophermap", gopher_host=host, gopher_port=port,
                  image_placement="footer", optimise=False)
    h.observe("out", out)
    h.reach("converted")
    got = out[out.index("\n") + 1:]
    p = str(port)
    want = {"/x.txt": line("0", t, host, p), "http://x/": web(t, host, p), "x": line("1", t, host, p), "": line("1", t, host, p), "//other:71/x": line("1", "/x", "other", "71"),
            "gopher:/x": line("1", "/x", host, "70"), "mailto:x": web(t, host, p), "gopher://other/x": line("1", "/x", "other", "70"),
            "gopher://other:71/x": line("1", "/x", "other", "71"), "gopher://other:0": line("1", "", "other", "0")}[t]
    h.equal(got, want + "\n", "menu line")


def large(h, n):
    """Long paths, hosts and queries."""
    c = h.text("c", 1, ["a-z"])
    path = "/" + "/".join([c + "dir" + str(i) * (i % 5) + (".d" if i % 4 == 1 else "") for i in range(n)])
    ext = h.pick("extension", ["", "gif", "TXT", "html", "tar.gz", "jpeg.gz", "x" * 40, "md" + "x" * 30])
    path += "/" + "name" * n + c + ("." + ext if ext else "")
    tail = h.pick("tail", ["", "?" + "k=v.gif&" * n, "#" + "part.txt/" * n])
    host = ".".join(["host%d" % i for i in range(n)]) + ".example"
    start, kind = h.pick("start", [("", 0), ("gopher://" + host, 1), ("gopher://user:pass@" + host + ":65535", 2), ("https://" + host + ":8080", 3), ("//" + host, 4)])
    what = h.pick("what", ["a", "img"])
    got = menu(h, start + path + tail, what, "other" * n, 7071)
    h.reach("converted")
    t = item_type(path)
    want = [line(t, path, "other" * n, "7071"), line(t, path, host), line(t, path, host, "65535"), web(start + path + tail, "other" * n, "7071"), line(t, path, host)][kind]
    h.equal(got, want, "menu line")


WITNESS = {"large": ["converted"], "relative": ["converted", "scheme"], "extension": ["converted"], "unknown_extension": ["converted"], "schemes": ["converted"], "cased": ["converted"],
           "gopher": ["valid", "invalid"], "hostless": ["converted"], "invalid": ["converted", "web", "gopher", "host"], "configured": ["converted"]}


def tasks(tier):
    q = tier == "quick"
    n = 3 if q else 4
    out = []
    for w in ("a", "img"):
        for pre in ("", "/", "/a.t", "d.x/"):
            k = n if not pre else n - 1
            out.append(("relative-%s-%s" % (pre, w), "relative", dict(n=k, prefix=pre, what=w, _witness=["converted"] + ["scheme"] * (not pre))))
        out.append(("extension-" + w, "extension", dict(what=w, n=1)))
        out.append(("other-extension-" + w, "unknown_extension", dict(n=1, what=w)))
    for k in range(1, n + 1):
        out.append(("scheme-%d" % k, "schemes", dict(n=k, what="a" if k > 1 else "img")))
    for host in ("", "hO"):
        out.append(("known-scheme-%s" % host, "cased", dict(what="a", host=host)))
    for k in range(1, n):
        out.append(("gopher-%d" % k, "gopher", dict(n=k, digits=2 if k == 1 else 1, what="img" if k == 1 else "a")))
    out.append(("hostless", "hostless", dict(n=2)))
    for start in ("gopher://", "//", "http://"):
        out.append(("invalid-" + start, "invalid", dict(n=n + 1, start=start, what="a", _witness=["converted"] if start == "http://" else ["converted", "web", "gopher", "host"])))
    out.append(("configured", "configured", dict(n=2)))
    for k in (8, 40) if q else (8, 40, 200):
        out.append(("large-%d" % k, "large", dict(n=k)))
    return out
