"""Symbolic regular expressions: the `re` module seen by instrumented code.

Concrete subjects go to the real `re`.  A subject with symbolic characters is matched by a
backtracking matcher built from the real parse tree (re._parser), with sre's search order, so
that the same alternatives are tried in the same order; every character test is a decision.
"""
import re as _re
import re._constants as C
import re._parser as P
from . import values
from .core import iset, union, compl, inter, single, Unsupported, EMPTY
from .values import SymStr, cs_of, mkstr, isin, isstr, deep_conc, ceq

UNI = iset([(0, 0x10ffff)])
_allchars = None
_brute = {}


def brute(src, flags=0):
    """Set of code points matched by a one-character pattern, by the real engine."""
    key = (src, int(flags))
    s = _brute.get(key)
    if s is None:
        global _allchars
        if _allchars is None:
            _allchars = "".join(map(chr, range(0x110000)))
        rs = []
        for m in _re.finditer("(?:%s)+" % src, _allchars, flags):
            rs.append((m.start(), m.end() - 1))
        s = _brute[key] = iset(rs)
    return s


_CAT = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
        C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}


def _esc(o):
    return "\\U%08x" % o


def in_set(items, flags):
    f = flags & (_re.A | _re.I)
    if f & _re.I:
        src = ""
        neg = False
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                src += _esc(av)
            elif op is C.RANGE:
                src += _esc(av[0]) + "-" + _esc(av[1])
            elif op is C.CATEGORY:
                src += _CAT[av]
            else:
                raise Unsupported("class item %s" % op)
        s = brute("[" + src + "]", f)
        return inter(UNI, compl(s)) if neg else s
    s = EMPTY
    neg = False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            s = union(s, single(av))
        elif op is C.RANGE:
            s = union(s, iset([av]))
        elif op is C.CATEGORY:
            s = union(s, brute(_CAT[av], f))
        else:
            raise Unsupported("class item %s" % op)
    return inter(UNI, compl(s)) if neg else s


LF = single(10)


def single_set(op, av, flags):
    """ISet of a one-character node, or None."""
    if op is C.LITERAL:
        if flags & _re.I:
            return brute(_esc(av), flags & (_re.A | _re.I))
        return single(av)
    if op is C.NOT_LITERAL:
        if flags & _re.I:
            return inter(UNI, compl(brute(_esc(av), flags & (_re.A | _re.I))))
        return inter(UNI, compl(single(av)))
    if op is C.ANY:
        return UNI if flags & _re.S else inter(UNI, compl(LF))
    if op is C.IN:
        return in_set(av, flags)
    if op is C.CATEGORY:
        return in_set([(op, av)], flags)
    return None


class _M:
    """State of one match attempt."""
    __slots__ = ("cs", "n", "g", "pos")


def _seq(nodes, flags, k):
    for op, av in reversed(list(nodes)):
        k = _node(op, av, flags, k)
    return k


def _node(op, av, flags, k):
    """Matcher closure m(state, i) -> end or -1, continuing with k."""
    s = single_set(op, av, flags)
    if s is not None:
        def m(st, i):
            if i < st.n and isin(st.cs[i], s):
                return k(st, i + 1)
            return -1
        return m
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        hi = None if hi is C.MAXREPEAT else hi
        if len(sub) == 1:
            s1 = single_set(sub[0][0], sub[0][1], flags)
            if s1 is not None:
                return _rep1(op, lo, hi, s1, k)
        return _rep(op, lo, hi, sub, flags, k)
    if op is C.SUBPATTERN:
        gid, add, dele, sub = av
        f2 = (flags | add) & ~dele
        if gid is None:
            return _seq(sub, f2, k)

        def close(st, i):
            old = st.g.get(gid)
            last = st.g.get("last")
            st.g[gid] = (st.g[("s", gid)], i)
            st.g["last"] = gid
            r = k(st, i)
            if r < 0:
                st.g["last"] = last
                if old is None:
                    st.g.pop(gid, None)
                else:
                    st.g[gid] = old
            return r
        body = _seq(sub, f2, close)

        def m(st, i):
            key = ("s", gid)
            old = st.g.get(key)
            st.g[key] = i
            r = body(st, i)
            if r < 0:
                if old is None:
                    st.g.pop(key, None)
                else:
                    st.g[key] = old
            return r
        return m
    if op is C.BRANCH:
        alts = [_seq(a, flags, k) for a in av[1]]

        def m(st, i):
            for a in alts:
                r = a(st, i)
                if r >= 0:
                    return r
            return -1
        return m
    if op is C.AT:
        return _at(av, flags, k)
    if op in (C.ASSERT, C.ASSERT_NOT):
        d, sub = av
        body = _seq(sub, flags, lambda st, i: i)
        w = 0
        if d < 0:
            lo, hi = sub.getwidth()
            if lo != hi:
                raise Unsupported("variable lookbehind")
            w = lo
        neg = op is C.ASSERT_NOT

        def m(st, i):
            j = i - w
            if j < 0:
                ok = False
            elif neg:
                saved = dict(st.g)
                ok = body(st, j) >= 0
                st.g = saved
            else:
                ok = body(st, j) >= 0
            if ok == neg:
                return -1
            return k(st, i)
        return m
    if op is C.ATOMIC_GROUP:
        body = _seq(av, flags, lambda st, i: i)

        def m(st, i):
            r = body(st, i)
            return -1 if r < 0 else k(st, r)
        return m
    if op is C.GROUPREF:
        if flags & _re.I:
            raise Unsupported("case-insensitive back reference")

        def m(st, i):
            g = st.g.get(av)
            if g is None:
                return -1
            a, b = g
            if i + b - a > st.n:
                return -1
            for x in range(b - a):
                if not ceq(st.cs[a + x], st.cs[i + x]):
                    return -1
            return k(st, i + b - a)
        return m
    if op is C.GROUPREF_EXISTS:
        gid, yes, no = av
        y = _seq(yes, flags, k)
        n = _seq(no, flags, k) if no else k
        return lambda st, i: y(st, i) if gid in st.g else n(st, i)
    raise Unsupported("regex node %s" % op)


def _rep1(op, lo, hi, s, k):
    if op is C.MIN_REPEAT:
        def m(st, i):
            j = i
            while True:
                if j - i >= lo:
                    r = k(st, j)
                    if r >= 0:
                        return r
                if (hi is not None and j - i >= hi) or j >= st.n or not isin(st.cs[j], s):
                    return -1
                j += 1
        return m
    poss = op is C.POSSESSIVE_REPEAT

    def m(st, i):
        j = i
        top = st.n if hi is None else min(st.n, i + hi)
        cs = st.cs
        while j < top and isin(cs[j], s):
            j += 1
        if poss:
            return k(st, j) if j - i >= lo else -1
        while j - i >= lo:
            r = k(st, j)
            if r >= 0:
                return r
            j -= 1
        return -1
    return m


def _rep(op, lo, hi, sub, flags, k):
    if op is C.POSSESSIVE_REPEAT:
        body1 = _seq(sub, flags, lambda st, i: i)

        def m(st, i):
            c = 0
            while hi is None or c < hi:
                r = body1(st, i)
                if r < 0 or (r == i and c >= lo):
                    break
                i = r
                c += 1
            return k(st, i) if c >= lo else -1
        return m
    # the counter lives on a stack in the state's group dict, keyed by this node
    key = object()
    lazy = op is C.MIN_REPEAT

    def again(st, i):
        c, start = st.g[key]
        c += 1
        if i == start and c > lo:
            return k_out(st, i)      # an empty iteration ends the loop
        return loop(st, i, c)

    def k_out(st, i):
        old = st.g.pop(key)
        r = k(st, i)
        if r < 0:
            st.g[key] = old
        return r
    body = _seq(sub, flags, again)

    def loop(st, i, c):
        old = st.g.get(key)

        def iterate():
            st.g[key] = (c, i)
            r = body(st, i)
            if r < 0:
                if old is None:
                    st.g.pop(key, None)
                else:
                    st.g[key] = old
            return r

        def leave():
            st.g[key] = (c, i)
            r = k_out(st, i)
            if r < 0:
                if old is None:
                    st.g.pop(key, None)
                else:
                    st.g[key] = old
            return r
        if c < lo:
            return iterate()
        if lazy:
            r = leave()
            if r >= 0:
                return r
            return iterate() if hi is None or c < hi else -1
        if hi is None or c < hi:
            r = iterate()
            if r >= 0:
                return r
        return leave()

    def m(st, i):
        old = st.g.get(key)
        r = loop(st, i, 0)
        if r < 0 and old is not None:
            st.g[key] = old
        return r
    return m


def _at(av, flags, k):
    if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not flags & _re.M):
        return lambda st, i: k(st, i) if i == 0 else -1
    if av is C.AT_BEGINNING:
        return lambda st, i: k(st, i) if i == 0 or isin(st.cs[i - 1], LF) else -1
    if av is C.AT_END_STRING:
        return lambda st, i: k(st, i) if i == st.n else -1
    if av is C.AT_END:
        if flags & _re.M:
            return lambda st, i: k(st, i) if i == st.n or isin(st.cs[i], LF) else -1
        return lambda st, i: k(st, i) if i == st.n or (i == st.n - 1 and isin(st.cs[i], LF)) else -1
    if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        w = brute(r"\w", flags & _re.A)
        want = av is C.AT_BOUNDARY

        def m(st, i):
            if st.n == 0:
                return -1
            a = i > 0 and isin(st.cs[i - 1], w)
            b = i < st.n and isin(st.cs[i], w)
            return k(st, i) if (a != b) == want else -1
        return m
    raise Unsupported("regex anchor %s" % av)


class Prog:
    def __init__(self, pattern, flags):
        tree = P.parse(pattern, flags)
        self.flags = tree.state.flags | flags
        nodes = list(tree)

        def done(st, i):
            if st.g.get("must") == i:
                return -1
            return i

        def full(st, i):
            return i if i == st.n and st.g.get("must") != i else -1
        self.m = _seq(nodes, self.flags, done)
        self.fm = _seq(nodes, self.flags, full)


def _endpos(cs, pos, endpos):
    n = len(cs)
    e = n if endpos is None else max(0, min(endpos.__index__(), n))
    p = max(0, min(pos.__index__(), n))
    return p, e


class Pattern:
    """Wrapper of a compiled pattern."""

    def __init__(self, real):
        self.real = real
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Prog(self.real.pattern, self.real.flags)
        return self._prog

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __repr__(self):
        return repr(self.real)

    def __eq__(self, o):
        return isinstance(o, Pattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _try(self, cs, i, e, full=False, must=None):
        st = _M()
        st.cs, st.n, st.g = cs, e, {}
        if must is not None:
            st.g["must"] = must
        r = (self.prog.fm if full else self.prog.m)(st, i)
        if r < 0:
            return None
        return i, r, {g: v for g, v in st.g.items() if type(g) is int or g == "last"}

    def _find(self, s, pos, e, must=False):
        cs = s.c
        for i in range(pos, e + 1):
            r = self._try(cs, i, e, must=i if must and i == pos else None)
            if r:
                return Match(self, s, r, pos, e)
        return None

    def _iter(self, s, pos, e):
        must = False
        while pos <= e:
            m = self._find(s, pos, e, must)
            if m is None:
                return
            yield m
            must = m.end() == m.start()
            pos = m.end()

    def match(self, string, pos=0, endpos=None):
        if not isinstance(string, SymStr):
            return _wrap(self.real.match(string, pos, *(() if endpos is None else (endpos,))), self)
        p, e = _endpos(string.c, pos, endpos)
        r = self._try(string.c, p, e)
        return Match(self, string, r, p, e) if r else None

    def fullmatch(self, string, pos=0, endpos=None):
        if not isinstance(string, SymStr):
            return _wrap(self.real.fullmatch(string, pos, *(() if endpos is None else (endpos,))), self)
        p, e = _endpos(string.c, pos, endpos)
        r = self._try(string.c, p, e, True)
        return Match(self, string, r, p, e) if r else None

    def search(self, string, pos=0, endpos=None):
        if not isinstance(string, SymStr):
            return _wrap(self.real.search(string, pos, *(() if endpos is None else (endpos,))), self)
        p, e = _endpos(string.c, pos, endpos)
        return self._find(string, p, e)

    def finditer(self, string, pos=0, endpos=None):
        if not isinstance(string, SymStr):
            return iter([_wrap(m, self) for m in
                         self.real.finditer(string, pos, *(() if endpos is None else (endpos,)))])
        p, e = _endpos(string.c, pos, endpos)
        return self._iter(string, p, e)

    def findall(self, string, pos=0, endpos=None):
        if not isinstance(string, SymStr):
            return self.real.findall(string, pos, *(() if endpos is None else (endpos,)))
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.real.groups == 0:
                out.append(m.group())
            elif self.real.groups == 1:
                out.append(m.groups("")[0])
            else:
                out.append(m.groups(""))
        return out

    def split(self, string, maxsplit=0):
        if not isinstance(string, SymStr):
            return self.real.split(string, maxsplit)
        out = []
        last = 0
        for m in self._iter(string, 0, len(string)):
            if maxsplit and maxsplit <= 0:
                break
            out.append(string[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            if maxsplit:
                maxsplit -= 1
                if not maxsplit:
                    break
        out.append(string[last:])
        return out

    def subn(self, repl, string, count=0):
        if not isinstance(string, SymStr):
            if isinstance(repl, SymStr) or callable(repl):
                if not isstr(string):
                    return self.real.subn(repl, string, count)
                ms = [_wrap(m, self) for m in self.real.finditer(string)]
            else:
                return self.real.subn(repl, string, count)
        else:
            ms = self._iter(string, 0, len(string))
        if callable(repl):
            f = repl
        else:
            if isinstance(repl, SymStr) and any(isin(c, single(92)) for c in repl.c):
                repl = repl.conc()
            if isinstance(repl, SymStr) or "\\" not in repl:
                def f(m):
                    return repl
            else:
                def f(m):
                    return m.expand(repl)
        out = []
        last = n = 0
        for m in ms:
            if count and n >= count:
                break
            out.extend(cs_of(string[last:m.start()]))
            r = f(m)
            if r is not None:
                out.extend(cs_of(r))
            last = m.end()
            n += 1
        out.extend(cs_of(string[last:]))
        return mkstr(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def scanner(self, *a):
        raise Unsupported("re scanner")


def _wrap(m, pat):
    return None if m is None else RealMatch(m, pat)


class _MatchBase:
    def __getitem__(self, g):
        return self.group(g)

    def __bool__(self):
        return True

    def expand(self, template):
        t = P.parse_template(template, self.re.real)
        out = []
        for x in t:
            if isinstance(x, int):
                out.extend(cs_of(self.group(x) or ""))
            else:
                out.extend(cs_of(x))
        return mkstr(out)


class RealMatch(_MatchBase):
    def __init__(self, m, pat):
        self.m = m
        self.re = pat

    def __getattr__(self, name):
        return getattr(self.m, name)

    def group(self, *a):
        return self.m.group(*a)


class Match(_MatchBase):
    def __init__(self, pat, s, r, pos, endpos):
        self.re = pat
        self.string = s
        self.pos, self.endpos = pos, endpos
        self.g = dict(r[2])
        self.last = self.g.pop("last", None)
        self.g[0] = (r[0], r[1])

    def _gid(self, g):
        if isinstance(g, str):
            try:
                return self.re.real.groupindex[g]
            except KeyError:
                raise IndexError("no such group") from None
        g = g.__index__()
        if not 0 <= g <= self.re.real.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        return self.g.get(self._gid(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.real.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.real.groupindex.items()}

    @property
    def lastindex(self):
        return self.last

    @property
    def lastgroup(self):
        i = self.lastindex
        for n, j in self.re.real.groupindex.items():
            if i == j:
                return n
        return None


_pats = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, SymStr):
        pattern = pattern.conc()
    if isinstance(pattern, _re.Pattern):
        real = pattern
    else:
        real = _re.compile(pattern, flags)
    p = _pats.get(real)
    if p is None:
        p = _pats[real] = Pattern(real)
    return p


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)


def escape(pattern):
    if isinstance(pattern, SymStr):
        special = iset([(c, c) for c in _re._special_chars_map])
        out = []
        for c in pattern.c:
            if isin(c, special):
                out.append(92)
            out.append(c)
        return mkstr(out)
    return _re.escape(pattern)


def purge():
    pass


for _n in ("A I L M S X U T NOFLAG ASCII IGNORECASE LOCALE MULTILINE DOTALL VERBOSE UNICODE DEBUG "
           "RegexFlag error").split():
    if hasattr(_re, _n):
        globals()[_n] = getattr(_re, _n)
PatternError = _re.error
