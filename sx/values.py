"""Symbolic values: SymBool, SymInt, SymStr (fixed length, symbolic characters).

A character is a Python int (concrete code point), a variable node, or ('o', var, k): the
character var + k (the result of an ASCII case mapping).  A string whose characters are all
concrete is always represented by a real str.
"""
import sys
import _string
from . import core
from .core import (Engine, Node, iset, inter, compl, union, shift, single, chars, nin, nnot, nand, nor,
                   nadd, nmul, nmulc, nle, neq0, TRUE, FALSE, Unsupported, NEG, POS)


class Sym:
    __slots__ = ()


def branch(n):
    return Engine.cur.branch(n)


def mkbool(n):
    if n is TRUE:
        return True
    if n is FALSE:
        return False
    return SymBool(n)


def bnode(b):
    if isinstance(b, SymBool):
        return b.n
    return TRUE if b else FALSE


class SymBool(Sym):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return branch(self.n)

    def __and__(self, o):
        return mkbool(nand([self.n, bnode(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(nor([self.n, bnode(o)]))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(nnot(self.n))

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return bool(self) < o

    def __gt__(self, o):
        return bool(self) > o

    def __repr__(self):
        return repr(bool(self))
    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)


def mkint(n):
    return n if isinstance(n, int) else SymInt(n)


def inode(x):
    """Term of an int-like value, or None."""
    if isinstance(x, SymInt):
        return x.n
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    return None


def _icmp(f):
    def g(self, o):
        b = inode(o)
        if b is None:
            if isinstance(o, float):
                return f(self, o)
            return NotImplemented
        return f(self, b)
    return g


class SymInt(Sym):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def _bin(self, o, fn):
        b = inode(o)
        if b is None:
            return NotImplemented
        return mkint(fn(self.n, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: nadd(a, b))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: nadd(a, b, -1))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: nadd(nmulc(a, -1), b))

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._bin(o, nmul)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(nmulc(self.n, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    @staticmethod
    def _dm(a, b):
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        elif branch(neq0(b)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if not isinstance(b, int):
            b = Engine.cur.concretise(b)
        if isinstance(a, int):
            return a // b, a % b
        if b == 1:
            return a, 0
        return core._ndm("div", a, b), core._ndm("mod", a, b)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: self._dm(a, b)[0])

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: self._dm(b, a)[0])

    def __mod__(self, o):
        return self._bin(o, lambda a, b: self._dm(a, b)[1])

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: self._dm(b, a)[1])

    def __divmod__(self, o):
        b = inode(o)
        if b is None:
            return NotImplemented
        q, r = self._dm(self.n, b)
        return mkint(q), mkint(r)

    def __rdivmod__(self, o):
        b = inode(o)
        if b is None:
            return NotImplemented
        q, r = self._dm(b, self.n)
        return mkint(q), mkint(r)

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o):
        return self.__index__() ** o

    @staticmethod
    def _cmp(n):
        return mkbool(n)

    def __lt__(self, o):
        b = inode(o)
        return NotImplemented if b is None else mkbool(nle(nadd(nadd(self.n, b, -1), 1)))

    def __le__(self, o):
        b = inode(o)
        return NotImplemented if b is None else mkbool(nle(nadd(self.n, b, -1)))

    def __gt__(self, o):
        b = inode(o)
        return NotImplemented if b is None else mkbool(nle(nadd(nadd(nmulc(self.n, -1), b), 1)))

    def __ge__(self, o):
        b = inode(o)
        return NotImplemented if b is None else mkbool(nle(nadd(nmulc(self.n, -1), b)))

    def __eq__(self, o):
        b = inode(o)
        return False if b is None else mkbool(neq0(nadd(self.n, b, -1)))

    def __ne__(self, o):
        b = inode(o)
        return True if b is None else mkbool(nnot(neq0(nadd(self.n, b, -1))))

    def __bool__(self):
        return branch(nnot(neq0(self.n)))

    def __index__(self):
        return Engine.cur.concretise(self.n)
    __int__ = __index__
    __trunc__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())
    __repr__ = __str__

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def digits(self):
        """Decimal representation with symbolic digits."""
        neg = bool(self < 0)
        v = -self if neg else self
        nd = 1
        while bool(v >= 10 ** nd):
            nd += 1
            if nd > 12:
                raise Unsupported("decimal representation of an unbounded integer")
        if nd == 1:
            t = v.n
            if isinstance(t, int):
                cs = (48 + t,)
            elif t.k == "v":
                cs = (mkoff(t, 48),)
            else:
                cs = (_fresh_eq(t, 0, 9),)
        else:
            rest = v.n
            cs = []
            ds = []
            eng = Engine.cur
            for i in range(nd):
                eng.nvars += 1
                d = core.var("digit%d" % eng.nvars, iset([(1 if i == 0 else 0, 9)]))
                eng._all_vars.append(d)
                ds.append(d)
                rest = nadd(rest, nmulc(d, 10 ** (nd - 1 - i)), -1)
            eng.assume(neq0(rest))
            cs = tuple(mkoff(d, 48) for d in ds)
        return mkstr((45,) + tuple(cs) if neg else tuple(cs))


def _fresh_eq(t, lo, hi):
    eng = Engine.cur
    eng.nvars += 1
    d = core.var("digit%d" % eng.nvars, iset([(lo, hi)]))
    eng._all_vars.append(d)
    eng.assume(neq0(nadd(t, d, -1)))
    return mkoff(d, 48)


# ---------------------------------------------------------------- characters

_OFF = {}


def mkoff(v, k):
    if k == 0:
        return v
    key = (v.id, k)
    r = _OFF.get(key)
    if r is None:
        r = _OFF[key] = ("o", v, k)
    return r


def cin(c, s):
    """Node: character c is in set s."""
    if type(c) is int:
        return TRUE if s.has(c) else FALSE
    if type(c) is tuple:
        return nin(c[1], shift(s, -c[2]))
    return nin(c, s)


def isin(c, s):
    if type(c) is int:
        return s.has(c)
    return branch(cin(c, s))


def cnode(c):
    """Integer term of a character."""
    if type(c) is tuple:
        return nadd(c[1], c[2])
    return c


def ceqn(a, b):
    if type(a) is int:
        if type(b) is int:
            return TRUE if a == b else FALSE
        return cin(b, single(a))
    if type(b) is int:
        return cin(a, single(b))
    if a is b:
        return TRUE
    return neq0(nadd(cnode(a), cnode(b), -1))


def ceq(a, b):
    n = ceqn(a, b)
    return branch(n)


def cdom(c):
    if type(c) is int:
        return single(c)
    if type(c) is tuple:
        return shift(Engine.cur.domain(c[1]), c[2])
    return Engine.cur.domain(c)


_PRED = {}


def pred(name):
    """Set of the code points whose one-character string satisfies the str method."""
    s = _PRED.get(name)
    if s is None:
        f = getattr(str, name)
        rs = []
        start = None
        for i in range(0x110000):
            if f(chr(i)):
                if start is None:
                    start = i
            elif start is not None:
                rs.append((start, i - 1))
                start = None
        if start is not None:
            rs.append((start, 0x10ffff))
        s = _PRED[name] = iset(rs)
    return s


AZ = iset([(97, 122)])
UAZ = iset([(65, 90)])
ASCII = iset([(0, 127)])
_stable = {}


def stable_under(name):
    """Code points that a case mapping leaves alone."""
    s = _stable.get(name)
    if s is None:
        f = getattr(str, name)
        rs = []
        start = None
        for i in range(0x110000):
            c = chr(i)
            if f(c) == c:
                if start is None:
                    start = i
            elif start is not None:
                rs.append((start, i - 1))
                start = None
        if start is not None:
            rs.append((start, 0x10ffff))
        s = _stable[name] = iset(rs)
    return s


def map_case(c, name):
    """Characters (tuple) of a case-mapped character.  Sigma's context rule is not modelled."""
    if type(c) is int:
        return tuple(map(ord, getattr(chr(c), name)()))
    if isin(c, stable_under(name)):
        return (c,)
    if name in ("upper", "title", "capitalize", "swapcase") and isin(c, AZ):
        v, k = (c[1], c[2]) if type(c) is tuple else (c, 0)
        return (mkoff(v, k - 32),)
    if name in ("lower", "casefold", "swapcase") and isin(c, UAZ):
        v, k = (c[1], c[2]) if type(c) is tuple else (c, 0)
        return (mkoff(v, k + 32),)
    return tuple(map(ord, getattr(chr(conc_char(c)), name)()))


def conc_char(c):
    if type(c) is int:
        return c
    if type(c) is tuple:
        return Engine.cur.concretise(c[1]) + c[2]
    return Engine.cur.concretise(c)


# ---------------------------------------------------------------- strings

def mkstr(cs):
    for c in cs:
        if type(c) is not int:
            return SymStr(tuple(cs))
    return "".join(map(chr, cs))


def cs_of(s):
    """Characters of a str / SymStr."""
    if type(s) is SymStr:
        return s.c
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError("expected str, got %s" % type(s).__name__)


def isstr(x):
    return isinstance(x, (str, SymStr))


def _idx(i, n, default):
    if i is None:
        return default
    i = i.__index__()
    if i < 0:
        i += n
        return 0 if i < 0 else i
    return n if i > n else i


SPACE_CHARS = None


def cs_eq_node(a, b):
    if len(a) != len(b):
        return FALSE
    return nand([ceqn(x, y) for x, y in zip(a, b)])


def match_at(cs, i, sub):
    """Does sub occur in cs at i?  Decided by forking."""
    for j, x in enumerate(sub):
        if not ceq(cs[i + j], x):
            return False
    return True


LINE_BREAKS = chars("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
CR, LF = 13, 10
BRACES = chars("{}")


class SymStr(Sym):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    # -- conversions
    def conc(self):
        """Fork over every feasible value; a real str."""
        return "".join(chr(conc_char(c)) for c in self.c)

    def __str__(self):
        return self.conc()

    def __repr__(self):
        return repr(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported("str.%s" % name)
        raise AttributeError("'str' object has no attribute %r" % name)

    # -- sequence protocol
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for c in self.c:
            yield mkstr((c,))

    def __reversed__(self):
        for c in self.c[::-1]:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[slice(*[None if x is None else x.__index__()
                                        for x in (i.start, i.stop, i.step)])])
        try:
            return mkstr((self.c[i.__index__()],))
        except IndexError:
            raise IndexError("string index out of range") from None

    def __contains__(self, sub):
        if not isstr(sub):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(sub).__name__)
        return self.find(sub) >= 0

    def contains_node(self, sub):
        """Single condition (no fork) for one-character needles."""
        s = cs_of(sub)
        if len(s) == 1:
            return nor([ceqn(c, s[0]) for c in self.c])
        return None

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(self.c + cs_of(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(cs_of(o) + self.c)

    def __mul__(self, n):
        try:
            n = n.__index__()
        except AttributeError:
            return NotImplemented
        return mkstr(self.c * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        return percent_format(self, args)

    def __rmod__(self, o):
        return percent_format(o, self)

    def __eq__(self, o):
        if not isstr(o):
            return False
        return mkbool(cs_eq_node(self.c, cs_of(o)))

    def __ne__(self, o):
        if not isstr(o):
            return True
        return mkbool(nnot(cs_eq_node(self.c, cs_of(o))))

    def _less(self, o, orequal):
        if not isstr(o):
            return NotImplemented
        a, b = self.c, cs_of(o)
        for x, y in zip(a, b):
            if ceq(x, y):
                continue
            return mkbool(nle(nadd(nadd(cnode(x), cnode(y), -1), 1)))
        return len(a) <= len(b) if orequal else len(a) < len(b)

    def __lt__(self, o):
        return self._less(o, False)

    def __le__(self, o):
        return self._less(o, True)

    def __gt__(self, o):
        r = self._less(o, True)
        return r if r is NotImplemented else mkbool(nnot(bnode(r)))

    def __ge__(self, o):
        r = self._less(o, False)
        return r if r is NotImplemented else mkbool(nnot(bnode(r)))

    # -- searching
    def _range(self, start, end):
        n = len(self.c)
        return _idx(start, n, 0) if start is None or start.__index__() <= n else n + 1, _idx(end, n, n)

    def find(self, sub, start=None, end=None):
        lo, hi = self._range(start, end)
        s = cs_of(sub)
        for i in range(lo, hi - len(s) + 1):
            if match_at(self.c, i, s):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        lo, hi = self._range(start, end)
        s = cs_of(sub)
        for i in range(hi - len(s), lo - 1, -1):
            if match_at(self.c, i, s):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        lo, hi = self._range(start, end)
        s = cs_of(sub)
        if not s:
            return max(0, hi - lo + 1)
        i, n = lo, 0
        while i <= hi - len(s):
            if match_at(self.c, i, s):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            for x in p:
                if self.startswith(x, start, end):
                    return True
            return False
        lo, hi = self._range(start, end)
        s = cs_of(p)
        if hi - lo < len(s):
            return False
        return mkbool(cs_eq_node(self.c[lo:lo + len(s)], s))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            for x in p:
                if self.endswith(x, start, end):
                    return True
            return False
        lo, hi = self._range(start, end)
        s = cs_of(p)
        if hi - lo < len(s):
            return False
        return mkbool(cs_eq_node(self.c[hi - len(s):hi], s))

    # -- predicates
    def _all(self, name):
        if not self.c:
            return False
        s = pred(name)
        return mkbool(nand([cin(c, s) for c in self.c]))

    def isspace(self):
        return self._all("isspace")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isprintable(self):
        return self._all("isprintable")

    def isascii(self):
        return mkbool(nand([cin(c, ASCII) for c in self.c]))

    def _cased(self, yes):
        no = union(pred("isupper" if yes == "islower" else "islower"), pred("istitle"))
        if yes == "isupper":
            no = union(pred("islower"), iset([(ord(x), ord(x)) for x in
                                              map(chr, range(0x1c5, 0x1c6))]))
        seen = False
        for c in self.c:
            if isin(c, pred(yes)):
                seen = True
            elif isin(c, no):
                return False
        return seen

    def islower(self):
        return self._cased("islower")

    def isupper(self):
        return self._cased("isupper")

    # -- stripping and splitting
    def _stripset(self, ch):
        if ch is None:
            s = pred("isspace")
            return lambda c: isin(c, s)
        if isinstance(ch, str):
            s = chars(ch)
            return lambda c: isin(c, s)
        cs = cs_of(ch)
        return lambda c: branch(nor([ceqn(c, x) for x in cs]))

    def lstrip(self, ch=None):
        f = self._stripset(ch)
        i = 0
        while i < len(self.c) and f(self.c[i]):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, ch=None):
        f = self._stripset(ch)
        j = len(self.c)
        while j > 0 and f(self.c[j - 1]):
            j -= 1
        return mkstr(self.c[:j])

    def strip(self, ch=None):
        f = self._stripset(ch)
        i, j = 0, len(self.c)
        while i < j and f(self.c[i]):
            i += 1
        while j > i and f(self.c[j - 1]):
            j -= 1
        return mkstr(self.c[i:j])

    def removeprefix(self, p):
        return self[len(p):] if p and bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and bool(self.endswith(p)) else self

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        out = []
        cs, n = self.c, len(self.c)
        if sep is None:
            s = pred("isspace")
            i = 0
            while True:
                while i < n and isin(cs[i], s):
                    i += 1
                if i == n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(cs[i:]))
                    break
                j = i
                while j < n and not isin(cs[j], s):
                    j += 1
                out.append(mkstr(cs[i:j]))
                i = j
            return out
        sp = cs_of(sep)
        if not sp:
            raise ValueError("empty separator")
        i = last = 0
        while i <= n - len(sp):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if match_at(cs, i, sp):
                out.append(mkstr(cs[last:i]))
                i += len(sp)
                last = i
            else:
                i += 1
        out.append(mkstr(cs[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if maxsplit < 0:
            return self.split(sep)
        out = []
        cs = self.c
        if sep is None:
            s = pred("isspace")
            j = len(cs)
            while True:
                while j > 0 and isin(cs[j - 1], s):
                    j -= 1
                if j == 0:
                    break
                if len(out) >= maxsplit:
                    x = mkstr(cs[:j])
                    out.append(x)
                    break
                i = j
                while i > 0 and not isin(cs[i - 1], s):
                    i -= 1
                out.append(mkstr(cs[i:j]))
                j = i
            return out[::-1]
        sp = cs_of(sep)
        if not sp:
            raise ValueError("empty separator")
        j = len(cs)
        i = j - len(sp)
        while i >= 0:
            if len(out) >= maxsplit:
                break
            if match_at(cs, i, sp):
                out.append(mkstr(cs[i + len(sp):j]))
                j = i
                i -= len(sp)
            else:
                i -= 1
        out.append(mkstr(cs[:j]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        out = []
        cs, n = self.c, len(self.c)
        i = 0
        while i < n:
            j = i
            while j < n and not isin(cs[j], LINE_BREAKS):
                j += 1
            e = j
            if j < n:
                if ceq(cs[j], CR) and j + 1 < n and ceq(cs[j + 1], LF):
                    e = j + 2
                else:
                    e = j + 1
            out.append(mkstr(cs[i:e] if keepends else cs[i:j]))
            i = e
        return out

    def join(self, items):
        return join(self, items)

    def replace(self, old, new, count=-1):
        o, w = cs_of(old), cs_of(new)
        cs, n = self.c, len(self.c)
        out = []
        i = k = 0
        if not o:
            for c in cs:
                if count < 0 or k < count:
                    out.extend(w)
                    k += 1
                out.append(c)
            if count < 0 or k < count:
                out.extend(w)
            return mkstr(out)
        while i < n:
            if i <= n - len(o) and (count < 0 or k < count) and match_at(cs, i, o):
                out.extend(w)
                i += len(o)
                k += 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        keys = None
        for c in self.c:
            if type(c) is not int:
                if keys is None:
                    if not isinstance(table, dict):
                        raise Unsupported("translate with a non-dict table")
                    keys = {}
                    for k, v in table.items():
                        keys.setdefault(v, []).append((k, k))
                    keys = [(iset(ks), v) for v, ks in keys.items()]
                for s, v in keys:
                    if isin(c, s):
                        break
                else:
                    out.append(c)
                    continue
            else:
                try:
                    v = table[c]
                except LookupError:
                    out.append(c)
                    continue
            if v is None:
                continue
            if isinstance(v, int):
                out.append(v)
            else:
                out.extend(cs_of(v))
        return mkstr(out)

    def expandtabs(self, tabsize=8):
        tabsize = tabsize.__index__()
        out = []
        col = 0
        nlcr = chars("\n\r")
        for c in self.c:
            if ceq(c, 9):
                if tabsize > 0:
                    k = tabsize - col % tabsize
                    out.extend([32] * k)
                    col += k
            else:
                out.append(c)
                col += 1
                if isin(c, nlcr):
                    col = 0
        return mkstr(out)

    # -- padding
    def ljust(self, w, fill=" "):
        w = w.__index__()
        return mkstr(self.c + cs_of(fill) * max(0, w - len(self.c)))

    def rjust(self, w, fill=" "):
        w = w.__index__()
        return mkstr(cs_of(fill) * max(0, w - len(self.c)) + self.c)

    def center(self, w, fill=" "):
        w = w.__index__()
        pad = w - len(self.c)
        if pad <= 0:
            return self
        left = pad // 2 + (pad & w & 1)
        f = cs_of(fill)
        return mkstr(f * left + self.c + f * (pad - left))

    def zfill(self, w):
        w = w.__index__()
        if w <= len(self.c):
            return self
        if self.c and isin(self.c[0], chars("+-")):
            return mkstr(self.c[:1] + (48,) * (w - len(self.c)) + self.c[1:])
        return mkstr((48,) * (w - len(self.c)) + self.c)

    # -- case
    def _map(self, name):
        out = []
        for c in self.c:
            out.extend(map_case(c, name))
        return mkstr(out)

    def upper(self):
        return self._map("upper")

    def lower(self):
        return self._map("lower")

    def casefold(self):
        return self._map("casefold")

    def swapcase(self):
        return self._map("swapcase")

    def capitalize(self):
        if not self.c:
            return self
        return mkstr(tuple(map_case(self.c[0], "title")) + cs_of(mkstr(self.c[1:]).lower()))

    def title(self):
        out = []
        prev = False
        cased = union(union(pred("islower"), pred("isupper")), pred("istitle"))
        for c in self.c:
            out.extend(map_case(c, "lower" if prev else "title"))
            prev = isin(c, cased)
        return mkstr(out)

    def isidentifier(self):
        return self.conc().isidentifier()

    def istitle(self):
        return self.conc().istitle()

    def encode(self, *a, **k):
        return self.conc().encode(*a, **k)

    # -- formatting
    def format(self, *args, **kwargs):
        return sformat(self, args, kwargs)

    def format_map(self, m):
        return sformat(self, (), m)

    def __format__(self, spec):
        r = format_value(self, spec)
        return r if isinstance(r, str) else r.conc()


def join(sep, items):
    out = []
    first = True
    s = cs_of(sep)
    for i, x in enumerate(items):
        if not first:
            out.extend(s)
        first = False
        if not isstr(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        out.extend(cs_of(x))
    return mkstr(out)


# ---------------------------------------------------------------- format()

def to_str(v):
    """str(v), symbolic where v is."""
    if isstr(v):
        return v
    if isinstance(v, SymInt):
        return v.digits()
    return str(v)


def format_value(v, spec):
    """format(v, spec)"""
    if isinstance(spec, SymStr):
        spec = spec.conc()
    if not spec:
        if isstr(v):
            return v
        if isinstance(v, SymInt):
            return v.digits()
        return format(v, "")
    if isinstance(v, SymInt):
        if spec == "d":
            return v.digits()
        return format(v.__index__(), spec)
    if isinstance(v, SymStr):
        import re
        m = re.fullmatch(r"(?:(.)?([<>^]))?(0)?(\d+)?(?:\.(\d+))?s?", spec, re.S)
        if not m:
            raise Unsupported("format spec %r" % spec)
        fill, al, zero, w, p = m.groups()
        if zero and not al:
            fill, al = "0", "<"
        s = v
        if p is not None:
            s = s[:int(p)]
        if w:
            fill = fill or " "
            w = int(w)
            if isinstance(s, str):
                return format(s, (fill + (al or "<")) + str(w))
            if al == ">":
                return s.rjust(w, fill)
            if al == "^":
                pad = max(0, w - len(s))
                return fill * (pad // 2) + s + fill * (pad - pad // 2)
            return s.ljust(w, fill)
        return s
    return format(v, spec)


def convert_field(v, conv):
    if conv is None or conv == "":
        return v
    if conv == "s":
        return to_str(v)
    if conv == "r":
        return repr(v)
    if conv == "a":
        return ascii(v if not isinstance(v, Sym) else (v.conc() if isinstance(v, SymStr) else v.__index__()))
    raise ValueError("Unknown conversion specifier %r" % conv)


def parse_format(tmpl):
    """The template as a list of (literal chars, field or None); forks on symbolic braces."""
    if isinstance(tmpl, str):
        for lit, name, spec, conv in _string.formatter_parser(tmpl):
            yield tuple(map(ord, lit)), (None if name is None else (name, spec, conv))
        return
    cs, n = tmpl.c, len(tmpl.c)
    lit = []
    i = 0
    while i < n:
        c = cs[i]
        if ceq(c, 123):
            if i + 1 >= n:
                raise ValueError("Single '{' encountered in format string")
            if ceq(cs[i + 1], 123):
                lit.append(123)
                i += 2
                continue
            # a replacement field: find its end
            depth = 1
            j = i + 1
            while j < n:
                if ceq(cs[j], 123):
                    depth += 1
                elif ceq(cs[j], 125):
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            if j >= n:
                raise ValueError("expected '}' before end of string")
            body = mkstr(cs[i + 1:j])
            if isinstance(body, SymStr):
                body = body.conc()
            parts = list(_string.formatter_parser("{" + body + "}"))
            (_, name, spec, conv), = parts
            yield tuple(lit), (name, spec, conv)
            lit = []
            i = j + 1
        elif ceq(c, 125):
            if i + 1 < n and ceq(cs[i + 1], 125):
                lit.append(125)
                i += 2
                continue
            raise ValueError("Single '}' encountered in format string")
        else:
            lit.append(c)
            i += 1
    if lit:
        yield tuple(lit), None


def sformat(tmpl, args, kwargs, depth=2, auto=None):
    if depth < 0:
        raise ValueError("Max string recursion exceeded")
    out = []
    auto = auto if auto is not None else [0]
    for lit, field in parse_format(tmpl):
        out.extend(lit)
        if field is None:
            continue
        name, spec, conv = field
        first, rest = _string.formatter_field_name_split(name)
        if first == "":
            if auto[0] is False:
                raise ValueError("cannot switch from manual field specification to automatic field numbering")
            first = auto[0]
            auto[0] += 1
        elif isinstance(first, int):
            if auto[0]:
                raise ValueError("cannot switch from automatic field numbering to manual field specification")
            auto[0] = False
        if isinstance(first, int):
            if first >= len(args):
                raise IndexError("Replacement index %d out of range for positional args tuple" % first)
            v = args[first]
        else:
            v = kwargs[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else v[i]
        v = convert_field(v, conv)
        if spec and "{" in spec:
            spec = sformat(spec, args, kwargs, depth - 1, auto)
        out.extend(cs_of(format_value(v, spec)))
    return mkstr(out)


def has_sym(x, deep=2):
    if isinstance(x, Sym):
        return True
    if deep:
        t = type(x)
        if t is list or t is tuple or t is set or t is frozenset:
            for y in x:
                if has_sym(y, deep - 1):
                    return True
        elif t is dict:
            for y in x.values():
                if has_sym(y, deep - 1):
                    return True
    return False


def deep_conc(x):
    """The value with every symbolic part made concrete (forking)."""
    if isinstance(x, SymStr):
        return x.conc()
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, SymBool):
        return bool(x)
    t = type(x)
    if t is list:
        return [deep_conc(y) for y in x]
    if t is tuple:
        return tuple(deep_conc(y) for y in x)
    if t is dict:
        return {k: deep_conc(v) for k, v in x.items()}
    return x


def percent_format(fmt, args):
    import re
    if isinstance(fmt, SymStr):
        fmt = fmt.conc()
    out = []
    pos = 0
    tup = args if isinstance(args, tuple) else (args,)
    ai = 0
    for m in re.finditer(r"%(?:\((\w*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])", fmt):
        out.extend(map(ord, fmt[pos:m.start()]))
        pos = m.end()
        key, flags, w, p, t = m.groups()
        if t == "%":
            out.append(37)
            continue
        if w == "*" or p == "*":
            return fmt % deep_conc(args)
        if key is not None:
            v = args[key]
        else:
            if ai >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[ai]
            ai += 1
        spec = "%" + flags + (w or "") + ("." + p if p else "") + t
        if not isinstance(v, Sym):
            out.extend(map(ord, spec % (v,)))
            continue
        if t == "s" and isstr(v) or (t in "sdi" and isinstance(v, SymInt)):
            s = v if isstr(v) else v.digits()
            if p:
                s = s[:int(p)]
            if w:
                if "0" in flags and t in "di":
                    s = s.zfill(int(w)) if isstr(s) else s
                else:
                    s = s.ljust(int(w)) if "-" in flags else s.rjust(int(w))
            out.extend(cs_of(s))
        else:
            out.extend(map(ord, spec % (deep_conc(v),)))
    out.extend(map(ord, fmt[pos:]))
    if not isinstance(args, tuple) and ai == 0 and "%(" not in fmt and not isinstance(args, dict):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)
