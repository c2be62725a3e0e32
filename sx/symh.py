"""Symbolic realisation of the harness object."""
from . import core, values
from .api import ranges, UNICODE_TEXT
from .core import Engine, iset, ViolationFound
from .values import SymStr, SymInt, SymBool, mkbool, mkint, mkstr, bnode, isstr

_domcache = {}


def domset(dom, minus):
    key = (dom if isinstance(dom, str) else tuple(dom), minus if isinstance(minus, str) else tuple(minus))
    s = _domcache.get(key)
    if s is None:
        s = _domcache[key] = iset(ranges(dom, minus))
    return s


class SymH:
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        self.inputs = {}           # name -> var node
        self.observed = []
        self.checks = 0
        self.queries = 0
        self.reached = set()

    def _var(self, name, dom):
        v = core.var(name, dom)
        if name in self.inputs:
            raise AssertionError("input %r declared twice" % name)
        self.inputs[name] = v
        self.e._all_vars.append(v)
        return v

    def _char(self, name, s):
        v = self._var(name, s)
        if s.size == 1:
            return s.r[0][0]
        return v

    def char(self, name, dom=UNICODE_TEXT, minus=""):
        return mkstr((self._char(name, domset(dom, minus)),))

    def text(self, name, n, dom=UNICODE_TEXT, minus=""):
        s = domset(dom, minus)
        return mkstr(tuple(self._char("%s[%d]" % (name, i), s) for i in range(n)))

    def int(self, name, lo=None, hi=None):
        return SymInt(self._var(name, iset([(core.NEG if lo is None else lo, core.POS if hi is None else hi)])))

    def bool(self, name):
        return bool(SymInt(self._var(name, iset([(0, 1)]))) == 1)

    def choose(self, name, n):
        return SymInt(self._var(name, iset([(0, n - 1)]))).__index__()

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def assume(self, cond):
        self.e.assume(bnode(cond))

    def _assert(self, node, msg):
        self.checks += 1
        if node is core.TRUE:
            return
        if self.e.can_be_false(node):
            self.e._add(core.nnot(node))
            self.e.dead = ViolationFound(msg)
            raise self.e.dead
        self.e.known[node] = True

    def check(self, cond, msg):
        self._assert(bnode(cond) if isinstance(cond, SymBool) else (core.TRUE if cond else core.FALSE), msg)

    def equal(self, got, want, msg):
        if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
            if type(got) is not type(want) or len(got) != len(want):
                self._assert(core.FALSE, msg)
                return
            for g, w in zip(got, want):
                self.equal(g, w, msg)
            return
        r = got == want
        self._assert(bnode(r) if isinstance(r, SymBool) else (core.TRUE if r else core.FALSE), msg)

    def observe(self, label, value):
        self.observed.append((label, value))

    def reach(self, label):
        self.reached.add(label)


def evaluate(v, m):
    """Concrete value of a (possibly symbolic) value under a model {var: int}."""
    if isinstance(v, SymStr):
        return "".join(chr(c) if type(c) is int else
                       chr(m[c[1]] + c[2]) if type(c) is tuple else chr(m[c]) for c in v.c)
    if isinstance(v, SymInt):
        return core.ceval(v.n, m)
    if isinstance(v, SymBool):
        return core.beval(v.n, m)
    t = type(v)
    if t is list:
        return [evaluate(x, m) for x in v]
    if t is tuple:
        return tuple(evaluate(x, m) for x in v)
    if isinstance(v, dict):
        return {k: evaluate(x, m) for k, x in v.items()}
    return v
