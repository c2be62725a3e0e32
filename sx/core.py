"""Symbolic execution core: integer sets, terms, the path explorer and its solver interface.

A path is one run of the (instrumented) program.  Every branch on a symbolic condition calls
Engine.branch(); the solver decides which sides are feasible under the path condition, and
both feasible sides are explored (depth first, by re-execution).  Solver queries are sliced to
the variables connected with the condition and cached by their exact content.
"""
import time
import z3

NEG = -10 ** 40          # stands for "no lower bound"
POS = 10 ** 40           # stands for "no upper bound"


class PathAbort(BaseException):
    """The current path violates an assumption: drop it."""


class Unsupported(BaseException):
    """The encoding cannot follow this operation (never swallowed by the code under test)."""


class Inconclusive(BaseException):
    """The solver answered unknown, or a bound of the engine was hit."""


class ViolationFound(BaseException):
    def __init__(self, msg):
        BaseException.__init__(self, msg)
        self.msg = msg


class Hang(ViolationFound):
    """A path that does not come to an end."""


# ---------------------------------------------------------------- integer sets

class ISet:
    __slots__ = ("r", "id")
    _tab = {}

    def __repr__(self):
        return "ISet(%s)" % (self.r[:6],)

    def has(self, x):
        for lo, hi in self.r:
            if lo <= x <= hi:
                return True
        return False

    @property
    def size(self):
        return sum(hi - lo + 1 for lo, hi in self.r)


def iset(ranges):
    """Interned normalised union of inclusive ranges."""
    rs = sorted((lo, hi) for lo, hi in ranges if lo <= hi)
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return _intern(tuple(out))


def _intern(t):
    s = ISet._tab.get(t)
    if s is None:
        s = ISet()
        s.r = t
        s.id = len(ISet._tab)
        ISet._tab[t] = s
    return s


EMPTY = iset([])
ALL = iset([(NEG, POS)])
_imemo = {}


def inter(a, b):
    if a is b:
        return a
    key = (a.id, b.id)
    r = _imemo.get(key)
    if r is None:
        out = []
        i = j = 0
        ra, rb = a.r, b.r
        while i < len(ra) and j < len(rb):
            lo = max(ra[i][0], rb[j][0])
            hi = min(ra[i][1], rb[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if ra[i][1] < rb[j][1]:
                i += 1
            else:
                j += 1
        r = _imemo[key] = _imemo[(b.id, a.id)] = _intern(tuple(out))
    return r


_cmemo = {}


def compl(a):
    r = _cmemo.get(a.id)
    if r is None:
        out = []
        cur = NEG
        for lo, hi in a.r:
            if cur <= lo - 1:
                out.append((cur, lo - 1))
            cur = hi + 1
        if cur <= POS:
            out.append((cur, POS))
        r = _cmemo[a.id] = _intern(tuple(out))
    return r


def union(a, b):
    return iset(a.r + b.r)


def shift(a, k):
    if k == 0:
        return a
    return iset([(lo if lo == NEG else lo + k, hi if hi == POS else hi + k) for lo, hi in a.r])


_single = {}


def single(c):
    r = _single.get(c)
    if r is None:
        r = _single[c] = iset([(c, c)])
    return r


def chars(s):
    return iset([(ord(c), ord(c)) for c in s])


# ---------------------------------------------------------------- terms

class Node:
    __slots__ = ("k", "a", "vars", "id", "z", "dom")

    def __repr__(self):
        if self.k == "v":
            return "%s" % (self.a[0],)
        return "(%s %s)" % (self.k, " ".join(map(repr, self.a)))


_nodes = {}
NOVARS = frozenset()


def _mk(k, a, key, vs, dom=None):
    n = _nodes.get(key)
    if n is None:
        n = Node()
        n.k, n.a, n.vars, n.id, n.z, n.dom = k, a, vs, len(_nodes), None, dom
        if vs is None:
            n.vars = frozenset((n,))
        _nodes[key] = n
    return n


def var(name, dom):
    return _mk("v", (name, dom), ("v", name, dom.id), None, dom)


TRUE = _mk("t", (), ("t",), NOVARS)
FALSE = _mk("f", (), ("f",), NOVARS)


def nin(v, s):
    """v in s for a variable node v."""
    d = v.dom
    i = inter(d, s)
    if i is d:
        return TRUE
    if not i.r:
        return FALSE
    return _mk("in", (v, i), ("in", v.id, i.id), v.vars)


def nnot(n):
    if n is TRUE:
        return FALSE
    if n is FALSE:
        return TRUE
    if n.k == "not":
        return n.a[0]
    if n.k == "in":
        return nin(n.a[0], compl(n.a[1]))
    if n.k == "le":          # not (e <= 0)  ==  1 - e <= 0
        c, terms = n.a[0].a
        return nle(lin(1 - c, tuple((v, -k) for v, k in terms)))
    return _mk("not", (n,), ("not", n.id), n.vars)


def nand(ns):
    out = []
    for n in ns:
        if n is FALSE:
            return FALSE
        if n is not TRUE:
            out.append(n)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    vs = frozenset().union(*[n.vars for n in out])
    return _mk("and", tuple(out), ("and",) + tuple(n.id for n in out), vs)


def nor(ns):
    out = []
    for n in ns:
        if n is TRUE:
            return TRUE
        if n is not FALSE:
            out.append(n)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    vs = frozenset().union(*[n.vars for n in out])
    return _mk("or", tuple(out), ("or",) + tuple(n.id for n in out), vs)


# integer terms: python int | var node | 'lin' (const, ((atom, coef)...)) | 'div' 'mod' 'ite' atoms

def lin(c, terms):
    d = {}
    for v, k in terms:
        d[v] = d.get(v, 0) + k
    ts = tuple(sorted(((v, k) for v, k in d.items() if k), key=lambda t: t[0].id))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    vs = frozenset().union(*[v.vars for v, _ in ts])
    return _mk("lin", (c, ts), ("lin", c) + tuple((v.id, k) for v, k in ts), vs)


def split_lin(n):
    if isinstance(n, int):
        return n, ()
    if n.k == "lin":
        return n.a
    return 0, ((n, 1),)


def nadd(a, b, kb=1):
    ca, ta = split_lin(a)
    cb, tb = split_lin(b)
    return lin(ca + kb * cb, ta + tuple((v, kb * k) for v, k in tb))


def nmulc(a, k):
    ca, ta = split_lin(a)
    return lin(ca * k, tuple((v, c * k) for v, c in ta))


def nmul(a, b):
    if isinstance(a, int):
        return nmulc(b, a) if not isinstance(b, int) else a * b
    if isinstance(b, int):
        return nmulc(a, b)
    return _mk("mul", (a, b), ("mul", a.id, b.id), a.vars | b.vars)


def _ndm(kind, a, b):
    bk = b if isinstance(b, int) else ("n", b.id)
    ak = a if isinstance(a, int) else ("n", a.id)
    vs = (NOVARS if isinstance(a, int) else a.vars) | (NOVARS if isinstance(b, int) else b.vars)
    return _mk(kind, (a, b), (kind, ak, bk), vs)


def nite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    ak = a if isinstance(a, int) else ("n", a.id)
    bk = b if isinstance(b, int) else ("n", b.id)
    vs = c.vars | (NOVARS if isinstance(a, int) else a.vars) | (NOVARS if isinstance(b, int) else b.vars)
    return _mk("ite", (c, a, b), ("ite", c.id, ak, bk), vs)


def nle(e):
    """e <= 0"""
    if isinstance(e, int):
        return TRUE if e <= 0 else FALSE
    c, ts = split_lin(e)
    if len(ts) == 1 and ts[0][0].k == "v":
        v, k = ts[0]
        if k > 0:
            return nin(v, iset([(NEG, (-c) // k)]))
        return nin(v, iset([(_ceil(c, -k), POS)]))
    return _mk("le", (_aslin(e),), ("le", e.id), e.vars)


def _ceil(c, k):
    """smallest x with c - k*x <= 0, k > 0"""
    return -((-c) // k)


def _aslin(e):
    if e.k == "lin":
        return e
    return _mk("lin", (0, ((e, 1),)), ("lin", 0, (e.id, 1)), e.vars)


def neq0(e):
    if isinstance(e, int):
        return TRUE if e == 0 else FALSE
    c, ts = split_lin(e)
    if len(ts) == 1 and ts[0][0].k == "v":
        v, k = ts[0]
        if c % k:
            return FALSE
        return nin(v, single(-c // k))
    return _mk("eq0", (_aslin(e),), ("eq0", e.id), e.vars)


def ceval(n, m):
    """Value of a term under a model {var node: int}."""
    if isinstance(n, int):
        return n
    k = n.k
    if k == "v":
        return m[n]
    if k == "lin":
        return n.a[0] + sum(ceval(v, m) * c for v, c in n.a[1])
    if k == "mul":
        return ceval(n.a[0], m) * ceval(n.a[1], m)
    if k == "div":
        return ceval(n.a[0], m) // ceval(n.a[1], m)
    if k == "mod":
        return ceval(n.a[0], m) % ceval(n.a[1], m)
    if k == "ite":
        return ceval(n.a[1] if beval(n.a[0], m) else n.a[2], m)
    raise AssertionError(k)


def beval(n, m):
    k = n.k
    if k == "t":
        return True
    if k == "f":
        return False
    if k == "in":
        return n.a[1].has(m[n.a[0]])
    if k == "not":
        return not beval(n.a[0], m)
    if k == "and":
        return all(beval(x, m) for x in n.a)
    if k == "or":
        return any(beval(x, m) for x in n.a)
    if k == "le":
        return ceval(n.a[0], m) <= 0
    if k == "eq0":
        return ceval(n.a[0], m) == 0
    raise AssertionError(k)


# ---------------------------------------------------------------- z3 translation

def _zset(x, s):
    alts = []
    for lo, hi in s.r:
        if lo == hi:
            alts.append(x == lo)
        elif lo == NEG and hi == POS:
            return z3.BoolVal(True)
        elif lo == NEG:
            alts.append(x <= hi)
        elif hi == POS:
            alts.append(x >= lo)
        else:
            alts.append(z3.And(x >= lo, x <= hi))
    if not alts:
        return z3.BoolVal(False)
    return alts[0] if len(alts) == 1 else z3.Or(alts)


def toz(n):
    if isinstance(n, int):
        return z3.IntVal(n)
    z = n.z
    if z is not None:
        return z
    k = n.k
    if k == "v":
        z = z3.Int("%s!%d" % (n.a[0], n.id))
    elif k == "lin":
        z = z3.IntVal(n.a[0])
        for v, c in n.a[1]:
            z = z + (toz(v) if c == 1 else c * toz(v))
    elif k == "mul":
        z = toz(n.a[0]) * toz(n.a[1])
    elif k in ("div", "mod"):
        # Python floors; z3 div/mod is Euclidean (they agree for positive divisors)
        a, b = toz(n.a[0]), toz(n.a[1])
        if k == "div":
            z = z3.If(b > 0, a / b, (-a) / (-b))
        else:
            z = z3.If(b > 0, a % b, -((-a) % (-b)))
    elif k == "ite":
        z = z3.If(toz(n.a[0]), toz(n.a[1]), toz(n.a[2]))
    elif k == "in":
        z = _zset(toz(n.a[0]), n.a[1])
    elif k == "not":
        z = z3.Not(toz(n.a[0]))
    elif k == "and":
        z = z3.And([toz(x) for x in n.a])
    elif k == "or":
        z = z3.Or([toz(x) for x in n.a])
    elif k == "le":
        z = toz(n.a[0]) <= 0
    elif k == "eq0":
        z = toz(n.a[0]) == 0
    elif k == "t":
        z = z3.BoolVal(True)
    elif k == "f":
        z = z3.BoolVal(False)
    else:
        raise AssertionError(k)
    n.z = z
    return z


class Solver:
    """The z3 process-wide instance with a cache of exact queries."""

    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.unary = {}
        self.cache = {}
        self.queries = 0
        self.hits = 0
        self.time = 0.0
        self.unsat = 0

    def _check(self, zs):
        t = time.perf_counter()
        self.s.push()
        self.s.add(*zs)
        r = self.s.check()
        self.s.pop()
        self.time += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown")
        if r == z3.unsat:
            self.unsat += 1
        return r == z3.sat

    def unary_both(self, d, s):
        """(sat(x in d and x in s), sat(x in d and x not in s)) by z3, cached by (d, s)."""
        key = (d.id, s.id)
        r = self.unary.get(key)
        if r is None:
            x = z3.Int("x")
            dz, sz = _zset(x, d), _zset(x, s)
            r = (self._check([dz, sz]), self._check([dz, z3.Not(sz)]))
            i = inter(d, s)
            if r != (bool(i.r), i is not d):
                raise Inconclusive("interval layer and solver disagree: %r %r" % (d, s))
            self.unary[key] = r
        else:
            self.hits += 1
        return r

    def sat(self, key, zs):
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self._check(zs())
        else:
            self.hits += 1
        return r

    def model(self, zs):
        t = time.perf_counter()
        self.s.push()
        self.s.add(*zs)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.time += time.perf_counter() - t
        self.queries += 1
        return m


SOLVER = Solver()


# ---------------------------------------------------------------- explorer

class Engine:
    cur = None

    def __init__(self, max_decisions=4000):
        self.solver = SOLVER
        self.max_decisions = max_decisions
        self.paths = self.decisions = self.aborted = self.forced = 0
        self.trace = []

    # -- one path
    def start_path(self):
        self.pos = 0
        self.dom = {}
        self.cons = []
        self.varcons = {}
        self.known = {}
        self.inputs = {}
        self.observed = []
        self.checks = 0
        self.nvars = 0

    def domain(self, v):
        return self.dom.get(v, v.dom)

    def _apply(self, node, val):
        """Add node == val to the path condition."""
        if node.k == "in":
            v, s = node.a
            self.dom[v] = inter(self.domain(v), s if val else compl(s))
        else:
            n = node if val else nnot(node)
            self._add(n)
        self.known[node] = val

    def _add(self, n):
        if n is TRUE:
            return
        if n.k == "in":
            v, s = n.a
            self.dom[v] = inter(self.domain(v), s)
            return
        if n.k == "and":
            for x in n.a:
                self._add(x)
            return
        i = len(self.cons)
        self.cons.append(n)
        for v in n.vars:
            self.varcons.setdefault(v, []).append(i)

    def _component(self, vs):
        seen = set(vs)
        todo = list(vs)
        ids = set()
        while todo:
            v = todo.pop()
            for i in self.varcons.get(v, ()):
                if i not in ids:
                    ids.add(i)
                    for w in self.cons[i].vars:
                        if w not in seen:
                            seen.add(w)
                            todo.append(w)
        return seen, ids

    def _feasible(self, node):
        """(can be true, can be false) under the path condition."""
        if node.k == "in":
            v, s = node.a
            d = self.domain(v)
            if v not in self.varcons:
                return self.solver.unary_both(d, s)
            i = inter(d, s)
            if i is d:
                return True, False
            if not i.r:
                return False, True
        vs, ids = self._component(node.vars)
        base = (tuple(sorted((v.id, self.domain(v).id) for v in vs)),
                tuple(sorted(self.cons[i].id for i in ids)))

        def zs(n):
            return lambda: ([_zset(toz(v), self.domain(v)) for v in vs] +
                            [toz(self.cons[i]) for i in ids] + [toz(n)])
        t = self.solver.sat((base, node.id, 1), zs(node))
        if not t:
            return False, True
        f = self.solver.sat((base, node.id, 0), zs(nnot(node)))
        return t, f

    def branch(self, node):
        if node is TRUE:
            return True
        if node is FALSE:
            return False
        k = node.k
        if k == "not":
            return not self.branch(node.a[0])
        r = self.known.get(node)
        if r is not None:
            return r
        if k == "and":
            for x in node.a:
                if not self.branch(x):
                    return False
            return True
        if k == "or":
            for x in node.a:
                if self.branch(x):
                    return True
            return False
        t, f = self._feasible(node)
        if not (t and f):
            if not (t or f):
                raise Inconclusive("infeasible path condition")
            self.forced += 1
            self.known[node] = t
            return t
        if self.pos < len(self.trace):
            val = self.trace[self.pos][0]
        else:
            if self.pos >= self.max_decisions:
                self.dead = Inconclusive("more than %d decisions on one path" % self.max_decisions)
                raise self.dead
            val = True
            self.trace.append([True, True])
            self.decisions += 1
        self.pos += 1
        self._apply(node, val)
        return val

    def assume(self, node):
        """Restrict the path to node (no fork)."""
        if node is TRUE or self.known.get(node) is True:
            return
        t, f = self._feasible(node) if node.k not in ("and", "or") else self._feasible_compound(node)
        if not t:
            self.dead = PathAbort()
            raise self.dead
        if f:
            self._add(node)
        self.known[node] = True

    def _feasible_compound(self, node):
        vs, ids = self._component(node.vars)
        base = (tuple(sorted((v.id, self.domain(v).id) for v in vs)),
                tuple(sorted(self.cons[i].id for i in ids)))
        zs = lambda: ([_zset(toz(v), self.domain(v)) for v in vs] +
                      [toz(self.cons[i]) for i in ids] + [toz(node)])
        return self.solver.sat((base, node.id, 1), zs), True

    def can_be_false(self, node):
        """Is there an assignment of the path condition that falsifies node?  (assertion query)"""
        if node is TRUE:
            return False
        if node is FALSE:
            return True
        neg = nnot(node)
        if neg.k == "in" and neg.a[0] not in self.varcons:
            return self.solver.unary_both(self.domain(neg.a[0]), neg.a[1])[0]
        return self._feasible_compound(neg)[0]

    def bounds(self, n):
        """Interval over-approximation of an integer term."""
        if isinstance(n, int):
            return n, n
        k = n.k
        if k == "v":
            d = self.domain(n)
            return d.r[0][0], d.r[-1][1]
        if k == "lin":
            lo = hi = n.a[0]
            for v, c in n.a[1]:
                a, b = self.bounds(v)
                if c < 0:
                    a, b = b, a
                lo = NEG if lo == NEG or abs(a) >= POS else lo + c * a
                hi = POS if hi == POS or abs(b) >= POS else hi + c * b
            return lo, hi
        if k == "ite":
            a, b = self.bounds(n.a[1]), self.bounds(n.a[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if k == "mod" and isinstance(n.a[1], int) and n.a[1] > 0:
            return 0, n.a[1] - 1
        if k == "div" and isinstance(n.a[1], int) and n.a[1] > 0:
            a, b = self.bounds(n.a[0])
            return (NEG if a == NEG else a // n.a[1]), (POS if b == POS else b // n.a[1])
        if k == "mul":
            a, b = self.bounds(n.a[0]), self.bounds(n.a[1])
            if max(abs(x) for x in a + b) >= POS:
                return NEG, POS
            ps = [x * y for x in a for y in b]
            return min(ps), max(ps)
        return NEG, POS

    def concretise(self, n):
        """Fork over every feasible value of an integer term."""
        if isinstance(n, int):
            return n
        if n.k == "v":
            d = self.domain(n)
            if d.r[0][0] == NEG or d.r[-1][1] == POS:
                raise Unsupported("unbounded integer made concrete: %r" % (n,))
            if d.size > 70000:
                raise Unsupported("domain too large to enumerate: %r" % (n,))
            for lo, hi in d.r:
                for v in range(lo, hi + 1):
                    if self.branch(nin(n, single(v))):
                        return v
            raise Inconclusive("no value")
        lo, hi = self.bounds(n)
        if lo == NEG or hi == POS:
            raise Unsupported("unbounded integer made concrete: %r" % (n,))
        for v in range(lo, hi + 1):
            if self.branch(neq0(nadd(n, -v))):
                return v
        raise Inconclusive("no value")

    # -- models
    def model(self, rng=None, extra=None):
        """A model of the current path condition as {var: int}, for every declared variable."""
        m = {}
        vs = set(v for v in self._all_vars)
        done = set()
        if extra is not None and extra is not TRUE:
            self._add(extra)
        for v in sorted(self.varcons, key=lambda x: x.id):
            if v in done:
                continue
            comp, ids = self._component([v])
            zm = self.solver.model([_zset(toz(w), self.domain(w)) for w in comp] +
                                   [toz(self.cons[i]) for i in ids])
            if zm is None:
                raise Inconclusive("path condition has no model")
            for w in comp:
                m[w] = zm.eval(toz(w), model_completion=True).as_long()
                done.add(w)
        for v in sorted(vs, key=lambda x: x.id):
            if v not in m:
                m[v] = _pick(self.domain(v), rng)
        return m

    _all_vars = ()

    # -- all paths
    def explore(self, fn, prefix=(), slice_s=None, on_path=None, on_stop=None):
        """Run fn() on every feasible path.  Returns the frontier left when the time slice ends."""
        self.trace = [[b, False] for b in prefix]
        t0 = time.monotonic()
        Engine.cur = self
        while True:
            self.start_path()
            self._all_vars = []
            self.dead = None
            try:
                fn()
                if self.dead:
                    raise self.dead
                self.paths += 1
                if on_path:
                    on_path(self)
            except PathAbort:
                self.aborted += 1
            except (Unsupported, Inconclusive, ViolationFound) as e:
                if on_stop is None:
                    raise
                if on_stop(self, e):
                    return []
            del self.trace[self.pos:]
            while self.trace and not self.trace[-1][1]:
                self.trace.pop()
            if not self.trace:
                return []
            self.trace[-1] = [not self.trace[-1][0], False]
            if slice_s is not None and time.monotonic() - t0 > slice_s:
                vals = [b for b, _ in self.trace]
                out = [tuple(vals)]
                for i, (b, p) in enumerate(self.trace):
                    if p:
                        out.append(tuple(vals[:i]) + (not b,))
                return out


def _pick(d, rng):
    if rng is not None:
        n = 0
        r = d.r[rng.randrange(len(d.r))]
        lo, hi = max(r[0], -10 ** 6), min(r[1], 10 ** 6 * 2)
        return rng.randint(lo, hi)
    for c in (97, 65, 48, 32, 10, 0, 1):
        if d.has(c):
            return c
    lo = d.r[0][0]
    return lo if lo != NEG else min(0, d.r[0][1])
