"""The object handed to a harness: symbolic (SymH) and concrete (ConcH) realisations.

A harness is an ordinary Python function fn(h, **params).  It declares inputs, runs the real
code on them and states assertions.  In symbolic mode it and the code it calls run
instrumented; in concrete mode (replay, per-path validation) the same function runs on the
plain interpreter with plain values.
"""


class Assumption(BaseException):
    """Concrete mode: the values do not satisfy the harness's assumptions."""


class Violation(BaseException):
    def __init__(self, msg):
        BaseException.__init__(self, msg)
        self.msg = msg


UNICODE_TEXT = ((0x20, 0xd7ff), (0xe000, 0x10ffff))


def ranges(dom, minus=""):
    """Domain spec -> list of ranges.  dom: a string of characters, or a sequence of
    characters / 'a-z' ranges / (lo, hi) pairs; minus: characters to leave out."""
    out = []
    if isinstance(dom, str):
        out = [(ord(c), ord(c)) for c in dom]
    else:
        for d in dom:
            if isinstance(d, tuple):
                out.append(d)
            elif len(d) == 3 and d[1] == "-":
                out.append((ord(d[0]), ord(d[2])))
            else:
                out.extend((ord(c), ord(c)) for c in d)
    cut = sorted(set(ord(c) for c in minus)) if isinstance(minus, str) else None
    if cut is None:
        cut = sorted(x for lo, hi in ranges(minus) for x in range(lo, hi + 1))
    for x in cut:
        nxt = []
        for lo, hi in out:
            if lo <= x <= hi:
                nxt.append((lo, x - 1))
                nxt.append((x + 1, hi))
            else:
                nxt.append((lo, hi))
        out = [(lo, hi) for lo, hi in nxt if lo <= hi]
    return out


class ConcH:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.checks = 0
        self.reached = set()
        self.used = {}

    def _get(self, name):
        if name not in self.values:
            raise Assumption("no value for input %r" % name)
        v = self.values[name]
        self.used[name] = v
        return v

    def char(self, name, dom=UNICODE_TEXT, minus=""):
        return chr(self._get(name))

    def text(self, name, n, dom=UNICODE_TEXT, minus=""):
        return "".join(chr(self._get("%s[%d]" % (name, i))) for i in range(n))

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def bool(self, name):
        return bool(self._get(name))

    def pick(self, name, options):
        return options[self._get(name)]

    def choose(self, name, n):
        return self._get(name)

    def assume(self, cond):
        if not cond:
            raise Assumption()

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg)

    def equal(self, got, want, msg):
        self.checks += 1
        if not got == want:
            raise Violation("%s: got %r, expected %r" % (msg, got, want))

    def observe(self, label, value):
        self.observed.append((label, value))

    def reach(self, label):
        self.reached.add(label)
