"""Instrumented import: modules are compiled from their current source with calls, `in`, `%`,
f-strings and subscripts routed through functions that understand symbolic values."""
import ast
import builtins
import functools
import importlib.util
import io
import itertools
import os
import sys
import types

from . import core, values, symre
from .core import Engine, Unsupported, iset, single, nadd, nmulc
from .values import (Sym, SymStr, SymInt, SymBool, has_sym, deep_conc, mkstr, mkint, mkbool, cs_of, isstr,
                     isin, ceqn, cnode, branch)

INSTR_PREFIX = ["gopher_render", "harness"]
INSTR_STD = {"textwrap", "html", "html.parser", "_markupbase", "urllib.parse", "posixpath", "genericpath",
             "ntpath", "string"}
ENCODED = {}           # (file, qualname, line) -> calls, of package functions actually executed
STUBS = {}             # name -> module object handed to instrumented imports


# ---------------------------------------------------------------- shims of types

class TypeShim:
    def __init__(self, real, symt):
        self.real, self.symt = real, symt
        self.__name__ = self.__qualname__ = real.__name__
        self.__doc__ = real.__doc__
        self.__module__ = "builtins"

    def __instancecheck__(self, x):
        return isinstance(x, self.real) or isinstance(x, self.symt)

    def __subclasscheck__(self, c):
        c = c.real if isinstance(c, TypeShim) else c
        return issubclass(c, self.real)

    def __mro_entries__(self, bases):
        return (self.real,)

    def __eq__(self, o):
        return o is self or o is self.real or o is self.symt

    def __hash__(self):
        return hash(self.real)

    def __or__(self, o):
        return self.real | (o.real if isinstance(o, TypeShim) else o)

    def __ror__(self, o):
        return o | self.real

    def __repr__(self):
        return repr(self.real)


class StrShim(TypeShim):
    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, (str, SymStr)):
                return x
            if isinstance(x, SymInt):
                return x.digits()
            f = getattr(type(x), "__str__", None)
            if isinstance(f, types.FunctionType):
                return f(x)
            f = getattr(type(x), "__repr__", None)
            if isinstance(f, types.FunctionType) and type(x).__str__ is object.__str__:
                return f(x)
        return str(*[deep_conc(x) for x in a], **k)

    def __getattr__(self, name):
        if name == "maketrans":
            return str.maketrans
        real = getattr(str, name)
        if not callable(real):
            return real

        def unbound(self_, *a, **k):
            return str_method(self_, name, a, k)
        unbound.__name__ = name
        return unbound


class IntShim(TypeShim):
    def __call__(self, *a, **k):
        if a and isinstance(a[0], SymInt) and len(a) == 1:
            return a[0]
        if a and isinstance(a[0], SymBool):
            return int(bool(a[0]))
        if a and isinstance(a[0], SymStr):
            base = a[1] if len(a) > 1 else k.get("base", 10)
            return parse_int(a[0], base)
        return int(*[deep_conc(x) for x in a], **k)

    def __getattr__(self, name):
        return getattr(int, name)


class BoolShim(TypeShim):
    def __call__(self, *a):
        return bool(*a)

    def __getattr__(self, name):
        return getattr(bool, name)


D09 = iset([(48, 57)])
HU = iset([(65, 70)])
HL = iset([(97, 102)])
ODD = None


def parse_int(s, base=10):
    """int(s, base) for a symbolic string; digits stay symbolic in bases 10 and 16."""
    global ODD
    t = s.strip()
    if isinstance(t, str):
        return int(t, base)
    if base not in (10, 16):
        return int(t.conc(), base)
    if ODD is None:
        ODD = values.union(values.pred("isdigit"), values.chars("+-_xX"))
        ODD = core.inter(ODD, core.compl(D09))
    cs = t.c
    neg = False
    if len(cs) > 1 and isin(cs[0], single(45)):
        neg = True
        cs = cs[1:]
    elif len(cs) > 1 and isin(cs[0], single(43)):
        cs = cs[1:]
    total = 0
    for i, c in enumerate(cs):
        if isin(c, D09):
            d = nadd(cnode(c), -48)
        elif base == 16 and isin(c, HU):
            d = nadd(cnode(c), -55)
        elif base == 16 and isin(c, HL):
            d = nadd(cnode(c), -87)
        elif isin(c, ODD):
            return int(t.conc(), base)       # underscores, other digits, prefixes: enumerate
        else:
            raise ValueError("invalid literal for int() with base %d: %r" % (base, "?"))
        total = nadd(nmulc(total, base) if not isinstance(total, int) else total * base, d)
    if neg:
        total = -total if isinstance(total, int) else nmulc(total, -1)
    return mkint(total)


S_str = StrShim(str, SymStr)
S_int = IntShim(int, SymInt)
S_bool = BoolShim(bool, SymBool)


class _TypeFn:
    """type"""
    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            t = type(a[0])
            if t is SymStr or t is str:
                return S_str
            if t is SymInt or t is int:
                return S_int
            if t is SymBool or t is bool:
                return S_bool
            return t
        return type(*a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, type) or isinstance(x, TypeShim)

    def __subclasscheck__(self, c):
        return issubclass(c, type)

    def __mro_entries__(self, bases):
        return (type,)

    def __getattr__(self, n):
        return getattr(type, n)

    def __eq__(self, o):
        return o is self or o is type

    def __hash__(self):
        return hash(type)


S_type = _TypeFn()


def s_ord(x):
    if isinstance(x, SymStr):
        if len(x.c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(x.c))
        return mkint(cnode(x.c[0]))
    return ord(x)


def s_chr(x):
    if isinstance(x, SymInt):
        if not bool(x >= 0) or not bool(x <= 0x10ffff):
            raise ValueError("chr() arg not in range(0x110000)")
        n = x.n
        if isinstance(n, int):
            return chr(n)
        if n.k == "v":
            return mkstr((n,))
        c, ts = core.split_lin(n)
        if len(ts) == 1 and ts[0][1] == 1 and ts[0][0].k == "v":
            return mkstr((values.mkoff(ts[0][0], c),))
        eng = Engine.cur
        eng.nvars += 1
        d = core.var("chr%d" % eng.nvars, symre.UNI)
        eng._all_vars.append(d)
        eng.assume(core.neq0(nadd(n, d, -1)))
        return mkstr((d,))
    return chr(x)


def s_print(*a, **k):
    """Nothing is printed, unless to a stand-in for a file."""
    out = k.get("file") or sys.stdout
    if not isinstance(out, io.IOBase):
        out.write(values.join(k.get("sep") or " ", [S_str(x) for x in a]) + k.get("end", "\n"))


def s_format(v, spec=""):
    return values.format_value(v, spec)


def s_repr(v):
    return repr(v)


# ---------------------------------------------------------------- hooks

def str_method(s, name, args, kw):
    if name == "format":
        return values.sformat(s, args, kw)
    if name == "format_map":
        return values.sformat(s, (), args[0])
    if name == "join":
        return values.join(s, args[0])
    if isinstance(s, str):
        if name == "__contains__":
            return sx_in(args[0], s)
        if name == "__len__":
            return len(s)
        s = SymStr(tuple(map(ord, s)))
        r = getattr(s, name)(*args, **kw)
        if type(r) is SymStr:
            return mkstr(r.c)
        if r is s:
            return mkstr(s.c)
        return r
    return getattr(s, name)(*args, **kw)


OPAQUE_FUNCS = {len, isinstance, issubclass, getattr, hasattr, setattr, delattr, callable, id, iter, next, any,
                all, sum, min, max, sorted, abs, divmod, repr, hash, zip, enumerate, map, filter, reversed, list,
                tuple, set, frozenset, dict, bool, type, super, property, staticmethod, classmethod, object, slice,
                range, vars, dir, pow}
OPAQUE_MODULES = {"itertools", "functools", "_functools", "operator", "_operator", "copy", "_collections",
                  "collections", "inspect", "typing", "dataclasses", "contextlib", "abc", "_abc"}
OPAQUE_SELF = (list, dict, tuple, set, frozenset, types.ModuleType, type)
BUILTIN = types.BuiltinFunctionType
METHDESC = (types.MethodDescriptorType, types.WrapperDescriptorType, types.MethodWrapperType,
            types.ClassMethodDescriptorType)
HEAP = 1 << 9


def any_sym(args, kw):
    for a in args:
        if has_sym(a):
            return True
    if kw:
        for a in kw.values():
            if has_sym(a):
                return True
    return False


def sx_call(f, *args, **kw):
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        return f(*args, **kw)
    if t is BUILTIN:
        s = f.__self__
        ts = type(s)
        if ts is str:
            name = f.__name__
            if name == "join":
                items = args[0]
                if type(items) is not list and type(items) is not tuple:
                    if isinstance(items, Sym):
                        items = list(items)
                    else:
                        items = list(items)
                for x in items:
                    if type(x) is SymStr:
                        return values.join(s, items)
                return f(items)
            if any_sym(args, kw):
                return str_method(s, name, args, kw)
            return f(*args, **kw)
        if isinstance(s, dict) and args and isinstance(args[0], Sym):
            return dict_method(s, f.__name__, args, kw)
        if isinstance(s, (set, frozenset)) and args and isinstance(args[0], Sym):
            if f.__name__ in ("discard", "remove") and isinstance(args[0], Sym):
                for k in s:
                    if bool(k == args[0]):
                        return f(k)
                return f(deep_conc(args[0]))
        if f in OPAQUE_FUNCS or isinstance(s, OPAQUE_SELF) and not isinstance(s, types.ModuleType):
            return f(*args, **kw)
        if isinstance(s, types.ModuleType) and s.__name__ in OPAQUE_MODULES:
            return f(*args, **kw)
        if any_sym(args, kw):
            return f(*[deep_conc(a) for a in args], **{k: deep_conc(v) for k, v in kw.items()})
        return f(*args, **kw)
    if t is type or isinstance(f, type):
        if f.__flags__ & HEAP or f in OPAQUE_FUNCS or issubclass(f, BaseException):
            return f(*args, **kw)
        if f.__module__ in OPAQUE_MODULES:
            return f(*args, **kw)
        if f is str:
            return S_str(*args, **kw)
        if f is int:
            return S_int(*args, **kw)
        if any_sym(args, kw):
            return f(*[deep_conc(a) for a in args], **{k: deep_conc(v) for k, v in kw.items()})
        return f(*args, **kw)
    if isinstance(f, METHDESC):
        if any_sym(args, kw):
            oc = getattr(f, "__objclass__", None)
            if oc is str:
                return str_method(args[0], f.__name__, args[1:], kw)
            if oc in (int, float, bytes):
                return f(*[deep_conc(a) for a in args], **{k: deep_conc(v) for k, v in kw.items()})
            if oc is not None and issubclass(oc, dict) and len(args) > 1 and isinstance(args[1], Sym):
                return dict_method(args[0], f.__name__, args[1:], kw)
        return f(*args, **kw)
    if t is functools.partial:
        k2 = dict(f.keywords)
        k2.update(kw)
        return sx_call(f.func, *f.args, *args, **k2)
    return f(*args, **kw)


_MISSING = object()


def find_key(d, k):
    """The key of d equal to the symbolic k, forking; _MISSING if none."""
    for x in list(d):
        if isinstance(k, SymStr):
            if type(x) is str and len(x) == len(k.c) and bool(k == x):
                return x
        elif bool(k == x):
            return x
    return _MISSING


def dict_method(d, name, args, kw):
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__", "__delitem__", "__setitem__"):
        k = find_key(d, args[0])
        if k is _MISSING:
            if name == "get":
                return args[1] if len(args) > 1 else kw.get("default")
            if name == "__contains__":
                return False
            if name in ("pop", "__getitem__", "__delitem__"):
                if name == "pop" and len(args) > 1:
                    return args[1]
                if name == "__getitem__" and hasattr(type(d), "__missing__"):
                    return type(d).__missing__(d, args[0])
                raise KeyError(args[0])
            k = deep_conc(args[0])
        return getattr(dict, name)(d, k, *args[1:], **kw)
    return getattr(d, name)(*args, **kw)


def sx_in(x, c):
    t = type(c)
    if t is str:
        if type(x) is SymStr:
            n = len(x.c)
            if n == 1:
                return mkbool(values.cin(x.c[0], core.chars(c)))
            return mkbool(core.nor([values.cs_eq_node(x.c, tuple(map(ord, c[i:i + n])))
                                    for i in range(len(c) - n + 1)]))
        return x in c
    if t is SymStr:
        if not isstr(x):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(x).__name__)
        n = c.contains_node(x)
        if n is not None:
            return mkbool(n)
        return x in c
    if isinstance(x, Sym):
        if isinstance(c, (dict, set, frozenset)):
            return find_key(c, x) is not _MISSING
        if isinstance(c, type({}.keys())):
            return find_key(c, x) is not _MISSING
        if isinstance(c, (list, tuple)):
            ns = []
            for y in c:
                e = (x == y) if isinstance(y, Sym) or isstr(y) or isinstance(y, int) else (y is x or y == x)
                ns.append(values.bnode(e))
            return mkbool(core.nor(ns))
        if isinstance(c, range):
            return bool(x >= min(c)) and bool(x <= max(c)) and bool((x - c.start) % c.step == 0) if len(c) else False
    return x in c


def sx_notin(x, c):
    r = sx_in(x, c)
    if isinstance(r, SymBool):
        return mkbool(core.nnot(r.n))
    return not r


def sx_mod(a, b):
    if isinstance(a, str) and has_sym(b):
        return values.percent_format(a, b)
    return a % b


def sx_getitem(o, i):
    if isinstance(i, Sym) and isinstance(o, dict):
        k = find_key(o, i)
        if k is _MISSING:
            m = getattr(type(o), "__missing__", None)
            if m:
                return m(o, i)
            raise KeyError(i)
        return o[k]
    return o[i]


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out.extend(cs_of(values.format_value(values.convert_field(v, conv), spec)))
        else:
            out.extend(cs_of(p))
    return mkstr(out)


def sx_setitem_key(i, o):
    """Key for a store into o: an equal existing key, else the concrete value."""
    if isinstance(i, Sym) and isinstance(o, dict):
        k = find_key(o, i)
        return deep_conc(i) if k is _MISSING else k
    return i


EXEMPT = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


class Tr(ast.NodeTransformer):
    def _c(self, name, args, keywords=(), like=None):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(name, ast.Load()), like), list(args),
                                          list(keywords)), like)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in EXEMPT:
            return n
        return self._c("_sx_call", [n.func] + n.args, n.keywords, n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return self._c("_sx_in" if isinstance(n.ops[0], ast.In) else "_sx_notin",
                           [n.left, n.comparators[0]], like=n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self._c("_sx_mod", [n.left, n.right], like=n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            load = ast.copy_location(ast.Name(n.target.id, ast.Load()), n)
            return ast.copy_location(ast.Assign([n.target], self._c("_sx_mod", [load, n.value], like=n)), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice) and \
                not isinstance(n.slice, ast.Constant):
            return self._c("_sx_getitem", [n.value, n.slice], like=n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(None if v.conversion == -1 else chr(v.conversion))
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(ast.Tuple([val, conv, spec], ast.Load()))
        r = self._c("_sx_fstr", parts, like=n)
        ast.fix_missing_locations(r)
        return r

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [d and self.visit(d) for d in n.kw_defaults]
        return n


# ---------------------------------------------------------------- import

def _identity_cache(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        f = a[0]
        f.cache_clear = lambda: None
        return f

    def deco(f):
        f.cache_clear = lambda: None
        return f
    return deco


def _functools_shim():
    m = types.ModuleType("functools")
    m.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith("__")})
    m.lru_cache = m.cache = _identity_cache
    return m


_css_memo = {}


def _cssselect_shim():
    import cssselect
    m = types.ModuleType("cssselect")
    m.__dict__.update({k: v for k, v in vars(cssselect).items() if not k.startswith("__")})

    def parse(css):
        css = deep_conc(css)
        r = _css_memo.get(css)
        if r is None:
            try:
                r = (True, cssselect.parse(css))
            except Exception as e:
                r = (False, e)
            _css_memo[css] = r
        if not r[0]:
            raise r[1]
        return list(r[1])
    m.parse = parse
    m.parser = types.ModuleType("cssselect.parser")
    m.parser.__dict__.update({k: v for k, v in vars(cssselect.parser).items() if not k.startswith("__")})
    m.parser.parse = parse
    return m


class Loader:
    """One instrumented world: its own module table."""

    def __init__(self, paths):
        self.paths = list(paths)
        self.mods = {}
        self.sources = {}
        self.shims = {"re": symre, "functools": _functools_shim()}
        css = _cssselect_shim()
        self.shims["cssselect"] = css
        self.shims["cssselect.parser"] = css.parser
        b = dict(vars(builtins))
        b.update(__import__=self._import, str=S_str, int=S_int, bool=S_bool, type=S_type, ord=s_ord, chr=s_chr,
                 print=s_print, format=s_format,
                 _sx_call=sx_call, _sx_in=sx_in, _sx_notin=sx_notin, _sx_mod=sx_mod, _sx_getitem=sx_getitem,
                 _sx_fstr=sx_fstr)
        self.builtins = b

    def instrumented(self, name):
        return name in INSTR_STD or name.split(".")[0] in INSTR_PREFIX

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.load(name)
        if not fromlist:
            return self.load(name.partition(".")[0])
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                try:
                    setattr(m, f, self.load(name + "." + f))
                except ModuleNotFoundError:
                    pass
        return m

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in STUBS:
            m = STUBS[name]
        elif name in self.shims:
            m = self.shims[name]
        elif self.instrumented(name):
            return self._load_source(name)
        elif any(x.startswith(name + ".") for x in INSTR_STD):
            real = importlib.import_module(name)
            m = types.ModuleType(name)
            m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
            m.__path__ = getattr(real, "__path__", [])
        else:
            m = importlib.import_module(name)
        self.mods[name] = m
        if "." in name and name.split(".")[0] in self.mods:
            parent, _, leaf = name.rpartition(".")
            p = self.load(parent)
            if self.instrumented(name) or not hasattr(p, leaf):
                setattr(p, leaf, m)
        return m

    def _find(self, name):
        if name in INSTR_STD:
            spec = importlib.util.find_spec(name)
            return spec.origin, bool(spec.submodule_search_locations)
        rel = name.replace(".", "/")
        for p in self.paths:
            f = os.path.join(p, rel, "__init__.py")
            if os.path.exists(f):
                return f, True
            f = os.path.join(p, rel + ".py")
            if os.path.exists(f):
                return f, False
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    def _load_source(self, name):
        parent, _, leaf = name.rpartition(".")
        if parent:
            p = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        f, ispkg = self._find(name)
        with open(f, "rb") as fh:
            src = fh.read()
        self.sources[name] = (f, src)
        tree = ast.parse(src, f)
        tree = ast.fix_missing_locations(Tr().visit(tree))
        code = compile(tree, f, "exec", dont_inherit=True)
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(f)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if parent:
            setattr(p, leaf, m)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        return m
