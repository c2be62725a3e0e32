"""C27: attribute and item access of settings dictionaries agree."""
from gopher_render._namedict import namedict

ASSUMPTIONS = [
    "names are identifiers that are not names of dictionary methods or of special methods",
]
BOUNDS = {
    "quick": "sequences of 3 operations out of 11 (writes, deletions, updates, pops and defaults through either interface), over 2 names of 10, with symbolic integer values, None, empty and false ones, from 5 ways of creation; 2 dictionaries at a time",
    "thorough": "sequences of 4 operations",
}
NAMES = ["a", "b", "margin", "line_template", "_x", "value", "item", "key", "copy_", "data"]
METHODS = ["clear", "copy", "fromkeys", "get", "items", "keys", "pop", "popitem", "setdefault", "update", "values"]
MISSING = "missing"


def read(d, name):
    """The value by attribute and by item; they must agree."""
    try:
        a = (getattr(d, name),)
    except AttributeError:
        a = MISSING
    try:
        i = (d[name],)
    except KeyError:
        i = MISSING
    return a, i


def judge(h, d, model, names):
    for n in names:
        a, i = read(d, n)
        want = (model[n],) if n in model else MISSING
        h.check(a == want, "attribute " + n)
        h.check(i == want, "item " + n)
        h.check(hasattr(d, n) == (n in model) and (n in d) == (n in model), "presence of " + n)
        h.check(getattr(d, n, "other") == model.get(n, "other") and d.get(n, "other") == model.get(n, "other"), "default of " + n)
    h.check(list(d.items()) == list(model.items()) and list(d.keys()) == list(model) and list(d.values()) == list(model.values()) and len(d) == len(model), "contents")
    h.check(d == model, "equality")


def created(h, how, name, value):
    if how == "empty":
        return namedict(), {}
    model = {name: value}
    if how == "keywords":
        return namedict(**{name: value}), model
    if how == "dict":
        return namedict({name: value}), model
    if how == "pairs":
        return namedict([(name, value)]), model
    return namedict(namedict({name: value})), model


OPS = ["set attribute", "set item", "delete attribute", "delete item", "update", "pop", "default", "setattr none", "clear", "keywords", "merge"]


def apply(h, d, model, op, n, v, label):
    """One operation on the dictionary and on the model of it."""
    if op == "set attribute":
        setattr(d, n, v)
        model[n] = v
    elif op == "set item":
        d[n] = v
        model[n] = v
    elif op == "delete attribute":
        try:
            delattr(d, n)
            ok = True
        except AttributeError:
            ok = False
        h.check(ok == (n in model), "deletion of attribute " + n)
        model.pop(n, None)
    elif op == "delete item":
        try:
            del d[n]
            ok = True
        except KeyError:
            ok = False
        h.check(ok == (n in model), "deletion of item " + n)
        model.pop(n, None)
    elif op == "update":
        d.update({n: v})
        model[n] = v
    elif op == "keywords":
        d.update(**{n: v})
        model[n] = v
    elif op == "pop":
        h.check(d.pop(n, 17) == model.pop(n, 17), "pop of " + n)
    elif op == "default":
        h.check(d.setdefault(n, v) == model.setdefault(n, v), "default of " + n)
    elif op == "setattr none":
        e = h.pick("empty " + label, [None, 0, "", False, ()])
        setattr(d, n, e)
        model[n] = e
    elif op == "clear":
        d.clear()
        model.clear()
    else:
        d.update(namedict({n: v, "z": 1}))
        model.update({n: v, "z": 1})


def history(h, names, n, ops):
    """Any sequence of operations."""
    how = h.pick("creation", ["empty", "keywords", "dict", "pairs", "copy"])
    d, model = created(h, how, names[0], h.int("start", 0, 1000))
    judge(h, d, model, names)
    for k in range(n):
        op = h.pick("operation %d" % k, ops)
        name = h.pick("name %d" % k, names)
        v = h.int("value %d" % k, 0, 1000)
        apply(h, d, model, op, name, v, "%d" % k)
    h.reach("done")
    judge(h, d, model, names + ["z", "never"])
    for m in METHODS:
        h.check(callable(getattr(d, m)) and getattr(d, m) == getattr(super(namedict, d), m), "method " + m + " shadowed")


def two(h, n):
    """Two dictionaries do not share anything."""
    a, b = namedict(a=1), namedict({"b": 2})
    models = [{"a": 1}, {"b": 2}]
    for k in range(n):
        which = h.choose("dictionary %d" % k, 2)
        op = h.pick("operation %d" % k, OPS[:6])
        name = h.pick("name %d" % k, ["a", "b"])
        apply(h, (a, b)[which], models[which], op, name, h.int("value %d" % k, 0, 9), "%d" % k)
    h.reach("done")
    judge(h, a, models[0], ["a", "b"])
    judge(h, b, models[1], ["a", "b"])


def names(h, at):
    """Every name works like any other."""
    d = namedict(other=5)
    n = NAMES[at]
    v, w = h.int("v", 0, 9), h.int("w", 0, 9)
    model = {"other": 5}
    for k in range(3):
        apply(h, d, model, h.pick("operation %d" % k, OPS[:4]), n, v if k else w, "%d" % k)
        judge(h, d, model, [n, "other"])
    h.reach("done")


WITNESS = {"history": ["done"], "two": ["done"], "names": ["done"]}


def tasks(tier):
    q = tier == "quick"
    out = []
    n = 3 if q else 4
    for first in range(0, 10, 2):
        out.append(("history-" + NAMES[first], "history", dict(names=NAMES[first:first + 2], n=n if first < 2 else 2, ops=OPS)))
    out.append(("long-history", "history", dict(names=["a"], n=n + 1, ops=OPS[:4] + ["default"])))
    out.append(("two", "two", dict(n=3)))
    for i in range(len(NAMES)):
        out.append(("name-" + NAMES[i], "names", dict(at=i)))
    return out
