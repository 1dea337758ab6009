"""C32: Bunch."""
import copy
import pickle
from collections.abc import Mapping, MutableMapping, Container, Iterable, Sized
from sx.api import H

KEYS = ["a", "b", "self", "get"]
MUT = ["setattr", "setitem", "delattr", "delitem", "pop", "popd", "popitem", "clear", "update", "setdefault", "setdefault0", "replace", "copy", "deepcopy"]
BOUNDS = {"quick": "every sequence of 2 operations out of 14, on the keys a, b, self, get, from every initial content of up to 2 of these keys (given to the constructor, wrapped, copied, or set one by one), with arbitrary values; all readers after each operation",
          "thorough": "every sequence of 3 operations, initial contents of up to 3 keys"}
OUTSIDE = "longer sequences; keys that are not identifiers; concurrent use"
ASSUMPTIONS = ["an attribute of the name of one of the Bunch's own methods is the method, whatever items there are"]
MISSING = object()


def attempt(fn):
    try:
        return ("ok", fn())
    except (KeyError, AttributeError, TypeError, RuntimeError, StopIteration) as e:
        return ("raised", type(e))


def compare(S, b, d, what):
    """All readers of the Bunch `b` agree with the dict `d`."""
    C = S.check
    C(len(b) == len(d), lambda: f"{what}: length {len(b)} vs. {len(d)}")
    C(list(b) == list(d), lambda: f"{what}: iteration {list(b)} vs. {list(d)}")
    C(list(b.keys()) == list(d), lambda: f"{what}: keys")
    C(len(b.values()) == len(d), lambda: f"{what}: values")
    for v, w in zip(b.values(), d.values()):
        C(v == w, lambda: f"{what}: values {list(b.values())}")
    C([k for k, _ in b.items()] == list(d), lambda: f"{what}: items")
    for (_, v), w in zip(b.items(), d.values()):
        C(v == w, lambda: f"{what}: items {list(b.items())}")
    for k in KEYS + ["c"]:
        C((k in b) == (k in d), lambda: f"{what}: membership of {k}")
        if k in d:
            C(b[k] == d[k], lambda: f"{what}: item {k}")
            C(b.get(k, MISSING) == d[k], lambda: f"{what}: get {k}")
            if k != "get":
                C(getattr(b, k) == d[k], lambda: f"{what}: attribute {k}")
        else:
            S.raises(KeyError, lambda: b[k], f"{what}: item {k}")
            C(b.get(k, MISSING) is MISSING, lambda: f"{what}: get {k}")
            C(b.get(k) is None, lambda: f"{what}: get {k}")
            if k != "get":
                S.raises(AttributeError, lambda: getattr(b, k), f"{what}: attribute {k}")
                C(getattr(b, k, MISSING) is MISSING, lambda: f"{what}: default for attribute {k}")
    C(callable(b.get), f"{what}: the method get")


def h_ops(S, nops, nkeys):
    B = S.m.bunch.Bunch
    S.check(issubclass(B, (Mapping, MutableMapping)) and issubclass(B, Container) and issubclass(B, Iterable) and issubclass(B, Sized), "abstract base classes")
    nv = [0]
    def val():
        nv[0] += 1
        return S.int(f"v{nv[0]}", 0, 1)
    d = {}
    keys = list(KEYS)
    for i in range(S.pick("n", range(nkeys + 1))):
        d[keys.pop(S.pick(f"k{i}", range(len(keys))))] = val()
    how = S.pick("how", ["init", "wrap", "copy", "items"])
    shared = None
    if how == "init":
        b = B(**d)
    elif how == "wrap":
        shared = dict(d)
        b = S.m.bunch.bunchify(shared)
        S.check(S.m.bunch.bunchify(b) is b, "wrapping a Bunch")
    elif how == "copy":
        src = B(**d)
        b = src.copy()
        S.check(type(b) is B and b is not src, "copy")
    else:
        b = B()
        for k, v in d.items():
            b[k] = v
    olds = []       # (Bunch, its expected contents): must not change any more
    compare(S, b, d, how)
    ops = []
    for i in range(nops):
        op = S.pick(f"op{i}", MUT)
        what = None
        if op in ("popitem", "clear", "copy", "deepcopy"):
            k = None
        else:
            k = S.pick(f"key{i}", KEYS if op != "replace" else ["a", "self"])
        ops.append((op, k))
        S.note(lambda: (how, list(d), ops))
        v = None
        if op in ("setattr", "setitem", "update", "setdefault", "replace"):
            v = val()
        reserved = k == "get" and op in ("setattr",)
        if op == "setattr":
            if reserved:
                S.raises(AttributeError, lambda: setattr(b, k, v), "setting a reserved name")
            else:
                setattr(b, k, v)
                d[k] = v
        elif op == "setitem":
            b[k] = v
            d[k] = v
        elif op == "delattr":
            if k in d:
                if k == "get":
                    continue
                delattr(b, k)
                del d[k]
            else:
                S.raises(AttributeError, lambda: delattr(b, k), "deleting a missing attribute")
        elif op == "delitem":
            if k in d:
                del b[k]
                del d[k]
            else:
                S.raises(KeyError, lambda: b.__delitem__(k), "deleting a missing item")
        elif op == "pop":
            if k in d:
                S.check(b.pop(k) == d.pop(k), "pop")
            else:
                S.raises(KeyError, lambda: b.pop(k), "pop of a missing key")
        elif op == "popd":
            S.check(b.pop(k, 7) == d.pop(k, 7), "pop with a default")
        elif op == "popitem":
            if d:
                (k1, v1), (k2, v2) = b.popitem(), d.popitem()
                S.check(k1 == k2, "popitem: key")
                S.check(v1 == v2, "popitem: value")
            else:
                S.raises(KeyError, b.popitem, "popitem of an empty Bunch")
        elif op == "clear":
            b.clear()
            d.clear()
        elif op == "update":
            b.update(**{k: v, "b": 5})
            d.update(**{k: v, "b": 5})
        elif op == "setdefault":
            S.check(b.setdefault(k, v) == d.setdefault(k, v), "setdefault")
        elif op == "setdefault0":
            x, y = b.setdefault(k), d.setdefault(k)
            S.check(x is None if y is None else x == y, "setdefault without a default")
        elif op == "replace":
            o = B(**{k: v})
            b.replace(o)
            d = {k: v}
            olds.append((o, dict(d)))
            shared = None
            S.raises(TypeError, lambda: b.replace({"a": 1}), "replace by something else")
        else:
            c = b.copy() if op == "copy" else copy.deepcopy(b) if S.pick(f"deep{i}", [True, False]) else copy.copy(b.copy())
            S.check(type(c) is B and c is not b, "copy: type")
            if shared is None:
                olds.append((b, dict(d)))
            else:
                olds.append((b, None))
                frozen = dict(d)
            b = c
            if shared is not None:
                S.check(list(shared) == list(frozen), "wrapped mapping changed by a copy")
                shared = None
            S.reach("copied")
        compare(S, b, d, f"after {ops}")
        if shared is not None:
            S.check(list(shared) == list(d), lambda: f"after {ops}: the wrapped mapping is {shared}")
            for k in d:
                x, y = shared[k], d[k]
                S.check(x is y if y is None else x == y, lambda: f"after {ops}: the wrapped mapping is {shared}")
            S.reach("shared")
        for o, want in olds:
            if want is not None:
                S.check(list(o) == list(want), lambda: f"after {ops}: another Bunch changed to {list(o)}")
                for k in want:
                    x, y = o[k], want[k]
                    S.check(x is y if y is None else x == y, lambda: f"after {ops}: another Bunch changed")
    S.reach("done")


def h_eq(S):
    """Equality is that of the contents."""
    B = S.m.bunch.Bunch
    def content(n):
        d = {}
        ks = ["a", "b"]
        for i in range(S.pick(n, [0, 1, 2])):
            d[ks.pop(S.pick(f"{n}{i}", range(len(ks))))] = S.int(f"{n}v{i}", 0, 1)
        return d
    d, e = content("d"), content("e")
    b, c = B(**d), B(**e)
    want = d == e
    S.check((b == c) == want, "equality of Bunches")
    S.check((b != c) == (not want), "inequality of Bunches")
    S.check((b == e) == want, "equality with a dict")
    S.check((e == b) == want, "equality with a dict, reflected")
    S.check((b != e) == (not want), "inequality with a dict")
    S.check(not (b == 3) and b != 3, "equality with something else")
    S.reach("equal" if want else "different")


def h_names(S):
    """No method can be overwritten by an attribute; nothing else is reserved."""
    B = S.m.bunch.Bunch
    names = [n for n in dir(B) if not n.startswith("__")]
    S.check(len(names) >= 8, "methods")
    n = S.pick("n", names + ["__len__", "__init__", "data", "x", "keys_", "name", "bindings", "other"])
    b = B(**S.pick("init", [{}, {"x": 1}, {"keys": 1, "copy": 2}]))
    before = dict(b.items())
    if n in names or n.startswith("__"):
        meth = getattr(b, n)
        S.raises(AttributeError, lambda: setattr(b, n, 1), f"setting {n}")
        S.check(callable(getattr(b, n)) == callable(meth), f"{n} overwritten")
        S.check(dict(b.items()) == before, "contents changed")
        b[n] = 5        # (as an item it is fine)
        S.check(b[n] == 5 and n in b, "as an item")
        S.check(callable(getattr(b, n)) == callable(meth), f"{n} overwritten")
        S.reach("reserved")
    else:
        setattr(b, n, 1)
        S.check(b[n] == 1 and getattr(b, n) == 1, "set")
        delattr(b, n)
        S.check(n not in b, "deleted")
        S.reach("free")
    bad = S.pick("bad", [3, None, [("a", 1)], {"a b": 1}, {"": 1}])
    S.raises((TypeError, ValueError), lambda: S.m.bunch.bunchify(bad), "bunchify of something unsuitable")


HARNESSES = [
    H("ops", h_ops, "sequences of operations against a dict", dict(nops=2, nkeys=2), dict(nops=3, nkeys=3), reach={"done", "shared", "copied"}),
    H("eq", h_eq, "equality", reach={"equal", "different"}),
    H("names", h_names, "reserved names", reach={"reserved", "free"}),
]
