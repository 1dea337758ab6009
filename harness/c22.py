"""C22: path_stats on real source files and caches below a scratch directory, with symbolic modification times.

The modification time reported by `os.stat` for a file of the scratch directory is a symbolic integer (in
nanoseconds); what the code writes into its cache stays symbolic when it is read back. The oracle keeps the
import graph itself and never looks into the cache.
"""
import contextlib
import importlib
import importlib.machinery
import importlib.util
import marshal
import os
import pickle
import shutil
import sys
import tempfile
import types

import z3
from sx import engine
from sx.api import H

BASE = 1_700_000_000_000_000_000
SPAN = 3_000_000      # microseconds
TOL = 5e-7
BOUNDS = {"quick": "modification times: any microsecond within 3 s, any order and any equalities; all acyclic graphs of up to 4 modules, absolute and relative macro-imports and dialect-imports; every statement form, alone and in pairs; files in another syntax than Python, with up to 2 imports; 8 kinds of macro modules without a source file; two edits, damages of the cache, and changes of the environment between three runs",
          "thorough": "the same with more forms per import, three edits"}
OUTSIDE = "cyclic macro-imports (not supported by the code); concurrent writers; module finders other than the standard one"
ASSUMPTIONS = ["the text of a file does not change without its modification time changing, over the history of the file",
               "the cache file is not replaced by that of another file, and damages of it are unreadable or missing data, not another valid content"]

# module -> (path, absolute name, how main imports it relatively; None if it cannot)
MODS = {"main": ("p/main.py", "p.main"), "a": ("p/a.py", "p.a"), "b": ("p/sub/b.py", "p.sub.b"), "c": ("c.py", "c"), "d": ("p/c.py", "p.c")}


def relative(src, dst):
    if "c" in (src, dst):
        return None
    s, d = MODS[src][1].split(".")[:-1], MODS[dst][1].split(".")
    k = 0
    while k < len(s) and s[k] == d[k]:
        k += 1
    return "." * (len(s) - k + 1) + ".".join(d[k:])


class Stat:
    """What os.stat returns, with another modification time."""
    def __init__(self, real, ns):
        self._real, self.st_mtime_ns = real, ns
        self.st_mtime = ns * 1e-9
    def __getattr__(self, name):
        return getattr(self._real, name)
    def __getitem__(self, k):
        if k == 8:
            return self.st_mtime_ns // 1_000_000_000
        return self._real[k]
    def __iter__(self):
        return iter([self[k] for k in range(10)])
    def __len__(self):
        return 10


class World:
    def __init__(self, S):
        self.S = S
        self.n = 0
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="c22_", dir=os.environ.get("VERIF_SCRATCH") or base))
        os.makedirs(self.root + "/p/sub")
        for f in ("p/__init__.py", "p/sub/__init__.py"):
            open(f"{self.root}/{f}", "w").close()
        self.mtime, self.deps, self.text, self.past = {}, {}, {}, {}
        self.saved = (os.stat, list(sys.path), sys.dont_write_bytecode, sys.pycache_prefix)
        real = os.stat
        def stat(path, *args, **kw):
            r = real(path, *args, **kw)
            if isinstance(path, (str, bytes, os.PathLike)):
                p = os.path.abspath(os.fsdecode(path))
                if p in self.mtime:
                    return Stat(r, self.mtime[p])
            return r
        os.stat = stat
        sys.path.insert(0, self.root)
        importlib.invalidate_caches()
        return self
    def __exit__(self, *exc):
        os.stat, path, sys.dont_write_bytecode, sys.pycache_prefix = self.saved
        sys.path[:] = path
        for k in [k for k in sys.path_importer_cache if k.startswith(self.root)]:
            del sys.path_importer_cache[k]
        for k in ("p", "p.sub", "p.main", "p.a", "p.sub.b", "p.c", "c"):
            sys.modules.pop(k, None)
        shutil.rmtree(self.root)

    def path(self, mod):
        return f"{self.root}/{MODS[mod][0]}"
    def write(self, mod, text, deps, fresh=True):
        """Give `mod` a content, and a modification time of its own."""
        S, p = self.S, self.path(mod)
        with open(p, "w") as f:
            f.write(text)
        ns = self.time(mod)
        for other, t in self.past.get(mod, []):
            if other != text:
                S.assume(ns != t)
        self.past.setdefault(mod, []).append((text, ns))
        self.mtime[p], self.deps[mod] = ns, deps
    def time(self, mod):
        self.n += 1
        return self.S.int(f"t{self.n}_{mod}", 0, SPAN) * 1000 + BASE
    def reachable(self, mod):
        seen = []
        def go(m):
            if m not in seen:
                seen.append(m)
                for d in self.deps[m]:
                    go(d)
        go(mod)
        return seen
    def judge(self, mod, fn, msg, other=None):
        S = self.S
        got = fn(self.path(mod))
        got = got["mtime"]
        ms = [self.mtime[(other or {}).get(m) or self.path(m)] * 1e-9 for m in self.reachable(mod)]
        show = lambda: f"{msg}: the modification time is not the latest of {self.reachable(mod)}"
        if S.symbolic:
            for m in ms:
                S.check(got >= m, show)
            S.check(engine.SBool(z3.Or(*[(got <= m).z for m in ms])), show)
        else:
            S.check(all(got >= m - TOL for m in ms) and any(got <= m + TOL for m in ms), show)


def importer(S, w, key):
    f = S.pick(key, ["path_stats", "path_xstats"])
    if f == "path_stats":
        return S.m.importer.path_stats
    from importlib.machinery import SourceFileLoader
    return lambda path: S.m.importer.path_xstats(SourceFileLoader("m", path), path)


def h_graph(S, forms, relatives):
    """Any acyclic import graph."""
    names = ["main", "a", "b", "c"]
    with World(S) as w:
        sys.dont_write_bytecode = True
        for i, src in enumerate(names):
            lines, deps = [], []
            for dst in names[i + 1:]:
                f = S.pick(f"{src}-{dst}", [None] + forms[:1 if (src, dst) == ("main", "c") else None])
                if f is None:
                    continue
                name = relative(src, dst) if relatives and f == forms[-1] and relative(src, dst) else MODS[dst][1]
                lines.append(f"from {name} import {f}, x")
                deps.append(dst)
                S.reach(f)
            w.write(src, "\n".join(lines) + "\n", deps)
        S.note(lambda: w.deps)
        w.judge("main", S.m.importer.path_stats, "no cache")
        if len(w.reachable("main")) == 4:
            S.reach("all")


# text, modules depended on
FORMS = [
    ("from p.a import macros, x", "a"), ("from p.a import dialects, x", "a"), ("from .a import macros, x", "a"),
    ("from .sub.b import dialects, X", "b"), ("from .c import macros, x", "d"), ("from ..p.a import macros, x", None),
    ("from p.a import macros", "a"), ("from p.a import macros as m, x", ""), ("from p.a import dialects as m, x", ""),
    ("from p.a import x, macros", ""), ("from p.a import x", ""), ("import p.a", ""), ("from c import (macros, x)", "c"), ("from p.c import macros, y", "d"),
    ("from c import *", ""), ("from __self__ import macros, x", ""), ("from __self__ import dialects, x", ""),
    ("with phase[1]:\n    from p.a import macros, x", "a"), ("with phase[2]:\n    from c import dialects, x", "c"),
    ("with phase[1]:\n    y = 1\n    from .a import macros, x\n    from .sub.b import macros, x", "ab"),
    ("with phase[1]:\n    with phase[2]:\n        from c import macros, x", None),
    ("with phase[1]:\n    if y:\n        from p.a import macros, x", ""),
    ("with foo[1]:\n    from p.a import macros, x", ""), ("with phase:\n    from p.a import macros, x", ""),
    ("with phase[1] as y:\n    from p.a import macros, x", None), ("with phase[1], y:\n    from p.a import macros, x", None),
    ("if y:\n    from p.a import macros, x", ""), ("def f():\n    from p.a import macros, x", ""),
    ("class f:\n    from .a import macros, x", ""), ("try:\n    from p.a import macros, x\nfinally:\n    pass", ""),
    ("'from p.a import macros, x'", ""), ("# from p.a import macros, x", ""), ("'''\nfrom p.a import macros, x\n'''", ""),
    ("from __future__ import annotations", ""), ("x = 1; from p.a import macros, x", "a"), ("", ""),
]
FORMS = [f for f in FORMS if f[1] is not None]


def h_forms(S, pairs, depdep):
    """Every form of statement in the file, before and after another one; then again from the cache."""
    with World(S) as w:
        first = S.pick("s1", FORMS)
        second = S.pick("s2", FORMS[:pairs]) if pairs else ("", "")
        order = S.pick("o", [0, 1]) if pairs else 0
        both = [first, second][::-1 if order else 1]
        if any("__future__" in s[0] for s in both[1:]):
            both = both[::-1]
        S.assume(sum("__future__" in s[0] for s in both) < 2 or True)
        text = "\n".join(s[0] for s in both) + "\n"
        deps = sorted(set(first[1] + second[1]))
        w.write("c", "", [])
        w.write("d", "", [])
        w.write("b", "", [])
        w.write("a", "from c import macros, x\n" if depdep and S.pick("ac", [0, 1]) else "", [])
        if open(w.path("a")).read():
            w.deps["a"] = ["c"]
        w.write("main", text, deps)
        S.note(text)
        sys.dont_write_bytecode = S.pick("nowrite", [False, True]) if not pairs else False
        os.mkdir(w.root + "/p/__pycache__")
        fn = S.m.importer.path_stats if pairs else importer(S, w, "fn")
        w.judge("main", fn, "first")
        # later, in another process, as far as the imports go
        w.mtime[w.path("c")] = w.time("c")
        w.judge("main", fn, "from the cache")
        if deps:
            S.reach("dependency")
        S.reach("done")


SYNTAX = ["+++[>++<-]>.", "x = = 1", "'''", "(define (f x) x)", "   x\n y\n  z", "from here to there", "from c import", "from .a import (macros, x", "x \\ y", "if x then y\nelse z", "from"]
LINES = [f for f in FORMS if f[0].startswith("from ") and "(" not in f[0]] + [("# from c import macros, x", ""), ("  ; from c import (macros, x)", ""), ("from c import dialects, X  # note", "c"), ("", "")]


def h_syntax(S, rows, kinds):
    'A module in a dialect with a surface syntax of its own: not Python before its source transformer has run.'
    with World(S) as w:
        w.write("c", "", [])
        w.write("d", "", [])
        w.write("b", "", [])
        w.write("a", "", [])
        own = S.pick("own", SYNTAX[:kinds])
        lines = [S.pick(f"l{i}", LINES) for i in range(rows)]
        at = S.pick("at", list(range(rows + 1)))
        texts = [l[0] for l in lines]
        texts.insert(at, own)
        text = "\n".join(texts) + "\n"
        deps = sorted(set("".join(l[1] for l in lines)))
        speaks = any(" import dialects" in l[0] and " as m" not in l[0] for l in lines)
        w.write("main", text, deps)
        S.note(text)
        os.mkdir(w.root + "/p/__pycache__")
        sys.dont_write_bytecode = False
        fn = S.m.importer.path_stats
        for i in range(2):
            if speaks:
                w.judge("main", fn, "from the cache" if i else "first")
                S.reach("dialect")
            else:
                S.raises(SyntaxError, lambda: fn(w.path("main")), "not Python, and no dialect")
                S.reach("refused")
            w.mtime[w.path("c")] = w.time("c")


VERSIONS = [("x = 1\n", []), ("from p.a import macros, x\n", ["a"]), ("from c import dialects, X\n", ["c"]),
            ("from .sub.b import macros, x\nwith phase[1]:\n    from c import macros, x\n", ["b", "c"])]


def caches(w):
    out = []
    for d, _, fs in os.walk(w.root):
        if os.path.basename(d) == "__pycache__" or "prefix" in d:
            out += [os.path.join(d, f) for f in fs if not f.endswith(".pyc")]
    return sorted(out)


def damage(S, w, key):
    cs = [c for c in caches(w) if os.path.basename(c).startswith("main.")]
    if not cs:
        return
    c = cs[0]
    with open(c, "rb") as f:
        data = f.read()
    try:
        obj = pickle.loads(data)
    except Exception:
        obj = None
    kinds = ["removed", "empty", "half", "garbage", "none", "dirs", "list"]
    if type(obj) is dict:
        kinds += ["-" + k for k in sorted(obj)] + ["=" + k for k in sorted(obj) if type(obj[k]) is not bool]
    k = S.pick(key, kinds)
    S.note(f"damage: {k}")
    S.reach("damaged")
    def put(b):
        with open(c, "wb") as f:
            f.write(b)
    if k == "removed" or k == "dirs":
        os.remove(c)
        if k == "dirs":
            os.mkdir(c)
    elif k == "empty":
        put(b"")
    elif k == "half":
        put(data[:len(data) // 2])
    elif k == "garbage":
        put(b"\x00garbage" + data[9:])
    elif k == "none":
        put(pickle.dumps(None))
    elif k == "list":
        put(pickle.dumps([1, 2, 3]))
    else:
        if k[0] == "-":
            del obj[k[1:]]
        else:
            obj[k[1:]] = None
        put(pickle.dumps(obj))


def h_history(S, steps, versions, env):
    """A history of edits and damages; each run reports the state of the files as they are."""
    with World(S) as w:
        vs = VERSIONS[:versions]
        w.write("c", "", [])
        w.write("d", "", [])
        w.write("b", "", [])
        w.write("a", "", [])
        def edit(mod, key):
            t, d = S.pick(key, vs if mod == "main" else [("y = 1\n", []), ("from c import macros, x\n", ["c"])])
            w.write(mod, t, d)
        edit("main", "v0")
        if not env or S.pick("dir", [True, False]):
            for d in ("p", "p/sub", "."):
                os.mkdir(f"{w.root}/{d}/__pycache__")
        if env and S.pick("prefix", [False, True]):
            sys.pycache_prefix = w.root + "/prefix"
            for d in ("p", "p/sub", "."):
                os.makedirs(os.path.normpath(f"{w.root}/prefix/{w.root}/{d}"), exist_ok=True)
        sys.dont_write_bytecode = bool(env and S.pick("nowrite0", [False, True]))
        fn = S.m.importer.path_stats
        w.judge("main", fn, "run 0")
        for i in range(1, steps + 1):
            e = S.pick(f"e{i}", ["edit", "edit a", "touch a", "damage", "nothing"])
            S.note(e)
            if e == "edit":
                edit("main", f"v{i}")
                S.reach("edited")
            elif e == "edit a":
                edit("a", f"v{i}")
            elif e == "touch a":
                w.mtime[w.path("a")] = w.time("a")
                w.past["a"].append((open(w.path("a")).read(), w.mtime[w.path("a")]))
            elif e == "damage":
                damage(S, w, f"d{i}")
            if env:
                sys.dont_write_bytecode = S.pick(f"nowrite{i}", [False, True])
            w.judge("main", fn, f"run {i}")
        S.reach("done")


FILELESS = ["builtin", "namespace", "no spec", "spec None", "nothing"]


def h_other(S):
    'A macro module that has no source file.'
    with World(S) as w:
        kind = S.pick("kind", ["bytecode", "extension", "bytecode package"] + FILELESS)
        S.note(kind)
        w.write("a", "from c import macros, x\n" if S.pick("a", [0, 1]) else "", [])
        w.write("d", "", [])
        name, deps = "sys" if kind == "builtin" else "c", []
        f = {"bytecode": "c.pyc", "extension": "c" + importlib.machinery.EXTENSION_SUFFIXES[0], "bytecode package": "c/__init__.pyc"}.get(kind)
        if f:
            p = f"{w.root}/{f}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as g:
                g.write(importlib.util.MAGIC_NUMBER + bytes(12) + marshal.dumps(compile("def x(tree, **kw): pass", "c.py", "exec")) if "bytecode" in kind else b"\x7fELF\xff\x00")
            w.mtime[p] = w.time("c")
            w.deps["c"], deps = [], ["c"]
        elif kind == "namespace":
            os.mkdir(f"{w.root}/c")
        elif "spec" in kind:
            sys.modules["c"] = types.ModuleType("c")
            if kind == "no spec":
                del sys.modules["c"].__spec__
        importlib.invalidate_caches()
        if open(w.path("a")).read():
            w.deps["a"] = deps if f else []
        forms = [f"from {name} import macros, x", f"from {name} import dialects, x", f"with phase[1]:\n    from {name} import macros, x"]
        both = [S.pick("form", forms), "from .a import macros, x"][::S.pick("o", [1, -1])]
        w.write("main", "\n".join(both) + "\n", ["a"] + deps)
        os.mkdir(w.root + "/p/__pycache__")
        sys.dont_write_bytecode = False
        for i in range(2):
            w.judge("main", S.m.importer.path_stats, f"{kind}, run {i}", f and {"c": p})
            if f:
                w.mtime[p] = w.time("c")
        S.reach(kind)


HARNESSES = [
    H("other", h_other, "macro modules without a source file", dict(), reach=["bytecode", "extension", "bytecode package"] + FILELESS),
    H("graph", h_graph, "acyclic graphs of macro-imports and dialect-imports", dict(forms=["macros", "dialects"], relatives=True), reach={"all", "macros", "dialects"}),
    H("forms", h_forms, "which statements make a dependency", dict(pairs=0, depdep=True), reach={"done", "dependency"}),
    H("pairs", h_forms, "two statements", dict(pairs=7, depdep=False), dict(pairs=len(FORMS), depdep=True), reach={"done", "dependency"}),
    H("syntax", h_syntax, "modules in the own syntax of a dialect", dict(rows=1, kinds=99), reach={"dialect", "refused"}),
    H("syntax lines", h_syntax, "the same, more lines", dict(rows=2, kinds=1), dict(rows=2, kinds=99), reach={"dialect", "refused"}),
    H("history", h_history, "edits and damages between runs", dict(steps=2, versions=4, env=False), dict(steps=3, versions=3, env=False), reach={"done", "damaged", "edited"}, weight=3),
    H("environment", h_history, "the same, without a place for the cache, without write access, or elsewhere", dict(steps=1, versions=4, env=True), dict(steps=2, versions=3, env=True), reach={"done", "edited"}),
]
