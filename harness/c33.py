"""C33: importing modules through CPython's import system with mcpyrate's hooks, against the standard hooks and a model."""
import ast
import importlib
import importlib.util
import os
import shutil
import sys
import tempfile
import types
import warnings
from importlib.machinery import SourceFileLoader

from sx.load import unhook
import mcpyrate.activate as activate_module
unhook()
std_compile, std_stats = SourceFileLoader.source_to_code, SourceFileLoader.path_stats

from sx import grammar as G
from sx.api import H

BOUNDS = {"quick": "plain modules: every statement form of the grammar with expressions of depth 1 in them, in 4 surroundings, at each optimization level; 39 special source texts; macro-using modules: histories of 2 steps out of 38 kinds (edits of the module, of the macro module, of what that depends on, reloads, processes without hooks, damages of the cache), each followed by an import in a new process with or without a cache; every sequence of 4 activations",
          "thorough": "statements within statements; histories of 3 steps"}
OUTSIDE = "other finders and loaders, hash-based caches, `py_compile` of multi-phase modules, several processes at the same time"
ASSUMPTIONS = ["a new process is a module table without the modules of the history, and mcpyrate's module state as after its import",
               "an edit gives a file a modification time in a later second than all before (or another size, for the module itself)",
               "after an edit of a macro module, only new processes import what depends on it"]


# -- modules that use no macros ------------------------------------------------

def same_code(S, a, b, where, show):
    for k in ("co_code", "co_names", "co_varnames", "co_freevars", "co_cellvars", "co_flags", "co_firstlineno", "co_linetable", "co_exceptiontable",
              "co_filename", "co_name", "co_qualname", "co_stacksize", "co_argcount", "co_posonlyargcount", "co_kwonlyargcount"):
        S.check(getattr(a, k) == getattr(b, k), lambda: f"{show()}: {k} differs in {where}: {getattr(a, k)!r}, should be {getattr(b, k)!r}")
    S.check(len(a.co_consts) == len(b.co_consts), lambda: f"{show()}: constants differ in {where}: {a.co_consts!r}, should be {b.co_consts!r}")
    for x, y in zip(a.co_consts, b.co_consts):
        if isinstance(x, types.CodeType) and isinstance(y, types.CodeType):
            same_code(S, x, y, f"{where}.{y.co_name}", show)
        else:
            S.check(type(x) is type(y) and repr(x) == repr(y), lambda: f"{show()}: constants differ in {where}: {x!r}, should be {y!r}")


def attempt(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = fn()
        except (SyntaxError, ValueError, UnicodeError, ImportError) as e:
            r = e
    return r, [(w.category.__name__, str(w.message), w.lineno, w.filename) for w in ws]


def both(S, data, optimize, show):
    loader = SourceFileLoader("c33u", "/nonexistent/c33u.py")
    want, w1 = attempt(lambda: std_compile(loader, data, "/nonexistent/c33u.py", _optimize=optimize))
    fn = S.m.importer.source_to_xcode
    got, w2 = attempt(lambda: fn(loader, data, "/nonexistent/c33u.py") if optimize == -1 else fn(loader, data, "/nonexistent/c33u.py", _optimize=optimize))
    if type(got) is ImportError and isinstance(attempt(lambda: ast.parse(data))[0], SyntaxError):
        got = got.__cause__     # not Python at all
    if isinstance(want, Exception):
        S.check(type(got) is type(want), lambda: f"{show()}: {got!r}, should be {want!r}")
        if isinstance(want, SyntaxError) and want.lineno and not isinstance(attempt(lambda: importlib.util.decode_source(data) if isinstance(data, bytes) else 0)[0], Exception):
            for k in ("msg", "lineno", "offset", "filename"):
                S.check(getattr(got, k) == getattr(want, k), lambda: f"{show()}: {k} of the error is {getattr(got, k)!r}, should be {getattr(want, k)!r}")
        S.reach("error")
    else:
        S.check(isinstance(got, types.CodeType), lambda: f"{show()}: {got!r}")
        same_code(S, got, want, "<module>", show)
        S.reach("code")
    S.check(sorted(set(w2)) == sorted(set(w1)), lambda: f"{show()}: warnings {w2}, should be {w1}")


AROUND = ["{}", "'''doc'''\n{}", "'doc'\nfrom __future__ import annotations\n{}", "x = 1\n\n\ndef g():\n{I}\n\ny = 2"]
GS = G.grammar(expr=[G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_ONE], focus=True)
GST = G.grammar(expr=[G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_SHORT, G.STMT_ONE], focus=True)


def h_plain(S, grammar, optimize):
    """Code that uses no macros compiles to what the standard importer makes of it."""
    tree = S.stmt("t", grammar)
    around = S.pick("around", AROUND)
    o = S.pick("optimize", optimize)
    from sx import nodes
    nodes.force(tree)
    tree = ast.fix_missing_locations(ast.Module(body=[nodes.concrete(tree) if hasattr(nodes, "concrete") else tree], type_ignores=[]))
    text = ast.unparse(tree)
    text = around.replace("{I}", "\n".join("    " + l for l in text.splitlines())).replace("{}", text)
    S.note(text)
    both(S, text.encode("utf-8", "surrogatepass") if "\ud800" <= max(text) <= "\udfff" else text.encode(), o, lambda: repr(text))


TEXTS = [b"", b"\n", b"pass", b"# -*- coding: latin-1 -*-\nx = '\xe9'\n", b"# -*- coding: utf-8 -*-\nx = '\xc3\xa9'\n", b"\xef\xbb\xbfx = '\xc3\xa9'\n", b"x = '\xe9'\n",
         b"# coding: nosuch\nx = 1\n", b"\xef\xbb\xbf# coding: latin-1\nx = 1\n", b"x = 1\r\ny = '''a\r\nb'''\r\n", b"x = 1\ry = 2\r", b"\x0cx = 1\n\x0cif x:\n\ty = 2\n", b"x = 1\0", b"x = = 1\n", b"return\n",
         b"if 1:\nx\n", b"  x\n", b"def f():\n  x\n\ty\n", b"x = '\\d'\n", b"x is 1\n", b"assert (1, 'x')\n", b"1()\n", b"(1, 2)[1.5]\n", b"'''doc'''; x = 1\n", b"'''\xc3\xa9'''\n", b"b'no doc'\n", b"f'no doc'\n",
         b"__debug__\nassert x, 'm'\nif __debug__: y\n", b"def f():\n 'doc'\n assert x\n return __doc__\n", b"class C:\n 'doc'\n", b"from __future__ import annotations\nx: y = 1\n", b"from __future__ import nosuch\n", b"x\nfrom __future__ import annotations\n",
         b"x = 1 # type: ignore\n", b"x = \\\n 1\n", b"async def f():\n async with a as b, c: pass\n await x\n", b"x = 1\n" * 300 + b"y = x\n", b"(" * 300 + b")" * 300, b"def f(x, x): pass\n", b"nonlocal x\n", b"x = 1; import c33_nothing\n", b"from c33_nothing import macro, x\n"]


def h_texts(S, optimize):
    """Special texts."""
    data = S.pick("text", TEXTS)
    o = S.pick("optimize", optimize)
    form = S.pick("form", ["bytes", "str"])
    S.note(lambda: (data, o, form))
    if form == "str":
        try:
            data = importlib.util.decode_source(data)
        except (SyntaxError, UnicodeError):
            return
    both(S, data, o, lambda: repr(data))


# -- histories ------------------------------------------------------------------

USER = {   # text, what importing it gives (a function of the world)
    "plain": ("'doc'\nx = 5\n", lambda w: 5),
    "plain2": ("x = 6 + __debug__\n", lambda w: 7),
    "macro": ("from c33m import macros, k\nx = k[0]\n", lambda w: w.k()),
    "macro2": ("from c33m import macros, k\nx = -k[0]\n", lambda w: -w.k()),
    "renamed": ("from c33m import macros, k as j\nx = j[0] + 1\n", lambda w: w.k() + 1),
    "nested": ("from c33m import macros, k\ndef f():\n    with_ = [k[k[i]] for i in range(2)]\n    return with_\nx = sum(f())\n", lambda w: 2 * w.k()),
    "deep": ("from c33d import macros, d\nx = d[0] + 2\n", lambda w: 7 * w.d + 2),
    "import": ("import c33m\nx = c33m.value\n", lambda w: w.m),
    "hygiene": ("from c33m import macros, hv, hm\nvalue = k = 'no'\nx = hv[1] + hm[1]\n", lambda w: 1 + w.m + 7 * w.d),
    "quote": ("from mcpyrate.quotes import macros, q, u, h\nfrom mcpyrate import unparse\nv = 3\nt = q[u[v] + h[v]]\nv = 4\nx = eval(unparse(t))\n", lambda w: 6),
    "phases": ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    import ast\n    def pm(tree, **kw):\n        return ast.BinOp(tree, ast.Add(), ast.Constant(value=40))\nfrom __self__ import macros, pm\nx = pm[2]\n", lambda w: 42),
    "phases m": ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    from c33m import macros, k\n    y = k[0]\nx = y\n", lambda w: w.k()),
    "dialect": ("from c33l import dialects, Dia\nx = 1\n", lambda w: 10 + w.l),
    "syntax": ("from c33l import dialects, Dia\nset x to 1\n", lambda w: 10 + w.l),
    "block": ("from c33m import macros, twice\nx = 0\nwith twice:\n    x += 1\n", lambda w: 2),
    "error": ("x = = 1\n", (ImportError, SyntaxError)),
    "late": ("x = 1\nreturn\n", SyntaxError),
    "boom": ("from c33m import macros, boom\nx = boom[0]\n", "MacroApplicationError"),
    "raises": ("from c33m import macros, k\nx = k[0]\n1/0\n", ZeroDivisionError),
    "missing": ("from c33_nothing import macros, k\nx = 1\n", ModuleNotFoundError),
    "name": ("from c33m import macros, nothing\nx = 1\n", ImportError),
    "phase error": ("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    1/0\nx = 1\n", ZeroDivisionError),
}
MACRO = '''import ast
from mcpyrate.quotes import macros, q, a, h
from c33d import macros, d
value = {v}
D = d[0]
def k(tree, **kw):
    return ast.Constant(value={v} + D)
def hv(tree, **kw):
    return q[a[tree] + h[value]]
def hm(tree, **kw):
    return q[h[d][a[tree]]]
def boom(tree, **kw):
    raise RuntimeError("c33 boom")
def twice(tree, **kw):
    return tree + tree
'''
DEEP = '''import ast
def d(tree, **kw):
    return ast.Constant(value=7 * {v})
'''
LANG = '''from mcpyrate.dialects import Dialect
class Dia(Dialect):
    def transform_source(self, text):
        return text.replace("set x to", "x =").replace("x = 1", "x = 1{v}")
'''
NAMES = ("c33u", "c33m", "c33d", "c33l")
BASE = int(max(os.stat(m.__file__).st_mtime for k, m in sys.modules.items() if k.partition(".")[0] == "mcpyrate")) + 10     # later than the macros of mcpyrate


KEPT = {}


class World:
    def __init__(self, S):
        self.S = S
        self.m, self.d, self.l, self.broken = 100, 1, 0, None
        self.clock = BASE
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="c33_", dir=os.environ.get("VERIF_SCRATCH") or base))
        self.saved = (list(sys.path), sys.dont_write_bytecode, sys.pycache_prefix)
        sys.pycache_prefix = self.root + "/cache"
        self.cache = os.path.dirname(importlib.util.cache_from_source(self.root + "/c33u.py"))
        os.makedirs(os.path.dirname(importlib.util.cache_from_source(sys.modules["mcpyrate"].__file__)))
        # what the macros of mcpyrate itself depend on is the same in all histories
        for f, data in KEPT.items():
            os.makedirs(os.path.dirname(f"{self.root}/cache/{f}"), exist_ok=True)
            with open(f"{self.root}/cache/{f}", "wb") as g:
                g.write(data)
        self.user = "plain"
        self.write("c33d", DEEP.format(v=self.d))
        self.write("c33m", MACRO.format(v=self.m))
        self.write("c33l", LANG.format(v=self.l))
        self.process()
        return self
    def __exit__(self, *exc):
        unhook()
        if not KEPT:
            for top, _, files in os.walk(self.root + "/cache"):
                for f in files:
                    if not f.startswith("c33"):
                        with open(f"{top}/{f}", "rb") as g:
                            KEPT[os.path.relpath(f"{top}/{f}", self.root + "/cache")] = g.read()
        sys.path[:], sys.dont_write_bytecode, sys.pycache_prefix = self.saved
        self.purge()
        shutil.rmtree(self.root)
    def purge(self):
        for k in [k for k in sys.modules if k.startswith("c33")]:
            del sys.modules[k]
        for k in [k for k in sys.path_importer_cache if k.startswith(self.root)]:
            del sys.path_importer_cache[k]
    def process(self, hooks=True):
        """A new process."""
        self.purge()
        path = list(sys.path)
        self.S.m.reset()
        sys.path[:] = path
        if sys.path[0] != self.root:
            sys.path.insert(0, self.root)
        importlib.invalidate_caches()
        unhook()
        if hooks:
            activate_module.activate()
    def file(self, name):
        return f"{self.root}/{name}.py"
    def write(self, name, text, tick=True):
        self.clock += 1 if tick else 0
        with open(self.file(name), "w") as f:
            f.write(text)
        os.utime(self.file(name), (self.clock, self.clock))
    def write_user(self, kind, tick=True):
        self.user = kind
        self.write("c33u", USER[kind][0], tick)
    def k(self):
        return self.m + 7 * self.d
    def uses(self):
        """The modules the user's module needs."""
        text = USER[self.user][0]
        return {n for n in NAMES[1:] if n in text} | ({"c33d"} if "c33m" in text else set())
    def expected(self):
        if self.broken and self.broken in self.uses():
            return (ImportError, SyntaxError)
        w = USER[self.user][1]
        return w if isinstance(w, (type, str, tuple)) else w(self)
    def judge(self, how, reload=None):
        S = self.S
        before = sys.modules.get("c33u")
        want = self.expected()
        show = lambda: f"{self.user!r} {how}"
        failed = None
        try:
            mod = importlib.reload(before) if reload else importlib.import_module("c33u")
        except Exception as e:
            failed = e
        if isinstance(want, (type, str, tuple)):
            S.check(failed is not None, lambda: f"{show()}: no error")
            S.check(type(failed).__name__ == want if isinstance(want, str) else isinstance(failed, want), lambda: f"{show()}: {failed!r}, should be {want}")
            S.check(sys.modules.get("c33u") is (before if reload else None), lambda: f"{show()}: the failing import leaves a module behind")
            if self.broken and not (self.user == "raises"):
                S.check(self.broken not in sys.modules, lambda: f"{show()}: the failing import leaves {self.broken} behind")
            S.reach("failed")
            return None
        if failed is not None:
            raise failed
        S.check(mod.x == want, lambda: f"{show()}: x is {mod.x!r}, should be {want!r}")
        S.check(sys.modules.get("c33u") is mod, lambda: f"{show()}: not in the module table")
        S.check(mod.__name__ == "c33u" and mod.__file__ == self.file("c33u") and mod.__package__ == "", lambda: f"{show()}: attributes of the module")
        S.check(mod.__doc__ == ("doc" if self.user == "plain" else None), lambda: f"{show()}: doc {mod.__doc__!r}")
        S.check(mod.__spec__.origin == mod.__file__ and type(mod.__loader__) is SourceFileLoader, lambda: f"{show()}: spec")
        S.reach("imported")
        return mod


def contents(mod):
    """The module's state, for comparison with that of the same module imported in another way."""
    out = {}
    for k, v in mod.__dict__.items():
        if k in ("__builtins__", "__loader__", "__spec__", "t"):
            continue
        out[k] = v if isinstance(v, (int, str, type(None))) else v.__name__ if isinstance(v, types.ModuleType) else \
            (v.__code__.co_code, v.__code__.co_firstlineno, v.__code__.co_filename) if isinstance(v, types.FunctionType) else type(v).__name__
    return out


STEPS = ["user:" + k for k in USER] + ["same second:" + k for k in ("plain2", "macro2", "nested")] + \
        ["edit m", "edit d", "edit l", "break m", "break d", "repair", "touch u", "touch d", "delete cache", "damage cache", "old cache", "no bytecode", "reload", "unhooked", "deactivated"]


def apply(S, w, step, i):
    kind, _, what = step.partition(":")
    if kind == "user":
        S.assume(what != w.user)
        w.write_user(what)
    elif kind == "same second":
        S.assume(w.user not in ("phases", "phases m") and os.path.getsize(w.file("c33u")) != len(USER[what][0]))
        w.clock = max(w.clock, BASE)
        old = os.stat(w.file("c33u")).st_mtime
        S.assume(old == w.clock)
        w.write_user(what, tick=False)
        S.reach("same second")
    elif step in ("edit m", "edit d", "edit l"):
        n = step[-1]
        S.assume(not (w.broken and w.broken[-1] == n))
        setattr(w, n, getattr(w, n) + 1)
        w.write("c33" + n, {"m": MACRO, "d": DEEP, "l": LANG}[n].format(v=getattr(w, n)))
    elif step in ("break m", "break d"):
        S.assume(not w.broken)
        w.broken = "c33" + step[-1]
        w.write(w.broken, "x = = 1\n")
    elif step == "repair":
        S.assume(w.broken)
        n = w.broken[-1]
        w.write(w.broken, {"m": MACRO, "d": DEEP}[n].format(v=getattr(w, n)))
        w.broken = None
    elif step in ("touch u", "touch d"):
        w.clock += 1
        os.utime(w.file("c33" + step[-1]), (w.clock, w.clock))
    elif step == "delete cache":
        shutil.rmtree(w.cache, ignore_errors=True)
    elif step == "damage cache":
        d = w.cache
        S.assume(os.path.isdir(d))
        how = S.pick(f"damage{i}", ["truncate", "magic", "body"])
        for f in os.listdir(d):
            if f.startswith("c33u") and f.endswith(".pyc"):
                data = open(f"{d}/{f}", "rb").read()
                data = {"truncate": data[:10], "magic": b"\0" * 4 + data[4:], "body": b""}[how]
                with open(f"{d}/{f}", "wb") as g:
                    g.write(data)
    elif step == "no bytecode":
        sys.dont_write_bytecode = True
    elif step == "unhooked":
        # a process without mcpyrate imports the module, if it can
        S.assume(w.user in ("plain", "plain2") and not w.broken)
        w.process(hooks=False)
        w.judge("unhooked")
    elif step == "deactivated":
        S.assume(w.user in ("plain", "plain2"))
        w.process()
        activate_module.deactivate()
        w.judge("deactivated")
        activate_module.activate()
    elif step == "old cache":
        # the cache of the previous content is put back (e.g. by a file synchronizer)
        S.assume(w.old is not None)
        os.makedirs(w.cache, exist_ok=True)
        for f, data in w.old.items():
            with open(f"{w.cache}/{f}", "wb") as g:
                g.write(data)


def h_history(S, n, starts, steps):
    """Any history of edits and imports; after each step a new process imports the module, then another one from its cache."""
    with World(S) as w:
        sys.dont_write_bytecode = False
        w.old = None
        w.write_user(S.pick("start", starts))
        w.judge("at first")
        S.note(w.user)
        for i in range(n):
            step = S.pick(f"s{i}", steps)
            S.note(step)
            d = w.cache
            old = {f: open(f"{d}/{f}", "rb").read() for f in os.listdir(d) if f.startswith("c33u")} if os.path.isdir(d) else {}
            if step == "reload":
                # an edit of the module itself, in the same process
                S.assume("c33u" in sys.modules and not w.broken)
                w.write_user(S.pick(f"r{i}", ["plain", "macro2", "hygiene", "phases", "raises", "boom"]))
                sys.modules["c33u"].__dict__.pop("__doc__")
                sys.modules["c33u"].__doc__ = None
                w.judge("reloaded", reload=True)
                S.reach("reload")
            else:
                apply(S, w, step, i)
            w.old = old
            w.process()
            fresh = w.judge("imported")
            w.process()
            pyc = importlib.util.cache_from_source(w.file("c33u"))
            had = os.path.exists(pyc)
            cached = w.judge("imported again")
            if fresh is not None:
                S.check(contents(fresh) == contents(cached), lambda: f"{w.user!r}: another module state from the cache")
                if had:
                    S.reach("cached")
                S.check(sys.dont_write_bytecode or had, lambda: f"{w.user!r}: not cached")


# -- hooks -----------------------------------------------------------------------

def h_hooks(S, n):
    """activate, deactivate."""
    try:
        unhook()
        on = False
        for i in range(n):
            step = S.pick(f"s{i}", ["activate", "deactivate"])
            getattr(activate_module, step)()
            on = step == "activate"
            hooks = (SourceFileLoader.source_to_code, SourceFileLoader.path_stats)
            S.check(hooks == ((S.m.importer.source_to_xcode, S.m.importer.path_xstats) if on else (std_compile, std_stats)), lambda: f"{step}: hooks {hooks}")
            S.reach(step)
    finally:
        unhook()


def h_stats(S):
    """Which files the stats hook handles itself."""
    with World(S) as w:
        kind = S.pick("file", ["plain", "macro", "stdlib", "stdlib package", "other suffix", "no suffix", "missing", "missing other", "copy of stdlib", "site-packages", "dist-packages"])
        loader = SourceFileLoader("m", "m")
        fn = lambda p: S.m.importer.path_xstats(loader, p)
        path = {"plain": w.file("c33d"), "macro": w.file("c33m"), "stdlib": ast.__file__, "stdlib package": importlib.__file__, "other suffix": w.root + "/a.txt", "no suffix": w.root + "/a",
                "site-packages": w.root + "/lib/site-packages/c33i.py", "dist-packages": w.root + "/lib/dist-packages/c33i/sub.py", "missing": w.root + "/nothing.py", "missing other": w.root + "/nothing.txt", "copy of stdlib": w.root + "/ast.py"}[kind]
        S.note(path)
        if kind in ("other suffix", "no suffix"):
            with open(path, "w") as f:
                f.write("from c33m import macros, k\n")
            os.utime(path, (BASE - 5, BASE - 5))
        elif kind == "copy of stdlib":
            with open(path, "w") as f:
                f.write("from c33m import macros, k\n")
            os.utime(path, (BASE - 5, BASE - 5))
        elif "-packages" in kind:      # most installations keep third-party packages in the directory of the standard library
            os.makedirs(os.path.dirname(path))
            for p in (path, w.root + "/lib/os.py"):
                with open(p, "w") as f:
                    f.write("from c33m import macros, k\n")
                os.utime(p, (BASE - 5, BASE - 5))
            real = os.__file__
            try:
                os.__file__ = w.root + "/lib/os.py"
                unhook()
                importlib.reload(S.m.importer)
                got, want = fn(path), std_stats(loader, path)
            finally:
                os.__file__ = real
        if kind.startswith("missing"):
            S.raises(FileNotFoundError, lambda: fn(path), path)
            return
        if "-packages" not in kind:
            got, want = fn(path), std_stats(loader, path)
        if kind in ("macro", "copy of stdlib", "site-packages", "dist-packages"):
            newest = max(os.stat(w.file(f)).st_mtime for f in ("c33d", "c33m"))
            S.check(abs(got["mtime"] - max(newest, os.stat(S.m.quotes.__file__).st_mtime)) < 1e-3, lambda: f"{path}: time {got}")
        else:
            S.check(abs(got["mtime"] - want["mtime"]) < 1e-3, lambda: f"{path}: {got}, should be {want}")
        S.check(got["size"] in (None, want["size"]), lambda: f"{path}: size {got}")
        if "stdlib" in kind and not "copy" in kind or "suffix" in kind:
            S.check(got == want, lambda: f"{path}: {got}, should be {want}")
        S.reach(kind)


STARTS = ["plain", "macro", "hygiene", "phases m", "dialect", "syntax"]
HARNESSES = [
    H("plain", h_plain, "code without macros", dict(grammar=GS, optimize=[-1]), dict(grammar=GST, optimize=[-1, 0, 1, 2]), reach=["code", "error"]),
    H("texts", h_texts, "special source texts", dict(optimize=[-1, 0, 1, 2]), reach=["code", "error"]),
    H("history", h_history, "histories of edits and imports", dict(n=1, starts=list(USER), steps=STEPS), dict(n=2, starts=STARTS, steps=STEPS), reach=["imported", "failed", "cached", "reload", "same second"]),
    H("long", h_history, "longer histories", dict(n=2, starts=["macro"], steps=STEPS), dict(n=3, starts=["macro"], steps=STEPS), reach=["imported", "failed", "cached"]),
    H("hooks", h_hooks, "activate and deactivate", dict(n=4), reach=["activate", "deactivate"]),
    H("stats", h_stats, "files handled by the hook", dict(), reach=["plain", "macro", "stdlib"]),
]
