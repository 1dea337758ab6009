"""C26: ismacroimport, get_macros and find_macros, against an independent model of macro-imports."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import sys
import types
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone

ALIASES = ["macros", "macros as q", "dialects", "x", "x as macros", "macro", "Macros", "macros as macros", "dialects as dialects"]
IMPORTS = G.shapes("stmt", [f"from {m} import {n}" for m in ("m", ".m", ".", "m.n") for n in ["*", *ALIASES, *(f"{a}, {b}" for a in ALIASES[:5] for b in ("x", "macros", "macros as q"))]]
                   + ["import macros", "import macros, x", "import m as macros", "macros", "macros = 1", "with macros: S0", "def macros(): S0", "if macros: S0"])
GI = G.grammar(stmt=[IMPORTS + G.STMT_ALL, G.STMT_ONE], expr=[G.EXPR_STRUCT, G.EXPR_ONE])
BOUNDS = {"quick": "any statement form, and every form of import, for recognition; single macro-imports of two names: 12 modules (absolute, relative at up to 3 levels, the module itself, missing ones), 6 kinds of names, each with or without an as-name, in files in and outside of packages or of no file name; modules created at run time, reloading or not; modules of 3 statements, macro-imports and others, with overlapping bindings, with and without locations, in place or without transformation, reloading or not",
          "thorough": "three names per import; modules of 4 statements"}
OUTSIDE = "modules whose own import fails; star imports; larger modules"
ASSUMPTIONS = ["where a macro-import is wrong in several ways, any of the documented exceptions may be raised"]
ROOT = "/c26root"
FILES = {"pkg": ROOT + "/c26pkg/sub/f.py", "top": ROOT + "/f.py", "out": "/c26elsewhere/f.py", "label": "<interactive input>"}


def m_source(name):
    def mac1(tree, **kw):
        return tree
    def mac2(tree, **kw):
        return tree
    class Mac:
        def __init__(self, tree, **kw):
            pass
    return dict(mac1=mac1, mac2=mac2, Mac=Mac, value=5, nothing=None, falsy=Falsy())


class Falsy:
    """A callable that is false, and compares equal to everything."""
    def __bool__(self): return False
    def __eq__(self, other): return True
    __hash__ = None
    def __call__(self, tree, **kw): return tree


MODULES = ["c26m", "c26other", "c26pkg", "c26pkg.lib", "c26pkg.sub", "c26pkg.sub.deep", "c26self"]


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.executed = []
    def find_spec(self, name, path=None, target=None):
        if name in MODULES:
            return importlib.machinery.ModuleSpec(name, self, is_package=name in ("c26pkg", "c26pkg.sub"))
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        self.executed.append(module.__name__)
        module.__dict__.update(m_source(module.__name__))


class Env:
    def __init__(self, S):
        self.S = S
    def __enter__(self):
        self.saved = list(sys.path), list(sys.meta_path)
        sys.path.insert(0, ROOT)
        self.finder = Finder()
        sys.meta_path.insert(0, self.finder)
        self.drop()
        return self
    def drop(self):
        for k in [k for k in sys.modules if k.startswith("c26")]:
            del sys.modules[k]
    def __exit__(self, *exc):
        sys.path[:], sys.meta_path[:] = self.saved
        self.drop()


def resolve(module, level, file):
    """(absolute name, or the exceptions)"""
    bad = set()
    pkg = None
    if level:
        if file == "pkg":
            pkg = ["c26pkg", "sub"]
            if level > 2:
                bad.add(ImportError)
        else:
            bad.add(ImportError)
    if module is None:
        bad.add(SyntaxError)
    if module == "__self__" and level:
        bad.add(SyntaxError)
    if bad:
        return None, bad
    if not level:
        return module, bad
    return ".".join(pkg[:len(pkg) - level + 1] + [module]), bad


def expect(imp, file, self_module, allow_asname=True):
    """What a macro-import given as (module, level, names) must do: (module name, {name: attribute}, exceptions)."""
    module, level, names = imp
    name, bad = resolve(module, level, file)
    if bad:
        return None, None, bad
    if module == "__self__":
        name = self_module
        if name not in ("c26self",):
            return None, None, {ModuleNotFoundError}
    elif name not in MODULES:
        return None, None, {ModuleNotFoundError}
    out = {}
    for n, asname in names:
        if n in ("gone", "value", "nothing") or (asname and not allow_asname):
            bad.add(ImportError)
        out[asname or n] = n
    return name, out, bad


def statement(imp, magic="macros"):
    module, level, names = imp
    return ast.ImportFrom(module=module, names=[ast.alias(name=magic, asname=None)] + [ast.alias(name=n, asname=a) for n, a in names], level=level)


MODS = [("c26m", 0), ("c26pkg.lib", 0), ("c26pkg", 0), ("deep", 1), ("lib", 2), ("sub", 2), ("lib", 3), (None, 1), ("__self__", 0), ("__self__", 1), ("c26missing", 0), ("c26m.missing", 0), ("missing", 1)]
NAMES = ["mac1", "mac2", "Mac", "falsy", "gone", "value", "nothing"]


def bound(S, got, want, module):
    S.check(type(got) is dict and list(got) == list(want), lambda: f"bindings {list(got)}, expected {list(want)}")
    for k, a in want.items():
        S.check(got[k] is getattr(sys.modules[module if isinstance(module, str) else module[k]], a), lambda: f"{k} is bound to {got[k]!r}, not to {a} of {module}")


def h_one(S, n):
    """One macro-import."""
    with Env(S) as env:
        mod = S.pick("module", MODS)
        names = []
        for i in range(S.pick("n", range(n + 1))):
            names.append((S.pick(f"n{i}", NAMES), S.pick(f"a{i}", [None, "z", "mac1"])))
        imp = (*mod, names)
        file = S.pick("file", list(FILES)) if mod[1] else "pkg"
        selfm = S.pick("self", ["c26self", "c26gone", None]) if mod[0] == "__self__" else "c26self"
        importlib.import_module("c26self")
        allow = S.pick("asname", [True, False]) if any(a for _, a in names) else True
        reload = S.pick("reload", [False, True]) if mod in MODS[:4] else False
        loaded = S.pick("loaded", [False, True]) if mod in MODS[:2] else False
        if loaded:
            importlib.import_module(mod[0])
        tree = statement(imp)
        if S.pick("located", [False, True]):
            tree.lineno, tree.col_offset = 3, 0
        S.note(lambda: (ast.unparse(tree), file, selfm))
        before = clone(tree)
        name, want, bad = expect(imp, file, selfm, allow)
        call = lambda: S.m.coreutils.get_macros(tree, filename=FILES[file], reload=reload, allow_asname=allow, self_module=selfm)
        if bad:
            S.reach("rejected")
            e = S.raises(tuple(bad), call, "get_macros")
            exact = {SyntaxError: SyntaxError, ModuleNotFoundError: ModuleNotFoundError, ImportError: ImportError}
            S.check(any(isinstance(e, exact[b]) for b in bad), "the documented exception")
            if bad == {ImportError}:
                S.check(not isinstance(e, ModuleNotFoundError) or mod[1], lambda: f"the module was found, but: {e!r}")
        else:
            S.reach("bound")
            got = call()
            S.check(type(got) is tuple and len(got) == 2, "module name and bindings")
            S.check(got[0] == name, lambda: f"module {got[0]}, expected {name}")
            bound(S, got[1], want, name)
            S.check(env.finder.executed.count(name) == (2 if reload else 1), lambda: f"{name} executed {env.finder.executed.count(name)} times")
        S.same(tree, before, "the statement itself", attrs=True)


MACROIMPORTS = [("c26m", 0, [("mac1", None)]), ("c26other", 0, [("mac1", None), ("mac2", "z")]), ("deep", 1, [("mac2", "mac1"), ("mac1", "mac2")]),
                ("lib", 2, []), ("__self__", 0, [("mac1", None), ("Mac", "z")]), ("c26m", 0, [("mac2", None), ("mac1", "z")])]
FAILING = [("c26m", 0, [("gone", None)]), ("c26missing", 0, []), (None, 1, []), ("c26m", 0, [("value", "v")])]
OTHERS = G.shapes("stmt", ["v0", "from m import v0", "from c26m import macros as v0, mac1", "from c26m import mac1, macros", "import macros", "import c26m", "from c26m import dialects, mac1",
                           "if v0:\n from c26m import macros, mac1", "def f():\n from c26m import macros, mac1", "with phase[1]:\n from c26m import macros, mac1", "from __self__ import v0", "class C: S0", "from . import v0"])
GO = G.grammar(stmt=[OTHERS, G.shapes("stmt", ["v0", "pass"])])


def h_module(S, n, extra, reloading):
    """Macro-imports among other statements."""
    with Env(S) as env:
        importlib.import_module("c26self")
        transform = S.pick("transform", [True, False])
        selfm = S.pick("self", ["c26self", None]) if extra else "c26self"
        located = S.pick("located", [True, False])
        reload = S.pick("reload", [False, True]) if reloading else False
        body, model = [], []
        want, source, bad = {}, {}, set()
        for i in range(n):
            k = S.pick(f"k{i}", ["macros", "other"])
            if k == "macros":
                imp = S.pick(f"i{i}", MACROIMPORTS + (FAILING if extra else []))
                s = statement(imp)
                name, names, b = expect(imp, "pkg", selfm)
                if b:
                    bad = bad or b
                if not bad:
                    for key, a in names.items():
                        want[key] = a
                        source[key] = name
            else:
                imp = name = None
                s = S.stmt(f"s{i}", GO)
            if located and imp:
                s.lineno, s.col_offset, s.end_lineno, s.end_col_offset = 10 + i, 2, 10 + i, 30
                for a in s.names:
                    a.lineno, a.col_offset, a.end_lineno, a.end_col_offset = 10 + i, 4, 10 + i, 6
            body.append(s)
            model.append((imp, name, s))
        S.note(lambda: [show(nodes.force(s)) for s in body])
        if S.pick("in", ["module", "function"]) == "module":
            tree = ast.Module(body=body, type_ignores=[])
        else:
            tree = ast.FunctionDef(name="f", args=None, body=body, decorator_list=[])
        kept = [clone(s) for s in body]
        call = lambda: S.m.expander.find_macros(tree, filename=FILES["pkg"], reload=reload, self_module=selfm, transform=transform)
        if bad:
            S.reach("rejected")
            S.raises(tuple(bad), call, "find_macros")
            return
        got = call()
        S.check(set(got) == set(want), lambda: f"bindings {list(got)}, expected {list(want)}")
        for k in want:
            if not reload:
                S.check(got[k] is getattr(sys.modules[source[k]], want[k]), lambda: f"{k} is not {want[k]} of {source[k]}")
            else:
                f = got[k]
                S.check(callable(f) and f.__name__ == want[k], lambda: f"{k} is {f!r}")
        if reload:
            for imp, name, s in model:
                if imp and imp[0] != "__self__":
                    S.check(env.finder.executed.count(name) == 1 + sum(nm == name for i2, nm, _ in model if i2 and i2[0] != "__self__"), lambda: f"{name} executed {env.finder.executed}")
        # what is left
        out = list(tree.body)
        for (imp, name, s), old in zip(model, kept):
            if imp and transform:
                if imp[0] == "__self__":
                    S.reach("self")
                    if out and not any(out[0] is x for _, _, x in model) and not isinstance(out[0], (ast.Import, ast.ImportFrom)):
                        d = out.pop(0)
                        if isinstance(d, S.m.markers.ASTMarker):     # (removed when expansion is complete)
                            d = d.body
                        S.check(isinstance(d, ast.stmt), lambda: f"not a statement: {d}")
                        if located:
                            S.check(d.lineno == s.lineno, lambda: f"marker at {d.lineno}, expected {s.lineno}")
                            m = ast.Module(body=[clone(d)], type_ignores=[])
                            ns = {}
                            exec(compile(ast.fix_missing_locations(m), "m", "exec"), ns)
                            S.check(not [x for x in ns if not x.startswith("_")], lambda: f"{show(d)} is left")
                    continue
                S.reach("replaced")
                S.check(bool(out), f"no statement left for the import of {name}")
                d = out.pop(0)
                S.check(type(d) is ast.Import and len(d.names) == 1 and d.names[0].name == name and d.names[0].asname is None, lambda: f"{show(d)}, expected import {name}")
                for x in (d, d.names[0]):
                    if located:
                        S.check((x.lineno, x.col_offset, x.end_lineno, x.end_col_offset) == (s.lineno, 2, s.lineno, 30), lambda: f"location of {show(d)}")
            else:
                S.check(bool(out) and out[0] is s, lambda: f"{show(old)} is gone")
                S.same(out.pop(0), old, "another statement", attrs=True)
        S.check(not out, lambda: f"left over: {[show(x) for x in out]}")
        S.reach("done")


def h_ismacro(S, magic):
    """Recognition."""
    s = S.stmt("s", GI)
    S.note(lambda: show(nodes.force(s)))
    name = S.pick("magic", [None, "macros", "dialects"])
    f = S.m.coreutils.ismacroimport
    got = f(s) if name is None else f(s, name) if S.pick("kw", [0, 1]) else f(s, magicname=name)
    want = nodes.sx_type(s) is ast.ImportFrom and s.names[0].name == (name or "macros") and s.names[0].asname is None
    S.check(bool(got) == bool(want), lambda: f"{show(s)}: {got}")
    if want:
        S.reach("import")


def h_runtime(S):
    """Macro-imports from modules that were created at run time, not imported."""
    with Env(S):
        name = S.pick("name", ["c26run", "c26pkg.run"])
        if "." in name:
            importlib.import_module("c26pkg")
        by = S.pick("by", ["create_module", "no spec", "spec None"])
        if by == "create_module":
            mod = S.m.compiler.create_module(name)
        else:
            mod = sys.modules[name] = types.ModuleType(name)
            if by == "no spec":
                del mod.__spec__
        mod.__dict__.update(m_source(name))
        level, file = S.pick("import", [(0, "pkg"), (2, "pkg")] if "." in name else [(0, f) for f in FILES])
        names = [(S.pick("n", NAMES), S.pick("a", [None, "z"]))]
        imp = ("run" if level else name, level, names)
        tree = statement(imp)
        reload = S.pick("reload", [False, True])
        S.note(lambda: (ast.unparse(tree), by, reload))
        state = dict(mod.__dict__)
        fn = S.pick("fn", ["get_macros", "find_macros"])
        if fn == "get_macros":
            call = lambda: S.m.coreutils.get_macros(tree, filename=FILES[file], reload=reload, self_module=None)[1]
        else:
            call = lambda: S.m.expander.find_macros(ast.Module(body=[tree], type_ignores=[]), filename=FILES[file], reload=reload)
        if names[0][0] in ("gone", "value", "nothing"):
            S.raises(ImportError, call, fn)
            S.reach("rejected")
        else:
            got = call()
            bound(S, dict(got), {names[0][1] or names[0][0]: names[0][0]}, name)
            S.reach("bound")
        S.check(sys.modules.get(name) is mod and mod.__dict__.keys() == state.keys() and all(mod.__dict__[k] is v for k, v in state.items()), "the module itself changes")


HARNESSES = [
    H("runtime", h_runtime, "macro-imports from modules created at run time", dict(), reach={"bound", "rejected"}),
    H("ismacroimport", h_ismacro, "recognition", dict(magic=None), reach={"import"}),
    H("one", h_one, "one macro-import", dict(n=2), dict(n=3), reach={"bound", "rejected"}),
    H("module", h_module, "macro-imports in a module", dict(n=3, extra=False, reloading=False), dict(n=4, extra=False, reloading=False), reach={"done", "replaced", "self"}, weight=2),
    H("failing", h_module, "with failing ones, without a module name, and reloading", dict(n=2, extra=True, reloading=True), dict(n=3, extra=True, reloading=True), reach={"done", "replaced", "rejected", "self"}),
]
