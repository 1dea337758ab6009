"""Load mcpyrate from /repo's current source: instrumented for symbolic execution, or as it is.

Instrumentation replaces some constructs by functions that know about symbolic values, and leaves
everything else alone: `type(x)`, `isinstance(x, c)`, `x is y`, `x in y`, `int(s)`, and f-strings. It is derived from the source on
every run.
"""
import ast
import collections
import copy
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types
import weakref

REPO = os.environ.get("VERIF_REPO", "/repo")


class _Instrument(ast.NodeTransformer):
    def __init__(self, bound):
        self.bound = bound
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id not in self.bound and not node.keywords and \
                not any(isinstance(a, ast.Starred) for a in node.args):
            if f.id == "type" and len(node.args) == 1:
                f.id = "__sx_type__"
            elif f.id == "isinstance" and len(node.args) == 2:
                f.id = "__sx_isinstance__"
            elif f.id == "int":
                f.id = "__sx_int__"
        return node
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(func=ast.Name(id="__sx_in__", ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.UnaryOp(op=ast.Not(), operand=call)
            return ast.fix_missing_locations(ast.copy_location(call, node))
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            if any(isinstance(x, ast.Constant) for x in (node.left, node.comparators[0])):
                return node     # never symbolic
            call = ast.Call(func=ast.Name(id="__sx_is__", ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.IsNot):
                call = ast.UnaryOp(op=ast.Not(), operand=call)
            return ast.fix_missing_locations(ast.copy_location(call, node))
        return node
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = node.values
        if not any(isinstance(p, ast.FormattedValue) for p in parts):
            return node
        elts = []
        for p in parts:
            if isinstance(p, ast.FormattedValue) and p.conversion == -1 and p.format_spec is None:
                elts.append(p.value)
            else:
                elts.append(ast.JoinedStr(values=[p]) if isinstance(p, ast.FormattedValue) else p)
        call = ast.Call(func=ast.Name(id="__sx_fstr__", ctx=ast.Load()), args=elts, keywords=[])
        return ast.fix_missing_locations(ast.copy_location(call, node))


def _bound_names(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.alias):
            out.add(n.asname or n.name)
    return out


def instrument(source, filename):
    tree = ast.parse(source, filename)
    bound = _bound_names(tree) & {"type", "isinstance", "int"}
    return ast.fix_missing_locations(_Instrument(bound).visit(tree))


def _find(fullname):
    rel = fullname.split(".")
    base = os.path.join(REPO, *rel)
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    return None, False


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "mcpyrate" and not fullname.startswith("mcpyrate."):
            return None
        fn, pkg = _find(fullname)
        if fn is None:
            return None
        spec = importlib.machinery.ModuleSpec(fullname, self, origin=fn, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(fn)]
        return spec
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        from . import nodes, sre
        fn = module.__spec__.origin
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        d = module.__dict__
        d["__sx_type__"] = nodes.sx_type
        d["__sx_isinstance__"] = nodes.sx_isinstance
        d["__sx_is__"] = nodes.sx_is
        d["__sx_fstr__"] = sre.sx_fstr
        d["__sx_int__"] = sre.sx_int
        d["__sx_in__"] = sre.sx_in
        d["__file__"] = fn
        exec(compile(instrument(src, fn), fn, "exec"), d)
        sre.patch_module(d)
    def get_source(self, fullname):
        fn, _ = _find(fullname)
        if fn:
            with open(fn, encoding="utf-8") as f:
                return f.read()


class _Plain(_Finder):
    """As it is, but never from (or into) a bytecode cache."""
    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        module.__dict__["__file__"] = fn
        exec(compile(src, fn, "exec"), module.__dict__)


def fake_colorama():
    if "colorama" in sys.modules:
        return
    m = types.ModuleType("colorama")
    class _Codes:
        pass
    def codes(base, names):
        c = _Codes()
        for i, n in enumerate(names):
            if n:
                setattr(c, n, f"\033[{base[i] if isinstance(base, (list, tuple)) else base + i}m")
        return c
    names = ["BLACK", "RED", "GREEN", "YELLOW", "BLUE", "MAGENTA", "CYAN", "WHITE", "", "RESET"]
    m.Fore = codes(30, names)
    m.Back = codes(40, names)
    for i, n in enumerate(names[:8]):
        setattr(m.Fore, f"LIGHT{n}_EX", f"\033[{90 + i}m")
        setattr(m.Back, f"LIGHT{n}_EX", f"\033[{100 + i}m")
    m.Style = codes([1, 2, 22, 0], ["BRIGHT", "DIM", "NORMAL", "RESET_ALL"])
    m.init = m.deinit = m.reinit = lambda *a, **k: None
    sys.modules["colorama"] = m

MODULES = ["ansi", "astcompat", "astdumper", "astfixers", "bunch", "colorizer", "compiler", "core", "coreutils",
           "debug", "dialects", "expander", "importer", "markers", "metatools", "multiphase", "pycachecleaner",
           "quotes", "splicing", "unparser", "utils", "walkers"]


class Modules:
    pass


# the standard import hooks, which importing mcpyrate replaces
_HOOKS = {k: importlib.machinery.SourceFileLoader.__dict__.get(k) for k in ("source_to_code", "path_stats")}


def unhook():
    cls = importlib.machinery.SourceFileLoader
    for k, v in _HOOKS.items():
        if v is not None:
            setattr(cls, k, v)
        elif k in cls.__dict__:
            delattr(cls, k)


def load(instrumented):
    fake_colorama()
    sys.dont_write_bytecode = True
    for k in [k for k in sys.modules if k == "mcpyrate" or k.startswith("mcpyrate.")]:
        del sys.modules[k]
    unhook()
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, _Finder)]
    sys.meta_path.insert(0, _Finder() if instrumented else _Plain())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    M = Modules()
    M.pkg = importlib.import_module("mcpyrate")
    for n in MODULES:
        setattr(M, n, importlib.import_module("mcpyrate." + n))
    M.reset = Snapshot()
    return M


class Snapshot:
    """Mutable module-level state of mcpyrate (and of the module table), to restore before each run."""
    def __init__(self):
        self.globals = []
        self.containers = []
        self.caches = []
        seen = set()
        for name, m in list(sys.modules.items()):
            if (name == "mcpyrate" or name.startswith("mcpyrate.")) and m is not None:
                d = m.__dict__
                self.globals.append((d, dict(d)))
                for k, v in list(d.items()):
                    if not k.startswith("__"):
                        self._walk(v, seen, 0)
        self.modules = dict(sys.modules)
        self.path = list(sys.path)
        self.meta_path = list(sys.meta_path)
        self.path_hooks = list(sys.path_hooks)

    def _walk(self, v, seen, depth):
        if id(v) in seen or depth > 3:
            return
        if isinstance(v, (dict, list, set, collections.deque)):
            seen.add(id(v))
            self.containers.append((v, copy.copy(v)))
            for x in (v.values() if isinstance(v, dict) else v):
                self._walk(x, seen, depth + 1)
        elif isinstance(v, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet)):
            seen.add(id(v))
            self.containers.append((v, v.copy()))
        elif hasattr(v, "cache_clear") and hasattr(v, "__wrapped__"):
            seen.add(id(v))
            self.caches.append(v)
        elif getattr(type(v), "__module__", "").startswith("mcpyrate") and hasattr(v, "__dict__"):
            seen.add(id(v))
            self._walk_dict(v.__dict__, seen, depth)
        elif isinstance(v, type) and v.__module__.startswith("mcpyrate"):
            seen.add(id(v))
            for x in list(v.__dict__.values()):
                x = x.__func__ if isinstance(x, (staticmethod, classmethod)) else x
                if isinstance(x, (dict, list, set, collections.deque)) or hasattr(x, "cache_clear"):
                    self._walk(x, seen, depth + 1)

    def _walk_dict(self, d, seen, depth):
        self.containers.append((d, dict(d)))
        for x in list(d.values()):
            self._walk(x, seen, depth + 1)

    def _restore(self, containers):
        for c, old in containers:
            c.clear()
            (c.extend if isinstance(c, (list, collections.deque)) else c.update)(old)

    def module(self, m):
        """Restore the module-level containers of one module, as in a new process."""
        mine = {id(v) for v in vars(m).values()}
        self._restore([(c, old) for c, old in self.containers if id(c) in mine])
        for c in self.caches:
            if id(c) in mine:
                c.cache_clear()

    def __call__(self):
        for d, old in self.globals:
            d.clear()
            d.update(old)
        self._restore(self.containers)
        for c in self.caches:
            c.cache_clear()
        if sys.modules.keys() != self.modules.keys() or any(sys.modules[k] is not v for k, v in self.modules.items()):
            for k in list(sys.modules):
                if k not in self.modules and not _is_stdlib(k):
                    del sys.modules[k]
                elif k not in self.modules:
                    self.modules[k] = sys.modules[k]
            sys.modules.update(self.modules)
        sys.path[:] = self.path
        sys.meta_path[:] = self.meta_path
        sys.path_hooks[:] = self.path_hooks


def _is_stdlib(name):
    return name.partition(".")[0] in sys.stdlib_module_names or name.startswith(("z3", "sx", "harness"))
