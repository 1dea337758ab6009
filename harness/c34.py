"""C34: MacroConsole sessions against a model of the namespace and the macro bindings."""
import contextlib
import importlib
import importlib.abc
import importlib.machinery
import io
import linecache
import re
import sys
import types

import mcpyrate.repl.console as console

from sx.api import H

BOUNDS = {"quick": "sessions of 2 inputs out of 92 kinds (definitions, uses, macro-imports of all forms, self-macro-imports, `macro`, the special commands, inputs failing to parse, to import, to expand, to compile, or to run, incomplete inputs, edits of the macro module), with 4 kinds of initial namespaces; 15 longer sessions, followed by every input; every way to split two inputs into lines; 8 unusual macros; 23 objects to show the documentation or source of",
          "thorough": "the same with 3 inputs (2 after the longer sessions)"}
OUTSIDE = "the IPython extension (C36); the prompt, history and completion; threads"
ASSUMPTIONS = ["the names the console itself needs (`__macro_expander__`, `macro`, `mcpyrate`) are not rebound by the user",
               "a macro whose module has been reloaded since by another macro-import, which thus is no longer the one found in that module, is not to be captured hygienically or used in run-time expansion",
               "whether a macro-import also renews the run-time names of macros imported before, and not assigned to since, is left open"]

HEAD = "import ast\nfrom mcpyrate import namemacro, parametricmacro\n"
MACRO = '''
def {name}(tree, *, tag=({name!r}, {v}), **kw):
    "About {name}, version {v}."
    return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value={n}))
'''
REST = '''
@namemacro
def five(tree, *, tag=("five", 0), syntax, **kw):
    return ast.Constant(value=5) if syntax == "name" else tree
def boom(tree, *, tag=("boom", 0), **kw):
    raise RuntimeError("c34 boom")
def stop(tree, *, tag=("stop", 0), **kw):
    raise KeyboardInterrupt
def quit(tree, *, tag=("quit", 0), **kw):
    raise SystemExit(3)
def bad(tree, *, tag=("bad", 0), **kw):
    return "text"
def broken(tree, *, tag=("broken", 0), **kw):
    return ast.Return(value=None)
number = 5
def make():
    def made(tree, *, tag=("made", 0), **kw):
        return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=1000))
    return made
made = make()
anon = lambda tree, *, tag=("anon", 0), **kw: ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=2000))
class Holder:
    @staticmethod
    def held(tree, *, tag=("held", 0), **kw):
        return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=3000))
held = Holder.held
class Obj:
    tag = ("obj", 0)
    def __call__(self, tree, **kw):
        return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=4000))
obj = Obj()
def moved(tree, *, tag=("moved", 0), **kw):
    return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=5000))
other, moved.__module__, moved.__qualname__ = moved, "c34_elsewhere", "moved"
def homeless(tree, *, tag=("homeless", 0), **kw):
    return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=6000))
homeless.__module__ = None
def liar(tree, *, tag=("liar", 0), **kw):
    return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=7000))
liar.__qualname__ = "inc"
'''


class Sources(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Macro definition modules, of changing content."""
    def __init__(self):
        self.version = 0
    def source(self, name):
        v = self.version
        return {"c34m": HEAD + MACRO.format(name="inc", v=v, n=10 + v) + MACRO.format(name="dec", v=v, n=-10 - v) + REST,
                "c34p": "", "c34p.m": HEAD + MACRO.format(name="sub", v=v, n=50 + v),
                "c34bad": "1/0", "c34deep": "import c34_nosuch", "c34syn": "x = = 1", "c34exit": "raise LookupError('c34')"}.get(name)
    def find_spec(self, fullname, path=None, target=None):
        if self.source(fullname) is None:
            return None
        return importlib.machinery.ModuleSpec(fullname, self, is_package=fullname == "c34p")
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        exec(compile(self.source(module.__name__), f"<{module.__name__}>", "exec"), module.__dict__)


@contextlib.contextmanager
def world():
    src = Sources()
    path, hook, err, out, display, mods = list(sys.meta_path), sys.excepthook, sys.stderr, sys.stdout, sys.displayhook, dict(sys.modules)
    sys.meta_path.append(src)
    sys.excepthook = sys.__excepthook__
    try:
        yield src
    finally:
        sys.meta_path[:] = path
        sys.excepthook, sys.stderr, sys.stdout, sys.displayhook = hook, err, out, display
        for k in list(sys.modules):
            if k.startswith("c34") or k == "__mcpyrate_repl_self__":
                del sys.modules[k]


def tag(v):
    d = getattr(v, "__kwdefaults__", None)
    if isinstance(v, types.FunctionType):
        return d["tag"] if d and "tag" in d else "function"
    if isinstance(v, types.ModuleType):
        return "module " + v.__name__
    if hasattr(v, "tag"):
        return v.tag
    return v if isinstance(v, (int, str)) else type(v).__name__


def apply(t, x):
    """What the macro with tag `t` does to a number."""
    name, v = t
    return {"inc": x + 10 + v, "dec": x - 10 - v, "self": x * (10 + v), "five": x, "sub": x + 50 + v, "made": x + 1000, "anon": x + 2000, "held": x + 3000,
            "obj": x + 4000, "moved": x + 5000, "homeless": x + 6000, "liar": x + 7000}[name]


class Model:
    def __init__(self, ns):
        self.ns, self.bindings, self.version = dict(ns), {}, 0
        self.renewed = ()       # names that may have been renewed
        self.fresh = []         # those of them that this input macro-imports
        self.more = False
        self.error = None       # the error that must be shown: "any", or a class
        self.shown = []
        self.text = None        # a regexp that must be in the output
    def copy_for(self):
        self.renewed, self.fresh, self.more, self.error, self.shown, self.text = (), [], False, None, [], None

    # -- effects
    def imported(self, module, names):
        """A macro-import (that is valid)."""
        for name, asname in names:
            t = ("self", 0) if module is None else (name, self.version if name in ("inc", "dec", "sub") else 0)
            if name == "other":
                t = ("moved", 0)
            self.bindings[asname or name] = t
            self.fresh.append(asname or name)
    def executed(self, module, names):
        if module:
            self.ns[module.partition(".")[0]] = "module " + module.partition(".")[0]
        for name, asname in names:
            self.ns[asname or name] = self.bindings[asname or name]
        self.renewed = [k for k in self.bindings if k not in [a or n for n, a in names]]
    def value(self, name):
        if name in self.ns:
            return self.ns[name]
        raise NameError
    def use(self, macro, x):
        """The value of `macro[x]`."""
        if macro in self.bindings:
            return apply(self.bindings[macro], self.number(x))
        self.value(macro)
        if isinstance(x, str):
            self.value(x)
        raise TypeError
    def number(self, x):
        if isinstance(x, str):
            x = self.value(x)
        if not isinstance(x, int):
            raise TypeError
        return x
    def failed(self, err):
        self.error = err if isinstance(err, str) else type(err).__name__


G1 = "def g(tree, *, tag=('self', 0), **kw):\n    import ast\n    return ast.BinOp(left=tree, op=ast.Mult(), right=ast.Constant(value=10))\n"
G2 = "def g(tree, *, tag=('self', 1), **kw):\n    import ast\n    return ast.BinOp(left=tree, op=ast.Mult(), right=ast.Constant(value=11))\n"


def steps():
    """(label, text, effect)"""
    out = []
    def step(text, effect, label=None):
        out.append((label or text, text, effect))
    def simple(text):
        def deco(f):
            def effect(M):
                try:
                    f(M)
                except (NameError, TypeError, ZeroDivisionError) as e:
                    M.failed(e)
            step(text, effect)
        return deco
    # -- plain Python
    @simple("x = 1")
    def _(M): M.ns["x"] = 1
    @simple("x = x + 1")
    def _(M): M.ns["x"] = M.number("x") + 1
    @simple("x")
    def _(M): M.shown = [M.value("x")]
    @simple("x = 3; x; 4")
    def _(M): M.ns["x"] = 3; M.shown = [3, 4]
    @simple("x = 4\nx")
    def _(M): M.ns["x"] = 4; M.shown = [4]
    @simple("del x")
    def _(M): M.value("x"); del M.ns["x"]
    @simple("inc = 2")
    def _(M): M.ns["inc"] = 2
    @simple("")
    def _(M): pass
    @simple("# nothing")
    def _(M): pass
    @simple("def g(tree, *, tag=('self', 0), **kw):\n    import ast\n    return ast.BinOp(left=tree, op=ast.Mult(), right=ast.Constant(value=10))\n")
    def _(M): M.ns["g"] = ("self", 0)
    @simple("g = 7")
    def _(M): M.ns["g"] = 7
    @simple("del g")
    def _(M): M.value("g"); del M.ns["g"]
    @simple("from __future__ import annotations")
    def _(M): M.ns["annotations"] = "_Feature"; M.future = True
    @simple("def a(x: nosuch): pass\n")
    def _(M):
        if not getattr(M, "future", False): raise NameError
        M.ns["a"] = "function"
    @simple("__name__ = 'c34q'; __path__ = __spec__ = __loader__ = __package__ = 5")
    def _(M): M.ns.update(__path__=5, __spec__=5, __loader__=5, __package__=5)
    @simple("import c34p")
    def _(M): M.ns["c34p"] = "module c34p"
    @simple("1/0")
    def _(M): 1/0
    @simple("x = 5; 1/0; x = 6")
    def _(M): M.ns["x"] = 5; 1/0
    @simple("for x in (8, 9):\n    pass\n")
    def _(M): M.ns["x"] = 9
    # -- uses
    @simple("inc[1]")
    def _(M): M.shown = [M.use("inc", 1)]
    @simple("y = inc[x]")
    def _(M): M.ns["y"] = M.use("inc", "x")
    @simple("inc[inc[1]]")
    def _(M): M.shown = [M.use("inc", M.use("inc", 1))]
    @simple("jnc[1]")
    def _(M): M.shown = [M.use("jnc", 1)]
    @simple("g[1]")
    def _(M): M.shown = [M.use("g", 1)]
    @simple("five")
    def _(M): M.shown = [5 if M.bindings.get("five", "-")[0] == "five" else M.value("five")]
    @simple("dec[1]; inc[1]")
    def _(M):
        M.use("inc", 1) if "inc" in M.bindings else None
        M.shown = [M.use("dec", 1)]
        M.shown.append(M.use("inc", 1))
    @simple("def f():\n    return inc[7]\n")
    def _(M): M.ns["f"] = "function"; M.f = apply(M.bindings["inc"], 7) if "inc" in M.bindings else None
    # -- macro-imports
    def macroimport(module, names, then="", effect=None, level=0, label=None):
        clause = ", ".join(n if a is None else f"{n} as {a}" for n, a in names)
        def run(M):
            M.imported(module, names)
            M.executed(module, names)
            if effect:
                try:
                    effect(M)
                except (NameError, TypeError, ZeroDivisionError) as e:
                    M.failed(e)
        step(f"from {module} import macros, {clause}{then}", run)
    macroimport("c34m", [("inc", None)])
    macroimport("c34m", [("inc", "jnc")])
    macroimport("c34m", [("dec", "inc")])
    macroimport("c34m", [("inc", None), ("dec", None), ("five", None)])
    macroimport("c34p.m", [("sub", "inc")])
    def e(M): M.shown = [M.use("inc", 1)]
    macroimport("c34m", [("inc", None)], "; inc[1]", e)
    def e(M): M.ns["inc"] = M.bindings["inc"]; M.ns["x"] = 7; M.failed("ZeroDivisionError")
    macroimport("c34m", [("inc", None)], "; x = 7; 1/0", e)
    macroimport("c34m", [("inc", None)], "; inc = 4", lambda M: M.ns.update(inc=4))
    macroimport("c34m", [("boom", None), ("bad", None), ("broken", None)])
    step("import c34p; from c34m import macros, inc", lambda M: (M.ns.update(c34p="module c34p"), M.imported("c34m", [("inc", None)]), M.executed("c34m", [("inc", None)])))
    step("if 1:\n    from c34m import macros, inc\n", lambda M: M.failed("ImportError"))
    step("from c34m import macros", lambda M: M.executed("c34m", []))
    # -- self-macro-imports
    def selfimport(name, asname, then=""):
        def run(M):
            v = M.ns.get(name)
            if not isinstance(v, tuple):
                return M.failed("any")
            M.bindings[asname or name] = v
            M.renewed = [k for k in M.bindings]
            M.fresh.append(asname or name)
            if then:
                M.shown = [apply(v, 1)]
        step(f"from __self__ import macros, {name}" + (f" as {asname}" if asname else "") + then, run)
    selfimport("g", None)
    selfimport("g", "inc")
    selfimport("g", None, "; g[1]")
    def e(M): M.ns["g"] = M.bindings["g"] = ("self", 0)
    step("@macro\ndef g(tree, *, tag=('self', 0), **kw):\n    import ast\n    return ast.BinOp(left=tree, op=ast.Mult(), right=ast.Constant(value=10))\n", e)
    @simple(G2)
    def _(M): M.ns["g"] = ("self", 1)
    def e(M): M.ns["g"] = M.bindings["g"] = ("self", 1)
    step("@macro\n" + G2, e)
    @simple("macro(g)")
    def _(M):
        v = M.value("g")
        if not isinstance(v, tuple): raise TypeError
        if "g" in M.bindings: pass
        M.bindings["g"] = v
        M.shown = [v]
    @simple("macro(5)")
    def _(M): raise TypeError
    @simple("macro(lambda tree, **kw: tree)")
    def _(M): raise TypeError
    # -- failing inputs
    for text in ["from c34m import macros, number", "from c34m import macros, inc, nosuch", "from c34bad import macros, inc", "from c34exit import macros, inc", "from c34deep import macros, inc", "from c34syn import macros, inc",
                 "from c34_nosuch import macros, inc", "from . import macros, inc", "from .c34m import macros, inc", "from .__self__ import macros, g",
                 "from c34m import macros, inc; from c34m import macros, nosuch", "from c34m import macros, inc as five, boom; boom[1]",
                 "from c34m import macros, inc as five; return", "from c34m import macros, bad; bad[1]", "from c34m import macros, inc; (x for x in 1) = 2",
                 "from c34m import macros, inc, broken; x = 9; broken[1]", "x = = 1", "x = 9; return", "x y", "'", "x\n  y", "\0"]:
        step(text, lambda M: M.failed("any"))
    @simple("boom[1]")
    def _(M):
        if "boom" in M.bindings: M.failed("MacroApplicationError")
        else: M.use("boom", 1)
    @simple("x = 8; bad[1]")
    def _(M):
        if "bad" in M.bindings: M.failed("any")
        else: M.ns["x"] = 8; M.use("bad", 1)
    # -- incomplete inputs
    for text in ["if x:", "(", "'''a?", "from c34m import (macros,", "def f():\n    return 1", "@macro", "x = \\"]:
        step(text, lambda M: setattr(M, "more", True))
    # -- commands
    def e(M): M.text = "[\\s\\S]*".join(sorted(M.bindings))
    step("macros?", e)
    def about(name):
        def e(M):
            if name not in M.ns:
                return M.failed("NameError")
            if name == "inc" and isinstance(M.ns[name], tuple) and M.ns[name][0] in ("inc", "dec", "sub"):
                M.text = "About %s, version %s" % M.ns[name]
        return e
    step("inc?", about("inc"))
    step("inc??", about("inc2") if False else (lambda M: None if "inc" in M.ns else M.failed("NameError")))
    step("x ?", about("x"))
    for text in ["x y?", "x = ?", "?", "??", "1/0?", "a b??"]:
        step(text, lambda M: M.failed("any"))
    step("x = 6  # ok?", lambda M: M.ns.update(x=6))
    step("x = '''a??\n'''; x = 5  # ??", lambda M: M.ns.update(x=5))
    # -- the macro module is edited
    step(None, lambda M: setattr(M, "version", M.version + 1), "edit")
    return out


STEPS = steps()
LABELS = [s[0] for s in STEPS]
NEW = {"none": None, "dict": {}, "names": {"x": 3, "__name__": "c34_user", "__file__": "c34_file", "__builtins__": __builtins__},
       "reused": {"x": 3, "__macro_expander__": "old", "macro": "old", "mcpyrate": "old"}}
OWN = {"__macro_expander__", "macro", "mcpyrate", "__builtins__", "__name__", "__file__", "__doc__", "ast", "_mcpyrate_coverage"}


class Session:
    def __init__(self, S, src, kind):
        self.S, self.src = S, src
        given = NEW[kind]
        self.given = dict(given) if given is not None else None
        self.M = Model({k: v for k, v in (given or {}).items() if k not in OWN})
        self.buf = []
        with self.capture():
            self.c = console.MacroConsole() if given is None else console.MacroConsole(locals=self.given)
        self.c.write = self.buf.append
    @contextlib.contextmanager
    def capture(self):
        self.shown, self.std = [], io.StringIO()
        saved = sys.stderr, sys.stdout, sys.displayhook
        sys.stderr = sys.stdout = self.std
        sys.displayhook = self.shown.append
        try:
            yield
        finally:
            sys.stderr, sys.stdout, sys.displayhook = saved
    def feed(self, run):
        del self.buf[:]
        with self.capture():
            try:
                return run(self.c)
            except Exception as e:
                self.S.fail(f"the input ends the session: {type(e).__name__}: {e}")
    def do(self, label, text, effect, run=None):
        S, M = self.S, self.M
        M.copy_for()
        effect(M)
        if text is None:
            self.src.version = M.version
            return
        more = self.feed(run or (lambda c: c.runsource(text)))
        out = "".join(self.buf) + self.std.getvalue()
        plain = re.sub("\033\\[[0-9;]*m", "", out)
        S.check(bool(more) == M.more, lambda: f"{label!r}: {'in' if more else ''}complete")
        if M.error:
            S.check(plain.strip(), lambda: f"{label!r}: no error is shown")
            if M.error != "any":
                S.check(M.error in plain, lambda: f"{label!r}: {M.error} is not shown: {plain[-300:]}")
            S.reach("error")
        elif M.text is not None:
            S.check(re.search(M.text, plain), lambda: f"{label!r}: shows {plain!r}, not {M.text!r}")
            S.reach("command")
        elif not label.endswith("?"):
            S.check(not plain, lambda: f"{label!r}: error {plain[-300:]}")
        shown = [tag(v) for v in self.shown if v is not None]
        S.check(shown == M.shown, lambda: f"{label!r}: shows {shown}, not {M.shown}")
        if M.shown:
            S.reach("shown")
        self.state(label)
    def state(self, label):
        S, M = self.S, self.M
        b = {k: tag(v) for k, v in self.c.expander.bindings.items()}
        S.check(b == M.bindings, lambda: f"{label!r}: macros {b}, not {M.bindings}")
        ns = {k: tag(v) for k, v in self.c.locals.items() if k not in OWN}
        for k in M.renewed:
            # (but never in place of what the user has assigned to the name since)
            if k in ns and ns[k] == b.get(k) and (k in M.fresh or isinstance(M.ns.get(k, ()), tuple)):
                M.ns[k] = b[k]
        S.check(ns == M.ns, lambda: f"{label!r}: names { {k: v for k, v in ns.items() if k not in M.ns or M.ns[k] != v} }, not { {k: v for k, v in M.ns.items() if k not in ns or ns[k] != v} }")
        for k, v in (self.given or {}).items():
            if k in ("__name__", "__file__"):
                S.check(self.given[k] == v, "a name was overwritten")
        if self.given is not None:
            S.check(self.c.locals is self.given, "not the given namespace")
        if "f" in M.ns and getattr(M, "f", None) is not None:
            S.check(self.c.locals["f"]() == M.f, "the function does something else")


def h_session(S, n, kinds):
    with world() as src:
        kind = S.pick("new", kinds)
        labels = [S.pick(f"s{i}", STEPS) for i in range(n)]
        S.note(lambda: (kind, [s[0] for s in labels]))
        s = Session(S, src, kind)
        s.state("start")
        for label, text, effect in labels:
            s.do(label, text, effect)


I1 = "from c34m import macros, inc"
BEFORE = [[I1, "edit"], [I1, "edit", "from c34m import macros"], ["from c34p.m import macros, sub as inc", "edit"], [G1, "from __self__ import macros, g", "g = 7"], [G1, "from __self__ import macros, g", "del g"],
          [G1, "@macro\n" + G1, "edit"], ["@macro\n" + G1, G2], [G1, "macro(g)", G2, "macro(g)"], [I1, G1, "from __self__ import macros, g as inc"], [I1, "inc = 2"], ["from c34m import macros, inc, dec, five", "edit", I1], ["from __future__ import annotations", "x = 4\nx", I1],
          ["__name__ = 'c34q'; __path__ = __spec__ = __loader__ = __package__ = 5", G1], ["from c34m import macros, boom, bad, broken", "boom[1]"], [I1, "def f():\n    return inc[7]\n", "edit", I1]]


def h_after(S, n):
    """Inputs after a longer session."""
    by = {s[0]: s for s in STEPS}
    with world() as src:
        before = S.pick("before", BEFORE)
        labels = [S.pick(f"s{i}", STEPS) for i in range(n)]
        S.note(lambda: (before, [s[0] for s in labels]))
        s = Session(S, src, "dict")
        for k in before:
            s.do(*by[k])
        for step in labels:
            s.do(*step)


def h_unusual(S, uses):
    """Macros that are not plain functions of their module."""
    with world() as src:
        name = S.pick("macro", ["made", "anon", "held", "obj", "other", "homeless", "liar", "five"])
        asname = S.pick("as", [None, "z"])
        before = S.pick("before", [None] + [s for s in STEPS if "import macros, inc" == s[0][-18:] or "five" in s[0]])
        S.note(lambda: (name, asname, before))
        s = Session(S, src, S.pick("new", list(NEW)))
        if before:
            s.do(*before)
        s.M.copy_for()
        text = f"from c34m import macros, {name}" + (f" as {asname}" if asname else "")
        def e(M):
            M.imported("c34m", [(name, asname)])
            M.ns["c34m"] = "module c34m"
            M.renewed = list(M.bindings)
            k = asname or name
            if name in ("obj", "homeless"):     # has no module to import it from: whether there is a run-time name is left open
                v = s.c.locals.get(k)
                if v is not None:
                    M.ns[k] = tag(v)
            else:
                M.ns[k] = M.bindings[k]
        # the expectation on names that are left open needs the session after the input
        more = s.feed(lambda c: c.runsource(text))
        out = "".join(s.buf) + s.std.getvalue()
        S.check(not more and not out, lambda: f"{text!r}: {more} {out}")
        e(s.M)
        s.state(text)
        k = asname or name
        def e2(M): M.shown = [apply(M.bindings[k], 1)]
        s.do(f"{k}[1]", f"{k}[1]", e2)
        if uses:
            s.do(*S.pick("after", STEPS))
        S.reach(name)


def h_lines(S, firsts):
    """Inputs given line by line, and the prompts between."""
    with world() as src:
        s = Session(S, src, "dict")
        texts = [t for t in STEPS if t[1] is not None and t[1] and "\0" not in t[1]]
        one = S.pick("s1", texts if firsts is None else texts[:firsts])
        two = S.pick("s2", texts)
        S.note(lambda: (one[0], two[0]))
        for label, text, effect in (one, two):
            if "\n" in text and not text.endswith("\n") and label not in ("x = '''a??\n'''; x = 5  # ??",):
                return        # several statements at once, or a part of one
            s.M.copy_for()
            probe = Model({})
            effect(probe)
            if probe.more:
                # abandoned at its prompt: must leave nothing
                more = s.feed(lambda c: c.push(text))
                S.check(more, lambda: f"{label!r}: complete")
                s.c.resetbuffer()
                s.state(label)
                S.reach("abandoned")
                continue
            lines = text.split("\n")
            for line in lines[:-1]:
                more = s.feed(lambda c: c.push(line))
                S.check(more, lambda: f"{label!r}: complete at {line!r}")
                s.state(label)
                S.reach("lines")
            s.do(label, text, effect, run=lambda c: c.push(lines[-1]))
            S.check(s.c.buffer == [], lambda: f"{label!r}: the input is kept")


ENDS = [("exit", "from c34m import macros, inc; x = 5; raise SystemExit(3)", None), ("interrupted", "from c34m import macros, inc as jnc, dec as inc, stop; x = 5; stop[1]", None),
        ("exited", "from c34m import macros, inc as jnc, dec as inc, quit; x = 5; quit[1]", None)]


def h_exit(S, n, every):
    """Inputs that end the session, and two consoles at once."""
    with world() as src:
        a, b = Session(S, src, "dict"), Session(S, src, S.pick("new", list(NEW)))
        for i in range(n):
            which = S.pick(f"w{i}", [0, 1])
            step = S.pick(f"s{i}", STEPS[i::every] + ENDS)
            s, other = (a, b) if which == 0 else (b, a)
            S.note(lambda: (which, step[0]))
            if step[2] is None:
                del s.buf[:]
                with s.capture():
                    err = S.raises((SystemExit, KeyboardInterrupt), lambda: s.c.runsource(step[1]), "SystemExit")
                S.check(isinstance(err, KeyboardInterrupt) if "stop" in step[1] else isinstance(err, SystemExit) and err.code == 3, f"ends with {err!r}")
                S.reach(step[0])
                if step[0] == "exit":
                    return
                for x in (s, other):    # the interactive loop may go on
                    x.M.copy_for()
                    x.state(step[0])
                continue
            if step[1] is None:
                other.M.version += 1
            s.do(*step)
            other.M.copy_for()
            other.state(step[0])


QUOTES = {
    "q": "from mcpyrate.quotes import macros, q, u, n, a, s, t, h",
    "meta": "from mcpyrate.metatools import macros, expandrq, expandr, expand1r, stepr, macro_bindings",
    "mac": "from c34m import macros, inc, five",
    "mac2": "from c34m import macros, dec",
    "debug": "from mcpyrate.debug import macros, step_expansion, show_bindings",
    "name": "def m(tree, **kw):\n    return inc[q[a[tree] * u[x]]]\n",
    "def": "def m(tree, **kw):\n    return q[a[tree] * u[x]]\n",
    "bind": "macro(m)",
    "self": "from __self__ import macros, m",
    "more": "from mcpyrate.quotes import macros, h",
    "bad": "from mcpyrate.quotes import macros, q, nosuch",
    "out": "u[1]",
    "raise": "q[u[boom]]",
}
USES = [    # what it needs, text, what it shows
    ("q", "unparse(q[x + u[x]])", "(x + 5)"),
    ("q", "unparse(q[(a[q[y]], n['z'], s[[q[y]]], t[[]])])", "(y, z, [y], ())"),
    ("q", "unparse(q[q[u[x]]])", "q[u[x]]"),
    ("q", "eval(unparse(q[h[x] * 2]))", 10),
    ("q", "with q as k:\n    y = u[x]\n", None),
    ("q mac", "unparse(q[inc[1]])", "inc[1]"),
    ("q mac", "unparse(q[h[inc][1]])[:4]", "inc_"),
    ("q meta mac", "unparse(expandr[q[inc[1]]])", "(1 + 10)"),
    ("q meta mac", "unparse(expandr[q[h[inc][1]]])", "(1 + 10)"),
    ("q meta mac", "unparse(expand1r[q[inc[inc[1]]]])", "(inc[1] + 10)"),
    ("q meta mac", "unparse(stepr[q[inc[1]]])", "(1 + 10)"),
    ("meta mac", "unparse(expandrq[inc[inc[x]]])", "((x + 10) + 10)"),
    ("q meta mac", "unparse(expandrq[inc[u[x]]])", "(5 + 10)"),
    ("meta", "sorted(k for k in macro_bindings if k in ('q', 'expandr', 'inc'))", "BOUND"),
    ("q def bind", "m[3]", 15), ("q def self", "m[3]", 15),
    ("q def bind mac", "inc[m[3]]", 25),
    ("q def bind mac meta", "unparse(expandr[q[inc[m[3]]]])", "((3 * 5) + 10)"),
    ("debug mac", "step_expansion[inc[inc[1]]]", 21),
]


def h_quotes(S, n):
    """The macros of mcpyrate itself in the console: imported in any order, and again (which reloads them)."""
    with world():
        s = Session(S, None, "dict")
        for text in ("x = 5", "from mcpyrate import unparse"):
            s.feed(lambda c: c.runsource(text))
        have = set()
        for i in range(n):
            k = S.pick(f"i{i}", list(QUOTES))
            S.note(k)
            s.feed(lambda c: c.runsource(QUOTES[k]))
            needs = {"bind": {"def"}, "self": {"def"}, "def": {"q"}, "name": {"q", "mac"}, "raise": {"q"}}.get(k, set())
            S.assume(needs <= have)
            bad = k in ("bad", "out", "raise")
            text = "".join(s.buf)
            S.check(bool(text) == bad, lambda: f"{QUOTES[k]!r}: {text}")
            if not bad:
                have.add("def" if k == "name" else k)
            if k == "bind" or k == "self":
                S.assume(len([b for b in have if b in ("bind", "self")]) == 1)
                have.add("self" if k == "bind" else "bind")
            if k == "name":
                have.add("plus")
            S.reach(k)
        todo = [u for u in USES if set(u[0].split()) <= have]
        if "mac2" in have:
            todo = [u for u in todo if "h[inc]" not in u[1] and "expand" not in u[1] and "stepr" not in u[1]]
        S.assume(todo)
        for _, text, want in todo:
            S.note(text)
            s.feed(lambda c: c.runsource(text))
            out = "".join(s.buf)
            S.check(not out, lambda: f"{text!r}: {out[-500:]}")
            if want == "BOUND":
                want = sorted(k for k in ("q", "expandr", "inc") if k in s.c.expander.bindings)
            elif want is not None and "m[3]" in text and "plus" in have:
                want = want + 10 if isinstance(want, int) else want.replace("(3 * 5)", "((3 * 5) + 10)")
            S.check(s.shown == ([] if want is None else [want]), lambda: f"{text!r}: shows {s.shown}, not {want!r}")


OBJECTS = '''
class Meta(type):
    """About Meta."""
    def m(cls):  # in Meta
        "About m"
        return 1

class Plain:
    """About Plain.

        indented

    end"""
    def method(self):  # the method

        return 2

    @staticmethod
    def static():
        "  About static"
        return 3

    @property
    def prop(self):
        return 4

class WithMeta(metaclass=Meta):
    "About WithMeta"

class Silent:
    def __init__(self):
        self.x = 1

class Sub(Plain):
    pass

def wrap(f):
    def wrapped(*args):
        "About wrapped"
        return f(*args)
    return wrapped

@wrap
def decorated():
    "About decorated"

def function():

    x = """
    text
    """
    return x

instance, silent, withmeta, sub = Plain(), Silent(), WithMeta(), Sub()
'''
ABOUT = {   # expression: the name of the definition that is shown, docstring
    "Meta": ("class Meta", "About Meta."), "Plain": ("class Plain", "About Plain.\n\n    indented\n\nend"), "Plain.method": ("    def method", None), "instance.method": ("    def method", None),
    "Plain.static": ("    @staticmethod", "About static"), "instance.static": ("    @staticmethod", "About static"), "instance": ("class Plain", "About Plain.\n\n    indented\n\nend"),
    "WithMeta": ("class WithMeta", "About WithMeta"), "withmeta": ("class WithMeta", "About WithMeta"), "WithMeta.m": ("    def m", "About m"), "Silent": ("class Silent", None), "silent": ("class Silent", None),
    "sub": ("class Sub", None), "wrap": ("def wrap", None), "wrap(5)": ("    def wrapped", "About wrapped"), "decorated": ("    def wrapped", "About wrapped"), "function": ("def function", None),
    "len": (None, len.__doc__), "5": (None, int.__doc__), "[Silent][0]": ("class Silent", None), "None": (None, type(None).__doc__), "'a?'": (None, str.__doc__),
    "inc": ("MACRO", "About inc, version 0."),
}


def h_objects(S):
    """`obj?` and `obj??`: the documentation, the place and the source text."""
    import ast
    import importlib.util
    import inspect
    import os
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix="c34_", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        path = os.path.join(d, "c34objects.py")
        with open(path, "w") as f:
            f.write(OBJECTS)
        with world():
            expr = S.pick("object", list(ABOUT))
            source = S.pick("source", [False, True])
            space = S.pick("space", ["", " ", "  "])
            indent = S.pick("macros", ["", "from c34m import macros, five as Plain, five as instance, five as function"])
            S.note(lambda: (expr, source))
            s = Session(S, None, "dict")
            spec = importlib.util.spec_from_file_location("c34objects", path)
            module = sys.modules["c34objects"] = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(module)
            s.feed(lambda c: c.runsource("from c34m import macros, inc"))
            if indent:
                s.feed(lambda c: c.runsource(indent))
            s.c.locals.update({k: v for k, v in module.__dict__.items() if k[0] != "_"})
            before, bindings = dict(s.c.locals), dict(s.c.expander.bindings)
            more = s.feed(lambda c: c.runsource(expr + space + "?" * (1 + source)))
            text = re.sub("\033\\[[0-9;]*m", "", "".join(s.buf) + s.std.getvalue())
            S.check(not more and not [v for v in s.shown if v is not None], f"shows {s.shown}")
            S.check({k: v for k, v in s.c.locals.items() if k != "__builtins__"} == {k: v for k, v in before.items() if k != "__builtins__"} and s.c.expander.bindings == bindings, "something is changed")
            start, doc = ABOUT[expr]
            lines = OBJECTS.split("\n")
            if start == "MACRO":
                S.check("About inc, version 0." in text if not source else True, lambda: f"{expr}?: {text!r}")
                return
            want, src = "", None
            if start:
                no = [i for i, l in enumerate(lines) if l.startswith(start)][0]
                n, level = no + 1, len(start) - len(start.lstrip())
                while n < len(lines) and (not lines[n].strip() or lines[n].startswith(" " * (level + 1)) or lines[n] == "    \"\"\"" or lines[n - 1].strip() == "@staticmethod"):
                    n += 1
                while not lines[n - 1].strip():
                    n -= 1
                src = "\n".join(lines[no:n]) + "\n"
                want = f"{path}:{no + 1}\n"
            if source:
                want = want + src if start else "<no source code available>\n"
            else:
                want += inspect.cleandoc(doc) + "\n" if doc else "<no docstring>\n"
            S.check(text == want, lambda: f"{expr}{'?' * (1 + source)}: shows {text!r}, not {want!r}")
            S.reach("source" if source else "doc")
    finally:
        shutil.rmtree(d, ignore_errors=True)


HARNESSES = [
    H("session", h_session, "any sequence of inputs", dict(n=2, kinds=list(NEW)), dict(n=3, kinds=["dict"]), reach=["error", "shown", "command"]),
    H("after", h_after, "inputs after a longer session", dict(n=1), dict(n=2), reach=["error", "shown", "command"]),
    H("unusual", h_unusual, "macros that are no plain functions of their module", dict(uses=False), dict(uses=True), reach=["made", "anon", "held", "obj", "other", "homeless", "liar", "five"]),
    H("lines", h_lines, "inputs given line by line", dict(firsts=None), dict(firsts=None), reach=["abandoned", "lines"]),
    H("two", h_exit, "two sessions at once", dict(n=2, every=4), dict(n=2, every=1), reach=["exit", "interrupted", "exited"]),
    H("quotes", h_quotes, "the macros of mcpyrate itself", dict(n=3), dict(n=4), reach=list(QUOTES)),
    H("objects", h_objects, "the documentation and source of objects", reach=["source", "doc"]),
]
