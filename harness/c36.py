"""C36: the IPython extension, in a stand-in for IPython's shell, against the model of sessions of C34."""
import argparse
import ast
import codeop
import contextlib
import importlib
import io
import re
import shlex
import sys
import types

from sx.api import H
from harness import c34 as base

BOUNDS = {"quick": "sessions of 2 cells out of 83 kinds (those of C34 without the console's commands, and the magics of the extension), 7 longer sessions, followed by every cell; loading, reloading and unloading at each point of sessions of 4 steps; dumps of 14 texts in all modes; an interrupted expansion before or after another cell",
          "thorough": "sessions of 3 cells (2 after the longer sessions)"}
OUTSIDE = "IPython itself (its shell is replaced by a stand-in for the parts the extension uses); the macro names' completion and help"
ASSUMPTIONS = base.ASSUMPTIONS[:] + ["IPython runs a cell as its documentation says: input transformers, parsing, AST transformers (an `InputRejected` one of them raises rejects the cell, any other exception removes the transformer), execution, `post_run_cell` unless silent"]


# -- the stand-in for IPython ---------------------------------------------------

class InputRejected(Exception):
    pass


def fake_ipython():
    mods = {n: types.ModuleType(n) for n in ("IPython", "IPython.core", "IPython.core.error", "IPython.core.magic", "IPython.core.magic_arguments")}
    mods["IPython.core.error"].InputRejected = InputRejected
    m = mods["IPython.core.magic"]
    class Magics:
        def __init__(self, shell=None, **kw):
            self.shell = shell
    def magics_class(cls):
        return cls
    def mark(kind):
        def deco(f):
            f._magic = kind
            return f
        return deco
    m.Magics, m.magics_class, m.cell_magic, m.line_magic = Magics, magics_class, mark("cell"), mark("line")
    a = mods["IPython.core.magic_arguments"]
    def magic_arguments(name=None):
        def deco(f):
            f.parser = argparse.ArgumentParser(exit_on_error=False, add_help=False)
            for args, kw in reversed(getattr(f, "_arguments", [])):
                f.parser.add_argument(*args, **kw)
            return f
        return deco
    def argument(*args, **kw):
        def deco(f):
            f.__dict__.setdefault("_arguments", []).append((args, kw))
            return f
        return deco
    a.magic_arguments, a.argument = magic_arguments, argument
    a.parse_argstring = lambda f, line: f.parser.parse_args(shlex.split(line))
    mods["IPython"].core = mods["IPython.core"]
    for n in ("error", "magic", "magic_arguments"):
        setattr(mods["IPython.core"], n, mods["IPython.core." + n])
    return mods


class Events:
    def __init__(self):
        self.callbacks = []
    def register(self, event, f):
        self.callbacks.append((event, f))
    def unregister(self, event, f):
        self.callbacks.remove((event, f))
    def trigger(self, event, *args):
        for e, f in list(self.callbacks):
            if e == event:
                f(*args)


class Shell:
    """What IPython's shell does with a cell."""
    def __init__(self, ns):
        self.user_module = types.ModuleType("__main__")
        self.user_ns = self.user_module.__dict__
        self.user_ns.update(ns)
        self.user_ns["get_ipython"] = self.get_ipython
        self.input_transformers_post, self.ast_transformers = [], []
        self.events = Events()
        self.config = types.SimpleNamespace(TerminalInteractiveShell=types.SimpleNamespace())
        self.magics = {"line": {}, "cell": {}}
        self.compile = codeop.Compile()
        self.errors = []
        self.cells = 0
    def get_ipython(self):
        return self
    def register_magics(self, *classes):
        for cls in classes:
            obj = cls(shell=self)
            for k in dir(obj):
                f = getattr(obj, k)
                if hasattr(f, "_magic"):
                    self.magics[f._magic][k] = f
    def run_cell_magic(self, name, line, cell):
        return self.magics["cell"][name](line, cell)
    def run_line_magic(self, name, line):
        return self.magics["line"][name](line)
    def run_cell(self, raw, store_history=False, silent=False):
        self.cells += 1
        result = types.SimpleNamespace(error=None)
        try:
            self._run(raw, silent)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt,)) or not isinstance(e, (Exception, SystemExit)):
                raise
            result.error = e
            self.errors.append(e)
        finally:
            if not silent:
                self.events.trigger("post_run_cell", result)
        return result
    def _run(self, raw, silent):
        if raw.startswith("%%"):
            first, _, body = raw[2:].partition("\n")
            name, _, line = first.partition(" ")
            raw = f"get_ipython().run_cell_magic({name!r}, {line!r}, {body!r})"
        elif raw.startswith("%"):
            name, _, line = raw[1:].partition(" ")
            raw = f"get_ipython().run_line_magic({name!r}, {line!r})"
        lines = raw.splitlines(keepends=True)
        for t in self.input_transformers_post:
            lines = t(lines)
        tree = ast.parse("".join(lines), "<cell>")
        for t in list(self.ast_transformers):
            try:
                tree = t.visit(tree)
            except InputRejected:
                raise
            except Exception:
                self.ast_transformers.remove(t)
        if self.ast_transformers:
            ast.fix_missing_locations(tree)
        body = tree.body
        last = [body.pop()] if body and isinstance(body[-1], ast.Expr) else []
        code = self.code(ast.Module(body=body, type_ignores=[]), "exec")
        shown = self.code(ast.Interactive(body=last), "single") if last else None
        exec(code, self.user_ns)
        if shown:
            exec(shown, self.user_ns)
    def code(self, tree, mode):
        import __future__
        c = compile(tree, "<cell>", mode, self.compile.flags, 1)
        for name in __future__.all_feature_names:
            flag = getattr(__future__, name).compiler_flag
            if c.co_flags & flag:
                self.compile.flags |= flag
        return c


class Console:
    """The session as C34 drives it."""
    def __init__(self, locals=None):
        self.shell = Shell({k: v for k, v in (locals or {}).items()})
        self.main = sys.modules.get("__main__")
        self.load()
    def load(self):
        ic().load_ipython_extension(self.shell)
        self.transformers = list(self.shell.ast_transformers)
        self.expander = self.shell.user_ns.get("__macro_expander__")
    @property
    def locals(self):
        return self.shell.user_ns
    def write(self, text):
        raise NotImplementedError
    def runsource(self, text):
        with self.as_main():
            r = self.shell.run_cell(text)
        if r.error is not None:
            self.write(f"{type(r.error).__name__}: {r.error}")
        return False
    @contextlib.contextmanager
    def as_main(self):
        old = sys.modules.get("__main__")
        sys.modules["__main__"] = self.shell.user_module
        try:
            yield
        finally:
            sys.modules["__main__"] = old


def ic():
    return sys.modules["mcpyrate.repl.iconsole"]


@contextlib.contextmanager
def world():
    """A new process with IPython."""
    fakes = fake_ipython()
    names = list(fakes) + ["mcpyrate.repl.iconsole"]
    saved = {k: sys.modules.pop(k) for k in names if k in sys.modules}
    pkg = sys.modules["mcpyrate.repl"]
    sys.modules.update(fakes)
    try:
        importlib.import_module("mcpyrate.repl.iconsole")
        with base.world() as src:
            yield src
    finally:
        for k in names:
            sys.modules.pop(k, None)
        sys.modules.update(saved)
        pkg.__dict__.pop("iconsole", None)


# -- cells ------------------------------------------------------------------------

OWN = base.OWN | {"get_ipython", "__loader__", "__package__", "__spec__", "__path__"}


def cells():
    out = []
    for label, text, effect in base.steps():
        if label in ("macros?", "inc?", "inc??", "x ?") or (text and text.endswith("?")):
            continue        # commands of the console
        probe = base.Model({})
        try:
            effect(probe)
        except Exception:
            pass
        if text == "def f():\n    return 1":
            effect = lambda M: (M.ns.update(f="function"), setattr(M, "f", 1))
        elif probe.more:      # an incomplete input: nothing else will follow
            effect = lambda M: M.failed("any")
        elif text in LATE:
            effect = late(*LATE[text])
        elif text is not None:
            effect = last_only(text, effect)
        out.append((label, text, effect))
    def e(M): M.text = "[\\s\\S]*".join(sorted(M.bindings))
    out.append(("%macros", "%macros", e))
    out.append(("ignore", "%%ignore_importerror\nimport c34_nosuch", lambda M: None))
    out.append(("ignore 2", "%%ignore_importerror\nx = 12\nimport c34_nosuch\nx = 13", lambda M: M.ns.update(x=12)))
    def e(M): M.failed("ZeroDivisionError")
    out.append(("ignore 3", "%%ignore_importerror\n1/0", e))
    def e(M): M.text = "Constant" if M.bindings.get("five", "-")[0] == "five" else "Name"
    out.append(("%%dump_ast -e yes\nfive", "%%dump_ast -e yes\nfive", e))
    def e(M): M.text = "Subscript[\\s\\S]*inc"
    out.append(("%%dump_ast\ninc[1]", "%%dump_ast\ninc[1]", e))
    return out


# these do not compile after their macros have been expanded, when the extension has done its part already
LATE = {"from c34m import macros, inc as five; return": [("inc", "five")], "from c34m import macros, inc, broken; x = 9; broken[1]": [("inc", None), ("broken", None)],
        "from c34m import macros, bad; bad[1]": None}
LATE = {k: ("c34m", v) for k, v in LATE.items() if v}


def late(module, names):
    def effect(M):
        M.imported(module, names)
        M.renewed = list(M.bindings)
        M.failed("any")
    return effect


def last_only(text, effect):
    """IPython shows only the value of the last expression, and runs nothing of a cell that does not compile."""
    try:
        body = ast.parse(text).body
    except (SyntaxError, ValueError):
        return effect
    n = 1 if body and isinstance(body[-1], ast.Expr) else 0
    def run(M):
        effect(M)
        if M.error == "MacroApplicationError":
            M.error = "any"         # it is the cause of what rejects the cell
        M.shown = M.shown[-n:] if n else []
    return run


CELLS = cells()
BY = {s[0]: s for s in CELLS}
BEFORE = [[k for k in b] for b in base.BEFORE if all(k in BY for k in b)]


class Session(base.Session):
    def __init__(self, S, src, kind):
        self.S, self.src = S, src
        given = base.NEW[kind]
        self.given = None
        self.M = base.Model({k: v for k, v in (given or {}).items() if k not in OWN})
        self.buf = []
        with self.capture():
            self.c = Console(dict(given or {}))
        self.c.write = self.buf.append
    def state(self, label):
        S, M = self.S, self.M
        shell = self.c.shell
        S.check(len(shell.ast_transformers) == 1 and shell.ast_transformers == self.c.transformers, lambda: f"{label!r}: transformers {shell.ast_transformers}")
        own, user = {k: v for k, v in self.c.locals.items() if k in OWN}, M.ns
        for k in [k for k in M.ns if k in OWN]:
            del M.ns[k]
        S.check(own.get("__macro_expander__") is self.c.expander, lambda: f"{label!r}: not the expander of the session")
        saved = base.OWN
        base.OWN = OWN
        try:
            super().state(label)
        finally:
            base.OWN = saved


def h_session(S, n, kinds):
    with world() as src:
        kind = S.pick("new", kinds)
        labels = [S.pick(f"s{i}", CELLS) for i in range(n)]
        S.note(lambda: (kind, [s[0] for s in labels]))
        s = Session(S, src, kind)
        s.state("start")
        for label, text, effect in labels:
            s.do(label, text, effect)


def h_after(S, n):
    with world() as src:
        before = S.pick("before", BEFORE)
        labels = [S.pick(f"s{i}", CELLS) for i in range(n)]
        S.note(lambda: (before, [s[0] for s in labels]))
        s = Session(S, src, "none")
        for k in before:
            s.do(*BY[k])
        for step in labels:
            s.do(*step)


def h_interrupted(S, n):
    """Cells whose expansion is interrupted, or exits: the shell goes on."""
    with world() as src:
        s = Session(S, src, "none")
        where = S.pick("where", list(range(n)))
        for i in range(n):
            if i == where:
                label, text, _ = S.pick("end", base.ENDS[1:])
                S.note(label)
                with s.capture():
                    try:
                        s.c.runsource(text)
                    except (KeyboardInterrupt, SystemExit):
                        pass
                s.M.copy_for()
                s.state(label)
                S.reach(label)
            else:
                step = S.pick(f"s{i}", CELLS)
                S.note(lambda: step[0])
                s.do(*step)


def h_load(S, n, cells):
    """Loading, reloading, unloading."""
    with world() as src:
        shell = Shell({"x": 3})
        shell.input_transformers_post.append(lambda lines: lines)
        shell.events.register("post_run_cell", lambda r: None)
        before = (list(shell.input_transformers_post), list(shell.ast_transformers), list(shell.events.callbacks))
        s, m = None, ic()
        for i in range(n):
            step = S.pick(f"s{i}", ["load", "unload"] + cells)
            S.note(step)
            if step == "load":
                m.load_ipython_extension(shell)
                if s is None:
                    s = object.__new__(Session)
                    s.S, s.src, s.given, s.buf = S, src, None, []
                    s.M = base.Model({k: base.tag(v) for k, v in shell.user_ns.items() if k not in OWN})
                    s.M.version = src.version
                    s.c = object.__new__(Console)
                    s.c.shell, s.c.write = shell, s.buf.append
                    s.c.transformers, s.c.expander = list(shell.ast_transformers), shell.user_ns["__macro_expander__"]
                s.M.copy_for()
                s.state("load")
                S.reach("load")
            elif step == "unload":
                m.unload_ipython_extension(shell)
                s = None
                S.check((shell.input_transformers_post, shell.ast_transformers, shell.events.callbacks) == before, "unloading leaves the shell changed")
                S.check("__macro_expander__" not in shell.user_ns, "unloading leaves the expander")
                S.reach("unload")
            elif s:
                s.do(*BY[step])
            else:       # plain Python
                probe = dict(shell.user_ns)
                if step == "inc[1]":
                    r = shell.run_cell(step)
                    S.check(isinstance(r.error, TypeError if "inc" in probe else NameError), lambda: f"a macro is expanded without the extension: {r.error!r}")
                    S.reach("plain")


TEXTS = ["", "x", "inc[1]", "inc[inc[x]]", "five", "x = inc[1]", "x; inc[1]", "def f():\n    return inc[1]\n", "boom[1]", "bad[1]", "x = = 1", "from c34m import macros, dec\ndec[1]", "with inc:\n    x\n", "'doc'"]


def h_dump(S, texts):
    """Dumping a cell's syntax tree: shows it, and does nothing else."""
    with world() as src:
        s = Session(S, src, "none")
        for k in ("x = 1", "from c34m import macros, inc, dec, five", "from c34m import macros, boom, bad, broken"):
            if k in BY:
                s.do(*BY[k])
        text = S.pick("text", texts)
        mode, expand = S.pick("mode", [None, "exec", "eval", "single"]), S.pick("expand", [None, "no", "yes"])
        line = " ".join((["-m " + mode] if mode else []) + (["--expand " + expand] if expand else []))
        S.note((line, text))
        S.assume(not (expand == "yes" and "import" in text))
        s.M.copy_for()
        s.feed(lambda c: c.runsource(f"%%dump_ast {line}\n{text}"))
        out = s.std.getvalue()
        plain = re.sub("\033\\[[0-9;]*m", "", out)
        fail = "".join(s.buf)
        try:
            want = ast.parse(text, mode=mode or "exec")
        except SyntaxError:
            S.check("SyntaxError" in fail and not plain, lambda: f"{text!r}: shows {plain!r}, error {fail!r}")
            s.state("dump")
            return
        if expand == "yes" and ("boom" in text or "bad" in text):
            S.check(fail and not plain, lambda: f"{text!r}: no error")
            S.reach("failed")
        else:
            if expand == "yes":
                want = hand(want)
            S.check(not fail, lambda: f"{text!r}: {fail}")
            from mcpyrate.astdumper import dump
            got = eval(plain.strip(), {k: getattr(ast, k) for k in dir(ast)})
            S.check(ast.dump(strip(got)) == ast.dump(strip(want)), lambda: f"{text!r}: dumps {plain}")
            S.reach(mode or "default")
        S.check(s.shown in ([], [None]), "dumping a tree shows a value")
        s.state("dump")


def strip(tree):
    """Without the coverage dummies, and what is None."""
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list):
                v[:] = [s for s in v if "_mcpyrate_coverage" not in ast.dump(s)]
    return tree


class Hand(ast.NodeTransformer):
    def visit_Subscript(self, t):
        t = self.generic_visit(t)
        if isinstance(t.value, ast.Name) and t.value.id == "inc":
            return ast.BinOp(left=t.slice, op=ast.Add(), right=ast.Constant(value=10))
        return t
    def visit_Name(self, t):
        return ast.Constant(value=5) if t.id == "five" else t
    def visit_With(self, t):
        body = [self.visit(s) for s in t.body]
        return ast.BinOp(left=body, op=ast.Add(), right=ast.Constant(value=10))


def hand(tree):
    return Hand().visit(tree)


HARNESSES = [
    H("interrupted", h_interrupted, "interrupted expansions between other cells", dict(n=2), dict(n=3), reach=["interrupted", "exited"]),
    H("session", h_session, "any sequence of cells", dict(n=2, kinds=["names"]), dict(n=3, kinds=["none"]), reach=["error", "shown", "command"]),
    H("after", h_after, "cells after a longer session", dict(n=1), dict(n=2), reach=["error", "shown"]),
    H("load", h_load, "loading and unloading", dict(n=4, cells=["from c34m import macros, inc", "inc[1]", "edit"]), dict(n=6, cells=["from c34m import macros, inc", "inc[1]", "edit", "inc = 2", "%macros"]), reach=["load", "unload", "plain"]),
    H("dump", h_dump, "dumping syntax trees", dict(texts=[t for t in TEXTS if not t.startswith("with")]), reach=["exec", "eval", "single", "default", "failed"]),
]
