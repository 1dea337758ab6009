"""C35: macropython runs the named program as `__main__`: projects in a scratch directory, against a model."""
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile
import types

import mcpyrate.repl.macropython as macropython
from mcpyrate.core import MacroApplicationError

from sx.api import H

BOUNDS = {"quick": "20 script files (file names with dots, spaces, other or no endings, names of standard and built-in modules, links, package files, with files and packages of the same name elsewhere) x 5 ways to write the path x 4 working directories x 14 kinds of programs; 26 names of modules, packages, subpackages and namespace packages, in the working directory or elsewhere on the search path, x 14 kinds of programs; invalid command lines; interactive sessions of 2 inputs (their semantics are under C34)",
          "thorough": "the same, followed by a second program in the same process"}
OUTSIDE = "the pylab mode; other loaders (zip files, compiled modules); `-c` is under C31"
ASSUMPTIONS = ["`__main__.py` of a package is run under its full name, as documented in the code", "`__spec__`, `__cached__`, `__loader__` and `sys.argv` are left open"]

HEAD = "import sys\nimport c35log\nc35log.log.append((%r, __name__, __package__, __file__, sys.path[0], sys.modules['__main__'].__dict__ is globals()))\n"
PHASE = '''
from mcpyrate.multiphase import macros, phase
with phase[1]:
    import ast
    def mul(tree, **kw):
        return ast.BinOp(left=tree, op=ast.Mult(), right=ast.Constant(value=10))
from __self__ import macros, mul
c35log.log.append(mul[7])
'''
KINDS = {   # what the program does after reporting itself; what it logs then; what it raises
    "plain": ("x = 1\n", [], None),
    "macro": ("from c35m import macros, inc\nc35log.log.append(inc[1])\n", [11], None),
    "phase": (PHASE, [70], None),
    "side": ("import c35side\nc35log.log.append(c35side.where)\n", ["SIDE"], None),
    "guard": ("def f():\n    c35log.log.append(__name__)\nf()\nif __name__ == '__main__':\n    c35log.log.append('guarded')\n", ["NAME", "GUARD"], None),
    "pickle": ("import pickle\nclass C: pass\nc35log.log.append(type(pickle.loads(pickle.dumps(C()))) is C)\n", [True], None),
    "raise": ("raise LookupError('c35')\nc35log.log.append(1)\n", [], LookupError),
    "exit": ("sys.exit(3)\n", [], SystemExit),
    "interrupt": ("raise KeyboardInterrupt\n", [], KeyboardInterrupt),
    "missing": ("import c35_nosuch\n", [], ModuleNotFoundError),
    "missing name": ("from c35m import nosuch\n", [], ImportError),
    "macro error": ("from c35m import macros, boom\nboom[1]\n", None, MacroApplicationError),
    "no macros": ("from c35_nosuch import macros, boom\n", None, ModuleNotFoundError),
    "syntax": ("x = = 1\n", None, (SyntaxError, ImportError)),
}
MACROS = "import ast\ndef inc(tree, **kw):\n    return ast.BinOp(left=tree, op=ast.Add(), right=ast.Constant(value=10))\ndef boom(tree, **kw):\n    raise ZeroDivisionError('c35 boom')\n"


def boot_names():
    """The variables in which the bootstrapper remembers itself, when run as a program."""
    import ast
    with open(macropython.__file__) as f:
        tree = ast.parse(f.read())
    out = set()
    for x in tree.body:
        if isinstance(x, ast.If) and "__main__" in ast.dump(x.test):
            out |= {t.id for s in x.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
    return out


BOOT = boot_names()


class Project:
    def __init__(self, S):
        self.S = S
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="c35_", dir=os.environ.get("VERIF_SCRATCH")))
        self.boot = types.ModuleType("__main__")
        self.log = []
        for d in ("proj/sub", "lib", "other", "home"):
            os.makedirs(os.path.join(self.root, d))
        self.write("macros/c35m.py", MACROS)
    def path(self, *p):
        return os.path.join(self.root, *p)
    def write(self, path, text):
        path = self.path(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.lexists(path):
            with open(path, "w") as f:
                f.write(text)
    def program(self, path, kind="plain"):
        self.write(path, HEAD % path + KINDS[kind][0])
    @contextlib.contextmanager
    def world(self, cwd):
        saved = list(sys.path), os.getcwd(), sys.argv, sys.modules.get("__main__"), os.environ.get("HOME"), sys.dont_write_bytecode, {k: getattr(macropython, k, None) for k in BOOT}, set(sys.modules)
        log = types.ModuleType("c35log")
        log.log = self.log
        try:
            sys.path[:] = ["/nonexistent/bin", self.path("lib"), self.path("macros")] + [p for p in sys.path if p]
            self.syspath = list(sys.path)
            os.chdir(self.path(cwd))
            os.environ["HOME"] = self.path("home")
            sys.dont_write_bytecode = True
            sys.modules["c35log"] = log
            sys.modules["__main__"] = self.boot
            for k in BOOT:
                setattr(macropython, k, self.boot)
            importlib.invalidate_caches()
            yield
        finally:
            os.chdir(saved[1])
            sys.path[:], sys.argv = saved[0], saved[2]
            if saved[3] is not None:
                sys.modules["__main__"] = saved[3]
            if saved[4] is None:
                os.environ.pop("HOME", None)
            else:
                os.environ["HOME"] = saved[4]
            sys.dont_write_bytecode = saved[5]
            macropython.__dict__.update(saved[6])
            for k in list(sys.modules):
                if k.startswith("c35"):
                    del sys.modules[k]
            for k in list(sys.path_importer_cache):
                if k.startswith(self.root):
                    del sys.path_importer_cache[k]
    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
    def main(self, *args):
        """Run; return the exception and what was written."""
        sys.argv = ["macropython", *args]
        out, err = io.StringIO(), io.StringIO()
        del self.log[:]
        e = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                macropython.main()
            except (Exception, SystemExit, KeyboardInterrupt) as x:
                e = x
        return e, out.getvalue() + err.getvalue()
    def judge(self, e, out, kind, name, package, file, where, side, before=(), show=None, package_main=False):
        """`before`: what runs before the program."""
        S = self.S
        _, logged, raises = KINDS[kind]
        ident = os.path.relpath(file, self.root)
        want = [(os.path.relpath(f, self.root), n, p, f, where, False) for f, n, p in before]
        if logged is not None:
            want.append((ident, name, package, file, where, not package_main))
            for x in logged:
                if x == "GUARD":
                    want += ["guarded"] if name == "__main__" else []
                else:
                    want.append({"SIDE": side, "NAME": name}.get(x, x))
        show = show or (lambda: "")
        if raises is None:
            S.check(e is None, lambda: f"{show()}: {type(e).__name__}: {e}")
        else:
            S.check(e is not None and isinstance(e, raises) and (isinstance(raises, tuple) or type(e) is raises), lambda: f"{show()}: {type(e).__name__}: {e}, should be {raises}")
            if kind == "raise":
                S.check(e.args == ("c35",), f"another error: {e}")
            if kind == "exit":
                S.check(e.code == 3, "another exit code")
            if kind == "macro error":
                S.check(isinstance(e.__cause__, ZeroDivisionError), lambda: f"{show()}: the cause {e.__cause__!r} is lost")
            if kind == "missing":
                S.check(e.name == "c35_nosuch", lambda: f"{show()}: reports {e}")
        S.check(self.log == want, lambda: f"{show()}: ran {self.log}, should be {want}")
        m = sys.modules.get("__main__")
        if package_main:
            pass
        elif raises is None:
            S.check(m is not self.boot and m.__name__ == "__main__" and m.__file__ == file, lambda: f"{show()}: `__main__` is {m!r}")
        elif isinstance(e, Exception):
            S.check(m is self.boot, lambda: f"{show()}: after an error, `__main__` is {m!r}")
        S.reach(kind)


CWDS = ["proj", ".", "proj/sub", "other"]
FILES = [("proj/c35s.py", ["lib/c35s.py", "other/c35s.py", "proj/sub/c35s.py", "c35s.py", "proj/c35s/__init__.py"]), ("lib/c35s.py", ["proj/c35s.py"]), ("other/c35s.py", ["lib/c35s.py"]),
         ("proj/time.py", []), ("proj/abc.py", []), ("proj/sys.py", []), ("proj/c35a.b.py", ["proj/c35a/__init__.py", "proj/c35a/b.py", "proj/c35a.py", "lib/c35a/b.py"]),
         ("proj/c35 a.py", []), ("proj/c35-a.py", []), ("proj/c35noext", ["proj/c35noext.py", "lib/c35noext.py"]), ("proj/c35s.txt", ["proj/c35s.py"]), ("proj/c35m.py", []),
         ("proj/c35p/__init__.py", ["proj/c35p/__main__.py"]), ("proj/c35p/__main__.py", ["proj/c35p/__init__.py"]), ("proj/c35p/mod.py", ["proj/c35p/__init__.py", "lib/mod.py"]), ("proj/c35p/c35p.py", ["proj/c35p/__init__.py"]),
         ("proj/class.py", []), ("proj/__init__.py", []), ("link", ["lib/c35s.py", "proj/c35side.py"]), ("dirlink", ["lib/c35s.py"])]


def h_file(S, files, forms, again):
    """`macropython some/file.py`."""
    p = Project(S)
    try:
        path, decoys = S.pick("file", files)
        kind = S.pick("kind", list(KINDS))
        cwd = S.pick("cwd", CWDS)
        form = S.pick("form", forms)
        S.assume(path != "proj/c35m.py" or "c35m" not in KINDS[kind][0])    # it would import itself
        pypackages = S.pick("pypackages", [False, True]) if kind == "side" else False
        given = path
        if path == "link":
            path, given = "other/deep/c35s.py", "proj/link.py"
        elif path == "dirlink":
            path, given = "other/deep/c35s.py", "proj/dl/c35s.py"
        p.program(path, kind)
        for d in decoys:
            p.program(d)
        if given == "proj/link.py":
            os.symlink("../other/deep/c35s.py", p.path(given))
        elif given == "proj/dl/c35s.py":
            os.symlink(p.path("other/deep"), p.path("proj/dl"))
        here = os.path.dirname(path)
        for d in {here, "lib", "proj", "other", "."}:
            p.write(f"{d}/c35side.py", f"where = {d!r}\n")
        if pypackages:      # comes after the directory of the script, and before all others
            os.unlink(p.path(here, "c35side.py"))
            p.write(f"{here}/__pypackages__/c35side.py", "where = 'pypackages'\n")
        full = p.path(given)
        arg = {"relative": os.path.relpath(full, p.path(cwd)), "dot": os.path.join(".", os.path.relpath(full, p.path(cwd))), "absolute": full, "winding": os.path.join(p.path("other"), "..", given),
               "home": "~/../" + given}[form]
        S.note(lambda: (path, kind, cwd, arg))
        with p.world(cwd):
            e, out = p.main(arg)
            p.judge(e, out, kind, "__main__", "", p.path(path), p.path(here), "pypackages" if pypackages else here, show=lambda: f"macropython {arg} in {cwd} ({kind})")
            S.check(sys.path == [p.path(here)] + ([p.path(here, "__pypackages__")] if pypackages else []) + p.syspath, lambda: f"sys.path is {sys.path[:3]}")
            if again:
                sys.path[:] = p.syspath
                p.program("other/c35t.py", "side")
                p.write("other/c35side.py", "where = 'other'\n")
                sys.modules["__main__"] = p.boot
                sys.modules.pop("c35side", None)
                e, out = p.main(p.path("other/c35t.py"))
                p.judge(e, out, "side", "__main__", "", p.path("other/c35t.py"), p.path("other"), "other", show=lambda: f"second program after {arg} in {cwd} ({kind})")
    finally:
        p.close()


# name, files before it, its file, package; "package": how it is run
MODULES = [("c35s", [], "c35s.py", "module"), ("c35p", ["c35p/__init__.py"], "c35p/__main__.py", "package"), ("c35p.mod", ["c35p/__init__.py"], "c35p/mod.py", "module"),
           ("c35p.sub", ["c35p/__init__.py", "c35p/sub/__init__.py"], "c35p/sub/__main__.py", "package"), ("c35p.sub.mod", ["c35p/__init__.py", "c35p/sub/__init__.py"], "c35p/sub/mod.py", "module"),
           ("c35n", [], "c35n/__main__.py", "package"), ("c35n.mod", [], "c35n/mod.py", "module"), ("c35p.nsub", ["c35p/__init__.py"], "c35p/nsub/__main__.py", "package"), ("c35p.nsub.mod", ["c35p/__init__.py"], "c35p/nsub/mod.py", "module"),
           ("c35n.sub", ["c35n/sub/__init__.py"], "c35n/sub/__main__.py", "package"), ("c35p.__main__", ["c35p/__init__.py"], "c35p/__main__.py", "module"), ("c35p.__init__", ["c35p/__init__.py"], "c35p/__init__.py", "module")]


def h_module(S, again):
    """`macropython -m some.module`."""
    p = Project(S)
    try:
        name, before, file, how = S.pick("module", MODULES)
        kind = S.pick("kind", list(KINDS))
        cwd, base = S.pick("where", [("proj", "proj"), ("other", "lib"), ("proj", "both"), ("proj/sub", "lib"), ("lib", "lib")])
        pypackages = S.pick("pypackages", [False, True]) if kind == "side" else False
        option = S.pick("option", ["-m", "--module"]) if kind == "plain" else "-m"
        if base == "both":
            base = cwd
            for f in before + [file]:
                p.program(f"lib/{f}")
        if name == "c35p.__init__":
            p.program(f"{base}/{file}", kind)
            if kind != "plain":
                return
        p.program(f"{base}/{file}", kind)
        for f in before:
            p.program(f"{base}/{f}")
        for d in {cwd, "lib", "other"}:
            p.write(f"{d}/c35side.py", f"where = {d!r}\n")
        if pypackages:
            os.unlink(p.path(cwd, "c35side.py"))
            p.write(f"{cwd}/__pypackages__/c35side.py", "where = 'pypackages'\n")
        S.note(lambda: (name, kind, cwd, base))
        with p.world(cwd):
            e, out = p.main(option, name)
            parents = [(p.path(base, f), os.path.dirname(f).replace("/", "."), os.path.dirname(f).replace("/", ".")) for f in before]
            package = os.path.dirname(file).replace("/", ".")
            p.judge(e, out, kind, "__main__" if how == "module" else name + ".__main__", package, p.path(base, file), p.path(cwd), "pypackages" if pypackages else cwd,
                    before=parents, show=lambda: f"macropython -m {name} in {cwd}, module in {base} ({kind})", package_main=how == "package")
            S.check(sys.path == [p.path(cwd)] + ([p.path(cwd, "__pypackages__")] if pypackages else []) + p.syspath, lambda: f"sys.path is {sys.path[:3]}")
            S.reach(how)
            if again:
                sys.path[:] = p.syspath
                p.program("other/c35t.py", "side")
                p.write("other/c35side.py", "where = 'other'\n")
                sys.modules["__main__"] = p.boot
                sys.modules.pop("c35side", None)
                e, out = p.main(p.path("other/c35t.py"))
                p.judge(e, out, "side", "__main__", "", p.path("other/c35t.py"), p.path("other"), "other", show=lambda: f"second program after -m {name} in {cwd} ({kind})")
    finally:
        p.close()


RELATIVE = ["from . import mod2\nc35log.log.append(mod2.v)\n", "from .mod2 import v\nc35log.log.append(v)\n", "from .m import macros, dec\nc35log.log.append(dec[15])\n", "from {package}.mod2 import v\nc35log.log.append(v)\n"]


def h_relative(S):
    """Relative imports and relative macro-imports in programs inside packages."""
    p = Project(S)
    try:
        name, before, file, how = S.pick("module", [m for m in MODULES if "." in m[0] or m[3] == "package"])
        text = S.pick("text", RELATIVE)
        cwd, base = S.pick("where", [("proj", "proj"), ("other", "lib")])
        package = os.path.dirname(file).replace("/", ".")
        if name == "c35p.__init__":
            return
        p.write(f"{base}/{file}", HEAD % f"{base}/{file}" + text.replace("{package}", package))
        for f in before:
            p.write(f"{base}/{f}", "")
        d = f"{base}/{os.path.dirname(file)}"
        p.write(f"{d}/mod2.py", "v = 5\n")
        p.write(f"{d}/m.py", "import ast\ndef dec(tree, **kw):\n    return ast.BinOp(left=tree, op=ast.Sub(), right=ast.Constant(value=10))\n")
        S.note(lambda: (name, text, cwd))
        with p.world(cwd):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                e, out = p.main("-m", name)
            S.check(e is None, lambda: f"-m {name}: {text!r}: {type(e).__name__}: {e}")
            S.check(p.log[1:] == [5], lambda: f"-m {name}: {text!r} gives {p.log[1:]}")
            S.reach(how)
    finally:
        p.close()


def no_main(e):
    return isinstance(e, ImportError) and "__main__" in str(e)
def not_found(e):
    return isinstance(e, ModuleNotFoundError)
def import_error(e):
    return isinstance(e, ImportError)
def no_file(e):
    return isinstance(e, FileNotFoundError)
def usage(e):
    return isinstance(e, SystemExit) and e.code == 2
def quiet(e):
    return isinstance(e, SystemExit) and not e.code


BAD = [   # command line, error, what runs
    (["-m", "c35nosuch"], not_found, []), (["-m", "c35nosuch.x"], not_found, []), (["-m", "c35p.nosuch"], not_found, ["proj/c35p/__init__.py"]), (["-m", "c35s.x"], not_found, ["proj/c35s.py"]), (["-m", "c35s.x.y"], not_found, ["proj/c35s.py"]),
    (["-m", "c35q"], no_main, ["proj/c35q/__init__.py"]), (["-m", "c35q.sub"], no_main, ["proj/c35q/__init__.py", "proj/c35q/sub/__init__.py"]), (["-m", "c35e"], no_main, []),
    (["-m", ".c35s"], import_error, []), (["-m", "..c35s"], import_error, []),
    (["nosuch.py"], no_file, []), (["c35p"], no_file, []), (["sub/nosuch/c35s.py"], no_file, []), (["c35s"], no_file, []), (["lib/c35s.py"], no_file, []), ([""], quiet, []),
    (["c35s.py", "-m", "c35s"], lambda e: isinstance(e, ValueError), []), (["-m", "c35s", "c35s.py"], lambda e: isinstance(e, ValueError), []),
    ([], quiet, []), (["-v"], quiet, []), (["--version"], quiet, []), (["-h"], quiet, []), (["--nosuch"], usage, []), (["-m"], usage, []), (["c35s.py", "c35t.py"], usage, []),
    (["-m", "c35b"], lambda e: isinstance(e, ModuleNotFoundError) and e.name == "c35_nosuch", ["proj/c35b/__init__.py", "proj/c35b/__main__.py"]),
    (["-m", "c35c"], lambda e: type(e) is ImportError and "nosuch" in str(e) and e.name == "c35m", ["proj/c35c/__init__.py", "proj/c35c/__main__.py"]),
    (["-m", "c35i.mod"], lambda e: isinstance(e, ModuleNotFoundError) and e.name == "c35_nosuch", ["proj/c35i/__init__.py"]),
    (["-m", "c35i"], lambda e: isinstance(e, ModuleNotFoundError) and e.name == "c35_nosuch", ["proj/c35i/__init__.py"]),
    (["-m", "c35l.mod"], lambda e: type(e) is LookupError, ["proj/c35l/__init__.py"]),
    (["-m", "c35d"], lambda e: isinstance(e, ModuleNotFoundError) and e.name == "c35d.__main__.x", ["proj/c35d/__init__.py", "proj/c35d/__main__.py"]),
]


def h_errors(S):
    """Command lines that name no program, and packages that cannot be run."""
    p = Project(S)
    try:
        args, ok, ran = S.pick("args", BAD)
        S.note(args)
        for f in ("c35s.py", "c35t.py", "c35p/__init__.py", "c35p/__main__.py", "c35q/__init__.py", "c35q/mod.py", "c35q/sub/__init__.py", "c35b/__init__.py", "c35c/__init__.py", "c35d/__init__.py", "c35i/mod.py", "c35i/__main__.py", "c35l/mod.py"):
            p.program(f"proj/{f}")
        p.program("proj/c35b/__main__.py", "missing")
        p.program("proj/c35c/__main__.py", "missing name")
        p.write("proj/c35d/__main__.py", HEAD % "proj/c35d/__main__.py" + "import c35d.__main__.x\n")
        p.program("proj/c35i/__init__.py", "missing")
        p.program("proj/c35l/__init__.py", "raise")
        os.makedirs(p.path("proj/c35e"))
        with p.world("proj"):
            path = list(sys.path)
            e, out = p.main(*args)
            S.check(e is not None and ok(e), lambda: f"macropython {' '.join(args)}: {type(e).__name__}: {e}")
            S.check([x[0] for x in p.log if isinstance(x, tuple)] == ran, lambda: f"macropython {' '.join(args)}: ran {p.log}, should be {ran}")
            S.check(all(x[1] != "__main__" for x in p.log), "a program ran as `__main__`")
            S.check(sys.modules["__main__"] is p.boot, lambda: f"macropython {' '.join(args)}: `__main__` is {sys.modules['__main__']!r}")
            if "-m" not in args:
                S.check(sys.path == path, "sys.path was changed")
            if isinstance(e, SystemExit):
                S.check(out.strip(), "nothing is shown")
                S.reach("shown")
            S.reach("error")
    finally:
        p.close()


STEPS = [   # lines, effect on the names, what is shown, error
    (["x = 5"], {"x": 5}, None, None), (["x"], {}, "x", None), (["from c35m import macros, inc"], {"inc": True}, None, None), (["inc[x]"], {}, "inc", None),
    (["def f():", "    return inc[1]", ""], {"f": True}, None, None), (["f()"], {}, "f", None), (["import c35side; c35side.where"], {}, "where", None), (["1/0"], {}, None, "ZeroDivisionError"),
    (["x = = 1"], {}, None, "SyntaxError"), (["from c35m import macros, boom; boom[1]"], {}, None, "MacroApplicationError"), (["raise SystemExit(4)"], {}, None, SystemExit), (["", "x = 6"], {"x": 6}, None, None), (["macros?"], {}, None, None),
    (["macro?"], {}, None, None),
]


class FakeReadline(types.ModuleType):
    """Stands for the terminal's line editor."""
    def __init__(self, lines):
        super().__init__("readline")
        self.lines, self.history = list(lines), []
        self.set_completer = self.parse_and_bind = self.set_history_length = lambda x: None
    def read_history_file(self, path):
        with open(path) as f:
            self.history += f.read().split("\n")
    def write_history_file(self, path):
        with open(path, "w") as f:
            f.write("\n".join(self.history))
    def input(self, prompt=""):
        if not self.lines:
            raise EOFError
        self.history.append(self.lines.pop(0))
        return self.history[-1]


def h_interactive(S, n):
    """`macropython -i`."""
    import atexit
    import builtins
    p = Project(S)
    saved = {k: sys.modules.get(k) for k in ("readline", "rlcompleter")}, builtins.input, atexit.register, getattr(builtins, "_", None), sys.displayhook
    try:
        args, cwd = S.pick("args", [(["-i"], "proj"), (["-i", "c35s.py"], "other"), (["--interactive", "-m", "c35s"], "proj")][:n])
        steps = [S.pick(f"s{i}", STEPS) for i in range(n)]
        if any(s[3] for s in steps[:-1]) and n > 2:
            return
        S.note(lambda: (args, cwd, [s[0] for s in steps]))
        p.program("proj/c35s.py")
        for d in ("proj", "other", "lib"):
            p.write(f"{d}/c35side.py", f"where = {d!r}\n")
        sessions = []
        with p.world(cwd):
            for session in range(2):
                rl = FakeReadline([l for s in steps for l in s[0]] if session == 0 else ["1"])
                atend = []
                sys.modules["readline"] = rl
                sys.modules["rlcompleter"] = types.SimpleNamespace(Completer=lambda namespace: types.SimpleNamespace(complete=None))
                builtins.input, atexit.register = rl.input, lambda f, *a, **kw: atend.append((f, a, kw))
                sys.displayhook = lambda v: print("<%r>" % (v,)) if v is not None else None
                path = list(sys.path)
                e, out = p.main(*args)
                sessions.append((e, out, path, list(sys.path), list(rl.history)))
                for f, a, kw in reversed(atend):
                    f(*a, **kw)
                if session == 0:
                    S.check(rl.lines == [] or isinstance(e, SystemExit), lambda: f"the session ends before {rl.lines}")
        builtins.input, atexit.register, sys.displayhook = saved[1:3] + (saved[4],)
        e, out, before, path, history = sessions[0]
        S.check(path == [""] + before, lambda: f"sys.path is {path[:2]}")
        S.check(p.log == [], lambda: f"ran {p.log}")
        ns, shown, errors = {}, [], []
        for lines, effect, show, err in steps:
            ns.update(effect)
            if show == "x":
                shown += ["<%r>" % ns["x"]] if "x" in ns else []
                errors += [] if "x" in ns else ["NameError"]
            elif show in ("inc", "f"):
                if show == "f" and "f" not in ns or show == "inc" and "inc" not in ns or show == "inc" and "x" not in ns:
                    errors.append("NameError")
                elif show == "f":
                    if "fmacro" in ns:
                        shown.append("<11>")
                    else:
                        errors.append("Error")
                else:
                    shown.append("<%r>" % (ns["x"] + 10))
            elif show == "where":
                shown.append("<%r>" % cwd)
            if "f" in effect:
                ns.pop("fmacro", None)
                if "inc" in ns:
                    ns["fmacro"] = True
            if isinstance(err, str):
                errors.append(err)
            elif err:
                break
        got = [l for l in out.split("\n") if l.startswith("<") and l.endswith(">")]
        S.check(got == shown, lambda: f"{[s[0] for s in steps]}: shows {got}, should be {shown}\n{out}")
        for x in errors:
            S.check(x in out, lambda: f"{[s[0] for s in steps]}: no {x}:\n{out}")
            S.reach("failed")
        if any(s[3] is SystemExit for s in steps):
            S.check(isinstance(e, SystemExit) and e.code == 4, lambda: f"SystemExit does not end the session, {e!r}")
            S.reach("exit")
        else:
            S.check(e is None, lambda: f"{type(e).__name__}: {e}")
            S.reach("end")
        e, out, before, path, h2 = sessions[1]
        S.check(e is None and "<1>" in out, lambda: f"second session: {e!r}\n{out}")
        S.check(path == before, lambda: f"second session: sys.path is {path[:3]}")
        S.check(h2 == history + ["1"], lambda: f"the history is {h2}, should be {history + ['1']}")
    finally:
        builtins.input, atexit.register = saved[1:3]
        sys.displayhook = saved[4]
        for k, v in saved[0].items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        for k in ("ps1", "ps2"):
            sys.__dict__.pop(k, None)
        p.close()


FORMS = ["relative", "dot", "absolute", "winding", "home"]
HARNESSES = [
    H("file", h_file, "running a script file", dict(files=FILES, forms=FORMS, again=False), dict(files=FILES, forms=FORMS, again=True), reach=list(KINDS)),
    H("module", h_module, "running a module or package", dict(again=False), dict(again=True), reach=[*KINDS, "module", "package"]),
    H("relative", h_relative, "programs inside packages", reach=["module", "package"]),
    H("errors", h_errors, "what cannot be run", reach=["error", "shown"]),
    H("interactive", h_interactive, "interactive sessions", dict(n=2), dict(n=3), reach=["failed", "exit", "end"]),
]
