"""C31: pycachecleaner, on real directories below a scratch directory.

Every call that removes something is intercepted: it is passed on only when its target is inside the
scratch directory (by the real path of the directory that holds it), else it is recorded and refused.
"""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import types
from sx.api import H

NAMES = ["__pycache__", "pkg", "f.pyc", "__pycache__x"]
BOUNDS = {"quick": "directory trees of 3 levels with up to 2 entries at the top and one in each directory below: directories and files named __pycache__ or otherwise (also hidden ones), symbolic links to directories inside and outside, to files, and dangling ones; the directory given with or without a trailing separator, as a relative path, or through a link; clean, dry run and command line; up to two entries vanishing just before they are removed, or one that cannot be removed",
          "thorough": "up to 2 entries also on the second level"}
OUTSIDE = "larger trees; directories that cannot be listed; files changed meanwhile by others in other ways; other platforms"
ASSUMPTIONS = ["a symbolic link named __pycache__ may either be left alone or be removed itself (then it is also reported), but what it points to is kept"]


class Escape(Exception):
    pass


class Guard:
    """Intercepts removal in os, shutil and subprocess."""
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.escaped, self.removed = [], []
        self.fault = None       # called before each removal
    def where(self, path, dir_fd=None):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None:
            path = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), path)
        path = os.path.abspath(path)
        return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
    def ok(self, path, dir_fd=None):
        p = self.where(path, dir_fd)
        if not p.startswith(self.root + os.sep):
            self.escaped.append(p)
            raise Escape(p)
        if self.fault:
            self.fault(p)
        self.removed.append(p)
    def __enter__(self):
        self.saved = {}
        def patch(mod, name, fn):
            self.saved[mod, name] = getattr(mod, name)
            setattr(mod, name, fn)
        def one(mod, name):
            real = getattr(mod, name)
            def wrapped(path, *a, dir_fd=None, **kw):
                self.ok(path, dir_fd)
                return real(path, *a, dir_fd=dir_fd, **kw) if dir_fd is not None else real(path, *a, **kw)
            patch(mod, name, wrapped)
        for n in ("unlink", "remove", "rmdir"):
            one(os, n)
        one(os, "truncate")
        for n in ("rename", "replace", "renames"):
            real = getattr(os, n)
            def wrapped(a, b, *r, real=real, **kw):
                self.ok(a)
                self.ok(b)
                return real(a, b, *r, **kw)
            patch(os, n, wrapped)
        def refuse(*a, **kw):
            self.escaped.append(repr(a)[:100])
            raise Escape(repr(a))
        for n in ("system", "popen", "fork", "execv", "execve", "posix_spawn"):
            patch(os, n, refuse)
        patch(subprocess, "Popen", refuse)
        self.symlink_safe = getattr(shutil.rmtree, "avoids_symlink_attacks", False)
        return self
    def __exit__(self, *exc):
        for (mod, name), fn in self.saved.items():
            setattr(mod, name, fn)


def contents(S, path, key, level, model):
    """Fill the directory `path`; describe it in `model`: name -> "file", ("dir", model), ("link", target)."""
    names = list(NAMES)
    for i in range(S.pick(key + ".n", [0, 1, 2] if level >= TWO[0] else [0, 1])):
        j = S.pick(f"{key}.{i}", range(i, len(names) if level > 1 or i else 3))
        if names[j] is None:
            continue
        name, names[j] = names[j], None
        if name == "pkg" and not i:
            name = S.pick(f"{key}.{i}d", ["pkg", ".hidden"])
        elif name == "f.pyc" and not i:
            name = S.pick(f"{key}.{i}f", ["f.pyc", ".data"])
        p = os.path.join(path, name)
        kinds = ["file"] if name in ("f.pyc", ".data") else ["dir", "file", "link"] if name == "__pycache__" else ["dir", "link"]
        kind = S.pick(f"{key}.{i}k", kinds)
        if kind == "link":
            where = S.pick(f"{key}.{i}t", ["outside", "up", "nowhere"])
            os.symlink({"outside": "OUTSIDE", "up": "..", "nowhere": "nowhere"}[where] if where != "outside" else OUT[0], p)
            model[name] = ("link", where)
        elif kind == "dir":
            os.mkdir(p)
            sub = {}
            model[name] = ("dir", sub)
            if level:
                contents(S, p, f"{key}.{i}", level - 1, sub)
        else:
            with open(p, "w") as f:
                f.write("x")
            model[name] = "file"
        if i == 0 and j == len(names) - 1:
            break


OUT = [None]
TWO = [1]


def look(path):
    m = {}
    for e in os.scandir(path):
        m[e.name] = ("link",) if e.is_symlink() else ("dir", look(e.path)) if e.is_dir() else "file"
    return m


def plain(model):
    return {k: v if v == "file" else ("link",) if v[0] == "link" else ("dir", plain(v[1])) for k, v in model.items()}


def expect(model):
    """What a clean leaves behind."""
    out = {}
    for k, v in model.items():
        if v == "file":
            out[k] = v
        elif v[0] == "link":
            out[k] = ("link",)
        elif k != "__pycache__":
            out[k] = ("dir", expect(v[1]))
    return out


def caches(model, prefix):
    """(real cache directories, links of that name)"""
    real, links = [], []
    for k, v in model.items():
        p = os.path.join(prefix, k)
        if v == "file":
            continue
        if v[0] == "link":
            if k == "__pycache__" and v[1] != "nowhere":
                links.append(p)
            continue
        if k == "__pycache__":
            real.append(p)
        a, b = caches(v[1], p)
        real += a
        links += b
    return real, links


def drop(model, path, prefix):
    parts = os.path.relpath(path, prefix).split(os.sep)
    for x in parts[:-1]:
        if x not in model:
            return
        model = model[x][1]
    model.pop(parts[-1], None)


def h_clean(S, levels, two, cli=False):
    TWO[0] = two
    scratch = tempfile.mkdtemp(prefix="c31_", dir=os.environ.get("VERIF_SCRATCH"))
    cwd = os.getcwd()
    try:
        out = os.path.join(scratch, "outside")
        os.makedirs(os.path.join(out, "__pycache__"))
        for f in ("keep.pyc", "__pycache__/keep.pyc"):
            open(os.path.join(out, f), "w").close()
        OUT[0] = out
        root = os.path.join(scratch, "above", "top")
        os.makedirs(root)
        os.mkdir(os.path.join(scratch, "above", "__pycache__"))
        model = {}
        contents(S, root, "e", levels, model)
        S.note(model)
        before_out, before_above = look(out), look(os.path.join(scratch, "above"))
        form = S.pick("form", ["abs", "slash", "rel", "link"]) if len(model) < 2 or cli else "abs"
        if form == "abs":
            arg = root
        elif form == "slash":
            arg = root + os.sep
        elif form == "rel":
            os.chdir(root)
            arg = "."
        else:
            arg = os.path.join(scratch, "ln")
            os.symlink(root, arg)
        P = S.m.pycachecleaner
        if cli:
            fake = types.ModuleType("mcpyrate.activate")
            sys.modules["mcpyrate.activate"] = fake
            import importlib
            mp = importlib.import_module("mcpyrate.repl.macropython")
            def run(*args):
                buf, old = io.StringIO(), sys.argv
                sys.argv = ["macropython", *args]
                try:
                    with contextlib.redirect_stdout(buf):
                        e = S.raises(SystemExit_, lambda: wrapexit(mp.main), "the command line")
                    S.check(e.code in (0, None), f"exit code {e.code}")
                finally:
                    sys.argv = old
                return [l for l in buf.getvalue().split("\n") if l]
        real, links = caches(model, arg)
        # scan
        with Guard(scratch) as g:
            got = run("-c", arg, "-n") if cli else P.getpycachedirs(arg)
            removed = list(g.removed)
        S.check(not removed and not g.escaped, lambda: f"the scan removed {removed or g.escaped}")
        norm = [os.path.normpath(x) for x in got]
        S.check(len(set(norm)) == len(norm), lambda: f"reported twice: {got}")
        S.check({os.path.normpath(x) for x in real} <= set(norm), lambda: f"cache directories {real}, reported {got}")
        S.check(set(norm) <= {os.path.normpath(x) for x in real + links}, lambda: f"cache directories {real}, reported {got}")
        S.check(all(x.startswith(arg) for x in got), lambda: f"entries start with the path given: {got}")
        S.check(look(root) == plain(model), "the scan changed the directory")
        # clean
        with Guard(scratch) as g:
            try:
                if cli:
                    run("-c", arg)
                else:
                    P.deletepycachedirs(arg)
            except Escape as e:
                S.fail(f"removal of {e}, outside of the directory")
        S.check(not g.escaped, lambda: f"removal of {g.escaped}")
        want = expect(model)
        for l in links:
            if os.path.normpath(l) in norm:
                drop(want, os.path.normpath(l), os.path.normpath(arg))
        S.check(look(root) == want, lambda: f"left {look(root)}, expected {want}")
        S.check(look(out) == before_out, lambda: f"removed outside: {look(out)}")
        above = look(os.path.join(scratch, "above"))
        S.check(set(above) == set(before_above), lambda: f"removed above: {above}")
        if cli:
            S.check(run("-c", arg, "-n") == [], "nothing left to report") if not links else None
        else:
            P.deletepycachedirs(arg)
            S.check(look(root) == want, "a second run changes nothing")
        if real:
            S.reach("cleaned")
        if links:
            S.reach("link")
        S.reach("done")
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch)


class SystemExit_(Exception):
    code = None

def wrapexit(fn):
    try:
        return fn()
    except SystemExit as e:
        x = SystemExit_()
        x.code = e.code
        raise x from None


def h_bad(S):
    """What is no directory is rejected."""
    scratch = tempfile.mkdtemp(prefix="c31_", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        f = os.path.join(scratch, "file")
        open(f, "w").close()
        os.symlink("nowhere", os.path.join(scratch, "dangling"))
        path = S.pick("p", [f, os.path.join(scratch, "missing"), os.path.join(scratch, "dangling"), ""])
        fn = S.pick("f", ["getpycachedirs", "deletepycachedirs"])
        with Guard(scratch) as g:
            S.raises(OSError, lambda: getattr(S.m.pycachecleaner, fn)(path), fn)
        S.check(not g.removed and not g.escaped, "removed something")
        S.reach("rejected")
    finally:
        shutil.rmtree(scratch)


def h_faults(S):
    """Entries vanish just before they are removed (by another process, say), or cannot be removed."""
    scratch = tempfile.mkdtemp(prefix="c31_", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        root = os.path.join(scratch, "top")
        files = ["a/__pycache__/f.pyc", "a/__pycache__/g.pyc", "a/__pycache__/sub/h.pyc", "a/b/__pycache__/f.pyc", "a/keep.py", "a/__pycache__x/keep.pyc"]
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
            open(os.path.join(root, f), "w").close()
        os.symlink("../..", os.path.join(root, "a/__pycache__/link"))
        kind = S.pick("kind", ["gone", PermissionError, IsADirectoryError, OSError])
        at = [S.pick("at", range(8))]
        if kind == "gone":
            at.append(S.pick("at2", range(8)))
        S.note(lambda: (kind, at))
        count = [0]
        hit = []
        def fault(p):
            k, count[0] = count[0], count[0] + 1
            if k in at:
                hit.append(p)
                if kind != "gone":
                    raise kind(13, "c31", p)
                g.fault = None
                try:
                    (shutil.rmtree if os.path.isdir(p) and not os.path.islink(p) else os.unlink)(p)
                except FileNotFoundError:
                    pass
                finally:
                    g.fault = fault
        with Guard(scratch) as g:
            g.fault = fault
            try:
                S.m.pycachecleaner.deletepycachedirs(root)
                err = None
            except Escape as e:
                S.fail(f"removal of {e}, outside of the directory")
            except OSError as e:
                err = e
        S.check(not g.escaped, lambda: f"removal of {g.escaped}")
        left = sorted(os.path.relpath(os.path.join(d, f), root) for d, ds, fs in os.walk(root) for f in fs)
        S.check([x for x in left if "__pycache__/" not in x] == ["a/__pycache__x/keep.pyc", "a/keep.py"], lambda: f"left {left}")
        if kind == "gone" or not hit:
            S.check(err is None, lambda: f"{err!r}, although {hit} had just vanished")
            dirs = [d for d, ds, fs in os.walk(root) if os.path.basename(d) == "__pycache__"]
            S.check(not dirs, lambda: f"left {dirs}")
            S.reach("vanished")
        else:
            S.check(err is not None, lambda: f"{hit[0]} could not be removed, but no error was raised")
            S.reach("error")
    finally:
        shutil.rmtree(scratch)


HARNESSES = [
    H("clean", h_clean, "scan and clean a directory tree", dict(levels=2, two=2), dict(levels=2, two=1), reach={"done", "cleaned", "link"}),
    H("cli", h_clean, "the same through the command line", dict(levels=1, two=2, cli=True), dict(levels=1, two=1, cli=True), reach={"done", "cleaned"}),
    H("faults", h_faults, "entries that vanish or cannot be removed", reach={"vanished", "error"}),
    H("bad", h_bad, "paths that are no directories", reach={"rejected"}),
]
