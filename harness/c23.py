"""C23: match_syspath, relativize and resolve_package against an oracle on lists of path components.

The solver chooses the directory of the file, the entries of the search path and how each is written.
"""
import os
import pathlib
import shutil
import sys
import tempfile
from sx.api import H

BOUNDS = {"quick": "files up to 3 directories deep, up to 3 search-path entries (any order, nesting, common name prefixes); each entry and the file name in any of the written forms (absolute, relative, trailing, doubled or missing separators, through `..`, through a symbolic link, from the home directory); another search path or working directory in a second use",
          "thorough": "4 entries, 4 directories deep"}
OUTSIDE = "search-path entries that are no directories or not strings; Windows paths"
ASSUMPTIONS = []
NAMES = ["a", "ab"]


class Scratch:
    """scratch/w/{a,ab}/..., a link `ln` to w/a, the current directory w/a, and w/ab as the home directory."""
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="c23_", dir=os.environ.get("VERIF_SCRATCH") or base))
        self.w = self.root + "/w"
        for d in ("a/a", "a/ab", "ab"):
            os.makedirs(f"{self.w}/{d}")
        os.symlink(self.w + "/a", self.w + "/ln")
        self.saved = os.getcwd(), list(sys.path), os.environ.get("HOME")
        os.chdir(self.w + "/a")
        os.environ["HOME"] = self.w + "/ab"
        return self
    def __exit__(self, *exc):
        cwd, sys.path[:], home = self.saved
        os.chdir(cwd)
        if home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = home
        shutil.rmtree(self.root)

    def written(self, comps, form):
        """`w/<comps>` written as `form`, or None."""
        p = "/".join([self.w, *comps])
        if form == "plain":
            return p
        if form == "slash":
            return p + "/"
        if form == "double":
            return p.replace("/w", "//w", 1) + "//"
        if form == "dots":
            return f"{self.w}/x/../" + "/".join([*comps, "."])
        if form == "relative":      # from w/a
            if comps[:1] == ("a",):
                return "/".join(comps[1:])
            return "/".join(["..", *comps])
        if form == "relative.":
            return "./" + "/".join(comps[1:]) + "/" if comps[:1] == ("a",) else None
        if form == "link":
            return "/".join([self.w, "ln", *comps[1:]]) if comps[:1] == ("a",) else None
        if form == "home":
            return "/".join(["~", *comps[1:]]) if comps[:1] == ("ab",) else None


ENTRY_FORMS = ["plain", "slash", "double", "dots", "relative", "relative.", "link", "home"]
FILE_FORMS = ["plain", "double", "dots", "relative", "link", "home"]


def dirs(depth):
    out, last = [()], [()]
    for _ in range(depth):
        last = [d + (n,) for d in last for n in NAMES]
        out += last
    return out


def judge(S, sc, comps, filename, entries):
    """`comps`: directory of the file, below w; `entries`: components of the search path, likewise, or "/" or "out"."""
    full = lambda e: [] if e == "/" else [*sc.root.split("/")[1:], "out"] if e == "out" else [*sc.w.split("/")[1:], *e]
    here = full(comps)
    best = None
    for e in entries:
        f = full(e)
        if here[:len(f)] == f and (best is None or len(f) > len(best)):
            best = f
    m = S.m.coreutils
    S.note(lambda: (filename, sys.path))
    show = lambda: f"{filename} with {sys.path}"
    if best is None:
        S.reach("outside")
        S.raises(ValueError, lambda: m.match_syspath(filename), "match_syspath")
        S.raises(ValueError, lambda: m.relativize(filename), "relativize")
        S.raises(ValueError, lambda: m.resolve_package(filename), "resolve_package")
        return
    root = "/" + "/".join(best)
    got = m.match_syspath(filename)
    S.check(isinstance(got, pathlib.PurePath), "a path")
    S.check(str(got) == root, lambda: f"{show()}: found {got}, expected {root}")
    below = here[len(best):]
    got, rel = m.relativize(filename)
    S.check(str(got) == root and rel == "/".join([*below, "m.py"]), lambda: f"{show()}: {(got, rel)}")
    got, rel = m.relativize(os.path.dirname(filename) if isinstance(filename, str) else filename.parent)
    S.check(str(got) == root and rel == "/".join(below), lambda: f"{show()}: {(got, rel)} for the directory")
    if not below:
        S.reach("root")
        S.raises(ImportError, lambda: m.resolve_package(filename), "resolve_package")
    else:
        S.reach("package")
        got = m.resolve_package(filename)
        S.check(got == ".".join(below), lambda: f"{show()}: {got}, expected {'.'.join(below)}")


def h_sets(S, depth, n, fdepth):
    """Any search path of plain entries."""
    with Scratch() as sc:
        ds = dirs(depth) + ["/", "out"]
        es = []
        for i in range(n):
            j = S.pick(f"e{i}", range(-1, len(ds)))
            if j < 0:
                break
            es.append(ds[j])
        comps = S.pick("f", dirs(fdepth))
        sys.path[:] = ["/" if e == "/" else sc.root + "/out" if e == "out" else sc.written(e, "plain") for e in es]
        judge(S, sc, comps, sc.written(comps + ("m.py",), "plain"), es)


def h_forms(S, depth, n):
    """Entries and file names as they may be written."""
    with Scratch() as sc:
        ds = dirs(depth)
        es, written = [], []
        for i in range(n):
            e = S.pick(f"e{i}", ds)
            w = sc.written(e, S.pick(f"w{i}", [f for f in ENTRY_FORMS if sc.written(e, f) is not None]))
            es.append(e)
            written.append(w)
        if S.pick("more", [False, True]):
            written.append(sc.root + "/wa")
            es.append("out")
        comps = S.pick("f", [(), ("a",), ("ab", "a"), ("a", "a", "ab")])
        f = comps + ("m.py",)
        name = sc.written(f, S.pick("ff", [x for x in FILE_FORMS if sc.written(f, x) is not None]))
        if name.endswith("/.") or name.endswith("//"):
            name = name.rstrip("/.") + "py" if not name.rstrip("/.").endswith("py") else name.rstrip("/.")
        sys.path[:] = written
        judge(S, sc, comps, pathlib.Path(name) if n == 1 and S.pick("path", [False, True]) else name, es)


def h_change(S, depth):
    """The search path or the working directory changes between two uses."""
    with Scratch() as sc:
        ds = dirs(depth) + ["out"]
        comps = S.pick("f", [d for d in dirs(3) if d[:1] == ("a",)])
        form = S.pick("form", ["plain", "relative"])
        name = sc.written(comps + ("m.py",), form)
        cwd = ("a",)
        for k in range(2):
            e = S.pick(f"e{k}", ds)
            sys.path[:] = [sc.root + "/out" if e == "out" else sc.written(e, "plain")]
            if k and form == "relative":
                cwd = S.pick("cwd", [("a",), ("a", "ab"), ("ab",)])
                os.chdir("/".join([sc.w, *cwd]))
            judge(S, sc, cwd + comps[1:], name, [e])
        S.reach("changed")


HARNESSES = [
    H("sets", h_sets, "search paths of plain entries", dict(depth=2, n=3, fdepth=3), dict(depth=3, n=3, fdepth=4), reach={"outside", "root", "package"}),
    H("one", h_forms, "one entry, in every form", dict(depth=3, n=1), dict(depth=4, n=1), reach={"outside", "root", "package"}),
    H("change", h_change, "another search path or working directory than before", dict(depth=2), dict(depth=3), reach={"changed", "outside", "root", "package"}),
    H("two", h_forms, "two entries, in every form", dict(depth=1, n=2), dict(depth=2, n=2), reach={"outside", "root", "package"}),
]
