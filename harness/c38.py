"""C38: what the debugging utilities report: missing source locations, locations in messages, bindings."""
import ast
import re
import types

from sx.api import H
from sx import grammar as G
from harness.c15 import Locator, G1, G2

BOUNDS = {"quick": "every statement and expression form with leaf children, presence of line and column symbolic per tree level (line numbers any integer 1..10^6); trees with markers and lists; up to 3 bindings out of 7 kinds, local or global; every subset of 6 callables extracted from up to 2 bindings; 8 combinations of colors",
          "thorough": "two nested levels of every representative form"}
OUTSIDE = "the wording and colors of the reports"
ASSUMPTIONS = ["all nodes written by one template share whether they have line / column information (their values are independent)"]


class Presence(Locator):
    """Only the presence of the positions is symbolic."""
    def __call__(self, desc, i, node):
        super().__call__(desc, i, node)
        for a in node._attributes:
            if a in node.__dict__:
                node.__dict__[a] = 3 + i


def plain(text):
    return re.sub("\033\\[[0-9;]*m", "", text)


def order(tree, out):
    """The nodes in scan order."""
    if isinstance(tree, list):
        for x in tree:
            order(x, out)
    elif isinstance(tree, ast.AST):
        out.append(tree)
        for f in tree._fields:
            order(getattr(tree, f, None), out)
    return out


def h_validator(S, gram, sort, full):
    """SourceLocationInfoValidator finds exactly the nodes that miss one of the fields, with the names of these."""
    tree = S.tree("t", sort, gram, locate=Presence(S))
    fields = S.pick("fields", [None, ["lineno"], ["end_lineno", "lineno", "col_offset"], []]) if full else None
    wrap = S.pick("wrap", ["node", "module", "list", "marker"]) if full else "node"
    ignored = set()
    arg = tree
    if wrap == "module":
        arg = ast.Module(body=[tree], type_ignores=[])
        ignored = {arg}
    elif wrap == "list":
        arg = [tree, ast.Name(id="other", ctx=ast.Load())]
        ignored = {arg[1]}
    elif wrap == "marker":
        arg = S.m.markers.ASTMarker(tree)
    n = S.pick("n", [1, 2]) if full else 2
    kw = {"n": n}
    if fields is not None:
        kw["check_fields"] = fields
    if ignored:
        kw["ignore"] = ignored
    v = S.m.debug.SourceLocationInfoValidator(**kw)
    v.visit(arg)
    want = []
    for node in order(arg, []):
        if node in ignored:
            continue
        missing = [f for f in (["lineno", "col_offset"] if fields is None else fields) if not hasattr(node, f)]
        if missing:
            want.append((node, missing))
    got = v.collected
    S.check(len(got) == len(want), lambda: f"{len(got)} nodes reported, should be {len(want)}")
    for (node, code, names), (wnode, wnames) in zip(got, want):
        S.check(node is wnode, lambda: f"reports {node}, should be {wnode}")
        S.check(names == wnames, lambda: f"reports {names} for {node}, should be {wnames}")
        lines = S.m.unparser.unparse_with_fallbacks(node, debug=True, color=True).split("\n")
        lines = [plain(l) for l in lines]
        expected = lines[:n] + (["..."] if len(lines) > n else [])
        S.check(plain(code).split("\n") == expected, lambda: f"shows {code!r}")
        if len(lines) > n:
            S.reach("truncated")
    S.reach("missing" if want else "complete")


def first(tree):
    """The line number found first, in scan order."""
    if isinstance(tree, list):
        for x in tree:
            if first(x) is not None:
                return first(x)
        return None
    if not isinstance(tree, ast.AST):
        return None
    if "lineno" in tree.__dict__:
        return tree.__dict__["lineno"]
    return first([getattr(tree, f, None) for f in tree._fields])


class Positive(Locator):
    def __call__(self, desc, i, node):
        super().__call__(desc, i, node)
        if "lineno" in node.__dict__:
            self.S.assume(node.__dict__["lineno"] > 0)


def h_location(S, gram, sort):
    """A location in a message names the file, the first line number that is known, and shows the code."""
    tree = S.tree("t", sort, gram, locate=Positive(S))
    wrap = S.pick("wrap", ["node", "list", "marker", "suite marker"])
    arg = {"node": lambda: tree, "list": lambda: [ast.Load(), tree], "marker": lambda: S.m.markers.ASTMarker(tree), "suite marker": lambda: S.m.markers.ASTMarker([tree, tree])}[wrap]()
    u = S.m.utils
    want = first(arg)
    got = u.get_lineno(arg)
    if want is None:
        S.check(got is None, lambda: f"line {got}, should be none")
        S.reach("none")
    else:
        S.check(got is not None, "no line number is found")
        S.check(got == want, "another line number")
        S.reach("line")


def h_text(S):
    line, code, name = S.pick("line", [None, 1, 42]), S.pick("code", [None, "", "x", "if x:\n    y", "\n"]), S.pick("file", ["/a/b.py", "<session>", ""])
    n = ast.Name(id="x", ctx=ast.Load())
    if line is not None:
        n.lineno = line
    got = plain(S.m.utils.format_location(name, n, code))
    S.check(got == f"{name}:{line}:" + ("" if not code else ("\n" if "\n" in code else " ") + code), lambda: f"shows {got!r}")
    S.reach("done")


def h_bindings(S, n):
    """The report lists exactly the bindings, each with the macro it is bound to."""
    def f(tree, **kw): pass
    class C:
        def m(self, tree, **kw): pass
        def __repr__(self): return "<a C>"
    homeless = types.FunctionType(f.__code__, {}, "homeless")
    homeless.__module__ = None
    kinds = {"function": (f, f"{f.__module__}.{f.__qualname__}"), "macro": (S.m.quotes.q, "mcpyrate.quotes.q"), "class": (C, f"{C.__module__}.{C.__qualname__}"), "object": (C(), "<a C>"),
             "module": (ast, repr(ast)), "homeless": (homeless, homeless.__qualname__), "builtin": (len, "builtins.len")}
    local, globs = {}, {}
    for i in range(n):
        where = S.pick(f"where{i}", ["local", "global", "both", "none"])
        if where == "none":
            continue
        k, kind = S.pick(f"name{i}", ["b", "a", "a_1"]), S.pick(f"kind{i}", list(kinds))
        if where in ("local", "both"):
            local[k] = kind
        if where in ("global", "both"):
            globs[k] = kind
    core = S.m.core
    core.global_bindings.update({k: kinds[v][0] for k, v in globs.items()})
    e = S.m.expander.MacroExpander({k: kinds[v][0] for k, v in local.items()}, "c38_file")
    everything, color = S.pick("globals", [False, True]), S.pick("color", [False, True])
    before = dict(e.bindings)
    text = S.m.debug.format_bindings(e, globals_too=everything, color=color)
    S.check(dict(e.bindings) == before, "changes the bindings")
    if not color:
        S.check("\033" not in text, "colors were not asked for")
    shown = {**globs, **local} if everything else local
    want = sorted((k, kinds[v][1]) for k, v in shown.items())
    lines = plain(text).strip().split("\n")
    S.check("c38_file" in lines[0], "the file is not named")
    if want:
        got = [tuple(l.strip().split(": ", 1)) for l in lines[1:]]
        S.check(got == want, lambda: f"shows {got}, should be {want}")
        S.reach("all" if everything else "local")
    else:
        S.check(len(lines) == 2 and ":" not in lines[1], lambda: f"shows {lines}, should be nothing")
        S.reach("empty")


class Unhashable:
    """A macro may be any callable."""
    __hash__ = None
    def __init__(self, tag):
        self.tag = tag
    def __eq__(self, other):
        return isinstance(other, Unhashable) and self.tag == other.tag
    def __call__(self, tree, **kw): pass
    def method(self, tree, **kw): pass


def h_extract(S, n):
    """The bindings of given macro functions, under whatever names."""
    def f(tree, **kw): pass
    def g(tree, **kw): pass
    one, two = Unhashable(1), Unhashable(2)
    class C:
        def m(self, tree, **kw): pass
    c = C()
    kinds = {"f": lambda: f, "g": lambda: g, "method": lambda: c.m, "object": lambda: one, "object 2": lambda: two, "class": lambda: C}
    names = ["f", "g", "a", "b"]
    bound, start = {}, S.pick("start", [0, 1, 2, 3])
    for i in range(n):
        k = S.pick(f"binding{i}", [None] + list(kinds))
        if k:
            bound[names[(i + start) % 4]] = k
    asked = {k for k in kinds if S.pick(f"ask {k}", [False, True])}
    bindings = {name: kinds[k]() for name, k in bound.items()}
    saved = dict(bindings)
    S.note(lambda: (bound, asked))
    got = S.m.utils.extract_bindings(bindings, *[kinds[k]() for k in sorted(asked)])
    want = {name: bindings[name] for name, k in bound.items() if k in asked}
    S.check(list(got) == list(want) and all(got[k] is want[k] for k in want), lambda: f"{got}, should be {want}")
    S.check(got is not bindings and list(bindings.items()) == list(saved.items()), "the given bindings are changed")
    S.reach("some" if want else "none")


def h_colors(S):
    """Coloring a text keeps it, and resets the style before and after it."""
    c = S.m.colorizer
    bright, blue, red, reset = c.Style.BRIGHT, c.Fore.BLUE, c.Back.RED, c.Style.RESET_ALL
    which = S.pick("colors", [(), (blue,), (bright, blue), ((bright, blue),), ((bright, (blue, red)),), (bright, (blue,), red), ([bright, blue], red), ((),)])
    def flat(x):
        return x if isinstance(x, str) else "".join(flat(y) for y in x)
    text = S.pick("text", ["", "x", "two\nlines", "\033[0m", "{}%s"])
    S.check(c.colorize(text, *which) == reset + flat(which) + text + reset, lambda: f"{which}: {c.colorize(text, *which)!r}")
    S.check(c.setcolor(*which) == reset + flat(which), lambda: f"{which}: {c.setcolor(*which)!r}")
    S.check(c.setcolor(*which, reset=False) == flat(which), lambda: f"{which}: {c.setcolor(*which, reset=False)!r}")
    S.reach("done")


HARNESSES = [
    H("extract", h_extract, "extracting the bindings of macro functions", dict(n=2), dict(n=3), reach={"some", "none"}),
    H("colors", h_colors, "setting colors", dict(), reach={"done"}),
    H("expr", h_validator, "nodes without location, in expressions", dict(gram=G1, sort="expr", full=False), dict(gram=G2, sort="expr", full=False), reach={"missing"}),
    H("stmt", h_validator, "nodes without location, in statements", dict(gram=G1, sort="stmt", full=False), dict(gram=G2, sort="stmt", full=False), reach={"missing", "complete"}),
    H("forms", h_validator, "the validator's parameters", dict(gram=G.grammar(expr=[G.shapes("expr", ["v0", "f(v1)"])], stmt=[G.shapes("stmt", ["pass", "v0 = v1", "if v0: v1"])]), sort="stmt", full=True), reach={"missing", "complete", "truncated"}),
    H("line", h_location, "the line number of a tree", dict(gram=G1, sort="stmt"), dict(gram=G2, sort="stmt"), reach={"none", "line"}),
    H("text", h_text, "the text of a location", dict(), reach={"done"}),
    H("bindings", h_bindings, "the report of the bindings", dict(n=2), dict(n=3), reach={"all", "local", "empty"}),
]
