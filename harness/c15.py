"""C15: fix_locations."""
import ast
from sx.api import H
from sx import grammar as G
from .lib import counted

G1 = G.grammar(expr=[G.EXPR_STRUCT, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_ONE], target=[G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_LEAF],
               pattern=[G.PATTERN_ALL, G.PATTERN_LEAF])
G2 = G.grammar(expr=[G.EXPR_SHORT, G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_SHORT, G.STMT_SHORT, G.STMT_ONE],
               target=[G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_LEAF])
BOUNDS = {"quick": "every statement and expression form with leaf children; presence and values of line and column symbolic per tree level (values any integer >= 0), for each of the three modes; lists of up to 2 trees; references with and without each attribute; up to 1 (in some 2) items of any kind in each list of 23 constructs",
          "thorough": "as quick, and two nested levels of every representative form"}
OUTSIDE = "nesting deeper than the bound; negative positions"
ASSUMPTIONS = ["all nodes written by one template share whether they have line / column information (their values are independent)"]


class Locator:
    """Positions of each node: symbolic values; presence decided per (tree level, attribute)."""
    def __init__(self, S):
        self.S, self.cache, self.known = S, {}, {}
    def __call__(self, desc, i, node):
        S = self.S
        if "lineno" not in node._attributes:
            return
        if desc.name not in self.known:
            self.known[desc.name] = S.pick(desc.name + "@", ["lc", "l", "c", "", "LC"])
        has = self.known[desc.name]
        k = (desc.name, i)
        if k not in self.cache:
            d = {}
            for flag, a in (("l", "lineno"), ("c", "col_offset")):
                if flag in has.lower():
                    d[a] = S.int(f"{desc.name}@{i}{flag}", 0, 10**6)
                    if flag in has:
                        d["end_" + a] = S.int(f"{desc.name}@{i}e{flag}", 0, 10**6)
            self.cache[k] = d
        for a, v in self.cache[k].items():
            node.__dict__.setdefault(a, v)


def reference(S):
    r = ast.Name(id="ref")
    kind = S.pick("ref", ["full", "noend", "nothing", "lineonly", "colonly", "endline"])
    if kind != "nothing" and kind != "colonly":
        r.lineno = S.int("rl", 0, 10**6)
    if kind != "nothing" and kind != "lineonly":
        r.col_offset = S.int("rc", 0, 10**6)
    if kind in ("full", "endline"):
        r.end_lineno = S.int("rel", 0, 10**6)
    if kind == "full":
        r.end_col_offset = S.int("rec", 0, 10**6)
    return kind, r


def expected(node, mode, line, col, out):
    """List of (node, attributes it should have) in tree order."""
    if isinstance(node, list):
        for x in node:
            expected(x, mode, line, col, out)
        return
    if not isinstance(node, ast.AST):
        return
    fields = type(node)._fields if not node._fields else node._fields
    if "lineno" in node._attributes:
        d = {a: node.__dict__[a] for a in ("lineno", "col_offset", "end_lineno", "end_col_offset") if a in node.__dict__}
        for part, ref in (("lineno", line), ("col_offset", col)):
            if mode == "overwrite" or part not in d:
                d[part], d["end_" + part] = ref
        if mode == "update":
            line = (d["lineno"], d.get("end_lineno"))
            col = (d["col_offset"], d.get("end_col_offset"))
        out.append((node, d))
    else:
        out.append((node, None))
    for f in fields:
        v = getattr(node, f, None)
        if isinstance(v, (list, ast.AST)):
            expected(v, mode, line, col, out)


def some(S, tree, more):
    """Drop the positions of some of the nodes, and change others."""
    which = S.pick("drop", ["odd", "even", "deep"] + (["all", "lines", "columns"] if more else []))
    def walk(n, depth):
        for x in n if isinstance(n, list) else [n]:
            if isinstance(x, ast.AST):
                no[0] += 1
                if "lineno" in x._attributes:
                    drop = {"all": 1, "odd": no[0] % 2, "even": no[0] % 2 == 0, "deep": depth > 1, "lines": 1, "columns": 1}[which]
                    x.lineno += no[0]
                    for a in ("lineno", "end_lineno", "col_offset", "end_col_offset"):
                        if drop and (which not in ("lines", "columns") or which[:3] in a):
                            del x.__dict__[a]
                for f in x._fields:
                    walk(getattr(x, f, None), depth + 1)
    no = [0]
    walk(tree, 0)
    return tree


def h_fix(S, gram, sort, most=1):
    loc = Locator(S)
    mode = S.pick("mode", ["reference", "update", "overwrite"])
    if gram:
        kind, ref = reference(S)
        if kind != "full":
            gram = GLEAF
    else:
        kind, ref = "full", ast.Name(id="ref", lineno=7000, col_offset=70, end_lineno=7001, end_col_offset=80)
    tree = S.tree("t", sort, gram, locate=loc) if gram else some(S, counted(S, most)[1][0], most > 1)
    import copy
    saved = copy.deepcopy(tree)
    want = []
    if kind in ("nothing", "lineonly", "colonly"):
        r = S.m.astfixers.fix_locations(tree, ref, mode=mode)
        S.check(r is tree, "returns the tree")
        S.same(tree, saved, "a reference without position must do nothing", attrs=True)
        S.reach("noop")
        return
    wrap = S.pick("wrap", ["node", "list"]) if kind == "full" and mode != "overwrite" and gram else "node"
    expected(tree, mode, (ref.lineno, getattr(ref, "end_lineno", None)), (ref.col_offset, getattr(ref, "end_col_offset", None)), want)
    other = None
    if wrap == "list":
        other = ast.Name(id="other", ctx=ast.Load())
        arg = [other, None, tree]
    else:
        arg = tree
    S.note((mode, kind, wrap))
    r = S.m.astfixers.fix_locations(arg, ref, mode=mode)
    S.check(r is arg, "returns the tree")
    if other is not None:
        S.check(other.lineno == ref.lineno, "each tree of a list is processed")
        S.check(other.col_offset == ref.col_offset, "each tree of a list is processed")
    for node, d in want:
        have = {a: node.__dict__[a] for a in ("lineno", "col_offset", "end_lineno", "end_col_offset") if a in node.__dict__}
        if d is None:
            S.check(not have, "no position on nodes that do not carry one")
            continue
        S.check(have.keys() == d.keys(), f"attributes of {type(node).__name__}: {sorted(have)}, expected {sorted(d)}")
        for a in d:
            S.check(have[a] == d[a] if have[a] is not None and d[a] is not None else have[a] is d[a], f"{a} of {type(node).__name__} in mode {mode}")
    S.same(tree, saved, "nothing but positions changes")
    S.reach(mode)


GLEAF = G.grammar(expr=[G.shapes("expr", ["v0", "f(v1)"])], stmt=[G.shapes("stmt", ["v0", "v0 = v1", "if v0: v1"])])

HARNESSES = [
    H("counts", h_fix, "fix_locations on any number of items in each list", dict(gram=None, sort="stmt"), dict(gram=None, sort="stmt", most=2), reach={"reference", "update", "overwrite"}),
    H("expr", h_fix, "fix_locations on every expression form", dict(gram=G1, sort="expr"), dict(gram=G2, sort="expr"),
      reach={"reference", "update", "overwrite", "noop"}),
    H("stmt", h_fix, "fix_locations on every statement form", dict(gram=G1, sort="stmt"), dict(gram=G2, sort="stmt"),
      reach={"reference", "update", "overwrite", "noop"}),
]
