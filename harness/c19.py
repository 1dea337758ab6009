"""C19: splice_dialect."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import preorder, show, clone, positions

TAG = "__paste_here__"
SHAPES = ["' doc\\n '", "''", "from __future__ import annotations", "from __future__ import division, generators", "__all__ = ['a']", "__all__ = v0 = ['b']", "__all__ += ['c']",
          "from m import macros, x", "from m import dialects, D", "from m import x, macros", "from m import macros as k", "v0 = 1", "E0", "1",
          "if v0:\n from m import macros, y\n v1", "if v0:\n __all__ = ['d']", "def f():\n 'doc'\n v0"]
TSHAPES = ["'\\n tdoc '", "from __future__ import generator_stop", "__all__ = ['t']", "from tm import macros, x", "from tm import dialects, D", "v0 = 1", "E0", TAG,
           f"with v0:\n {TAG}", f"if v0:\n from tm import macros, y\n {TAG}\nelse: v1"]
GB = G.grammar(stmt=[G.shapes("stmt", SHAPES)], expr=[G.EXPR_STRUCT, G.EXPR_ONE])
GTPL = G.grammar(stmt=[G.shapes("stmt", TSHAPES)], expr=[G.EXPR_STRUCT, G.EXPR_ONE])
GFEW = G.grammar(stmt=[G.shapes("stmt", ["'doc'", "from __future__ import annotations", "__all__ = ['a']", "from m import macros, x", "from m import dialects, D", "v0 = 1"])])
GTFEW = G.grammar(stmt=[G.shapes("stmt", ["'tdoc'", "from __future__ import generator_stop", "__all__ = ['t']", "from tm import macros, x", "from tm import dialects, D", TAG, f"with v0:\n {TAG}"])])
BOUNDS = {"quick": "user modules of 1-3 statements against a template of 1-2, and 1-2 against 1-3; each statement any of 17 (user) / 10 (template) forms; the position given or not, any integers",
          "thorough": "user modules of 1-4 and templates of 1-3 statements of 6-7 forms, besides the quick ones"}
OUTSIDE = "longer modules"
ASSUMPTIONS = ["the user module has at least one statement besides docstring, future-imports, __all__, macro- and dialect-imports (after dialect expansion it always has the plain import replacing the dialect-import)",
               "the template has a paste-here indicator", "a macro-import inside a compound statement is not its only statement"]


def doc_of(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[0]
    return None

def is_magic(s, name):
    return isinstance(s, ast.ImportFrom) and s.names[0].name == name and s.names[0].asname is None

def is_all(s):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__all__"

def split(body):
    """Oracle: (doc, futures, all, dialects, macros, rest), macro-imports also from inside compound statements."""
    doc = doc_of(body)
    rest = body[1:] if doc is not None else list(body)
    fut = []
    while rest and isinstance(rest[0], ast.ImportFrom) and rest[0].module == "__future__":
        fut.append(rest.pop(0))
    alls = [s for s in rest if is_all(s)]
    rest = [s for s in rest if not is_all(s)]
    found = {"dialects": [], "macros": []}
    def strip(ss):
        out = []
        for s in ss:
            k = "dialects" if is_magic(s, "dialects") else "macros" if is_magic(s, "macros") else None
            if k:
                found[k].append(s)
                continue
            if isinstance(s, (ast.If, ast.With)):
                s.body = strip(s.body)
                if isinstance(s, ast.If):
                    s.orelse = strip(s.orelse)
            out.append(s)
        return out
    return doc, fut, alls, found, strip(rest)


def compiles(body):
    try:
        compile(ast.fix_missing_locations(ast.Module(body=clone(body), type_ignores=[])), "<m>", "exec", dont_inherit=True)
    except SyntaxError:
        return False
    return True


def h_dialect(S, gb, gt, pairs):
    sp = S.m.splicing
    nb, nt = S.pick("n", pairs)
    body = [S.stmt(f"b{i}", gb) for i in range(nb)]
    tmpl = [S.stmt(f"t{i}", gt) for i in range(nt)]
    for i, s in enumerate(body):
        s.lineno = s.end_lineno = 10 * (i + 1)
        s.col_offset = s.end_col_offset = i
    pos = S.pick("pos", ["given", "none"])
    line, col = (S.int("line", 0, 10**6), S.int("col", 0, 10**6)) if pos == "given" else (None, None)
    if nb == nt == 1:
        single = S.pick("single", [0, 1, 2])
    else:
        single = 0
    nodes.force(body)
    nodes.force(tmpl)
    # preconditions, on independent copies
    bdoc, bfut, ball, bfound, brest = split(clone(body))
    S.assume(len(brest) > 0)
    tnodes = [n for n in preorder(tmpl) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Name) and n.value.id == TAG]
    S.assume(len(tnodes) > 0)
    S.note(lambda: (show(body), "---", show(tmpl), pos))
    ok = pos == "none" and compiles(body) and compiles(tmpl)
    # expectation, from copies
    tdoc, tfut, tall, tfound, trest = split(clone(tmpl))
    r = sp.splice_dialect(body[0] if single == 1 else body, tmpl[0] if single == 2 else tmpl, TAG, line, col) if pos == "given" else \
        sp.splice_dialect(body[0] if single == 1 else body, tmpl[0] if single == 2 else tmpl)
    want = []
    bloc = (10, 0)
    if bdoc is not None and tdoc is not None:
        want.append(("user", ast.Expr(value=ast.Constant(value=bdoc.value.value + "\n" + "-" * 79 + "\n" + tdoc.value.value))))
        S.reach("both docs")
    elif bdoc is not None:
        want.append(("user", bdoc))
    elif tdoc is not None:
        want.append(("template", tdoc))
    for src, ss in (("template", tfut), ("user", bfut), ("user", ball), ("template", tfound["dialects"]), ("user", bfound["dialects"]),
                    ("template", tfound["macros"]), ("user", bfound["macros"])):
        want += [(src, s) for s in ss]
        if ss:
            S.reach(f"{src} {ss[0].names[0].name if isinstance(ss[0], ast.ImportFrom) else 'all'}")
    def paste(ss):
        out = []
        for s in ss:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Name) and s.value.id == TAG:
                out += [("user", x) for x in clone(brest)]
                continue
            if isinstance(s, (ast.If, ast.With)):
                s = clone(s)
                inner = paste(s.body)
                s.body = [x for _, x in inner]
                s.__dict__["_src"] = {id(x): k for k, x in inner}
                if isinstance(s, ast.If):
                    s.orelse = [x for _, x in paste(s.orelse)]
            out.append(("template", s))
        return out
    want += paste(trest)
    S.check(isinstance(r, list) and len(r) == len(want), lambda: f"{len(r)} statements, expected {len(want)}: {show(r)}")
    lt = (line, col) if pos == "given" else bloc
    for got, (src, w) in zip(r, want):
        S.same(got, w, "statements in canonical order")
        locs(S, got, w, src, lt)
    S.reach(pos)
    # the result compiles
    if pos == "none" and ok:
        S.reach("compiles")
        m = ast.Module(body=r, type_ignores=[])
        ast.fix_missing_locations(m)
        try:
            compile(m, "<m>", "exec", dont_inherit=True)
        except SyntaxError as e:
            S.fail(f"result does not compile: {e}")


def locs(S, got, want, src, lt):
    """Template code is at the given position; user code keeps its own."""
    if src == "template":
        S.check(got.lineno == lt[0], "line of template code")
        S.check(got.col_offset == lt[1], "column of template code")
        inner = want.__dict__.get("_src")
        if inner is None:
            for n in preorder(got):
                if "lineno" in n._attributes:
                    S.check(n.lineno == lt[0], "line of template code")
        else:
            for g, w in zip(got.body, want.body):
                locs(S, g, w, inner[id(w)], lt)
    elif "lineno" in want.__dict__:
        S.check(got.lineno == want.lineno, "user code keeps its line")


HARNESSES = [
    H("forms", h_dialect, "all forms, small modules", dict(gb=GB, gt=GTPL, pairs=[(1, 1), (2, 1), (1, 2), (2, 2)]), dict(gb=GB, gt=GTPL, pairs=[(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]),
      reach={"given", "none", "compiles"}),
    H("order", h_dialect, "the forms that are moved, larger modules", dict(gb=GFEW, gt=GTFEW, pairs=[(3, 2), (2, 3)]), dict(gb=GFEW, gt=GTFEW, pairs=[(3, 3), (4, 2), (4, 3)]),
      reach={"both docs", "given", "none", "template annotations"[:0] or "user annotations", "user all", "template macros", "user macros", "template dialects", "user dialects", "template generator_stop"}),
]
