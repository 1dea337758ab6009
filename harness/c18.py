"""C18: splice_expression, splice_statements."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import preorder, show, clone, rebuild

TAG = "__paste_here__"
PX = G.shapes("expr", ["v0", TAG, f"{TAG} + {TAG}", f"f({TAG}, E0)", "v0 + E0", f"{TAG}.{TAG}", f"v0.{TAG}", f"'{TAG}'", "other_tag", f"f({TAG}=v0)", f"lambda {TAG}: {TAG}"])
PL = G.shapes("expr", ["v0", TAG, "other_tag"])
PS = G.shapes("stmt", [TAG, f"{TAG} = v0", f"v0 = {TAG}", "v0", "pass", "other_tag", f"if v0:\n {TAG}\n v1", f"def {TAG}(): {TAG}", f"global {TAG}", f"return {TAG}"])
PLS = G.shapes("stmt", [TAG, "v0", "other_tag"])
SOME = ["E0", "v0 = E0", "if v0:\n S0\nelse:\n S1", "with E0: S0", "def f(v0=E0): S0", "try: S0\nfinally: S1", "class C(E0): S0", "for T0 in v1: S0",
        "match v0:\n case P0: S0", "while v0:\n pass\nelse:\n S0", "try:\n pass\nexcept v0: S0", "async def f(): S0", "pass"]
GT = G.grammar(expr=[G.EXPR_STRUCT + PX, PX, PL], stmt=[G.STMT_ALL + PS, PS, PLS], target=[G.TARGET_ALL, G.TARGET_LEAF],
               dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
GTT = G.grammar(expr=[G.EXPR_STRUCT + PX, G.EXPR_SHORT + PX, PX, PL], stmt=[G.STMT_ALL + PS, G.shapes("stmt", SOME) + PS, PS, PLS], target=[G.TARGET_ALL, G.TARGET_LEAF],
                dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
GBODY = G.grammar(expr=[G.shapes("expr", ["v0", TAG, "f(v0, [v1])"])], stmt=[G.shapes("stmt", ["v0", TAG, "def f(): v0"])])
BOUNDS = {"quick": "templates of two nested levels: every statement and expression form over nested forms with 0 to several indicators and lookalikes; as a node or a list; the spliced expression (name, the indicator itself, or a nested expression; symbolic until looked at), a marker, or a list of 1-2 statements; default and custom tag; invalid arguments of each kind",
          "thorough": "templates of three nested levels"}
OUTSIDE = "deeper templates"
ASSUMPTIONS = []


def shared_nodes(a, seen):
    for n in preorder(a):
        if isinstance(n, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
            continue
        if id(n) in seen:
            return n
        seen.add(id(n))
    return None


def find_spliced(result, want, first, out):
    """Walk result and expectation together, collecting what stands where the expectation has a hole."""
    if isinstance(want, list):
        for a, b in zip(result, want):
            find_spliced(a, b, first, out)
    elif isinstance(want, ast.AST):
        if type(want) is ast.Name and want.id.startswith("<hole"):
            out.append(result)
            return
        for f in want._fields:
            w = want.__dict__.get(f)
            if isinstance(w, (list, ast.AST)):
                find_spliced(result.__dict__.get(f), w, first, out)


def h_expr(S, gram, sort):
    sp = S.m.splicing
    tag = S.pick("tag", [TAG, "other_tag"]) if sort == "expr" else TAG
    tree = S.tree("t", sort, gram)
    expr = S.expr("e", GBODY)
    marker = S.pick("marker", [False, True]) if tag == TAG and sort == "expr" else False
    given = S.m.markers.ASTMarker(expr) if marker else expr
    nodes.force(tree)
    aslist = S.pick("root", [False, True])
    template = [tree, clone(tree)] if aslist else tree
    if aslist and sort == "stmt":
        template = [tree, ast.Expr(value=ast.Name(id=tag, ctx=ast.Load()))]
    is_tag = lambda n: type(n) is ast.Name and n.id == tag
    n = len([x for x in preorder(template) if is_tag(x)])
    want = rebuild(template, lambda x: ("is", ast.Name(id="<hole>")) if is_tag(x) else None)
    S.note(lambda: (show(tree), show(expr), tag, marker, aslist))
    r = sp.splice_expression(given, template) if tag == TAG else sp.splice_expression(given, template, tag)
    if not (is_tag(tree) and not aslist):
        S.check(r is template, "splices in place")
    holes = []
    find_spliced(r, want, None, holes)
    S.check(len(holes) == n, "every indicator is replaced")
    full = iter(list(holes))
    want = rebuild(want, lambda x: ("is", next(full)) if type(x) is ast.Name and x.id == "<hole>" else None)
    S.same(r, want, "everything else is unchanged")
    for i, h in enumerate(holes):
        if i == 0:
            S.check(h is given, "the first indicator is replaced by the expression itself")
            S.reach("one")
        else:
            S.check(h is not given, "further ones by copies")
            S.same(h, given, "copies are equal")
            S.reach("many")
    if len(holes) > 1:
        seen = set()
        for h in holes:
            nodes.force(h)
            S.check(shared_nodes(h, seen) is None, "copies are independent of each other")
    if n == 0:
        S.reach("zero")


def h_stmts(S, gram):
    sp = S.m.splicing
    tag = S.pick("tag", [TAG, "other_tag"])
    tree = S.tree("t", "stmt", gram)
    nodes.force(tree)
    nbody = S.pick("nbody", ["node", 1, 2])
    body = [S.stmt(f"b{i}", GBODY) for i in range(1 if nbody == "node" else nbody)]
    form = S.pick("root", ["node", "list", "list+"])
    template = tree if form == "node" else [tree] if form == "list" else [tree, ast.Expr(value=ast.Name(id=tag, ctx=ast.Load())), ast.Pass()]
    is_tag = lambda n: isinstance(n, ast.Expr) and isinstance(n.value, ast.Name) and n.value.id == tag
    parts = template if isinstance(template, list) else [template]
    count = [0]
    made = []
    def repl(x):
        if is_tag(x):
            count[0] += 1
            hs = [ast.Name(id=f"<hole{count[0]}.{i}>") for i in range(len(body))]
            made.append(hs)
            return ("is", hs)
    want = rebuild(parts, repl)
    orig = list(body)
    S.note(lambda: (show(template), show(body), tag))
    arg = body[0] if nbody == "node" else body
    r = sp.splice_statements(arg, template) if tag == TAG else sp.splice_statements(arg, template, tag)
    S.check(isinstance(r, list), "returns a list of statements")
    if form != "node":
        S.check(r is template, "splices in place")
    holes = []
    find_spliced(r, want, None, holes)
    S.check(len(holes) == count[0] * len(orig), "every indicator is replaced")
    full = iter(list(holes))
    want = rebuild(want, lambda x: ("is", next(full)) if type(x) is ast.Name and x.id.startswith("<hole") else None)
    S.same(r, want, "everything else is unchanged")
    for i, h in enumerate(holes):
        o = orig[i % len(orig)]
        if i < len(orig):
            S.check(h is o, "the first indicator is replaced by the statements themselves, in order")
            S.reach("one")
        else:
            S.check(h is not o, "further ones by copies")
            S.same(h, o, "copies are equal, in order")
            S.reach("many")
    if len(holes) > 1:
        seen = set()
        for h in holes:
            nodes.force(h)
            S.check(shared_nodes(h, seen) is None, "copies are independent")
    if not holes:
        S.reach("zero")


def h_args(S):
    sp = S.m.splicing
    e = ast.Name(id="e", ctx=ast.Load())
    t = ast.Name(id=TAG, ctx=ast.Load())
    st = ast.Expr(value=ast.Name(id=TAG, ctx=ast.Load()))
    M = S.m.markers.ASTMarker
    case = S.pick("case", ["empty", "badexpr", "badtemplate", "emptybody", "emptytemplate"])
    if case == "empty":
        tmpl = S.pick("tmpl", [[], None])
        S.check(sp.splice_expression(e, tmpl) is e, "an empty template gives the expression")
    elif case == "badexpr":
        bad = S.pick("bad", [st, None, "e", 1, [e], M(st), M(None), M([e])])
        S.raises(TypeError, lambda: sp.splice_expression(bad, t), "not an expression")
    elif case == "badtemplate":
        bad = S.pick("bad", ["t", 1, (t,), {"t": t}])
        S.raises(TypeError, lambda: sp.splice_expression(e, bad), "not a template")
    elif case == "emptybody":
        S.raises(ValueError, lambda: sp.splice_statements(S.pick("body", [[], None]), [st]), "nothing to splice")
    else:
        body = [ast.Pass()]
        r = sp.splice_statements(body, S.pick("tmpl", [[], None]))
        S.check(len(r) == 1 and r[0] is body[0], "an empty template gives the statements")
    S.reach(case)


HARNESSES = [
    H("expr_in_expr", h_expr, "splice_expression into expressions", dict(gram=GT, sort="expr"), dict(gram=GTT, sort="expr"), reach={"one", "many", "zero"}),
    H("expr_in_stmt", h_expr, "splice_expression into statements", dict(gram=GT, sort="stmt"), dict(gram=GTT, sort="stmt"), reach={"one", "many", "zero"}),
    H("stmts", h_stmts, "splice_statements", dict(gram=GT), dict(gram=GTT), reach={"one", "many", "zero"}),
    H("args", h_args, "degenerate and invalid arguments", reach={"empty", "badexpr", "badtemplate", "emptybody", "emptytemplate"}),
]
