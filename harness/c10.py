"""C10: order of application, arguments, and what replaces an invocation."""
import ast
import copy
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, fields
from .exp import Model, Recorder, compare_logs, lclone, undone, same_code, COVER, LOCS

EF = ["m", "w", "m[E0]", "w[E0]", "m[v0, E0][E1]", "w[v0][E0]", "(E0, m[E1])", "f(E0, w[v1], k=E1)", "v0", "x[E0]", "m[E0].a", "{v0: E0, E1: m}", "E0 if m[v1] else E1", "[E0, m, E1]"]
SF = ["with m: S0", "with m as v0: S0", "with m, w: S0", "with w, v0 as v1, m as v2:\n S0\n S1", "with v0, m[v1]: S0", "with m[v0, E0], w, w[v1] as (v2, v3): S0",
      "@m\ndef f(): S0", "@m\n@w\nclass C: S0", "@w[E0]\n@v0\n@m\ndef f(v1=E1): S0", "@m\n@w\n@m[v0]\nasync def f(): S0",
      "E0", "v0 = E0", "if E0:\n S0\nelse:\n S1", "with v0: S0", "for v0 in E0:\n S0\n S1"]
SI = G.shapes("stmt", ["with m: S0", "with w as v0: S0", "with m, v0, w: S0", "@m\ndef f(): S0", "@w\n@m\nclass C: S0", "E0", "if v0: S0"])
SX = G.shapes("stmt", ["m[v0]", "with w: v0", "v0"])
S1 = G.shapes("stmt", ["v0"])
E_ALL = G.shapes("expr", EF)
E_LEAF = G.shapes("expr", ["v0", "m", "w[v0]"])
E_LEAF2 = G.shapes("expr", ["v0", "w[m]"])
E_MID = G.shapes("expr", ["v0", "m", "m[E0]", "(E0, w[v1])", "w[v0][E0]"])
GE = G.grammar(expr=[E_ALL, E_MID, E_LEAF2], stmt=[S1], focus=True)
GET = G.grammar(expr=[E_ALL, E_ALL, E_LEAF2], stmt=[S1])
GS = G.grammar(expr=[E_LEAF2], stmt=[G.shapes("stmt", SF), SX, S1])
GS2 = G.grammar(expr=[G.EXPR_ONE], stmt=[G.shapes("stmt", SF[:10]), G.shapes("stmt", ["with m: S0", "with m, v0, w: S0", "@w\n@m\nclass C: S0"]), G.shapes("stmt", ["with w: v0", "v0"]), S1], focus=True)
GST = G.grammar(expr=[E_LEAF], stmt=[G.shapes("stmt", SF), SI, SX, S1])
EXPR_B = ["keep", "none", "pair", "other", "inside"]
STMT_B = ["keep", "none", "pair", "other", "inside", "tuple", "single", "empty"]
BOUNDS = {"quick": f"two macros m (plain parametric, or also an identifier macro) and w (both), each behaving in one of {len(STMT_B)} ways per syntax (return the code as is, nothing, an empty list, several nodes as a list or a tuple, in which one is there twice, the single node, an invocation of the other macro, or expand the code inside first); {len(EF)} expression forms nested 2 levels over representative ones, {len(SF)} statement forms over representative statements (2 levels in one place)",
          "thorough": "as quick, one level deeper"}
OUTSIDE = "deeper nesting; other things macros may do to the code"
ASSUMPTIONS = ["siblings are ordered as the fields of the AST; for statements, arguments and elements this is the source order"]


def locator():
    ids = {}
    def locate(desc, i, node):
        if isinstance(node, (ast.expr, ast.stmt)) or "lineno" in getattr(type(node), "_attributes", ()):
            k = ids.setdefault((desc.name, i), len(ids) + 1)
            node.__dict__.update(lineno=k, end_lineno=k, col_offset=k % 7, end_col_offset=k % 7 + 1)
    return locate

def fill(t, ref):
    """Nodes without a location get that of `ref`."""
    if isinstance(t, list):
        for x in t:
            fill(x, ref)
    elif isinstance(t, ast.AST) and not nodes.is_lazy(t):
        if "lineno" in getattr(type(t), "_attributes", ()) and "lineno" not in t.__dict__:
            for a in LOCS:
                t.__dict__[a] = ref.__dict__[a]
        for f, v in list(fields(t)):
            if isinstance(v, (list, ast.AST)):
                fill(v, ref)
    return t


class Located(Model):
    def run(self, inv):
        r = self.apply(self, inv)
        return None if r is None else fill(r, inv.whole)
    def empty(self, inv):
        t = ast.parse("(lambda: None)()", mode="eval").body
        for n in ast.walk(t):
            for a in LOCS + ("end_lineno", "end_col_offset"):
                n.__dict__.pop(a, None)
        return self.done(fill(t, inv.node))
    def covered(self, inv, r):
        c = COVER()
        for a in LOCS:
            c.__dict__[a] = inv.node.__dict__[a]
        r = [] if r is None else r if isinstance(r, list) else [r]
        return [self.done(c)] + r


def name(x):
    return ast.Name(id=x)


def behave(b, other, syntax, tree, visit):
    """What a macro behaving as `b` returns."""
    if syntax == "name":
        return {"keep": tree, "none": None, "pair": ast.Tuple(elts=[name("k1"), name("k2")]), "inside": tree, "other": ast.Subscript(value=name(other), slice=name("k3")) if other else tree}.get(b, tree)
    if b == "none":
        return None
    if b == "inside":
        return visit(tree)
    if syntax == "expr":
        if b == "pair":
            return ast.Tuple(elts=[tree, name("k")])
        if b == "other":
            return ast.Subscript(value=name(other), slice=tree) if other else tree
        return tree
    if b == "empty":
        return []
    lst = list(tree) if isinstance(tree, list) else [tree]
    if b == "pair":
        return lst + [ast.Expr(value=name("k"))]
    if b == "tuple":
        twice = ast.Pass()
        return (twice, *lst, twice)
    if b == "single":
        return ast.Expr(value=name("k"))
    if b == "other" and other:
        if syntax == "block":
            return ast.With(items=[ast.withitem(context_expr=name(other), optional_vars=None)], body=lst)
        tree.decorator_list.insert(0, name(other))
        return tree
    return tree


def h_apply(S, sort, gram, mdecl=("parametric", "both")):
    tree = S.tree("t", sort, gram, locate=locator())
    decls = {"m": S.pick("m", list(mdecl)), "w": "both"}
    chosen = {}
    def choice(nm, syntax):
        k = (nm, syntax)
        if k not in chosen:
            chosen[k] = S.pick(f"{nm}/{syntax}", EXPR_B if syntax in ("expr", "name") else STMT_B)
        return chosen[k]
    S.note(lambda: (decls, chosen, show(nodes.force(lclone(tree)))))
    want_log = []
    def apply(model, inv):
        want_log.append(inv.snapshot())
        r = behave(choice(inv.name, inv.syntax), "w" if inv.name == "m" else None, inv.syntax, inv.tree, model.visit)
        return list(r) if isinstance(r, tuple) else r
    model = Located(decls, apply)
    rec = Recorder(S, lambda nm, t, kw: behave(choice(nm, kw["syntax"]), "w" if nm == "m" else None, kw["syntax"], t, kw["expander"].visit))
    exp = rec.make(decls)
    want = model.visit([lclone(tree) if sort == "stmt" else ast.copy_location(ast.Expr(value=lclone(tree)), tree)])
    r = exp.visit([tree if sort == "stmt" else ast.copy_location(ast.Expr(value=tree), tree)])
    S.check(not rec.bad, lambda: rec.bad)
    r = S.m.core.global_postprocess(r)
    compare_logs(S, rec.log, want_log)
    same_code(S, r, undone(want), "expansion")
    for ev in want_log:
        S.reach(f"{ev[0]} {choice(ev[1], ev[0])}")
    if len(want_log) > 1:
        S.reach("several")
    if not S.symbolic or sum(map(len, chosen)) % 1 == 0:
        nodes.force(r)
        code = ast.Module(body=r, type_ignores=[])
        try:
            compile(code, "expanded", "exec")
        except SyntaxError:
            S.check(False, "the result does not compile")
        except (TypeError, ValueError) as e:
            S.check(False, lambda: f"the result is not a valid tree: {e}")


HARNESSES = [
    H("expr", h_apply, "nested expression and identifier macros", dict(sort="expr", gram=GE), dict(sort="expr", gram=GET), reach={"several"} | {f"expr {b}" for b in EXPR_B} | {f"name {b}" for b in EXPR_B}),
    H("stmt", h_apply, "block and decorator macros", dict(sort="stmt", gram=GS, mdecl=("parametric",)), dict(sort="stmt", gram=GST), reach={"several", "coverage"} | {f"{s} {b}" for b in STMT_B for s in ("block", "decorator")}),
    H("nested", h_apply, "block and decorator macros, nested", dict(sort="stmt", gram=GS2, mdecl=("parametric",)), dict(sort="stmt", gram=GS2), reach={"several", "coverage"} | {f"{s} {b}" for b in STMT_B for s in ("block", "decorator")}),
]
