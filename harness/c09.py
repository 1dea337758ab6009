"""C09: recognition of macro invocations."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone
from .exp import Model, Recorder, SyntaxWrong, compare_logs, lclone, undone, same_code, DECLS

FORMS = ["m", "w", "m[E0]", "w[E0]", "m[v0][E0]", "m[E0][v1]", "m[v0, E0][v1]", "m[v0, m, v1][v2]", "m[m][E0]", "w[v0][E0]", "m[E0:v1]", "m[v0, E0]",
         "m(E0)[v1]", "m(v0, E0)[v1]", "m(k=E0)[v1]", "m(v0, k=E0)[v1]", "m(*E0)[v1]", "m()[E0]", "m(**E0)[v1]",
         "m.a[E0]", "m.a", "E0.m", "m(E0)", "f(m=E0)", "m[E0].a", "m[E0](v1)", "m[E0][v1][v2]", "v0[m[E0]]", "v0[E0]", "E0[v1]", "f(E0)", "(m)[(E0, m)]",
         "x[v0][E0]", "lambda m: E0", "lambda m=E0: m", "(m := E0)", "m[(yield E0)]"]
WITHS = ["with m: S0", "with m as v0: S0", "with m as (v0, m): S0", "with m[E0]: S0", "with m[v0, E0] as v1: S0", "with m(E0): S0", "with m(k=E0): S0",
         "with m(*E0): S0", "with m(): S0", "with m, v0: S0", "with v0, m: S0", "with v0, m, w: S0", "with m, w as v1: S0", "with w, m[E0]: S0", "with w as m, m[v0]: S0",
         "with m.a: S0", "with E0: S0", "with v0 as E0: S0"[:0] or "with E0 as m: S0", "with m[v0][E0]: S0", "with m[v0](E0): S0", "with f(E0): S0", "with v0(m), w: S0",
         "async with m: S0", "async with m[E0] as v0: S0"]
DECOS = ["@m\ndef f(): S0", "@m\nclass C: S0", "@m\nasync def f(): S0", "@m[E0]\ndef f(): pass", "@m[v0, E0]\nclass C: pass", "@m(E0)\ndef f(): pass",
         "@m(k=E0)\ndef f(): pass", "@m(*E0)\nclass C: pass", "@m()\ndef f(): pass", "@m\n@w\ndef f(): S0", "@w\n@v0\n@m\nclass C: S0", "@v0\n@m\n@v1\ndef f(m=E0, *v2): S0",
         "@m[v0][E0]\ndef f(): pass", "@m.a\ndef f(): pass", "@v0(E0)\ndef f(): pass", "@E0\nclass C(E1): S0", "@w\n@m[E0]\nasync def f() -> m: S0", "@m[v0]\n@w(E0)\nclass C(m): S0"]
MORE = ["m", "m[E0]", "E0", "T0 = v1", "del D0", "m = E0", "m += E0", "m: E0", "for m in E0: S0", "import m", "from m import w", "global m", "def m(w): S0", "class m: S0",
        "match v0:\n case m.a: S0", "match v0:\n case m: S0", "match m:\n case P0 if E0: S0", "match v0:\n case C(m=v1): S0",
        "try: S0\nexcept m[E0] as m: S1", "if m: S0\nelse: S1", "f'{E0}{m!r:>{w}}'", "v0 = [m for m in E0 if m]", "def f(a: E0 = m) -> m: S0", "return E0", "S0"[:0] or "async def f(): S0",
        "while E0: S0", "type v0[T: m] = E0"]
if not hasattr(ast, "TypeAlias"):
    MORE.pop()
SX = G.shapes("stmt", ["m", "with m: v0", "@m\ndef f(): pass", "v0"])
TGT = G.shapes("target", ["v0", "m", "m[E0]", "m[v0][E0]", "(T0, m)", "[*T0, v1]", "m.a", "x[E0]"])
TLEAF = G.shapes("target", ["v0", "m"])
DEL = G.shapes("del", ["v0", "m", "m[E0]", "(D0, m)", "m[v0].a"])
DLEAF = G.shapes("del", ["v0", "m"])
PAT = G.shapes("pattern", ["v0", "m", "m.a", "m(v0)", "{m.k: P0}", "[P0, m]", "m.C(m=v0)"])
PLEAF = G.shapes("pattern", ["v0", "m.a"])
F = G.shapes("expr", FORMS)
LEAF = G.shapes("expr", ["v0", "m", "m[v0]", "w[m]"])
OTHER = dict(target=[TGT, TGT, TLEAF], dele=[DEL, DEL, DLEAF], pattern=[PAT, PAT, PLEAF])
STMTS = G.shapes("stmt", WITHS + DECOS + MORE)

G_EXPR = G.grammar(expr=[F, F, LEAF], stmt=[G.STMT_ONE], focus=True, **OTHER)
G_EXPR3 = G.grammar(expr=[F, F, F, LEAF], stmt=[G.STMT_ONE], focus=True, **OTHER)
G_POS = G.grammar(expr=[G.EXPR_ALL, LEAF], stmt=[G.STMT_ONE], focus=True, **OTHER)
G_STMT = G.grammar(expr=[F, LEAF], stmt=[STMTS, SX, G.STMT_ONE], focus=True, **OTHER)
G_STMT2 = G.grammar(expr=[F, F, LEAF], stmt=[STMTS, STMTS, SX, G.STMT_ONE], focus=True, **OTHER)
G_SPOS = G.grammar(expr=[LEAF], stmt=[G.STMT_ALL, SX, G.STMT_ONE], target=[TGT, TLEAF], dele=[DEL, DLEAF], pattern=[PAT, PLEAF])
G_SPOS2 = G.grammar(expr=[F, LEAF], stmt=[G.STMT_ALL, SX, G.STMT_ONE], focus=True, target=[TGT, TLEAF], dele=[DEL, DLEAF], pattern=[PAT, PLEAF])

BOUNDS = {"quick": f"a name m with each of the 5 possible declarations (unbound, plain, parametric, identifier, both) and a name w (unbound, or accepting everything), bound locally or globally; {len(FORMS)} expression forms using them, nested in each other (2 levels), and in every expression form of Python (1 level below); {len(WITHS)} with forms, {len(DECOS)} decorator forms, {len(MORE)} other statements, and every statement form of Python, over these expressions; macros that bind and unbind another one, between two of its uses",
          "thorough": "as quick, one level deeper"}
OUTSIDE = "deeper nesting; `m[()][...]` (an empty tuple as macro arguments); async with (not a documented macro syntax: taken as ordinary code)"
ASSUMPTIONS = ["macros replace the invocation by a fresh name (what macros return is C10's subject)", "contexts are C14's subject", "the source text shown in error reports is C13's subject"]


def result(syntax, n):
    return ast.Name(id=f"R{n}") if syntax in ("expr", "name") else ast.Expr(value=ast.Name(id=f"R{n}"))


def h_recognize(S, sort, gram, wide=True):
    tree = S.tree("t", sort, gram)
    decls = {"m": S.pick("m", DECLS), "w": S.pick("w", ["none", "both"])}
    where = {"m": S.pick("where", ["local", "global"]) if wide and decls["m"] != "none" else "local"}
    S.note(lambda: (decls, where, show(nodes.force(lclone(tree)))))
    want_log, n = [], [0]
    def apply(model, inv):
        want_log.append(inv.snapshot())
        n[0] += 1
        return result(inv.syntax, n[0])
    model = Model(decls, apply)
    rec = Recorder(S, lambda name, tree, kw: result(kw["syntax"], len(rec.log)))
    exp = rec.make(decls, where=where)
    mine = lclone(tree)
    try:
        want = model.visit([mine])
    except SyntaxWrong:
        want = None
    body = [tree]
    if want is None:
        S.raises((SyntaxError, S.m.core.MacroExpansionError), lambda: exp.visit(body), "malformed macro arguments")
        S.reach("malformed")
        return
    r = exp.visit(body)
    r = S.m.core.global_postprocess(r)
    S.check(not rec.bad, lambda: rec.bad)
    compare_logs(S, rec.log, want_log)
    same_code(S, r, undone(want), "expanded code", False)
    for ev in want_log:
        S.reach(ev[0])
        if ev[2]:
            S.reach(ev[0] + " with arguments")
    if not want_log:
        S.reach("no macros")
    S.check(S.m.expander.MacroExpander.isbound(exp, "x") is False, "isbound of an unbound name")
    for k, d in decls.items():
        f = exp.isbound(k)
        S.check(bool(f) == (d != "none"), lambda: f"isbound({k})")
        if f:
            S.check(S.m.expander.isparametricmacro(f) == (d in ("parametric", "both")), "isparametricmacro")
            S.check(S.m.expander.isnamemacro(f) == (d in ("name", "both")), "isnamemacro")


ACTS = ["bind", "bind other", "unbind", "gbind", "gunbind", None]
USES = {"expr": "m[x]", "name": "m", "block": "with m:\n x", "decorator": "@m\ndef f(): pass", "arg": "m[y][x]"}


def h_dynamic(S, n):
    """Macros that change the bindings: what is bound when the expander arrives at an invocation counts."""
    X, C = S.m.expander, S.m.core
    local, glob = {}, {}
    mk = lambda k: X.namemacro(X.parametricmacro(lambda tree, *, syntax, **kw: result(syntax, k)))
    macros = [mk(1), mk(2)]
    exp = X.MacroExpander({}, "<test>")
    name = "m"
    def act(a):
        def f(tree, *, expander, syntax, **kw):
            S.check(expander is exp, "another expander")
            change(a, expander.bindings, C.global_bindings)
            return result(syntax, a)
        return f
    def change(a, loc, glo):
        if a == "bind":
            loc[name] = macros[0]
        elif a == "bind other":
            loc[name] = macros[1]
        elif a == "unbind":
            (getattr(loc, "maps", None) or [loc])[0].pop(name, None)
        elif a == "gbind":
            glo[name] = macros[1]
        elif a == "gunbind":
            glo.pop(name, None)
    for i, a in enumerate(ACTS):
        if a:
            exp.bindings[f"a{i}"] = act(a)
    first = S.pick("first", ACTS[:1] + ACTS[3:])
    change(first, exp.bindings, C.global_bindings)
    change(first, local, glob)
    src, want = [], []
    use = S.pick("use", list(USES))
    where = S.pick("where", ["suite", "nested"] + (["tuple"] if use in ("expr", "name", "arg") else []))
    for i in range(n):
        a = S.pick(f"act{i}", ACTS)
        if a:
            src.append(f"a{ACTS.index(a)}[x]")
            want.append(("done", a))
            change(a, local, glob)
        src.append(USES[use])
        want.append(local.get(name) or glob.get(name))
    if where == "tuple":
        text = "(" + ", ".join(src) + ")"
    elif where == "suite":
        text = "\n".join(src)
    else:
        text = "if c:\n" + "\n".join(" " + l for t in src for l in t.split("\n"))
    S.note(lambda: (first, text))
    def items(tree):
        return tree[0].value.elts if where == "tuple" else tree if where == "suite" else tree[0].body
    try:
        r = exp.visit(ast.parse(text).body)
        got = [g for g in items(r) if not isinstance(g.body if isinstance(g, C.Done) else g, ast.Assign)]      # (an assignment marks a deleted line as covered)
        plain = ast.parse(USES[use]).body[0]
        S.check(len(got) == len(want), lambda: f'{show(r)}: {[ast.dump(g) for g in got]}')
        for g, w in zip(got, want):
            if isinstance(g, C.Done):
                g = g.body
            expr = g.value if isinstance(g, ast.Expr) and where != "tuple" else g
            if isinstance(expr, C.Done):
                expr = expr.body
            k = w[1] if type(w) is tuple else 1 if w is macros[0] else 2 if w is macros[1] else None
            if k is not None:
                S.check(isinstance(expr, ast.Name) and expr.id == f"R{k}", lambda: f"{show(g)}, expected R{k} in {show(r)}")
            else:
                S.same(expr if isinstance(plain, ast.Expr) else g, plain.value if isinstance(plain, ast.Expr) else plain, "an invocation of an unbound name")
        S.reach("done")
    finally:
        C.global_bindings.pop(name, None)


ALLSYN = {"expr", "name", "expr with arguments", "no macros"}
HARNESSES = [
    H("expr", h_recognize, "expression forms, nested", dict(sort="expr", gram=G_EXPR), dict(sort="expr", gram=G_EXPR3), reach=ALLSYN | {"malformed"}),
    H("position", h_recognize, "below every expression form", dict(sort="expr", gram=G_POS, wide=False), reach={"expr", "name"}),
    H("stmt", h_recognize, "with, decorator and other statement forms", dict(sort="stmt", gram=G_STMT, wide=False), dict(sort="stmt", gram=G_STMT2),
      reach=ALLSYN | {"malformed", "block", "decorator", "block with arguments", "decorator with arguments"}),
    H("dynamic", h_dynamic, "bindings that change during the expansion", dict(n=2), dict(n=3), reach={"done"}),
    H("stmtpos", h_recognize, "below every statement form", dict(sort="stmt", gram=G_SPOS, wide=False), dict(sort="stmt", gram=G_SPOS2), reach={"expr", "name", "block", "decorator"}),
]
