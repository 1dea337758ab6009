"""C11: recursion modes."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, fields, preorder, positions
from .exp import Model, Recorder, MDone, compare_logs, lclone, undone, same_code, COVER

EF = ["m[E0]", "w[E0]", "x[E0]", "i", "(m[v0], E0)", "(E0, w[v1], E1)", "f(E0)", "m[v0][E0]", "v0", "i[E0]"]
E_ALL = G.shapes("expr", EF)
E_MID = G.shapes("expr", ["m[E0]", "w[E0]", "x[E0]", "i", "(E0, m[v0])"])
E_LEAF = G.shapes("expr", ["v0", "w[v0]", "i"])
E_LEAF2 = G.shapes("expr", ["w[v0]", "i"])
S1 = G.shapes("stmt", ["v0"])
SLEAF = G.shapes("stmt", ["v0", "with w: v0"])
S_ALL = G.shapes("stmt", ["with m: S0", "with w: S0", "with m, w: S0", "with x as v0, v1, m:\n S0\n S1", "@m\ndef f(): S0", "@w\n@m\nclass C: S0", "E0", "if E0:\n S0\nelse:\n S1", "with m:\n i\n S0"])
S_MID = G.shapes("stmt", ["with m: S0", "with w: S0", "@x\ndef f(): S0", "E0"])
GE = G.grammar(expr=[E_ALL, E_MID, E_LEAF], stmt=[S1], focus=True)
GET = G.grammar(expr=[E_ALL, E_ALL, E_LEAF], stmt=[S1])
GS = G.grammar(expr=[E_LEAF2], stmt=[S_ALL, S_MID, SLEAF, S1], focus=True)
GST = G.grammar(expr=[E_LEAF2], stmt=[S_ALL, S_MID, SLEAF, S1])
MB = ["visit", "once", "onceopen", "rec", "keep", "to_w", "guard", "guard_once", "once_rec", "once_then"]
WB = ["keep", "to_x", "fail", "once"]
IB = ["self", "to_w", "to_other", "visit_w", "none", "rec_w"]
BOUNDS = {"quick": f"macros m (10 behaviours: expand the code inside in the current mode, once, once and unprotected, recursively, both nested, twice, catching errors, not at all, or into an invocation of w), w (4: as is, into x, failing, once), x (as is) and an identifier macro i (6), invoked in {len(EF)} expression forms over 2 further levels and {len(S_ALL)} statement forms over 2 further levels, entered by visit, visit_once or visit_recursively, from either mode",
          "thorough": "as quick, with all holes of a form nested at the same time and more forms inside"}
OUTSIDE = "deeper nesting; other behaviours"
ASSUMPTIONS = ["while an identifier macro runs, the mode in force is once (the expander itself continues with what it returns)"]


class Fails(Exception):
    pass


def invoke(name, syntax, tree):
    if syntax == "block":
        return ast.With(items=[ast.withitem(context_expr=ast.Name(id=name), optional_vars=None)], body=tree)
    if syntax == "decorator":
        tree.decorator_list.insert(0, ast.Name(id=name))
        return tree
    return ast.Subscript(value=ast.Name(id=name), slice=tree)


def fresh(syntax):
    return ast.Name(id="caught") if syntax in ("expr", "name") else ast.Expr(value=ast.Name(id="caught"))


def behave(name, b, syntax, tree, ex, body, errors, Failure):
    """`ex`: an expander, or the model; `body` opens a Done marker."""
    if syntax == "name":
        if name == "i":
            if b == "self":
                return tree
            if b == "none":
                return None
            w = ast.Subscript(value=ast.Name(id="w"), slice=ast.Name(id="k"))
            if b == "to_other":
                return ast.Name(id="other")
            if b == "visit_w":
                return ex.visit(w)
            if b == "rec_w":
                return ex.visit_recursively(w)
            return w
        return tree
    if name == "m":
        if b == "visit":
            return ex.visit(tree)
        if b == "once":
            return ex.visit_once(tree)
        if b == "onceopen":
            return body(ex.visit_once(tree))
        if b == "rec":
            return ex.visit_recursively(tree)
        if b == "once_rec":
            return ex.visit_recursively(body(ex.visit_once(tree)))
        if b == "once_then":
            return ex.visit_recursively(ex.visit_once(tree))
        if b == "to_w":
            return invoke("w", syntax, tree)
        if b in ("guard", "guard_once"):
            try:
                return ex.visit_recursively(tree) if b == "guard" else ex.visit_once(tree)
            except errors:
                return fresh(syntax)
    if name == "w":
        if b == "to_x":
            return invoke("x", syntax, tree)
        if b == "fail":
            raise Failure("w fails")
        if b == "once":
            return ex.visit_once(tree)
    return tree


class M(Model):
    visit_once = Model.once
    visit_recursively = Model.rec


def opened(d):
    return d.body


def no_list(t):
    return t if not isinstance(t, list) or t else None


def h_modes(S, sort, gram, extra=True):
    tree = S.tree("t", sort, gram)
    decls = {"m": "parametric", "w": "plain", "x": "plain", "i": "name"}
    entry = S.pick("entry", ["visit", "visit_once", "visit_recursively"]) if extra else "visit"
    start = S.pick("start", [True, False]) if extra else True
    ch = {}
    def choice(nm):
        if nm not in ch:
            ch[nm] = S.pick(nm, {"m": MB, "w": WB, "x": ["keep"], "i": IB}[nm])
        return ch[nm]
    S.note(lambda: (entry, start, ch, show(nodes.force(lclone(tree)))))
    want_log = []
    def apply(model, inv):
        want_log.append(inv.snapshot() + (model.recursive,))
        return behave(inv.name, choice(inv.name), inv.syntax, inv.tree, model, opened, Fails, Fails)
    model = M(decls, apply)
    modes = []
    def real(nm, t, kw):
        modes.append(kw["expander"].recursive)
        return behave(nm, choice(nm), kw["syntax"], t, kw["expander"], opened, S.m.core.MacroExpansionError, ValueError)
    rec = Recorder(S, real)
    exp = rec.make(decls)
    model.recursive = exp.recursive = start
    suite = sort == "stmt"
    def wrap(t):
        return [t] if suite else ast.Expr(value=t)
    failed = False
    try:
        want = getattr(model, entry)(wrap(lclone(tree)))
    except Fails:
        failed = True
    t = wrap(tree)
    if failed:
        S.raises(S.m.core.MacroExpansionError, lambda: getattr(exp, entry)(t), "a failing macro")
        S.check(exp.recursive is start, "the mode is restored after an error")
        S.check([x[:2] for x in rec.log] == [x[:2] for x in want_log], lambda: f"macros applied before the error: {[x[:2] for x in rec.log]}, expected {[x[:2] for x in want_log]}")
        S.check(modes == [x[-1] for x in want_log], lambda: f"modes {modes}, expected {[x[-1] for x in want_log]}")
        S.reach("error")
        return
    r = getattr(exp, entry)(t)
    S.check(exp.recursive is start, "the mode is restored")
    S.check(modes == [x[-1] for x in want_log], lambda: f"modes {modes}, expected {[x[-1] for x in want_log]}")
    compare_logs(S, rec.log, want_log)
    Done = S.m.core.Done
    n = len(rec.log)
    if entry == "visit_once":
        S.check(type(r) is Done, "visit_once returns its result protected")
        again = exp.visit_recursively(r)
        S.check(again is r and len(rec.log) == n, "further expansion leaves a protected result alone")
        S.reach("once")
    else:
        S.check(type(r) is not Done, lambda: f"{entry} returned a marker")
    r = S.m.core.global_postprocess(r)
    same_code(S, r, undone(want), "expansion", False)
    if entry == "visit_recursively" and not any(c in ("once", "once_then", "guard_once", "self") for c in ch.values()):
        mod = M(decls, None)
        for x in preorder(r):
            S.check(mod.recognize(lclone(x)) is None, lambda: f"an invocation is left after recursive expansion: {show(x)}")
        S.reach("complete")
    for e in want_log:
        S.reach(f"{e[1]} {choice(e[1])}")
    if len({x[-1] for x in want_log}) == 2:
        S.reach("mixed modes")


ALL = {f"m {b}" for b in MB} | {f"w {b}" for b in WB if b != "fail"} | {"error", "mixed modes", "once", "complete"}
HARNESSES = [
    H("expr", h_modes, "expression and identifier macros", dict(sort="expr", gram=GE), dict(sort="expr", gram=GET), reach=ALL | {f"i {b}" for b in IB}),
    H("stmt", h_modes, "block and decorator macros", dict(sort="stmt", gram=GS), dict(sort="stmt", gram=GST), reach=ALL),
]
