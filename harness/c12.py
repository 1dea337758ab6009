"""C12: code that invokes no macros is unchanged; markers; postprocessors."""
import ast
import copy
from functools import partial
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, positions, put, preorder, clone, counted
from .exp import lclone, quick_reports, same_code, LOCS

PLAIN = ["f", "m", "C", "x", "y", "n", "k"]                         # appear as names in the templates, but not in macro syntax
IDENT = ["attr", "a", "b", "l", "T", "Ts", "Pp", "zz", "macros"]     # appear in identifier fields only (attributes, keywords, ...)
GE = G.grammar(expr=[G.EXPR_ALL, G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_ONE], focus=True)
GET = G.grammar(expr=[G.EXPR_ALL, G.EXPR_STRUCT, G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_ONE], focus=True)
GS = G.grammar(expr=[G.shapes("expr", ["v0", "f(v0)", "v0[v1]", "{v0: v1}"]), G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_SHORT, G.STMT_ONE], focus=True)
GST = G.grammar(expr=[G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_ALL, G.STMT_SHORT, G.STMT_ONE], focus=True)
GMOD = G.grammar(expr=[G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_ONE])
GK = G.grammar(expr=[G.shapes("expr", ["v0", "(v0, v1)", "f(v0, *v1)"])], stmt=[G.shapes("stmt", ["if v0:\n v1\n v2\nelse:\n v3", "v0 = (v1, v2)", "class C(v0):\n v1\n v2", "for v0 in v1: v2"])])
BOUNDS = {"quick": "every expression form over representative forms over names, every statement form over representative statements, with 0, 1 or 20 macros bound (also under the names that occur as ordinary names, attributes, keywords...), by each entry point; whole modules of up to 1 arbitrary statement through the compiler; up to 2 markers of 6 classes at any position; all sequences of 4 registrations and removals of 3 postprocessors, or of 2 after up to 7 others; up to 1 (in some 2) items of any kind in each list of 23 constructs",
          "thorough": "as quick, one level deeper; modules of up to 2 statements; 3 markers; 5 registrations"}
OUTSIDE = "deeper trees; larger modules"
ASSUMPTIONS = ["the code around an invocation is also compared, with locations, in C10"]


def locator():
    ids = {}
    def locate(desc, i, node):
        k = ids.setdefault((desc.name, i), len(ids) + 1)
        node.__dict__.update(lineno=k, end_lineno=k + 1, col_offset=k % 7, end_col_offset=k % 7 + 1)
    return locate


def mac(tree, **kw):
    raise AssertionError("a macro was applied")


def bindings(S, which):
    if which == "none":
        return {}
    if which == "one":
        return {"zz": mac}
    p, i = lambda tree, **kw: mac(tree), lambda tree, **kw: mac(tree)
    E = S.m.expander
    both = E.parametricmacro(E.namemacro(i))
    return dict([(k, p) for k in PLAIN] + [(k, both) for k in IDENT])


def check_unchanged(S, r, want, attrs=True):
    S.same(r, want, "code without macro invocations changed", attrs=attrs)


def h_plain(S, sort, gram, most=0):
    tree = S.tree("t", sort, gram, locate=locator()) if gram else counted(S, most)[1][0]
    want = lclone(tree)
    b = bindings(S, S.pick("bound", ["none", "one", "many"] if gram else ["none", "one"]))
    quick_reports(S)
    entry = S.pick("entry", ["expand_macros", "visit", "visit_once", "visit_recursively", "global"])
    S.note(lambda: (len(b), entry, show(nodes.force(lclone(tree)))))
    suite = sort == "stmt"
    t = [tree] if suite else tree
    E = S.m.expander
    if entry == "expand_macros":
        r = E.expand_macros(t, b, filename="/nowhere/x.py")
    elif entry == "global":
        S.m.core.global_bindings.update(b)
        r = E.expand_macros(t, {}, filename="/nowhere/x.py")
    else:
        x = E.MacroExpander(b, "/nowhere/x.py")
        r = getattr(x, entry)(t)
        if entry == "visit_once":
            r = r.body
    if suite:
        S.check(type(r) is list and len(r) == 1, lambda: f"one statement became {r}")
        r = r[0]
    check_unchanged(S, r, want)
    S.reach(entry)


def h_module(S, n):
    body, want = [], []
    for i in range(S.pick("n", range(n + 1))):
        st = S.stmt(f"s{i}", GMOD, locate=locator())
        body.append(st)
        want.append(lclone(st))
    S.note(lambda: show(want))
    r = S.m.compiler.expand(ast.Module(body=body, type_ignores=[]), filename="/nowhere/x.py", self_module="x")
    S.check(type(r) is ast.Module, "a module stays a module")
    nodes.force(r)
    check_unchanged(S, r.body, want)
    S.reach(f"{len(want)} statements")


def marker_classes(S):
    core, markers, quotes = S.m.core, S.m.markers, S.m.quotes
    class MyDone(core.Done):
        pass
    class MyExp(core.MacroExpanderMarker):
        pass
    class Mine(markers.ASTMarker):
        pass
    class Mine2(Mine):
        pass
    return {"Done": core.Done, "MyDone": MyDone, "MyExp": MyExp, "QDone": quotes.QuasiquoteSearchDone, "Mine": Mine, "Mine2": Mine2}


def h_markers(S, n):
    """Markers in the input, or left by a macro."""
    tree = S.stmt("t", GK)
    nodes.force(tree)
    classes = marker_classes(S)
    where = S.pick("where", ["input", "output"])
    want = clone(tree)
    used = []
    def usable(p):
        return isinstance(p[3], (ast.expr, ast.stmt)) and p[1] != "func"
    ps, qs = [p for p in positions(tree) if usable(p)], [p for p in positions(want) if usable(p)]
    def current(p):
        return p[0].__dict__[p[1]] if p[2] is None else p[0].__dict__[p[1]][p[2]]
    for i in range(S.pick("n", range(n + 1))):
        j = S.pick(f"at{i}", range(len(ps)))
        k = S.pick(f"class{i}", list(classes))
        used.append((k, j))
        put(ps[j], classes[k](current(ps[j])))
        if k in ("Mine", "Mine2"):
            put(qs[j], classes[k](current(qs[j])))
    S.note(lambda: (where, used))
    E = S.m.expander
    if where == "input":
        r = E.expand_macros([tree], {"zz": mac}, filename="/nowhere/x.py")
    else:
        def out(t, **kw):
            return tree
        r = E.expand_macros([ast.With(items=[ast.withitem(context_expr=ast.Name(id="out"), optional_vars=None)], body=[ast.Pass()])], {"out": out}, filename="/nowhere/x.py")
    left = S.m.markers.get_markers(r, S.m.core.MacroExpanderMarker)
    S.check(not left, lambda: f"markers left: {left}")
    for x in preorder(r):
        S.check(not isinstance(x, S.m.core.MacroExpanderMarker), lambda: f"a marker left: {x}")
    same_code(S, r, [want], "code with markers", False)
    for k, _ in used:
        S.reach(k)
    S.reach(where)


def h_post(S, n, more=0):
    """Registering and removing postprocessors."""
    core = S.m.core
    ran = []
    outputs = {}
    def make(i):
        def post(tree):
            ran.append((i, tree))
            new = [ast.Expr(value=ast.Name(id=f"p{i}"))] + tree
            outputs[len(ran)] = new
            return new
        return post
    posts = [make(i) for i in range(3 + more)]
    registered = []
    if more:
        for i in range(3, 3 + S.pick("before", list(range(more + 1)))):
            core.add_postprocessor(posts[i])
            registered.append(i)
    ops = []
    for step in range(n):
        op = S.pick(f"op{step}", ["add", "remove"])
        i = S.pick(f"which{step}", [0, 1, 2] + ([4, 2 + more] if more else []))
        ops.append((op, i))
        if op == "add":
            core.add_postprocessor(posts[i])
            if i not in registered:
                registered.append(i)
        else:
            core.remove_postprocessor(posts[i])
            if i in registered:
                registered.remove(i)
    S.note(lambda: ops)
    times = S.pick("entry", ["expand_macros", "global_postprocess", "twice"])
    for t in range(2 if times == "twice" else 1):
        del ran[:]
        tree = [ast.Expr(value=S.m.core.Done(ast.Name(id="v", ctx=ast.Load())))]
        if times == "global_postprocess":
            r = core.global_postprocess(tree)
        else:
            r = S.m.expander.expand_macros(tree, {}, filename="/nowhere/x.py")
        S.check([i for i, _ in ran] == registered, lambda: f"{ops}: ran {[i for i, _ in ran]}, expected {registered}")
        want = [f"p{i}" for i in reversed(registered)] + ["v"]
        S.check([s.value.id for s in r] == want, lambda: f"{ops}: result {[s.value.id for s in r]}, expected {want}")
        for j, (_, tr) in enumerate(ran):
            S.check(len(tr) == j + 1 and all(type(s.value) is ast.Name for s in tr), "each postprocessor gets the output of the previous one, without markers")
    S.reach(f"{len(registered)} registered")


HARNESSES = [
    H("expr", h_plain, "expressions without invocations", dict(sort="expr", gram=GE), dict(sort="expr", gram=GET), reach={"expand_macros", "visit", "visit_once", "visit_recursively", "global"}),
    H("stmt", h_plain, "statements without invocations", dict(sort="stmt", gram=GS), dict(sort="stmt", gram=GST), reach={"expand_macros", "visit", "visit_once", "visit_recursively", "global"}),
    H("counts", h_plain, "any number of items in each list", dict(sort="stmt", gram=None, most=1), dict(sort="stmt", gram=None, most=2), reach={"expand_macros", "visit", "visit_once", "visit_recursively", "global"}),
    H("module", h_module, "modules through the compiler", dict(n=1), dict(n=2), reach={"0 statements", "1 statements"}),
    H("markers", h_markers, "markers in the input or the output of a macro", dict(n=2), dict(n=3), reach={"input", "output", "Done", "MyDone", "MyExp", "QDone", "Mine", "Mine2"}),
    H("post", h_post, "postprocessors", dict(n=4), dict(n=5), reach={f"{i} registered" for i in range(4)}),
    H("post many", h_post, "many postprocessors", dict(n=2, more=7), dict(n=3, more=12), reach={f"{i} registered" for i in range(10)}),
]
