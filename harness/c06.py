"""C06: uncompiling quotes."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone, counted
from .c10 import locator
from . import quo, c01
from .c05 import mac, mac2, wrong

GE, GE3, GS, GS3, GSU = c01.GE, c01.GE3, c01.GS, c01.GS3, c01.S2

U_OPS = ["u[E0]", "n[E0]", "a[E0]", "s[E0]", "t[E0]", "h[E0]"]
OPERAND = G.shapes("expr", ["v0", "f(v0, *v1)", "v0.a[1]"])
U_ALL = G.shapes("expr", U_OPS)
U_SOME = G.shapes("expr", ["u[v0]", "a[v0]", "h[v0]", "h[mac]", "n[v0]"])
HOLED = [s for s in G.EXPR_STRUCT if s.holes]
GU = G.grammar(expr=[HOLED, U_ALL, OPERAND], focus=True)
GU3 = G.grammar(expr=[HOLED, HOLED, U_ALL, OPERAND], focus=True)
SBLK = G.shapes("stmt", ["with a: v0", "with a:\n v0\n v1.b", "a[v0]", "v0 = u[v1]", "return h[mac]"])
GUS = G.grammar(stmt=[[s for s in G.STMT_ALL if s.holes] + SBLK, SBLK, G.STMT_ONE], expr=[U_SOME], target=[G.shapes("target", ["n[v0]", "a[v0]", "v0"])], dele=[G.shapes("del", ["a[v0]"])], focus=True)
GUS3 = G.grammar(stmt=[G.STMT_SHORT + SBLK, [s for s in G.STMT_ALL if s.holes] + SBLK, SBLK, G.STMT_ONE], expr=[G.EXPR_STRUCT, U_SOME], target=[G.shapes("target", ["n[v0]", "a[v0]", "v0"])], dele=[G.shapes("del", ["a[v0]"])], focus=True)
LISTS = G.shapes("expr", ["f(E0, v0, E1, *E2, k=v1)", "[E0, E1, E2]", "{E0: E1, **E2}", "(E0, q[u[E1]])", "q[(u[v0], E0)]", "q[q[u[u[E0]]]]", "h[mac][E0]", "E0 if h[mac](E1) else h[v0]", "f'{E0}{E1!r:>{v0}}'", "lambda a, b=E0: E1"])
GL = G.grammar(expr=[LISTS, U_SOME + G.shapes("expr", ["v0"])])
GL3 = G.grammar(expr=[LISTS, LISTS[1:2] + LISTS[3:5], U_SOME + G.shapes("expr", ["v0"])])
BOUNDS = {"quick": "plain code as in C01; constants and containers two levels deep of up to 2 symbolic elements (only one of them a container); the six unquotes, with three operands, in every place of every expression form, and unquotes in every statement form, also several side by side, below inner quotes, and captured macros; file names for n[]; up to 1 (in some 2) items of any kind in each list of 23 constructs",
          "thorough": "one more level of forms"}
OUTSIDE = "deeper nesting; h[] captures whose code was already run (those are calls with no marker to go back to)"
ASSUMPTIONS = ["captures of macros are compiled again in the same process (documented)"]


def h_tree(S, sort, gram, many=1):
    loc = locator()
    n = S.pick("n", list(range(1, many + 1))) if many > 1 and gram else 1
    ts = [S.tree(f"t{i}", sort, gram, locate=loc) for i in range(n)] if gram else counted(S, many)[1]
    S.note(lambda: [ast.dump(nodes.force(t)) for t in ts])
    src = ts if sort == "stmt" else ts[0]
    code = S.m.quotes.astify(src)
    nodes.force(src)
    want = clone(src)
    saved = clone(code)
    got = S.m.quotes.unastify(code)
    S.check(isinstance(got, list) == isinstance(want, list), lambda: f"uncompiled {got!r}")
    S.same(got, want, "uncompiled", attrs=True)
    S.same(S.m.quotes.astify(got), saved, "compiled again", attrs=True)
    S.reach("tree")
    wrapped = quo.wrap(S, saved)
    S.same(S.m.quotes.unastify(wrapped), want, "uncompiled, with the wrapper of q", attrs=True)


def value(S, name, depth):
    k = S.pick(name, ["int", "str", "bool", "none", "ellipsis", "bytes", "float", "complex"] + (["list", "tuple", "dict", "set"] if depth else []))
    if k == "int":
        return S.int(name + "i", -10**6, 10**6)
    if k == "str":
        return S.str(name + "s", [0, 1, 2], c01.ALPHA)
    if k in ("list", "tuple"):
        v = [value(S, f"{name}{i}", max(depth - 1, 0) if i == 0 else depth - 2 if depth > 2 else 0) for i in range(S.pick(name + "n", [0, 1, 2]))]
        return tuple(v) if k == "tuple" else v
    if k == "dict":
        return {kk: value(S, f"{name}{i}", max(depth - 1, 0) if i == 0 else depth - 2 if depth > 2 else 0) for i, kk in enumerate(["a", (1, None)][:S.pick(name + "n", [0, 1, 2])])}
    if k == "set":
        return set(S.pick(name + "n", [[1], ["a", 2], [(), None, b"x"], []]))
    return {"bool": S.pick(name + "b", [True, False]) if k == "bool" else None, "none": None, "ellipsis": ..., "bytes": b"a\x00", "float": -0.0, "complex": 1 - 2j}[k]


def h_values(S, depth):
    v = value(S, "v", depth)
    S.note(lambda: repr(v))
    S.reach(type(v).__name__ if not S.symbolic else nodes.sx_type(v).__name__)
    code = S.m.quotes.astify(v)
    got = S.m.quotes.unastify(code)
    quo.same_value(S, got, v, "uncompiled", {})
    quo.same_value(S, quo.interpret(S, S.m.quotes.astify(got)), v, "compiled again", {})


class Mark:
    def __init__(self, cls, body, /, **params):
        self.cls, self.body, self.params = cls, body, params


OPS = {"u": "Unquote", "n": "LiftSourcecode", "a": "ASTLiteral", "s": "ASTList", "t": "ASTTuple", "h": "Capture"}
NAMES = {k: k for k in quo.OPS}


def expected(t, level=1):
    """The tree `t`, quoted and uncompiled."""
    if isinstance(t, list):
        return [expected(x, level) for x in t]
    if not isinstance(t, ast.AST):
        return t
    op, syntax = quo.op_of(t, NAMES)
    if op and op != "q" and level == 1:
        if syntax == "block":
            return Mark("ASTLiteral", [x.value for x in t.body], syntax="block")
        p = {"n": {"filename": "/nowhere/m.py"}, "a": {"syntax": "expr"}, "h": {"name": t.slice.id if type(t.slice) is ast.Name else ast.unparse(t.slice)}}.get(op, {})
        return Mark(OPS[op], t.slice, **p)
    n = type(t).__new__(type(t))
    for k, v in t.__dict__.items():
        if isinstance(v, (list, ast.AST)) and k != "ctx":
            inner = op and k == ("slice" if syntax == "expr" else "body")
            n.__dict__[k] = expected(v, level + (0 if not inner else 1 if op == "q" else -1))
        else:
            n.__dict__[k] = v
    return n


def compare(S, got, want, what, macros):
    if isinstance(want, Mark):
        S.check(type(got) is getattr(S.m.quotes, want.cls), lambda: f"{what}: {got!r}, expected a {want.cls}")
        S.check(set(got._fields) >= {"body", *want.params}, lambda: f"{what}: fields {got._fields}")
        for k, v in want.params.items():
            g = getattr(got, k)
            S.check(type(g) is str and (g == v or k == "name" and g.replace(" ", "").strip("()") == v.replace(" ", "").strip("()")), lambda: f"{what}.{k}: {g!r}, expected {v!r}")
        if isinstance(want.body, list):
            S.check(type(got.body) is ast.List, lambda: f"{what}: operand {got.body!r}")
            S.same(got.body.elts, want.body, what + ".body")
        elif want.cls == "Capture" and type(want.body) is ast.Name and want.body.id in macros:
            f = macros[want.body.id]
            S.check(type(got.body) is ast.Name and S.m.core.global_bindings.get(got.body.id) is f, lambda: f"{what}: captured macro {show(got.body)}")
            S.reach("macro")
        else:
            S.same(got.body, want.body, what + ".body")
        S.reach(want.cls)
        return
    if isinstance(want, list):
        S.check(type(got) is list and len(got) == len(want), lambda: f"{what}: {got!r}, expected {len(want)} items")
        for i, (g, w) in enumerate(zip(got, want)):
            compare(S, g, w, f"{what}[{i}]", macros)
        return
    if isinstance(want, ast.AST):
        while type(got) is S.m.core.Done:
            got = got.body
        S.check(type(got) is type(want), lambda: f"{what}: {got!r}, expected {type(want).__name__}")
        for f in type(want)._fields:
            if f != "ctx":
                compare(S, getattr(got, f, "<missing>"), getattr(want, f, "<missing>"), f"{what}.{f}", macros)
        return
    S.same(got, want, what)


def skip_coverage(S, t):
    """Blocks leave statements that are there for coverage only."""
    if isinstance(t, list):
        return [skip_coverage(S, x) for x in t if not (type(x) is S.m.core.Done and isinstance(x.body, ast.stmt))]
    if isinstance(t, ast.AST):
        for f, v in list(t.__dict__.items()):
            if isinstance(v, (list, ast.AST)) and f != "_fields":
                setattr(t, f, skip_coverage(S, v))
    return t


def run(S, code, ops):
    """The value of the code; the variables are as the operators used need them."""
    N = lambda n: ast.Name(id=n, ctx=ast.Load())
    vals = {"u": [7, ("a", 8)], "n": ["x.y", "z"], "a": [N("item"), N("item2")], "s": [[N("item")], []], "t": [[N("item")], []], "h": [[1, 2], "text"],
            "A": [[ast.Expr(value=N("item")), ast.Pass()], ast.Expr(value=N("item2"))]}[ops]
    def f(x, *more):
        return x
    class Attr:
        a = {1: vals[0]}
        b = vals[0]
    e = quo.env(S, f=f)
    attrs = {x.value.id for x in ast.walk(code) if type(x) is ast.Attribute and x.attr in "ab" and type(x.value) is ast.Name}
    starred = {x.value.id for x in ast.walk(code) if type(x) is ast.Starred and type(x.value) is ast.Name}
    for x in ast.walk(code):
        if type(x) is ast.Name and x.id[0] == "v":
            e[x.id] = Attr if x.id in attrs else () if x.id in starred else vals[int(x.id[1])]
    return quo.run(S, code, e)


def equal(S, a, b, what):
    """Same meaning: equal code, up to the unique names of captures."""
    if isinstance(b, ast.Call):
        kb, ka = S.m.quotes.is_captured_value(b), S.m.quotes.is_captured_value(a)
        if kb:
            S.check(ka and ka[0] == kb[0], lambda: f"{what}: capture {ka!r}, expected {kb!r}")
            va, vb = S.m.quotes.lookup_value(ka), S.m.quotes.lookup_value(kb)
            S.check(type(va) is type(vb) and va == vb, lambda: f"{what}: captured values differ")
            return
    if isinstance(b, ast.Name):
        S.check(type(a) is ast.Name, lambda: f"{what}: {show(a)}, expected {show(b)}")
        fb = S.m.core.global_bindings.get(b.id)
        if fb:
            fa = S.m.core.global_bindings.get(a.id)
            S.check(fa is fb and len(a.id) == len(b.id) and a.id[:-32] == b.id[:-32], lambda: f"{what}: captured macro {a.id}, expected {b.id}")
        else:
            S.check(a.id == b.id, lambda: f"{what}: {a.id}, expected {b.id}")
        return
    if isinstance(b, list):
        S.check(type(a) is list and len(a) == len(b), lambda: f"{what}: lengths")
        for i, (x, y) in enumerate(zip(a, b)):
            equal(S, x, y, f"{what}[{i}]")
    elif isinstance(b, ast.AST):
        S.check(type(a) is type(b), lambda: f"{what}: {show(a)}, expected {show(b)}")
        for f in b._fields:
            equal(S, getattr(a, f, None), getattr(b, f, None), f"{what}.{f}")
    else:
        S.same(a, b, what)


def used(t, level=1, out=None):
    """Operators whose operand is evaluated."""
    if isinstance(t, list):
        for x in t:
            used(x, level, out)
    elif isinstance(t, ast.AST):
        op, syntax = quo.op_of(t, NAMES)
        if op and op != "q" and level == 1:
            inner = t.slice if syntax == "expr" else t.body
            if not (op == "h" and type(inner) is ast.Name and inner.id == "mac"):
                out.add("A" if syntax == "block" else op)
            return
        for k, v in t.__dict__.items():
            inner = op and k == ("slice" if syntax == "expr" else "body")
            used(v, level + (0 if not inner else 1 if op == "q" else -1), out)


def h_unquotes(S, sort, gram):
    t = S.tree("t", sort, gram)
    nodes.force(t)
    bound = S.pick("mac is", ["macro", "another macro"]) if any(isinstance(x, ast.Name) and x.id == "mac" for x in ast.walk(t)) else "unused"
    S.note(lambda: (show(t), bound))
    saved = clone(t)
    block = sort == "stmt"
    macros = {"macro": {"mac": mac}, "another macro": {"mac": mac2}, "unused": {}}[bound]
    ex = quo.expander(S, macros)
    if block:
        top = ex.visit_recursively(ast.Module(body=[quo.at(quo.blk("q", [t], "quoted"))], type_ignores=[]))
        top = S.m.core.global_postprocess(top)
        code = [x for x in top.body if isinstance(x, ast.Assign) and type(x.value) is ast.Call][0].value
    else:
        top = ex.visit_recursively(ast.Expression(body=quo.at(quo.sub("q", t))))
        top = S.m.core.global_postprocess(top)
        code = top.body
    first = clone(code)
    got = S.m.quotes.unastify(code)
    got = skip_coverage(S, got)
    compare(S, got, expected([saved] if block else saved), "uncompiled", macros)
    # compile it again, where the macro has another meaning now
    ex2 = quo.expander(S, {"mac": wrong} if macros else None)
    again = S.m.quotes.astify(got, ex2)
    again = S.m.core.global_postprocess(again)
    again = quo.wrap(S, again)
    ops = set()
    used(saved, 1, ops)
    if len(ops) > 1:
        S.reach("mixed")
        return
    op = min(ops, default="u")
    vals = []
    for c in (first, again):
        top = ast.Expression(body=S.m.astfixers.fix_ctx(c, copy_seen_nodes=True))
        ast.fix_missing_locations(top)
        try:
            v = run(S, top, op)
            vals.append(("value", skip_coverage(S, v)))
        except Exception as e:
            vals.append(("error", type(e), str(e)))
    S.check(vals[0][0] == vals[1][0], lambda: f"first {vals[0]}, compiled again: {vals[1]}")
    if vals[0][0] == "value":
        equal(S, vals[1][1], vals[0][1], "value when compiled again")
        S.reach("run")
    else:
        S.check(vals[0][1] is vals[1][1], lambda: f"first {vals[0]}, compiled again: {vals[1]}")


def h_rejected(S):
    """What no quote can yield."""
    x = S.pick("code", ["x", "f(x)", "x.a", "mcpyrate.quotes.astify", "mcpyrate.f(x)", "os.system('x')", "mcpyrate.quotes(x)", "x + y", "lambda: x", "mcpyrate_quotes.x.y(1)", "x[0]"])
    S.note(x)
    S.raises((TypeError, NotImplementedError), lambda: S.m.quotes.unastify(ast.parse(x, mode="eval").body), f"uncompiling {x}")
    S.reach("rejected")


M = {"Unquote", "LiftSourcecode", "ASTLiteral", "Capture", "run"}
HARNESSES = [
    H("expr", h_tree, "expressions", dict(sort="expr", gram=GE), dict(sort="expr", gram=GE3), reach={"tree"}),
    H("stmt", h_tree, "statements", dict(sort="stmt", gram=GS), dict(sort="stmt", gram=GS3), reach={"tree"}),
    H("suite", h_tree, "several statements", dict(sort="stmt", gram=G.grammar(stmt=[GSU, G.STMT_LEAF]), many=3), dict(sort="stmt", gram=G.grammar(stmt=[GSU, GSU, G.STMT_LEAF]), many=3), reach={"tree"}),
    H("counts", h_tree, "any number of items in each list", dict(sort="stmt", gram=None), dict(sort="stmt", gram=None, many=2), reach={"tree"}),
    H("values", h_values, "constants and containers", dict(depth=2), dict(depth=3), reach={"int", "str", "bool", "NoneType", "ellipsis", "bytes", "float", "complex", "list", "tuple", "dict", "set"}),
    H("unquotes", h_unquotes, "unquotes in expressions", dict(sort="expr", gram=GU), dict(sort="expr", gram=GU3), reach=M | {"ASTList", "ASTTuple"}),
    H("unstmt", h_unquotes, "unquotes in statements", dict(sort="stmt", gram=GUS), dict(sort="stmt", gram=GUS3), reach=M | {"macro"}),
    H("several", h_unquotes, "several unquotes", dict(sort="expr", gram=GL), dict(sort="expr", gram=GL3), reach=M | {"macro", "mixed"}),
    H("rejected", h_rejected, "other code", reach={"rejected"}),
]
