"""C01: quasiquotes."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone, preorder, counted
from . import quo

GE = G.grammar(expr=[G.EXPR_ALL, G.EXPR_ALL, G.EXPR_ONE], focus=True)
GE3 = G.grammar(expr=[G.EXPR_ALL, G.EXPR_SHORT, G.EXPR_ALL, G.EXPR_ONE], focus=True)
GS = G.grammar(stmt=[G.STMT_ALL, G.STMT_ALL, G.STMT_ONE], expr=[G.EXPR_STRUCT, G.EXPR_ONE],
               target=[G.TARGET_ALL, G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_ALL, G.DEL_LEAF],
               pattern=[G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
GS3 = G.grammar(stmt=[G.STMT_SHORT, G.STMT_ALL, G.STMT_ALL, G.STMT_ONE], expr=[G.EXPR_ALL, G.EXPR_ALL, G.EXPR_ONE],
                target=[G.TARGET_ALL, G.TARGET_ALL, G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_ALL, G.DEL_LEAF],
                pattern=[G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
S2 = G.shapes("stmt", ["v0", "v0 = v1", "if v0: pass", "pass", "def f(): v0"])
ALPHA = "a'\"\\\n{\x00\u00e9\ud800"
BOUNDS = {"quick": "every expression form (169, incl. every operator and constant kind) holding every expression form; every statement form (95) holding every statement, target, del target and pattern form, and expression form; suites of 1-3 statements; any integer; strings of up to 2 characters out of 9, in constants and in each kind of identifier; up to 1 (in some 2) items of any kind in each list of 23 constructs",
          "thorough": "one more level; strings of up to 5 characters"}
OUTSIDE = "deeper nesting; other float, complex and bytes values than the listed ones"
ASSUMPTIONS = ["the code a quote expands to runs where the name `mcpyrate` is bound to the package"]


def judge(S, got, want, what):
    S.same(got, want, f"{what}: the value of the quote")


def h_expr(S, gram):
    t = S.expr("t", gram)
    S.note(lambda: ast.dump(nodes.force(t)))
    top = quo.finish(S, quo.expander(S), quo.at(quo.sub("q", t)), "eval")
    nodes.force(t)
    want = clone(t)
    env = quo.env(S)
    got = quo.run(S, top, env)
    judge(S, got, want, "q[]")
    again = quo.run(S, top, quo.env(S))
    judge(S, again, want, "q[] again")
    quo.no_shared(S, got, again, "two evaluations share a node")
    quo.no_shared(S, got, t, "the value contains a node of the quoting code")
    S.reach("done")


def h_suite(S, gram, many=1):
    n = S.pick("n", list(range(1, many + 1))) if gram else 1
    body = counted(S, many)[1] if gram is None else [S.stmt(f"t{i}", gram) for i in range(n)]
    S.note(lambda: [ast.dump(nodes.force(t)) for t in body])
    name = S.pick("as", ["quoted", "v0"]) if many > 1 else "quoted"
    top = quo.finish(S, quo.expander(S), [quo.at(quo.blk("q", body, name))], "exec")
    nodes.force(body)
    want = clone(body)
    env = quo.run(S, top, quo.env(S))
    got = env[name]
    judge(S, got, want, "with q")
    again = quo.run(S, top, quo.env(S))[name]
    judge(S, again, want, "with q again")
    quo.no_shared(S, got, again, "two evaluations share a node")
    S.reach("done")


def h_values(S, n, lo):
    """Values, in constants and in the fields of nodes."""
    kind = S.pick("kind", ["int", "bool", "str", "kindstr", "Name", "arg", "attr", "keyword", "FunctionDef", "ClassDef", "alias", "asname", "module", "level",
                           "global", "nonlocal2", "MatchAs", "MatchStar", "rest", "kwd_attrs", "ExceptHandler", "type_comment", "conversion", "missing", "locations"])
    def s(name="s", lengths=range(n + 1)):
        return S.str(name, lengths, ALPHA)
    L = ast.Load()
    if kind == "int":
        v = S.int("v", lo, -lo)
        t = ast.Constant(value=v, kind=None)
    elif kind == "bool":
        v = S.bool("v")
        t = ast.Constant(value=bool(v), kind=None)
    elif kind == "str":
        t = ast.Constant(value=s(), kind=None)
    elif kind == "kindstr":
        t = ast.Constant(value=s(), kind="u")
    elif kind == "Name":
        t = ast.Name(id=s(), ctx=L)
    elif kind == "arg":
        t = ast.arg(arg=s(), annotation=None, type_comment=None)
    elif kind == "attr":
        t = ast.Attribute(value=ast.Name(id=s("s2", range(2)), ctx=L), attr=s(), ctx=ast.Store())
    elif kind == "keyword":
        t = ast.Call(func=ast.Name(id="f", ctx=L), args=[], keywords=[ast.keyword(arg=s(), value=ast.Constant(value=None, kind=None)), ast.keyword(arg=None, value=ast.Name(id="k", ctx=L))])
    elif kind in ("FunctionDef", "ClassDef"):
        t = ast.parse("def f(): pass" if kind[0] == "F" else "class C: pass").body[0]
        t.name = s()
    elif kind == "alias":
        t = ast.Import(names=[ast.alias(name=s(), asname=None), ast.alias(name="m", asname=None)])
    elif kind == "asname":
        t = ast.Import(names=[ast.alias(name="m", asname=s())])
    elif kind == "module":
        t = ast.ImportFrom(module=s(), names=[ast.alias(name="m", asname=None)], level=0)
    elif kind == "level":
        t = ast.ImportFrom(module=S.pick("mod", [None, "m"]), names=[ast.alias(name="m", asname=None)], level=S.int("lv", 0, 9))
    elif kind == "global":
        t = ast.Global(names=[s()])
    elif kind == "nonlocal2":
        t = ast.Nonlocal(names=[s("s", [1, 2]), s("s2", [1])])
    elif kind == "MatchAs":
        t = ast.MatchAs(pattern=None, name=s())
    elif kind == "MatchStar":
        t = ast.MatchStar(name=s())
    elif kind == "rest":
        t = ast.MatchMapping(keys=[], patterns=[], rest=s())
    elif kind == "kwd_attrs":
        t = ast.MatchClass(cls=ast.Name(id="C", ctx=L), patterns=[], kwd_attrs=[s()], kwd_patterns=[ast.MatchSingleton(value=None)])
    elif kind == "ExceptHandler":
        t = ast.ExceptHandler(type=ast.Name(id="E", ctx=L), name=s(), body=[ast.Pass()])
    elif kind == "type_comment":
        t = ast.arg(arg="x", annotation=None, type_comment=s())
    elif kind == "conversion":
        t = ast.FormattedValue(value=ast.Name(id="x", ctx=L), conversion=S.int("c", -1, 200), format_spec=None)
    elif kind == "missing":
        # optional fields and contexts that are not there at all
        t = S.pick("node", [ast.Name(id="x"), ast.Return(), ast.arg(arg="x"), ast.Constant(value=1), ast.alias(name="m"), ast.Slice(), ast.Yield()])
        for f in ("ctx", "kind", "annotation", "value", "asname", "lower", "upper", "step", "type_comment"):
            if t.__dict__.get(f, 0) is None:
                del t.__dict__[f]
    else:
        t = ast.BinOp(left=ast.Name(id="a", ctx=L), op=ast.Add(), right=ast.Constant(value=1, kind=None))
        for i, x in enumerate(preorder(t)):
            if isinstance(x, ast.expr):
                x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = [S.int(f"l{i}.{j}", 0, 1000) for j in range(4)]
    want = clone(t)
    S.note(lambda: ast.dump(want))
    block = isinstance(t, ast.stmt)
    code = S.m.quotes.astify([t] if block else t)
    got = quo.interpret(S, code)
    if block:
        S.check(type(got) is list and len(got) == 1, "a list of one statement")
        got = got[0]
    judge(S, got, want, kind)
    S.reach(kind)


def h_tall(S, depth):
    """One node kind after another on a long path."""
    t = leaf = ast.Name(id="x", ctx=ast.Load())
    for i in range(depth):
        k = S.pick(f"k{i}", ["attr", "list", "call", "dict"])
        t = {"attr": lambda: ast.Attribute(value=t, attr="a", ctx=ast.Load()), "list": lambda: ast.List(elts=[t], ctx=ast.Load()),
             "call": lambda: ast.Call(func=t, args=[], keywords=[]), "dict": lambda: ast.Dict(keys=[None], values=[t])}[k]()
    want = clone(t)
    S.note(lambda: show(want))
    top = quo.finish(S, quo.expander(S), quo.at(quo.sub("q", t)), "eval")
    judge(S, quo.run(S, top, quo.env(S)), want, "q[]")
    S.reach("done")


KINDS = {"int", "bool", "str", "kindstr", "Name", "arg", "attr", "keyword", "FunctionDef", "ClassDef", "alias", "asname", "module", "level",
         "global", "nonlocal2", "MatchAs", "MatchStar", "rest", "kwd_attrs", "ExceptHandler", "type_comment", "conversion", "missing", "locations"}
HARNESSES = [
    H("expr", h_expr, "q[] of every expression", dict(gram=GE), dict(gram=GE3), reach={"done"}),
    H("stmt", h_suite, "with q of every statement", dict(gram=GS), dict(gram=GS3), reach={"done"}),
    H("suite", h_suite, "with q of several statements", dict(gram=G.grammar(stmt=[S2, G.STMT_LEAF]), many=3), dict(gram=G.grammar(stmt=[S2, S2, G.STMT_LEAF]), many=3), reach={"done"}),
    H("counts", h_suite, "with q of any number of items in each list", dict(gram=None, many=1), dict(gram=None, many=2), reach={"done"}),
    H("values", h_values, "identifiers, numbers and strings", dict(n=2, lo=-10**6), dict(n=5, lo=-10**30), reach=KINDS),
    H("path", h_tall, "long paths", dict(depth=5), dict(depth=8), reach={"done"}),
]
