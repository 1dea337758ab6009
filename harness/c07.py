"""C07: unparse."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone, counted, COUNTED

GE = G.grammar(expr=[G.EXPR_ALL, G.EXPR_ALL, G.EXPR_ONE], focus=True)
GE3 = G.grammar(expr=[G.EXPR_ALL, G.EXPR_SHORT, G.EXPR_ALL, G.EXPR_ONE], focus=True)
GS = G.grammar(stmt=[G.STMT_ALL, G.STMT_ALL, G.STMT_ONE], expr=[G.EXPR_ALL, G.EXPR_ALL, G.EXPR_ONE],
               target=[G.TARGET_ALL, G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_ALL, G.DEL_LEAF],
               pattern=[G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
GS3 = G.grammar(stmt=[G.STMT_SHORT, G.STMT_ALL, G.STMT_ALL, G.STMT_ONE], expr=[G.EXPR_ALL, G.EXPR_ALL, G.EXPR_ALL, G.EXPR_ONE],
                target=[G.TARGET_ALL, G.TARGET_ALL, G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_ALL, G.DEL_ALL, G.DEL_LEAF],
                pattern=[G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
# two statements next to each other (blank lines, else/elif, decorators, docstring positions)
PAIR = G.shapes("stmt", ["if v0:\n S0\n S1", "def f():\n S0\n S1", "class C:\n S0\n S1", "try:\n S0\nexcept:\n S1", "if v0:\n S0\nelse:\n S1",
                         "try:\n S0\nfinally:\n S1", "for v0 in v1:\n S0\nelse:\n S1", "while v0:\n S0\nelse:\n S1", "match v0:\n case 1:\n  S0\n case _:\n  S1",
                         "async def f():\n S0\n S1", "with v0:\n S0\n S1", "try:\n S0\nexcept* v0:\n S1",
                         "try:\n pass\nexcept v0:\n S0\nexcept v1:\n S1", "try:\n S0\nexcept* v0:\n S1\nexcept* v1:\n S0", "if v0:\n S0\nelif v1:\n S1\nelse:\n S0\n S1",
                         "match v0:\n case v1:\n  S0\n  S1\n case v0:\n  S0"])
INNER = G.shapes("stmt", G.STMT_REP + ["try:\n v0\nexcept* v1:\n pass", "try:\n v0\nexcept v1:\n pass\nexcept v0: v1", "if v0: v1\nelse:\n v0\n v1", "match v0:\n case 1 | 2 if v1: v0"])
GP = G.grammar(stmt=[PAIR, INNER, G.STMT_ONE], expr=[[G.EXPR_ONE[0], G.C("doc\n\"\"\"'\\")]],
               target=[G.TARGET_LEAF], dele=[G.DEL_LEAF], pattern=[G.PATTERN_LEAF])
GM = G.grammar(stmt=[G.shapes("stmt", G.STMT_REP), G.STMT_ONE], expr=[G.EXPR_STRUCT, G.EXPR_ONE], target=[G.TARGET_LEAF], dele=[G.DEL_LEAF], pattern=[G.PATTERN_LEAF])
# several expressions next to each other
MANY = G.shapes("expr", ["E0 or E1 or E2", "E0 < E1 is not E2 in E0", "v0(E0, *E1, v1, k0=E2, **E0, k1=v0)", "{v0: E0, **E1, E2: v1}", "{E0, *E1, v0}", "[E0, *E1]", "(E0, v0, *E1)",
                         "v0[E0:E1:E2]", "v0[E0, E1:, *E2]", "lambda v0, v1=E0, /, v2=E1, *k0, k1, k2=E2, **k3: E0", "[E0 for v0 in E1 if E2 if v1 async for v1 in E0]",
                         "{E0: E1 for v0 in E2}", "E0 if E1 else E2", "f'a{E0}b{E1!r:c{E2}}'", "f'{E0:{E1}{E2}}{E0}'", "(v0 := E0)[E1].k0(E2)", "-E0 ** -E1 @ E2"])
PART = ["v0", "(v0, v1)", "{v0: v1}.k0", "lambda v0: v1", "(yield)", "f'{v0}\\'{v1:x}'"]
PART_T = PART + ["v0 if v1 else v2", "not v0", "(v0 := v1)", "{v0 for v0 in v1}", "-1", "await v0"]
GMANY = G.grammar(expr=[MANY, G.shapes("expr", PART), G.EXPR_ONE])
GMANYT = G.grammar(expr=[MANY, G.shapes("expr", PART_T), G.EXPR_ONE])
ALPHA = "{}'\"\\\na\x00\u00e9"
BOUNDS = {"quick": "every expression form (169, incl. every operator and constant kind) holding every expression form; every statement form (95) holding every statement, expression (one level), target, del target and pattern form (two levels); pairs of statements in one body, in two handlers, in two cases; up to four of 6 expressions next to each other; up to 2 (in some 3) items of any kind in each list of 23 constructs (parameters, arguments, bases, targets, handlers, patterns...); f-string texts and string, bytes and docstring constants of up to 2 characters out of 8 awkward ones",
          "thorough": "as quick with one more level of expressions and statements; strings of up to 4 characters"}
OUTSIDE = "deeper nesting; other constants than the 29 listed kinds; type comments; the func_type parser mode"
ASSUMPTIONS = ["ast.parse of the running Python (3.12) is the reference"]


def roundtrip(S, tree, mode="exec"):
    S.note(lambda: ast.dump(tree))
    nodes.force(tree)
    saved = clone(tree)
    if mode == "eval":
        src = S.m.unparser.unparse(tree)
        try:
            got = ast.parse(src.lstrip("\n"), mode="eval").body
        except SyntaxError as e:
            S.fail(f"unparsed to invalid code: {src!r}: {e}")
    else:
        src = S.m.unparser.unparse(tree)
        try:
            got = ast.parse(src).body
        except SyntaxError as e:
            S.fail(f"unparsed to invalid code: {src!r}: {e}")
    S.same(got, saved, f"unparsed to {src!r}")
    S.same(tree, saved, "the tree was modified")


def h_expr(S, gram):
    t = S.expr("t", gram)
    roundtrip(S, t, "eval")
    S.reach("done")


def h_stmt(S, gram):
    t = S.stmt("t", gram)
    roundtrip(S, [t])
    S.reach("done")


def h_counts(S, most):
    """Any number of items, in each of the lists of the syntax."""
    kind, tree = counted(S, most)
    roundtrip(S, tree)
    S.reach(kind)


def h_root(S):
    kind = S.pick("kind", ["Module", "Interactive", "Expression"])
    if kind == "Expression":
        e = nodes.force(S.expr("t", GM))
        saved = clone(e)
        src = S.m.unparser.unparse(ast.Expression(body=e))
        S.note(src)
        S.same(ast.parse(src.lstrip("\n"), mode="eval").body, saved, f"unparsed to {src!r}")
    else:
        n = S.pick("n", [0, 1, 2] if kind == "Module" else [1])
        body = [nodes.force(S.stmt(f"s{i}", GM)) for i in range(n)]
        saved = clone(body)
        src = S.m.unparser.unparse(ast.Module(body=body, type_ignores=[]) if kind == "Module" else ast.Interactive(body=body))
        S.note(src)
        S.same(ast.parse(src).body, saved, f"unparsed to {src!r}")
    S.reach(kind)


def h_text(S, lengths):
    """Text with any characters: constants, f-string parts, format specs, docstrings, patterns."""
    s = S.str("s", lengths, ALPHA)
    s = str(s)
    form = S.pick("form", ["const", "bytes", "fstr", "fstr2", "spec", "nested", "doc", "fdoc", "pattern", "key", "u"])
    v = ast.Name(id="x", ctx=ast.Load())
    def c(x):
        return [ast.Constant(value=x)] if x else []
    def fv(x, spec=None):
        return ast.FormattedValue(value=x, conversion=-1, format_spec=spec)
    if form == "const":
        e = ast.Constant(value=s)
    elif form == "u":
        e = ast.Constant(value=s, kind="u")
    elif form == "bytes":
        e = ast.Constant(value=s.encode("latin-1"))
    elif form == "fstr":
        e = ast.JoinedStr(values=c(s) + [fv(v)])
    elif form == "fstr2":
        e = ast.JoinedStr(values=[fv(v)] + c(s) + [fv(v)])
    elif form == "spec":
        # (the parser puts an empty constant behind a last replacement field)
        e = ast.JoinedStr(values=[fv(v, ast.JoinedStr(values=c(s) + [fv(v), ast.Constant(value="")]))])
    elif form == "nested":
        e = ast.JoinedStr(values=[fv(ast.JoinedStr(values=[fv(ast.Constant(value=s))] + c(s)))])
    elif form == "doc":
        e = None
        t = [ast.FunctionDef(name="f", args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                             body=[ast.Expr(value=ast.Constant(value=s))], decorator_list=[], returns=None, type_params=[])]
    elif form == "fdoc":
        e = None
        t = [ast.Expr(value=ast.Constant(value=s)), ast.Expr(value=ast.Constant(value=s))]
    elif form == "pattern":
        e = None
        t = [ast.Match(subject=v, cases=[ast.match_case(pattern=ast.MatchValue(value=ast.Constant(value=s)), guard=None, body=[ast.Pass()])])]
    else:
        e = ast.Subscript(value=v, slice=ast.Constant(value=s), ctx=ast.Load())
    if form == "spec" and not expressible(e, s):
        S.reach("inexpressible")
        return
    if e is not None:
        roundtrip(S, e, "eval")
    else:
        roundtrip(S, t)
    S.reach(form)


def expressible(e, s):
    """Does some source text parse to this f-string? (Not every text can occur in a format spec.)"""
    src = "f'{x:" + "".join(f"\\x{ord(ch):02x}" for ch in s) + "{x}}'"
    try:
        return nodes.same(ast.parse(src, mode="eval").body, e)
    except SyntaxError:
        return False


HARNESSES = [
    H("expr", h_expr, "expressions parse back to the same tree", dict(gram=GE), dict(gram=GE3), reach={"done"}),
    H("stmt", h_stmt, "statements parse back to the same tree", dict(gram=GS), dict(gram=GS3), reach={"done"}, weight=2),
    H("pair", h_stmt, "two statements in one body", dict(gram=GP), reach={"done"}),
    H("many", h_expr, "several expressions next to each other", dict(gram=GMANY), dict(gram=GMANYT), reach={"done"}),
    H("counts", h_counts, "any number of items in each list", dict(most=2), dict(most=3), reach=set(COUNTED)),
    H("root", h_root, "modules, interactive inputs, expressions", {}, reach={"Module", "Interactive", "Expression"}),
    H("text", h_text, "strings with awkward characters in every place for text", dict(lengths=[0, 1, 2]), dict(lengths=[0, 1, 2, 3, 4]),
      reach={"const", "bytes", "fstr", "fstr2", "spec", "nested", "doc", "fdoc", "pattern", "key", "u"}),
]
