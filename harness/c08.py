"""C08: syntax highlighting and dumping."""
import ast
import re
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import clone, preorder, locate_all, counted

ANSI = re.compile("\x1b\\[[0-9;]*m")
NAMES = G.shapes("expr", ["v0", "print", "ValueError", "UserWarning", "self", "macro", "macro[v0]", "macro[v0][E0]"])
DECO = G.shapes("stmt", ["@v0\n@macro[E0]\ndef f(): S0", "@macro\n@E0\nclass C: S0", "with macro as v0, v1:\n S0\n S1", "with macro[E0]: S0", "class macro(print): S0",
                         "try:\n S0\nexcept ValueError as v1:\n macro", "def print(ValueError=E0): S0", "macro = v0", "del macro, print", "import macro as print",
                         "'''doc'''", "f'''a{E0:>{v0}}b'''"])
X = [G.C("\x1b[31mred"), G.C("a\nb"), G.C(b"\x1b[0m"), G.C(2.5), G.C(None), G.C("[x", None), G.C("u", "u"), G.C(1e400), G.C(-0.0), G.C(1e400j)]
GE = G.grammar(expr=[G.EXPR_ALL + X, G.EXPR_SHORT + NAMES[1:] + X, G.EXPR_ONE], focus=True)
GS = G.grammar(stmt=[G.STMT_ALL + DECO, G.STMT_SHORT + DECO, G.STMT_ONE], expr=[NAMES, NAMES + X, G.EXPR_ONE], focus=True,
               target=[G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_LEAF])
GST = G.grammar(stmt=[G.STMT_ALL + DECO, G.STMT_ALL + DECO, G.STMT_SHORT + DECO, G.STMT_ONE], expr=[NAMES, G.EXPR_SHORT + NAMES[1:] + X, NAMES, G.EXPR_ONE], focus=True,
                target=[G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_LEAF])
GET = G.grammar(expr=[G.EXPR_ALL + X, G.EXPR_ALL + NAMES[1:] + X, NAMES + X, G.EXPR_ONE], focus=True)
GD = G.grammar(expr=[G.EXPR_ALL + X, G.EXPR_LEAF + X, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_LEAF], target=[G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_LEAF],
               pattern=[G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
GDT = G.grammar(expr=[G.EXPR_ALL + X, G.EXPR_STRUCT + X, G.EXPR_LEAF], stmt=[G.STMT_ALL, G.STMT_ALL, G.STMT_LEAF], target=[G.TARGET_ALL, G.TARGET_LEAF],
                dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
BOUNDS = {"quick": "every expression and statement form over nested forms (two levels) with names of all highlighting classes (macros of every kind, builtins, exceptions, warnings), also inside markers and hygienic captures; every combination of debug, color, expander and of the dump options; with and without locations; up to 1 (in some 2) items of any kind in each list of 23 constructs",
          "thorough": "as quick, one level deeper"}
OUTSIDE = "deeper trees"
ASSUMPTIONS = ["`inf`, `infj` and `nan` are defined where a dump is evaluated", "identifiers contain no escape sequences"]


def strip(s):
    return ANSI.sub("", s)


def expander(m):
    def macro(tree, **kw):
        return tree
    macro = m.expander.namemacro(m.expander.parametricmacro(macro))
    return m.expander.MacroExpander({"macro": macro, "v0": macro, "f": macro}, "<test>")


def wrap(S, t, sort):
    """The tree alone, or in one of the invisible nodes."""
    Q = S.m.quotes
    k = S.pick("wrap", ["no", "list", "module", "done", "macro"] if sort == "stmt" else ["no", "done", "capture", "lift"])
    if k == "no":
        return t
    if k == "list":
        return [t, t]
    if k == "module":
        return ast.Module(body=[t], type_ignores=[])
    if k == "done":
        return S.m.core.Done(t if sort == "expr" else [t])
    if k == "lift":
        return Q.LiftSourcecode(t, "f.py")
    if k == "capture":
        c = Q.capture_value(42, "f.x[0]")
    else:
        func = clone(Q.capture_value(42, "f").func)
        func.attr = "lookup_macro"
        c = ast.Call(func, [ast.Tuple(elts=[ast.Constant(value="mac"), ast.Constant(value="mac_123"), ast.Constant(value=b"")])], [])
    if sort == "expr":
        return ast.BinOp(left=c, op=ast.Add(), right=t)
    return [ast.Expr(value=c), t]


def h_unparse(S, gram, sort):
    t = S.tree("t", sort, gram) if gram else counted(S, 1)[1][0]
    nodes.force(t)
    if S.pick("loc", [False, True]):
        locate_all(t)
    tree = wrap(S, t, sort)
    S.note(lambda: ast.dump(t))
    saved = clone(tree)
    U = S.m.unparser
    exp = expander(S.m)
    nondebug = U.unparse(tree)
    for debug in (False, True):
        plain = U.unparse(tree, debug=debug)
        for e in (None, exp):
            col = U.unparse(tree, debug=debug, color=True, expander=e)
            S.check(strip(col) == plain, lambda: f"debug={debug}, expander={e is not None}: colored {col!r} vs. plain {plain!r}")
            S.check("\x1b" not in plain, lambda: f"escape sequence in uncolored output {plain!r}")
            if e:
                S.check(U.unparse(tree, debug=debug, expander=e) == plain, "uncolored output depends on the expander")
            S.check(U.unparse_with_fallbacks(tree, debug=debug, color=True, expander=e) == col, "with fallbacks: same text")
            if col != plain:
                S.reach("colored")
    S.check(U.unparse(tree) == nondebug, "output depends on earlier calls")
    S.same(tree, saved, "the tree was modified", attrs=True)
    S.reach("done")


def env():
    d = {k: v for k, v in vars(ast).items() if isinstance(v, type)}
    d.update(inf=1e400, infj=complex(0, 1e400), nan=1e400 * 0, Ellipsis=...)
    return d


def h_dump(S, gram, sort):
    t = S.tree("t", sort, gram)
    nodes.force(t)
    k = S.pick("loc", ["no", "yes"])
    if k == "yes":
        locate_all(t)
    tree = S.pick("root", [t, [t, t], [], ast.Module(body=[t] if sort == "stmt" else [], type_ignores=[])])
    S.note(lambda: ast.dump(t))
    dump = S.m.astdumper.dump
    saved = clone(tree)
    for attrs in (False, True):
        for multi in (True, False):
            text = dump(tree, include_attributes=attrs, multiline=multi)
            col = dump(tree, include_attributes=attrs, multiline=multi, color=True)
            S.check(strip(col) == text, lambda: f"colored {col!r} vs. {text!r}")
            S.check("\x1b" not in text, lambda: f"escape sequence in uncolored dump {text!r}")
            S.check(multi or "\n" not in text, lambda: f"not a single line: {text!r}")
            try:
                got = eval(text, env())
            except Exception as e:
                S.fail(f"dump does not evaluate: {text!r}: {e}")
            S.same(got, saved, f"dump {text!r}")
            if attrs and k == "yes":
                S.same(got, saved, "attributes in the dump", attrs=True)
            elif attrs:
                for n in preorder(got):
                    for a in n._attributes:
                        S.check(getattr(n, a, None) is None, lambda: f"{type(n).__name__}.{a} in the dump: {text!r}")
    S.same(tree, saved, "the tree was modified", attrs=True)
    for bad in (None, "x", 1, (t,)):
        S.raises(TypeError, lambda: dump(bad), "dump of something that is not a tree")
    S.reach("done")


HARNESSES = [
    H("expr", h_unparse, "expressions in color", dict(gram=GE, sort="expr"), dict(gram=GET, sort="expr"), reach={"done", "colored"}),
    H("stmt", h_unparse, "statements in color", dict(gram=GS, sort="stmt"), dict(gram=GST, sort="stmt"), reach={"done", "colored"}),
    H("counts", h_unparse, "any number of items in each list, in color", dict(gram=None, sort="stmt"), dict(gram=None, sort="stmt"), reach={"done", "colored"}),
    H("dump_expr", h_dump, "dumps of expressions", dict(gram=GD, sort="expr"), dict(gram=GDT, sort="expr"), reach={"done"}, weight=0.5),
    H("dump_stmt", h_dump, "dumps of statements", dict(gram=GD, sort="stmt"), dict(gram=GDT, sort="stmt"), reach={"done"}, weight=0.5),
]
