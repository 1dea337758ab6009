"""C02: unquotes."""
import ast
import collections
import enum
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone
from . import quo

UN = ["u[v0]", "n[v0]", "a[v0]", "s[v0]", "t[v0]"]
U_ALL = G.shapes("expr", UN)
U_A = G.shapes("expr", ["a[v0]"])
U_TWO = G.shapes("expr", ["a[v0]", "n[v0]", "v0"])
# every form that has a place for an expression, holding every unquote
GE = G.grammar(expr=[[s for s in G.EXPR_STRUCT if s.holes], U_ALL])
GE2 = G.grammar(expr=[G.shapes("expr", G.EXPR_REP), [s for s in G.EXPR_STRUCT if s.holes], U_A], focus=True)
GE3 = G.grammar(expr=[[s for s in G.EXPR_STRUCT if s.holes], [s for s in G.EXPR_STRUCT if s.holes], U_ALL], focus=True)
T_U = G.shapes("target", ["n[v0]", "a[v0]"])
HOLED = [s for s in G.STMT_ALL if s.holes]
SBLK = G.shapes("stmt", ["with a: v0", "with a:\n v0\n v1", "a[v0]", "v0 = u[v1]", "v0"])
GS = G.grammar(stmt=[HOLED + SBLK, SBLK, G.STMT_ONE], expr=[U_A], target=[G.TARGET_ALL + T_U, T_U], dele=[G.DEL_ALL + G.shapes("del", ["a[v0]"]), G.shapes("del", ["n[v0]"])], focus=True)
GS3 = G.grammar(stmt=[G.STMT_SHORT + SBLK, HOLED + SBLK, SBLK, G.STMT_ONE], expr=[G.EXPR_STRUCT, U_A], target=[G.TARGET_ALL + T_U, T_U], dele=[G.DEL_ALL + G.shapes("del", ["a[v0]"]), G.shapes("del", ["n[v0]"])], focus=True)
# several in one list
LISTS = G.shapes("expr", ["f(E0, v0, E1, *E2, k=v1)", "[E0, E1, E2]", "(E0, v0, E1)", "{E0, E1}", "{v0: E0, E1: v1}", "v0 < E0 < E1", "E0 or E1", "[v0 for v1 in v2 if E0 if E1]", "[f(E0), E1]"])
GL = G.grammar(expr=[LISTS, U_TWO])
LS = G.shapes("stmt", ["if v0:\n S0\n S1\nelse:\n S2", "def f():\n S0\n with a: v0\n S1", "with v0:\n S0\n S1", "try:\n S0\n S1\nexcept:\n S2\nfinally:\n S0", "for v0 in v1:\n S0\n S1"])
LL = G.shapes("stmt", ["with a: v0", "with a:\n v0\n v1", "v0", "if v0:\n with a: v1"])
GLS = G.grammar(stmt=[LS, LL])

VALUES = ["int", "str", "bool", "none", "ellipsis", "bytes", "float", "negzero", "complex", "list", "tuple", "dict", "set", "emptylist", "emptytuple", "emptydict", "emptyset", "nested", "ast"]
SOURCES = ["kitty", "self.x", "a[1].b[2]", "1 + 2", "f(x, *y)", "\u00e9", "bad:", "", "x y", "notstr", "bytes"]
ASTS = ["node", "empty", "one", "three", "nested", "tuple", "marker", "marker_list", "listmarker", "bad_stmt", "bad_int", "bad_none", "bad_str", "bad_list", "bad_marker", "bad_markersuite", "bad_module", "bad_deep"]
BOUNDS = {"quick": f"every expression form holding the five operators in every place, every statement form (95) with `a[]`, `with a` or `n[]` in every place; 3 list positions side by side; values: {len(VALUES)} kinds (any integer, strings of up to 2 characters, containers two levels deep), {len(SOURCES)} source texts, {len(ASTS)} kinds of things given to a, s, t (0 to 3 nodes, nested lists, tuples, markers, wrong kinds); values of 15 kinds that are no literals, alone and in containers",
          "thorough": "as quick with one more level of forms around"}
OUTSIDE = "deeper nesting (the level of quotes is the subject of C03); h[] (C04, C05)"
ASSUMPTIONS = ["None in a list of nodes stands for no node",
               "a list given where the syntax tree holds exactly one node is refused in some way"]


def name(i, n="item"):
    return ast.Name(id=f"{n}{i}", ctx=ast.Load())


def make(S, nm, want, kinds):
    """A value for the variable `nm`."""
    m = S.m
    if want == "value":
        k = S.pick(nm, kinds or VALUES)
        S.reach(f"value {k}")
        i = lambda j="": S.int(f"{nm}.i{j}", -10**6, 10**6)
        return {"int": lambda: i(), "str": lambda: S.str(nm + ".s", range(3), "a'\\\n"), "bool": lambda: S.pick(nm + ".b", [True, False]), "none": lambda: None, "ellipsis": lambda: ...,
                "bytes": lambda: b"a\x00'", "float": lambda: 1e400, "negzero": lambda: -0.0, "complex": lambda: -2j + 1,
                "list": lambda: [i(), "a"], "tuple": lambda: (i(), None), "dict": lambda: {2: [i(2)], "k": i(), "b": ()}, "set": lambda: {1}, "emptyset": lambda: set(), "emptylist": lambda: [], "emptytuple": lambda: (), "emptydict": lambda: {},
                "nested": lambda: [(i(), {"a": {3}}), [], [[i(2)]]], "ast": lambda: ast.BinOp(left=name(1), op=ast.Add(), right=ast.Constant(value=[1], kind=None))}[k]()
    if want == "source":
        k = S.pick(nm, SOURCES if not kinds else kinds)
        S.reach(f"source {k}")
        return {"notstr": 3, "bytes": b"x"}.get(k, k)
    k = S.pick(nm, kinds or ASTS)
    S.reach(f"{want} {k}")
    stmt = want == "stmts"
    mk = (lambda i: ast.Expr(value=name(i))) if stmt else name
    D = m.core.Done
    bad = name(9) if stmt else ast.Pass()
    return {"node": lambda: mk(0), "empty": lambda: [], "one": lambda: [mk(0)], "three": lambda: [mk(0), mk(1), mk(2)], "nested": lambda: [mk(0), [mk(1), []], mk(2)],
            "tuple": lambda: (mk(0), mk(1)), "marker": lambda: D(mk(0)), "marker_list": lambda: D([mk(0), mk(1)]), "listmarker": lambda: [D(mk(0)), mk(1)],
            "bad_stmt": lambda: bad, "bad_int": lambda: 1, "bad_none": lambda: None, "bad_str": lambda: "ab", "bad_list": lambda: [mk(0), bad], "bad_marker": lambda: D(bad), "bad_markersuite": lambda: D([mk(0), bad]),
            "bad_module": lambda: ast.Module(body=[], type_ignores=[]), "bad_deep": lambda: [[mk(0), [2]]]}[k]()


def h_splice(S, sort, gram, kinds=True):
    t = S.tree("t", sort, gram)
    nodes.force(t)
    first = []
    def operand(nm, want):
        full = kinds and not first
        first.append(nm)
        return make(S, nm, want, None if full else {"value": ["int", "list"], "source": ["kitty", "1 + 2"], "ast": ["node", "three"], "items": ["three", "empty"], "stmts": ["node", "three", "empty"]}[want])
    sem = quo.Sem(S, operand)
    S.note(lambda: (show(t), sem.env))
    block = sort == "stmt"
    saved = clone(t)
    sem.levels([saved] if block else saved, 1)
    try:
        # unquotes are evaluated from left to right, and before the list they are part of is spliced
        want = sem.value([saved] if block else saved)
    except quo.Reject as e:
        want = e
    ex = quo.expander(S)
    if block:
        top = quo.finish(S, ex, [quo.at(quo.blk("q", [t], "quoted"))], "exec")
    else:
        top = quo.finish(S, ex, quo.at(quo.sub("q", t)), "eval")
    env = quo.env(S, **sem.env)
    if isinstance(want, quo.Reject):
        # several things may be wrong; the first one found is reported
        exc = want.exc if want.exc and len(sem.env) == 1 else Exception
        S.raises(exc, lambda: quo.run(S, top, env), want.why)
        S.reach("rejected")
        return
    r = quo.run(S, top, env)
    got = r["quoted"] if block else r
    quo.compare(S, got, want, env, "quote")
    S.reach("spliced")


class Num(int):
    pass


class Real(float):
    pass


class Text(str):
    pass


class Raw(bytes):
    pass


Pair = collections.namedtuple("Pair", "a b")
Color = enum.IntEnum("Color", "RED")
# kinds of values that are like the supported ones, but are not
OTHERS = {"int": Num(3), "str": Text("a"), "bytes": Raw(b"a"), "float": Real(2.5), "namedtuple": Pair(1, 2), "enum": Color.RED, "OrderedDict": collections.OrderedDict(a=1), "defaultdict": collections.defaultdict(int, a=1),
          "frozenset": frozenset({1}), "bytearray": bytearray(b"a"), "range": range(2), "object": object(), "function": len, "class": int, "module": ast}
PLACES = {"alone": lambda x: x, "list": lambda x: [1, x], "tuple": lambda x: (x,), "value": lambda x: {"k": 1, "v": x}, "key": lambda x: {x: 1}, "set": lambda x: {x}, "deep": lambda x: [({"k": [x]}, 2)]}


def same_deep(a, b):
    """Equal, and of equal types."""
    if type(a) is not type(b) or a != b:
        return False
    if isinstance(a, (list, tuple)):
        return all(same_deep(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return all(same_deep(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, (set, frozenset)):
        return {(type(x), x) for x in a} == {(type(x), x) for x in b}
    return True


def h_others(S):
    """A value is spliced as that value or refused; never as another one."""
    kind, place = S.pick("kind", list(OTHERS)), S.pick("place", list(PLACES))
    if place in ("key", "set") and type(OTHERS[kind]).__hash__ is None:
        place = "list"
    v = PLACES[place](OTHERS[kind])
    S.note(lambda: (kind, place))
    top = quo.finish(S, quo.expander(S), quo.at(quo.sub("q", quo.sub("u", ast.Name(id="v0", ctx=ast.Load())))), "eval")
    try:
        r = quo.run(S, top, quo.env(S, v0=v))
    except TypeError:
        S.reach("refused")
        return
    S.check(isinstance(r, ast.AST), lambda: f"u[] of {v!r} gives {r!r}")
    got = quo.evaluate(S, r, quo.env(S))
    S.check(same_deep(got, v), lambda: f"u[] of {v!r} gives {show(r)}, which is {got!r}")


R = {f"value {k}" for k in VALUES} | {f"source {k}" for k in SOURCES} | {f"ast {k}" for k in ASTS} | {f"items {k}" for k in ASTS} | {"rejected", "spliced"}
RS = {f"stmts {k}" for k in ASTS} | {f"ast {k}" for k in ASTS} | {"rejected", "spliced"}
HARNESSES = [
    H("expr", h_splice, "unquotes in expressions", dict(sort="expr", gram=GE), dict(sort="expr", gram=GE3), reach=R),
    H("deep", h_splice, "lists of nodes deeper in expressions", dict(sort="expr", gram=GE2, kinds=False), dict(sort="expr", gram=GE2), reach={"ast node", "ast three", "spliced", "rejected"}),
    H("stmt", h_splice, "unquotes in statements", dict(sort="stmt", gram=GS), dict(sort="stmt", gram=GS3), reach=RS),
    H("lists", h_splice, "several unquotes in one list", dict(sort="expr", gram=GL, kinds=False), dict(sort="expr", gram=GL), reach={"spliced"}),
    H("others", h_others, "values of other kinds", reach={"refused"}),
    H("suites", h_splice, "several unquotes in statement suites", dict(sort="stmt", gram=GLS, kinds=False), dict(sort="stmt", gram=GLS), reach={"spliced"}),
]
