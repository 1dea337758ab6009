"""C03: quote levels."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone
from . import quo

OPS1 = [f"{k}[E0]" for k in quo.OPS]
CHAIN = G.shapes("expr", OPS1 + ["m[E0]", "(E0, v1)", "v0"])
PAIR = G.shapes("expr", ["(E0, E1)", "q[(E0, E1)]", "q[E0]", "(E0, u[v1])"])
LEAF = G.shapes("expr", ["v0", "u[v0]", "a[v0]", "q[v0]"])
GC = G.grammar(expr=[CHAIN, CHAIN, CHAIN, CHAIN, LEAF], focus=True)
GC3 = G.grammar(expr=[CHAIN] * 6 + [LEAF], focus=True)
MID = G.shapes("expr", ["q[E0]", "u[E0]", "a[E0]", "v0"])
GP = G.grammar(expr=[PAIR, MID, MID, MID, G.shapes("expr", ["v0", "u[v0]"])])
GP3 = G.grammar(expr=[PAIR, MID + PAIR[:1], MID, MID, MID, G.shapes("expr", ["v0", "u[v0]"])])
E_IN = G.shapes("expr", ["q[E0]", "u[E0]", "a[E0]", "v0", "n[E0]"])
E_IN2 = G.shapes("expr", ["u[v0]", "a[v0]", "v0", "q[v0]"])
SB = G.shapes("stmt", ["with q as v0: S0", "with q: S0", "with a: S0", "with a as v0: S0", "E0", "if v0: S0", "with q as v0:\n S0\n S1", "with u: S0"])
SL = G.shapes("stmt", ["E0", "with a: v0"])
GS = G.grammar(stmt=[SB, SB, SB, SL], expr=[E_IN, E_IN2, G.EXPR_ONE], focus=True)
GS3 = G.grammar(stmt=[SB, SB, SB, SB, SL], expr=[E_IN, E_IN, E_IN2, G.EXPR_ONE], focus=True)
SWAP = {"q": "q", "u": "a", "a": "u", "n": "s", "s": "n", "t": "h", "h": "t"}
# an operator under several names: by two as-imports, or captured hygienically
ALIASES = {"q2": "q", "u2": "u", "a2": "a"}
GLOBALS = {"q_0123456789abcdef0123456789abcdef": "q", "u_0123456789abcdef0123456789abcdef": "u"}
AL = G.shapes("expr", [f"{k}[E0]" for k in ["q", "u", "a", *ALIASES, *GLOBALS]])
GA = G.grammar(expr=[AL, AL, AL, AL, LEAF[:2]], focus=True)
GA3 = G.grammar(expr=[AL] * 5 + [LEAF], focus=True)
BOUNDS = {"quick": "every chain of up to 4 of the seven operators, a macro invocation and a tuple, with one of four innermost forms; pairs of chains of up to 4 of q, u and a side by side; with q and with a nested in each other up to 4 deep, with expressions inside; operators under their own names or renamed by as-imports; every chain of up to 4 of q, u and a with each operator under several names at once (own, renamed, captured hygienically)",
          "thorough": "chains of up to 6; one level more elsewhere"}
OUTSIDE = "deeper nesting; with q and with a together with other with-items (documented not to work)"
ASSUMPTIONS = []


def value(S, nm, want):
    E = lambda: ast.Name(id="item", ctx=ast.Load())
    return {"value": lambda: 4, "any": lambda: 5, "source": lambda: S.pick(nm, ["x.y", 3]), "ast": E, "items": lambda: [E(), E()],
            "stmts": lambda: [ast.Expr(value=E())]}[want]()


def after(S, ex_args):
    """The next quotes must work as ever."""
    S.raises(S.m.core.MacroExpansionError, lambda: quo.finish(S, quo.expander(S), quo.at(quo.sub("u", ast.Name(id="x", ctx=ast.Load()))), "eval"), "u[] outside, afterwards")
    top = quo.finish(S, quo.expander(S), quo.at(quo.sub("q", quo.sub("u", ast.Name(id="x", ctx=ast.Load())))), "eval")
    r = quo.run(S, top, quo.env(S, x=7))
    S.check(type(r) is ast.Constant and r.value == 7, lambda: f"q[u[7]] afterwards: {show(r)}")


def h_levels(S, sort, gram, aliases=False):
    t = S.tree("t", sort, gram)
    renamed = not aliases and S.pick("renamed", [False, True])
    names = {v: k for k, v in SWAP.items()} if renamed else None
    if aliases:
        names = dict({k: k for k in quo.OPS}, **ALIASES, **GLOBALS)
        for k, v in GLOBALS.items():
            S.m.core.global_bindings[k] = getattr(S.m.quotes, v)
        try:
            return levels(S, t, sort, names, None, {k: getattr(S.m.quotes, v) for k, v in ALIASES.items()})
        finally:
            for k in GLOBALS:
                del S.m.core.global_bindings[k]
    levels(S, t, sort, names, names and {v: k for k, v in names.items()}, {})


def levels(S, t, sort, names, bound_as, more):
    renamed = names
    nodes.force(t)
    S.note(lambda: (show(t), renamed))
    saved = clone(t)
    sem = quo.Sem(S, lambda nm, want: value(S, nm, want), names=names, identity=("m",))
    def m(tree, **kw):
        return tree
    ex = quo.expander(S, {"m": m, **more}, bound_as)
    block = sort == "stmt"
    quo.at(t)
    try:
        sem.levels([saved] if block else saved, 0)
    except quo.Reject as e:
        err = S.raises(Exception, lambda: quo.finish(S, ex, [t] if block else t, "exec" if block else "eval"), e.why)
        S.reach("rejected at expansion")
        if "outside a quote" in e.why:
            S.check(isinstance(err, S.m.core.MacroExpansionError), lambda: f"{e.why}: {err!r}")
            S.reach("level 0")
        return after(S, None)
    sem.rejects = []
    results = {}
    try:
        if block:
            run_block(sem, [saved], results)
        else:
            results = sem.code(saved, "any")
        if sem.rejects:
            raise sem.rejects[0]
        rejected = None
    except quo.Reject as e:
        rejected = e
    top = quo.finish(S, ex, [t] if block else t, "exec" if block else "eval")
    env = quo.env(S, **sem.env)
    if rejected:
        S.raises(Exception, lambda: quo.run(S, top, env), rejected.why)
        S.reach("rejected at run time")
        return after(S, None)
    r = quo.run(S, top, env)
    if block:
        for k, w in results.items():
            quo.compare(S, env.get(k), w, env, k)
            S.reach("block")
    else:
        quo.same_value(S, r, results, "value", env)
    for d in range(depth_of(saved, sem.names)):
        S.reach(f"{d + 1} levels of quotes")
    after(S, None)


def run_block(sem, body, out):
    for x in body:
        op, syntax = quo.op_of(x, sem.names)
        if op == "q":
            out[x.items[0].optional_vars.id] = sem.value(x.body)
        elif type(x) is ast.Expr:
            sem.code(x.value, "any")
        elif type(x) is ast.If:
            sem.env[x.test.id] = True
            run_block(sem, x.body, out)
        else:
            raise AssertionError(ast.dump(x))


def depth_of(t, names):
    if isinstance(t, list):
        return max([depth_of(x, names) for x in t], default=0)
    if not isinstance(t, ast.AST):
        return 0
    d = max([depth_of(v, names) for v in t.__dict__.values()], default=0)
    return d + 1 if quo.op_of(t, names)[0] == "q" else d


R = {"rejected at expansion", "level 0", "rejected at run time", "1 levels of quotes", "2 levels of quotes", "3 levels of quotes"}
HARNESSES = [
    H("chain", h_levels, "chains of operators", dict(sort="expr", gram=GC), dict(sort="expr", gram=GC3), reach=R),
    H("aliases", h_levels, "operators under several names", dict(sort="expr", gram=GA, aliases=True), dict(sort="expr", gram=GA3, aliases=True), reach=R - {"rejected at run time"}),
    H("pairs", h_levels, "chains side by side", dict(sort="expr", gram=GP), dict(sort="expr", gram=GP3), reach=R - {"rejected at run time"}),
    H("blocks", h_levels, "block quotes", dict(sort="stmt", gram=GS), dict(sort="stmt", gram=GS3), reach=(R | {"block"}) - {"rejected at run time"}),
]
