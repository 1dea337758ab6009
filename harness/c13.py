"""C13: reports of failing macros."""
import ast
import re
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show
from .exp import Model, Recorder, lclone
from .c10 import locator, fill

EF = ["m[E0]", "w[E0]", "x[E0]", "x[v0, v1][E0]", "i", "(m[v0], E0)", "f(E0, k=x[E1])", "m[v0][E0]", "v0", "i[E0]"]
E_ALL = G.shapes("expr", EF)
E_MID = G.shapes("expr", ["m[E0]", "w[E0]", "x[E0]", "i", "(v0, m[E0])", "x[v0][E0]"])
E_LEAF = G.shapes("expr", ["w[v0]", "x[v0]", "i"])
S1 = G.shapes("stmt", ["v0"])
SLEAF = G.shapes("stmt", ["v0", "with w: v0", "x[v0]", "@x\ndef f(): v0"])
S_ALL = G.shapes("stmt", ["with m: S0", "with m as v0: S0", "with w: S0", "with m, w: S0", "with v0, x, m:\n S0\n S1", "@m\ndef f(): S0", "@w\n@m\nclass C: S0", "@v0\n@m\n@x\nasync def f(): S0", "E0", "if v0:\n S0\nelse:\n S1", "with m[v0]:\n i\n S0"])
S_MID = G.shapes("stmt", ["with m: S0", "with w: S0", "@x\ndef f(): S0", "@m\nclass C: S0", "E0"])
GE = G.grammar(expr=[E_ALL, E_MID, E_LEAF], stmt=[S1], focus=True)
GET = G.grammar(expr=[E_ALL, E_ALL, E_LEAF], stmt=[S1])
GS = G.grammar(expr=[E_LEAF], stmt=[S_ALL, S_MID, SLEAF, S1], focus=True)
GST = G.grammar(expr=[E_LEAF], stmt=[S_ALL, S_MID, SLEAF, S1])
VISITS = ["visit", "visit_once", "visit_recursively"]
MB = VISITS + ["keep", "handle", "twice"]
WB = ["visit", "keep", "raise:ValueError", "raise:Custom"]
RAISE = ["ValueError", "SyntaxError", "Custom", "Falsy", "KeyError", "StopIteration", "MacroExpansionError", "MacroApplicationError", "Chained"]
BAD = ["int", "zero", "str", "class", "list:int", "list:mixed", "list:nested", "generator:raises", "object", "function", "bool"]
GOOD = ["node", "list", "tuple", "generator", "empty", "emptygen", "none", "iter", "fresh"]
XB = [f"raise:{k}" for k in RAISE] + [f"bad:{k}" for k in BAD] + [f"good:{k}" for k in GOOD]
IB = ["keep", "raise:ValueError", "bad:int", "rec_x"]
BOUNDS = {"quick": f"macros m ({len(MB)} behaviours: expand the code inside in one of three ways, keep it, catch errors of inner macros, or catch and raise another error), w ({len(WB)}), x ({len(RAISE)} kinds of exception, {len(BAD)} kinds of invalid return value, {len(GOOD)} kinds of valid return value) and an identifier macro i ({len(IB)}), invoked in {len(EF)} expression forms over 2 further levels and {len(S_ALL)} statement forms over 2 further levels; every node at its own line",
          "thorough": "as quick, with all holes of a form nested at the same time and more forms inside"}
OUTSIDE = "deeper nesting; exceptions that are not subclasses of Exception"
ASSUMPTIONS = ["an iterable whose iteration fails is an invalid return value (its exception need not be the cause)",
               "a macro that fails while the expander expands the output of a macro that already returned is not nested in the latter"]


class Fails(Exception):
    def __init__(self, cause, site):
        self.cause, self.sites = cause, [site]


class Custom(Exception):
    def __init__(self, a, b):
        self.a, self.b = a, b

class Falsy(Exception):
    def __len__(self):
        return 0


def make_exception(kind, m):
    if kind == "Custom":
        return Custom(1, 2)
    if kind == "Falsy":
        return Falsy("nothing")
    if kind in ("MacroExpansionError", "MacroApplicationError"):
        return getattr(m.core, kind)("from a macro")
    if kind == "Chained":
        e = RuntimeError("two\nlines")
        e.__cause__ = OSError("inner")
        return e
    return {"ValueError": ValueError, "SyntaxError": SyntaxError, "KeyError": KeyError, "StopIteration": StopIteration}[kind]("reason")


def bad_value(kind, node):
    def raises():
        yield node
        raise ValueError("in a generator")
    return {"int": 42, "zero": 0, "str": "ab", "class": ast.Name, "list:int": [1], "list:mixed": [node, None], "list:nested": [[node]],
            "generator:raises": raises(), "object": object(), "function": make_exception, "bool": True}[kind]


def good_value(kind, t):
    """`t`: a list of nodes."""
    return {"node": t[0], "list": t, "tuple": tuple(t), "generator": (x for x in t), "empty": [], "emptygen": iter(()), "none": None, "iter": iter(t),
            "fresh": [ast.copy_location(ast.Expr(value=ast.Name(id="fresh")), t[0])] if isinstance(t[0], ast.stmt) else ast.Name(id="fresh")}[kind]


class M(Model):
    visit_once = Model.once
    visit_recursively = Model.rec
    def run(self, inv):
        r = self.apply(self, inv)
        return None if r is None else fill(r, inv.whole)


def h_report(S, sort, gram):
    tree = S.tree("t", sort, gram, locate=locator())
    decls = {"m": "parametric", "w": "plain", "x": "parametric", "i": "name"}
    ch = {}
    def choice(nm):
        if nm not in ch:
            ch[nm] = S.pick(nm, {"m": MB, "w": WB, "x": XB, "i": IB}[nm])
        return ch[nm]
    S.note(lambda: (ch, show(nodes.force(lclone(tree)))))
    def aslist(t):
        return t if isinstance(t, list) else [t]

    def apply(model, inv):
        b = choice(inv.name)
        t = inv.tree
        site = (inv.syntax, inv.name, inv.whole.lineno)
        kind, _, arg = b.partition(":")
        if kind == "raise":
            raise Fails(("raise", inv.name), site)
        if kind == "bad":
            raise Fails(("bad", inv.name), site)
        if kind == "good":
            r = good_value(arg, aslist(t))
            return r if r is None or isinstance(r, ast.AST) else list(r) or None
        try:
            if kind in VISITS:
                return getattr(model, kind)(t)
            if kind == "rec_x":
                return model.visit_recursively(ast.copy_location(ast.Subscript(value=ast.Name(id="x"), slice=ast.Name(id="k")), t))
            if kind in ("handle", "twice"):
                try:
                    return model.visit_recursively(t)
                except Fails:
                    if kind == "twice":
                        raise Fails(("raise", inv.name), site)
                    return ast.Name(id="caught") if inv.syntax == "expr" else ast.Expr(value=ast.Name(id="caught"))
        except Fails as e:
            if e.sites[0] is not site:
                e.sites.insert(0, site)
            raise
        return t

    raised = []
    MEE = S.m.core.MacroExpansionError
    def real(nm, t, kw):
        ex = kw["expander"]
        b = choice(nm)
        kind, _, arg = b.partition(":")
        if kind == "raise":
            e = make_exception(arg, S.m)
            raised.append(e)
            raise e
        if kind == "bad":
            return bad_value(arg, aslist(t)[0])
        if kind == "good":
            return good_value(arg, aslist(t))
        if kind in VISITS:
            return getattr(ex, kind)(t)
        if kind == "rec_x":
            return ex.visit_recursively(ast.copy_location(ast.Subscript(value=ast.Name(id="x"), slice=ast.Name(id="k")), t))
        if kind in ("handle", "twice"):
            try:
                return ex.visit_recursively(t)
            except MEE:
                if kind == "twice":
                    e = RuntimeError("again")
                    raised.append(e)
                    raise e
                return ast.Name(id="caught") if kw["syntax"] == "expr" else ast.Expr(value=ast.Name(id="caught"))
        return t

    rec = Recorder(S, real)
    exp = rec.make(decls, "/nowhere/m.py")
    model = M(decls, apply)
    suite = sort == "stmt"
    def wrap(t):
        return [t] if suite else ast.copy_location(ast.Expr(value=t), t)
    want = None
    first = lclone(tree)
    nodes.resolve(tree)
    try:
        model.visit(wrap(first))
    except Fails as e:
        want = e
    t = wrap(tree)
    if want is None:
        exp.visit(t)
        for n, b in ch.items():
            S.reach(f"{n} {b}") if b[:4] == "good" else None
        return
    err = S.raises(S.m.core.MacroApplicationError, lambda: exp.visit(t), "a failing macro")
    how, name = want.cause
    if how == "raise":
        S.check(err.__cause__ is raised[-1], lambda: f"the cause is {err.__cause__!r}, not the exception that {name} raised, {raised[-1]!r}")
    msg = S.m.colorizer.ColorScheme and re.sub("\033\\[[0-9;]*m", "", str(err))
    got = re.findall(r"in (\w+) macro invocation for '(\w+)'", msg)
    S.check(got == [x[:2] for x in want.sites], lambda: f"sites reported: {got}, expected {want.sites}")
    at = 0
    for syntax, name, line in want.sites:
        i = msg.find(f"/nowhere/m.py:{line}:", at)
        j = msg.find(f"in {syntax} macro invocation for '{name}'", at)
        S.check(0 <= i < j, lambda: f"line {line} of {syntax} {name} is not reported before it:\n{msg}")
        at = j + 1
    S.check(len(re.findall(r"/nowhere/m\.py:\d+:", msg)) == len(want.sites), lambda: f"other locations in the report:\n{msg}")
    first = msg.strip().split("\n")[0]
    S.check(len(want.sites) < 2 or msg.split("\n").count(first) == 1, lambda: f"several reports in one:\n{msg}")
    S.reach(f"{len(want.sites)} sites")
    S.reach(f"{want.sites[-1][1]} {choice(want.sites[-1][1])}")
    for s in want.sites:
        S.reach(s[0])


ALL = {f"x {b}" for b in XB} | {"1 sites", "2 sites", "3 sites", "w raise:ValueError", "m twice"}
HARNESSES = [
    H("expr", h_report, "expression and identifier macros", dict(sort="expr", gram=GE), dict(sort="expr", gram=GET), reach=ALL | {"expr", "name", "i raise:ValueError", "i bad:int"}),
    H("stmt", h_report, "block and decorator macros", dict(sort="stmt", gram=GS), dict(sort="stmt", gram=GST), reach=ALL | {"block", "decorator"}),
]
