"""C30: macros that expand macros."""
import ast
import contextlib
import io
import pickle
import re
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone, preorder
from . import quo

LOG = []
def N(id):
    return ast.Name(id=id, ctx=ast.Load())
def call(f, *args):
    return ast.Call(func=N(f), args=list(args), keywords=[])
def inv(m, tree):
    return quo.sub(m, tree)

# ---- macros (of a module, so that they can be pickled) ---------------------------------------
def m1(tree, *, syntax, **kw):
    LOG.append(("m1", syntax))
    if syntax == "block":
        return tree + [ast.Expr(value=call("after"))]
    if syntax == "decorator":
        return [tree, ast.Expr(value=inv("m2", N("y")))]
    return call("f", tree)
def m2(tree, *, syntax, **kw):
    LOG.append(("m2", syntax))
    if syntax == "block":
        return [ast.Expr(value=inv("m1", N("y")))] + tree
    if syntax == "decorator":
        return None
    return inv("m1", call("g", tree))
def m3(tree, *, syntax, expander, **kw):
    """Inside-out."""
    LOG.append(("m3", syntax))
    r = expander.visit(tree)
    return r if syntax != "expr" else ast.Tuple(elts=[r, inv("m1", N("z"))], ctx=ast.Load())
def m4(tree, *, expander, **kw):
    """One layer, whatever the mode."""
    LOG.append(("m4",))
    return call("once", expander.visit_once(tree).body)
def m5(tree, *, expander, **kw):
    LOG.append(("m5",))
    return call("now", expander.visit_recursively(tree))
def pm(tree, *, args, **kw):
    LOG.append(("pm", len(args)))
    return call("p", *args, tree)
def nm(tree, **kw):
    LOG.append(("nm",))
    return inv("m1", N("w"))
def n2(tree, **kw):
    LOG.append(("n2",))
    return tree
def other(tree, **kw):
    LOG.append(("other",))
    return call("other", tree) if isinstance(tree, ast.AST) else tree + [ast.Pass()]
def other2(tree, **kw):
    LOG.append(("other2",))
    return call("other2", tree) if isinstance(tree, ast.AST) else tree

def declare(S):
    LOG.clear()
    S.m.expander.parametricmacro(pm)
    S.m.expander.namemacro(nm)
    S.m.expander.namemacro(n2)

MACROS = {"m1": m1, "m2": m2, "m3": m3, "m4": m4, "m5": m5, "pm": pm, "nm": nm, "n2": n2}
FAMILY = ["expand1s", "expands", "expand1r", "expandr", "expand1sq", "expandsq", "expand1rq", "expandrq", "stepr"]
ALIAS = {"q": "qq", "expandr": "er", "expandsq": "esq", "expand1s": "e1s", "expand1rq": "e1rq"}


def setup(S, ops, renamed=False, both=False):
    """An expander that knows the macros and `ops`."""
    declare(S)
    al = ALIAS if renamed else {}
    b = dict(MACROS)
    b.update({al.get(k, k): getattr(S.m.metatools, k) for k in ops if k != "q"})
    g = S.m.core.global_bindings
    if S.pick("some bound globally", [False, True]) if both else renamed:
        g.update({k: b.pop(k) for k in ("m1", "nm")}, m2=other)      # m2: the local binding counts
    ex = quo.expander(S, b, {"q": al.get("q", "q")})
    return ex, al


NAMES = re.compile(r"_[0-9a-f]{32}$")
def scrub(tree):
    """Names of hygienically captured macros, without the unique part; contexts as they must be."""
    if isinstance(tree, list):
        return [scrub(x) for x in tree]
    for n in preorder(tree) if tree is not None else ():
        if type(n) is ast.Name and isinstance(n.id, str):
            n.id = NAMES.sub("_UNIQUE", n.id)
    return tree


def dump(S, tree):
    """Everything but locations and contexts; captured values are looked up."""
    if isinstance(tree, list):
        return [dump(S, x) for x in tree]
    if isinstance(tree, ast.AST):
        k = type(tree) is ast.Call and S.m.quotes.is_captured_value(tree)
        if k:
            return "value", k[0], repr(S.m.quotes.lookup_value(k))
        return type(tree).__name__, [(f, dump(S, getattr(tree, f, "<missing>"))) for f in type(tree)._fields or tree._fields if f not in ("ctx",)]
    return repr(tree) if isinstance(tree, (int, float, complex, str, bytes, type(None), type(...))) else tree


def shows(x):
    return [show(y) for y in x] if isinstance(x, list) else show(x) if isinstance(x, ast.AST) else repr(x)


def by_hand(S, mode, tree, ex):
    """Expand with a new expander with the same bindings."""
    h = S.m.expander.MacroExpander(dict(ex.bindings), ex.filename)
    tree = clone(tree)
    return h.visit_once(tree).body if mode == "once" else h.visit_recursively(tree)


U = G.shapes("expr", ["u[v0]", "n[v1]", "a[v2]", "h[v3]", "h[m1][x]"])
LEAF = G.shapes("expr", ["x", "nm", "n2"])
CALLS = G.shapes("expr", ["m1[E0]", "m2[E0]", "m3[E0]", "m4[E0]", "m5[E0]", "pm[1][E0]", "pm[E0]", "f(nm, k=E0)", "pm[E0, 2][x]"])
FEW = G.shapes("expr", ["m1[E0]", "m2[E0]", "m3[E0]", "(E0, m2[x])"])
GX = G.grammar(expr=[CALLS, FEW + LEAF, G.shapes("expr", ["nm"]) + U], focus=True)
GX3 = G.grammar(expr=[CALLS, CALLS, CALLS + LEAF, LEAF + U], focus=True)
GU = G.grammar(expr=[FEW + G.shapes('expr', ['m4[E0]', 'm5[E0]', 'f(nm, k=E0)']), U])
BODY = G.shapes("stmt", ["E0", "with m1: S0", "with m2:\n S0\n S1", "with m3: S0", "@m1\ndef fn(): S0", "@m2\nclass C: S0", "if E0: S0\nelse:\n S1", "return E0", "pass", "with m1 as k, m2: S0", "with a: v0"])
GB = G.grammar(stmt=[BODY, G.shapes("stmt", ["E0", "with m2: S0", "pass", "with a: v0"]), G.shapes("stmt", ["pass", "E0"])], expr=[FEW + LEAF, LEAF], focus=True)
GB3 = G.grammar(stmt=[BODY, BODY, G.shapes("stmt", ["pass", "E0"])], expr=[FEW + LEAF + U, LEAF], focus=True)


def operands(S, code):
    """Values of the variables in unquotes."""
    out = {}
    for n in preorder(code):
        if is_ablock(n):
            v = n.body[0].value.id
            out[v] = [ast.Expr(value=inv("m2", N("s"))), ast.Pass()]
        elif is_unquote(n) and n.slice.id != "m1":
            v, k = n.slice.id, n.value.id
            out[v] = S.int(v, -5, 5) if k == "u" else "self.x" if k == "n" else [3] if k == "h" else S.pick(v, [ast.BinOp(left=N("x"), op=ast.Add(), right=ast.Constant(value=1)), inv("m2", inv("m2", N("x")))])
    return out


UNQUOTES = "unah"
def is_unquote(t):
    return type(t) is ast.Subscript and type(t.value) is ast.Name and t.value.id in tuple(UNQUOTES)


def is_ablock(t):
    return type(t) is ast.With and len(t.items) == 1 and type(t.items[0].context_expr) is ast.Name and t.items[0].context_expr.id == "a"


def holes(tree, found):
    """Replace the unquotes by names that mean nothing."""
    if isinstance(tree, list):
        return [holes(x, found) for x in tree]
    if not isinstance(tree, ast.AST):
        return tree
    if is_ablock(tree):
        found.append(tree)
        return ast.Expr(value=N(f"_hole{len(found) - 1}"))
    if is_unquote(tree):
        found.append(tree)
        return N(f"_hole{len(found) - 1}")
    for f, v in list(tree.__dict__.items()):
        if f not in ("ctx", "_fields"):
            tree.__dict__[f] = holes(v, found)
    return tree

def fill(tree, found):
    if isinstance(tree, list):
        return [fill(x, found) for x in tree]
    if not isinstance(tree, ast.AST):
        return tree
    if type(tree) is ast.Expr and type(tree.value) is ast.Name and tree.value.id.startswith("_hole") and isinstance(found[int(tree.value.id[5:])], ast.stmt):
        return clone(found[int(tree.value.id[5:])])
    if type(tree) is ast.Name and tree.id.startswith("_hole"):
        return clone(found[int(tree.id[5:])])
    for f, v in list(tree.__dict__.items()):
        if f not in ("ctx", "_fields"):
            tree.__dict__[f] = fill(v, found)
    return tree


def quoted(S, code, env, more=None, qname="q"):
    """The value of the code, quoted. Macros are not known, except for capturing them."""
    ex = quo.expander(S, more or {}, {"q": qname})
    if isinstance(code, list):
        return quo.run(S, quo.finish(S, ex, [quo.at(quo.blk(qname, code, "quoted"))], "exec"), env)["quoted"]
    return quo.run(S, quo.finish(S, ex, quo.at(quo.sub(qname, code)), "eval"), env)


def statically(S, mode, code, ex):
    """Expand code with unquotes by hand, leaving the unquotes."""
    found = []
    t = quo.at(holes(clone(code), found)) if not isinstance(code, list) else [quo.at(x) for x in holes(clone(code), found)]
    return fill(by_hand(S, mode, t, ex), found)


MODES = {"expand1s": ("s", "once"), "expands": ("s", "full"), "expand1r": ("r", "once"), "expandr": ("r", "full"), "stepr": ("r", "full")}
MODES.update({k + "q": v for k, v in list(MODES.items())})


def h_value(S, sort, gram, chains, both=False):
    """Chains of operators, from the innermost: the first may be one that quotes."""
    renamed = S.pick("renamed", [False, True])
    chain = S.pick("operators", chains).split()
    ex, al = setup(S, chain, renamed, both)
    if sort == "expr":
        code = S.tree("t", sort, gram)
    else:
        code = [S.tree(f"s{i}", sort, gram) for i in range(1)]
    code = nodes.force(code) if not isinstance(code, list) else [nodes.force(x) for x in code]
    S.note(lambda: (chain, renamed, show(code) if sort == "expr" else [show(x) for x in code]))
    ops = operands(S, code)
    # the program
    t, first = clone(code), True
    for op in chain:
        nm_ = al.get(op, op)
        if sort == "stmt" and first:
            t = quo.blk(nm_, t, "quoted")
        elif sort == "stmt":
            raise AssertionError
        else:
            t = quo.sub(nm_, t)
        first = False
    env = quo.env(S, **{k: clone(v) for k, v in ops.items()}, x=5)
    err = io.StringIO()
    prog = [quo.at(t)] if sort == "stmt" else quo.at(t)
    with contextlib.redirect_stderr(err):
        if all(op == "q" or MODES[op][0] == "s" for op in chain) and S.pick("in a visit of one layer", [False, True]):
            # (e.g., inside a macro that uses `visit_once`)
            prog = ex.visit_once(prog).body
            LOG.clear()
            finisher = quo.expander(S)
        else:
            finisher = ex
        top = quo.finish(S, finisher, prog, "exec" if sort == "stmt" else "eval")
        LOG.clear()
        r = quo.run(S, top, env)
    got = r["quoted"] if sort == "stmt" else r
    ran = list(LOG)
    # by hand
    want, value = clone(code), False
    env = quo.env(S, **{k: clone(v) for k, v in ops.items()}, x=5)
    more = {"m1": m1}
    at_run_time = []
    for op in chain:
        if op == "q":
            continue
        when, mode = MODES[op]
        if when == "s":
            assert not value
            want = statically(S, mode, want, ex)
        else:
            if not value:
                want, value = quoted(S, want, env, more), True
            LOG.clear()
            want = by_hand(S, mode, want, ex)
            at_run_time += LOG
    if not value:
        want = quoted(S, want, env, more)
    S.check(dump(S, scrub(got)) == dump(S, scrub(want)), lambda: f"{' of '.join(reversed(chain))} gives {shows(got)}, by hand it is {shows(want)}")
    if not any(type(n) is ast.Name and NAMES.search(n.id) for n in preorder(code)):
        if "stepr" in chain:       # (in steps, layer by layer)
            ran.sort(key=repr), at_run_time.sort(key=repr)
        S.check(ran == at_run_time, lambda: f"macros applied at run time: {ran}, by hand {at_run_time}")
    # the result contains no code of the mechanism
    for n in preorder(got) if got is not None else ():
        S.check(not isinstance(n, S.m.markers.ASTMarker) or type(n) is S.m.core.Done, lambda: f"{type(n)} in the result")
    S.check(("steps" in err.getvalue() or "after step" in err.getvalue() or "complete" in err.getvalue()) == ("stepr" in chain), "output")
    for op in chain:
        S.reach(op)


VARIANTS = {"m1": lambda b: b, "other": lambda b: dict(b, m1=other), "absent": lambda b: {k: v for k, v in b.items() if k != "m1"}, "more": lambda b: dict(b, x=n2, f=other)}


def h_several(S, uses):
    """Several expansions, with other bindings of the same names, in the same and other files."""
    declare(S)
    S.m.expander.namemacro(n2)
    progs, specs = [], []
    shared = None
    for i in range(uses):
        op = S.pick(f"op{i}", ["expandrq", "expand1rq", "expandsq"])
        which = S.pick(f"bindings{i}", list(VARIANTS))
        b = VARIANTS[which](MACROS)
        ex = quo.expander(S, dict(b, **{op: getattr(S.m.metatools, op)}))
        ex.filename = S.pick(f"file{i}", ["/nowhere/m.py", "/nowhere/n.py"]) if i else "/nowhere/m.py"
        code = ast.parse(S.pick(f"code{i}", ["m1[m2[x]]", "f[m1[y]]"] if i else ["f[m1[y]]"]), mode="eval").body
        specs.append((op, which, ex.filename, show(code)))
        with contextlib.redirect_stderr(io.StringIO()):
            top = quo.finish(S, ex, quo.at(quo.sub(op, clone(code))), "eval")
        progs.append((op, ex, code, top))
    S.note(lambda: specs)
    order = S.pick("order", [list(range(uses)), list(range(uses))[::-1] + list(range(uses))])
    for i in order:
        op, ex, code, top = progs[i]
        with contextlib.redirect_stderr(io.StringIO()):
            got = quo.run(S, top, quo.env(S))
        want = by_hand(S, MODES[op][1], code, ex)
        S.check(dump(S, scrub(got)) == dump(S, scrub(want)), lambda: f"{specs[i]} gives {shows(got)}, by hand it is {shows(want)}; uses: {specs}, run in the order {order}")
        S.reach(specs[i][1])


def h_stepr(S):
    """stepr shows what step_expansion shows."""
    declare(S)
    args = S.pick("args", [(), ("dump",), ("unparse",), ("detailed",), ("summary", "dump"), ("detailed", "dump"), ("bad",)])
    src = S.pick("code", ["x", "m2[x]", "m1[m2[nm]]", "m3[m2[x]]"])
    S.note((args, src))
    ex = quo.expander(S, dict(MACROS, st=S.m.metatools.stepr))
    code = ast.parse(src, mode="eval").body
    t = N("v")
    if args:
        t = ast.Subscript(value=quo.sub("st", ast.Tuple(elts=[ast.Constant(value=a) for a in args], ctx=ast.Load()) if len(args) > 1 else ast.Constant(value=args[0])), slice=t, ctx=ast.Load())
    else:
        t = quo.sub("st", t)
    outs = []
    def by_hand(tree):
        S.m.debug.step_expansion(tree, args=[ast.Constant(value=a) for a in args], syntax="expr", expander=S.m.expander.MacroExpander(dict(MACROS), "/nowhere/m.py"))
    top = quo.finish(S, ex, quo.at(t), "eval")
    for f in (lambda v: quo.run(S, top, quo.env(S, v=v)), by_hand):
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                f(clone(code))
            outs.append(re.sub("0x[0-9a-f]+", "ID", err.getvalue()))
        except Exception as e:
            outs.append(type(e))
    S.check(outs[0] == outs[1], lambda: f"stepr shows {outs[0]!r}, step_expansion {outs[1]!r}")
    S.check((outs[0] is ValueError) == (args == ("bad",)), lambda: f"{outs[0]!r}")
    S.reach("refused" if args == ("bad",) else "shown")


# ---- bindings ------------------------------------------------------------------------------------
def tool(ns, fn):
    """Name macros that change the bindings; they need to be found by pickle, too."""
    def macro(tree, *, expander, **kw):
        fn(expander)
        return ast.Constant(value=None)
    macro.__name__ = macro.__qualname__ = ns
    return macro

GLOBAL = [None]
add_local = tool("add_local", lambda ex: ex.local_bindings.__setitem__("added", m1))
add_global = tool("add_global", lambda ex: GLOBAL[0].__setitem__("added", m2))
change = tool("change", lambda ex: ex.local_bindings.__setitem__("m1", m3))
remove = tool("remove", lambda ex: ex.local_bindings.pop("m1", None))
remove_global = tool("remove_global", lambda ex: GLOBAL[0].pop("added", None))
EDITS = {"add_local": add_local, "add_global": add_global, "change": change, "remove": remove, "remove_global": remove_global}
class NS:
    @staticmethod
    def deep(tree, **kw):
        return tree


def model_edit(op, loc, glo):
    if op == "add_local":
        loc["added"] = m1
    elif op == "add_global":
        glo["added"] = m2
    elif op == "change":
        loc["m1"] = m3
    elif op == "remove":
        loc.pop("m1", None)
    elif op == "remove_global":
        glo.pop("added", None)


def qualname(f):
    return f"{f.__module__}.{f.__qualname__}"


def h_bindings(S, n):
    """The snapshot is that of the moment; in every process."""
    declare(S)
    g = GLOBAL[0] = S.m.core.global_bindings
    more = S.pick("local", [{}, {"m1": m1}, {"m1": m1, "other": m2, "d.e": NS.deep, "macro_bindings": m3}, {"added": NS.deep, "m_0123456789abcdef0123456789abcdef": m1}])
    loc = dict(more, mb=S.m.metatools.macro_bindings, show=S.m.debug.show_bindings, **EDITS)
    g.update(S.pick("global", [{}, {"m1": other, "glob": other2}]))
    for f in [*EDITS.values(), S.m.debug.show_bindings]:
        S.m.expander.namemacro(f)
    ml, mg = dict(loc), dict(g)
    ex = S.m.expander.MacroExpander(loc, "/nowhere/m.py")
    events = [S.pick(f"event{i}", ["mb", "show"] + list(EDITS)) for i in range(n)] + ["mb"]
    S.note((sorted(more), sorted(mg), events))
    err = io.StringIO()
    want, shown = [], []
    t = ast.Tuple(elts=[N(e) for e in events], ctx=ast.Load())
    if S.symbolic:
        S.m.expander.unparse_with_fallbacks = lambda *a, **k: "(source)"
    with contextlib.redirect_stderr(err):
        top = quo.finish(S, ex, quo.at(t), "eval")
    for e in events:
        if e == "mb":
            want.append({**mg, **ml})
        else:
            want.append(None)
            if e == "show":
                shown.append(dict(ml))
            else:
                model_edit(e, ml, mg)
    S.check(dict(loc) == ml and dict(g) == mg, "bindings changed otherwise")
    out = re.sub("\x1b\\[[0-9;]*m", "", err.getvalue())
    text = ""
    for b in shown:
        text += "Macro bindings for /nowhere/m.py:\n" + "".join(f"    {k}: {qualname(v)}\n" for k, v in sorted(b.items())) + ("" if b else "    <no bindings>\n") + "\n"
    S.check(out == text, lambda: f"show_bindings wrote {out!r}, expected {text!r}")
    code = compile(top, "<run>", "eval")
    for process in range(2):
        env = quo.env(S)
        S.m.reset.module(S.m.quotes)
        got = eval(code, env)
        S.check(len(got) == len(want), "length")
        for a, b in zip(got, want):
            S.check(type(a) is type(b), lambda: f"{a!r}, expected {b!r}")
            S.check(a is None or (a.keys() == b.keys() and all(a[k] is b[k] for k in b)), lambda: f"bindings {a}, expected {b}; events {events}")
        mine = [x for x in got if x is not None]
        S.check(len({id(x) for x in mine}) == len(mine) and all(x is not loc and x is not g for x in mine), "the same dict twice")
        for x in mine:
            x.clear()       # does not matter to the next
        # as another process would have them
        loc.clear(), g.clear(), ex.local_bindings.clear()
    S.reach(f"{len(shown)} shown")


def h_format(S):
    """format_bindings."""
    declare(S)
    g = S.m.core.global_bindings
    fs = {"m1": m1, "deep": NS.deep, "mb": S.m.metatools.macro_bindings}
    loc = {n: fs[f] for n in ["a", "m1", "Z"] for f in [S.pick(f"local {n}", [None, "m1", "deep", "mb"])] if f}
    glo = {n: fs[f] for n in ["m1", "b"] for f in [S.pick(f"global {n}", [None, "m1", "mb"])] if f}
    too = S.pick("globals_too", [False, True, None])
    color = S.pick("color", [False, True])
    g.update(glo)
    S.note((sorted(loc), sorted(glo), too, color))
    ex = S.m.expander.MacroExpander(loc, "/nowhere/m.py")
    r = S.m.debug.format_bindings(ex, color=color, **({} if too is None else {"globals_too": too}))
    plain = re.sub("\x1b\\[[0-9;]*m", "", r)
    S.check((plain != r) == bool(color), lambda: f"colors: {r!r}")
    b = {**glo, **loc} if too else loc
    want = "Macro bindings for /nowhere/m.py:\n" + ("".join(f"    {k}: {qualname(b[k])}\n" for k in sorted(b)) or "    <no bindings>\n")
    S.check(plain == want, lambda: f"{plain!r}, expected {want!r}")
    S.check(ex.local_bindings is loc and dict(g) == glo, "changed")
    S.reach("listed" if b else "empty")


# ---- locations -------------------------------------------------------------------------------------
def h_location(S, gram, sort):
    """fill_location fills in what is missing, at run time."""
    declare(S)
    F = S.m.metatools.fill_location
    S.m.expander.parametricmacro
    name = S.pick("name", ["fill_location", "fl"])
    ex = quo.expander(S, {name: F, "m1": m1})
    code = nodes.force(S.tree("t", sort, gram))
    line, col = S.pick("at", [(1, 0), (10**6, 33)])
    some = S.pick("given", ["none", "root", "child", "all"])
    block = sort == "stmt"
    value = [clone(code)] if block else clone(code)
    located = [n for n in preorder(value) if "lineno" in getattr(type(n), "_attributes", ())]
    for n in located:
        for f in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            n.__dict__.pop(f, None)
    given = {"none": [], "root": located[:1], "child": located[-1:], "all": located}[some]
    for i, n in enumerate(given):
        n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = 100 + i, 5, 100 + i, 6
    expect = {id(n): (n.lineno, n.col_offset) if any(n is x for x in given) else (line, col) for n in located}
    S.note(lambda: (show(code), line, col, some))
    t = quo.sub(name, N("v"))
    for n in ast.walk(t):
        if isinstance(n, ast.expr):
            n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = (line, col, line, col + 9) if n is t else (999, 99, 999, 100)
    top = ast.Expression(body=t)
    top = S.m.core.global_postprocess(ex.visit_recursively(top))
    ast.fix_missing_locations(top)
    before = ast.dump(ast.Module(body=value, type_ignores=[])) if block else ast.dump(value)
    got = quo.run(S, top, quo.env(S, v=value))
    S.check(got is value, "not the tree that was given")
    S.check((ast.dump(ast.Module(body=got, type_ignores=[])) if block else ast.dump(got)) == before, "the tree has changed")
    now = [n for n in preorder(got) if "lineno" in getattr(type(n), "_attributes", ())]
    S.check([id(n) for n in now] == [id(n) for n in located], "nodes")
    for n in now:
        S.check((n.lineno, n.col_offset) == expect[id(n)], lambda: f"{type(n).__name__} at {(n.lineno, n.col_offset)}, expected {expect[id(n)]}")
    # what comes out compiles
    for n in ast.walk(top):
        pass
    S.reach(some)


# ---- expand_first --------------------------------------------------------------------------------------
def outer(tree, *, syntax, **kw):
    """Outside-in; shows what it got."""
    LOG.append(("outer", syntax, [ast.dump(x) for x in tree] if isinstance(tree, list) else ast.dump(tree)))
    return tree
def outer_expr(tree, **kw):
    LOG.append(("outer_expr", ast.dump(tree)))
    return call("o", tree)

FIRST_BODY = ["mA[x]", "with outer:\n mA[x]", "with outer:\n mB[mA[x]]", "outer_expr[mA[mB[x]]]", "with outer:\n with mA:\n  mB[y]", "@outer\ndef fn():\n mA[nA]", "with outer: nA", "outer_expr[alias[mB[x]]]", "outer_expr[chain[x]]",
              "mB[x]\nmA[nA]\nouter_expr[alias[x]]", "outer_expr[p[1][x]]", "outer_expr[p[mA[x]][nA]]", "x", "with outer:\n chain[mA[alias[x]]]\n with mB, mA as z:\n  mA[y]"]
def chain(tree, *, syntax, **kw):
    LOG.append(("chain", syntax, ast.dump(tree)))
    return inv("mA", inv("mB", tree))
ARGS = ["mA", "mB", "nA", "alias", "chain", "p", "q[h[mA]]", "q[h[nA]]", "q[h[alias]]", "q[h[glob]]", "glob"]
BAD = {"1": "SyntaxError", "mA[x]": None, "unbound": "SyntaxError", "q[h[unbound]]": None, "mA.x": "SyntaxError", "q[mA]": "SyntaxError"}


def h_first(S, most):
    declare(S)
    S.m.expander.namemacro(nA)
    S.m.expander.parametricmacro(p)
    S.m.core.global_bindings["glob"] = gB
    where = {"mA": mA, "mB": mB, "nA": nA, "alias": mA, "outer": outer, "outer_expr": outer_expr, "chain": chain, "p": p}
    name = S.pick("as", ["expand_first", "ef"])
    body = S.pick("body", FIRST_BODY + ["outer_expr[glob[x]]"])
    n = S.pick("args", list(range(1, most + 1)))
    args = [S.pick(f"arg{i}", ARGS) for i in range(n)]
    S.note((args, body))
    ex = quo.expander(S, dict(where, **{name: S.m.metatools.expand_first}))
    b = dict(ex.bindings)
    src = f"with {name}[{', '.join(args)}]:\n" + "".join(" " + l + "\n" for l in body.split("\n"))
    top = S.m.core.global_postprocess(ex.visit_recursively(ast.parse(src)))
    log, got = list(LOG), ast.dump(top)
    LOG.clear()
    chosen = [{**where, "glob": gB}[a[4:-2] if a.startswith("q[") else a] for a in args]
    first = S.m.expander.MacroExpander({k: f for k, f in b.items() if f in chosen}, "/nowhere/m.py")
    # (an expander sees the global bindings, too: macros captured by those given are expanded with them)
    t = first.visit_recursively(ast.parse(body).body) or []
    k = len(LOG)
    ex2 = quo.expander(S, where)
    m = ast.Module(body=t if isinstance(t, list) else [t], type_ignores=[])
    m = S.m.core.global_postprocess(ex2.visit_recursively(m))
    strip = lambda t: re.sub("m.py:\\d+", "m.py", re.sub("_[0-9a-f]{32}", "_ID", t))
    S.check([strip(repr(x)) for x in log] == [strip(repr(x)) for x in LOG], lambda: f"macros applied: {log}, by hand {LOG}; {args} {body!r}")
    # the coverage dummy of expand_first itself comes in front
    want = ast.dump(m)
    got2 = ast.dump(ast.Module(body=[x for x in top.body if not coverage(x, name)], type_ignores=[]))
    S.check(strip(got2) == strip(want), lambda: f"got {got2}, by hand {want}")
    S.check(ex.local_bindings.keys() == {**where, **dict.fromkeys(quo.OPS), name: 0}.keys(), "bindings changed")
    S.reach("first" if k else "none first")


def coverage(t, name):
    return type(t) is ast.Assign and type(t.targets[0]) is ast.Name and t.targets[0].id == "_mcpyrate_coverage" and f"'{name}'" in t.value.value

def mA(tree, *, syntax, **kw):
    LOG.append(("mA", syntax, ast.dump(tree) if isinstance(tree, ast.AST) else [ast.dump(x) for x in tree]))
    return call("A", tree) if syntax == "expr" else tree
def mB(tree, *, syntax, **kw):
    LOG.append(("mB", syntax, ast.dump(tree) if isinstance(tree, ast.AST) else [ast.dump(x) for x in tree]))
    return call("B", tree) if syntax == "expr" else tree
def gB(tree, *, syntax, **kw):
    LOG.append(("gB", syntax, ast.dump(tree)))
    return inv("mA", tree)
def nA(tree, **kw):
    LOG.append(("nA",))
    return inv("mA", N("n"))
def p(tree, *, args, **kw):
    LOG.append(("p", [ast.dump(x) for x in args], ast.dump(tree)))
    return call("p", *args, tree)


FORMS = {"expr": "OP[v]", "block": "with OP:\n v", "block as": "with OP as z:\n v", "decorator": "@OP\ndef f(): pass", "name": "OP", "no args": "with OP: x", "args": "with OP[mA]: x", "args as": "with OP[mA] as z: x"}
SYNTAX_OK = {"fill_location": {"expr"}, "expand1sq": set(), "expandsq": set(), "expand1rq": {"expr", "block as"}, "expandrq": {"expr", "block as"}, "macro_bindings": {"name", "expr"},
             "expand1r": {"expr"}, "expandr": {"expr"}, "expand1s": set(), "expands": set(), "stepr": {"expr"}, "expand_first": {"args"}, "show_bindings": {"name", "expr"}}
SYNTAX_OK["expand1sq"] = SYNTAX_OK["expandsq"] = {"expr", "block as"}


def h_wrong(S):
    """Wrong syntax is refused, when the code is expanded."""
    declare(S)
    op = S.pick("operator", list(SYNTAX_OK))
    form = S.pick("form", list(FORMS))
    S.assume(not (form in ("name",) and op not in ("macro_bindings", "show_bindings")))       # (just a name)
    S.assume(not (form in ("block", "no args") and op in ("expandr", "expand1r")))       # (there is no use for these)
    S.assume(not (form in ("expr", "no args") and op in ("macro_bindings", "show_bindings")))     # (name macros ignore other uses than names, or refuse them)
    S.assume(not (form in ("args", "args as") and op not in ("expand_first", "stepr")))     # (refused by the expander, see C09)
    S.assume(not (form in ("expr", "block", "block as", "decorator") and op == "expand_first"))     # (that's no args; see below)
    S.note((op, form))
    f = S.m.debug.show_bindings if op == "show_bindings" else getattr(S.m.metatools, op)
    ex = quo.expander(S, {"OP": f, "mA": mA})
    def go():
        with contextlib.redirect_stderr(io.StringIO()):
            return ex.visit_recursively(ast.parse(FORMS[form]))
    if form in SYNTAX_OK[op]:
        go()
        S.reach("accepted")
        return
    e = S.raises(S.m.core.MacroApplicationError, go, f"{op} as {form}")
    S.check(isinstance(e.__cause__, SyntaxError) or op in ("expand1s", "expands"), lambda: f"{op} as {form}: {e.__cause__!r}")
    S.reach("refused")


def h_wrong_first(S):
    declare(S)
    bad = S.pick("bad", list(BAD))
    args = S.pick("args", [[bad], ["mA", bad], [bad, "mA"]])
    S.note(args)
    ex = quo.expander(S, {"expand_first": S.m.metatools.expand_first, "mA": mA})
    e = S.raises(S.m.core.MacroApplicationError, lambda: ex.visit_recursively(ast.parse(f"with expand_first[{', '.join(args)}]: mA[x]")), f"args {args}")
    S.check(isinstance(e.__cause__, SyntaxError), lambda: f"{args}: {e.__cause__!r}")
    S.check(not any(x[0] == "mA" and "'x'" in x[2] and x[2].startswith("[") for x in LOG), "applied to the body")
    S.reach("refused")


NOT_QUOTED = ["x", "1", "f(x)", "[x]", "m1[x]", "lambda: 1", "x + 1", "f(q[x])", "q[x].a", "mcpyrate.quotes", "ast.Name(id='x')", "ast.parse('x')", "quotes.ast.Name(id='x')"]
def h_not_quoted(S):
    """What is not quoted cannot be expanded statically."""
    declare(S)
    op = S.pick("operator", ["expand1s", "expands"])
    src = S.pick("code", NOT_QUOTED)
    S.note((op, src))
    ex = quo.expander(S, {op: getattr(S.m.metatools, op), "m1": m1})
    def go():
        return quo.finish(S, ex, ast.parse(f"{op}[{src}]", mode="eval").body, "eval")
    S.raises(S.m.core.MacroApplicationError, go, f"{op}[{src}]")
    S.reach("refused")


SINGLE = ["q expand1s", "q expands", "q expand1r", "q expandr", "expand1sq", "expandsq", "expand1rq", "expandrq", "q stepr"]
CHAINS = SINGLE + ["q expand1s expand1s", "q expand1s expands", "q expands expand1s", "expand1sq expand1s", "expand1sq expandr", "expand1rq expand1r", "expand1rq expandr", "q expand1s expand1r expand1r", "expand1sq expand1s expandr", "expandsq expandr", "q expand1r expand1r expandr", "q expand1r stepr"]
BLOCKS = ["expand1sq", "expandsq", "expand1rq", "expandrq"]
BLOCKS2 = BLOCKS


GLC = G.grammar(expr=[G.EXPR_STRUCT, G.shapes("expr", ["x", "f(x, k=y)"])], focus=True)
GLS = G.grammar(stmt=[G.STMT_ALL, G.shapes("stmt", ["x = y"])], expr=[G.shapes("expr", ["f(x)"])], focus=True)
GP = G.grammar(expr=[G.shapes("expr", ["f(E0, E1)"]), FEW + U + LEAF, U])

BOUNDS = {"quick": f"the nine operators, alone and in {len(CHAINS) - len(SINGLE)} sequences, under two sets of names and bindings (some of them global), in a complete expansion and in a visit of one layer; quoted code: {len(CALLS)} forms of invocations of 8 macros (outside-in, inside-out, visiting once or recursively, parametric, identifier macros, yielding further invocations) nested two deep, with the unquotes u, n, a, h (also of macros, and with ASTs that contain macro invocations) inside; blocks: {len(BODY)} statement forms nested two deep. Two uses of three operators, with four sets of bindings, in the same or another file, in any order. Bindings: sequences of 2 of 7 events around macro_bindings; listings of up to 5 bindings. Locations: every expression and statement form. expand_first: 1 to 2 arguments of {len(ARGS)}, {len(FIRST_BODY) + 1} bodies",
          "thorough": "as quick, with code one level deeper, sequences of operators on all of it, three events, three arguments, three uses"}
OUTSIDE = "deeper code; quotes inside the quoted code (C03)"
ASSUMPTIONS = ["by hand means: a new expander with the bindings of the use site, and the value of the quote (which C02 to C05 are about)",
               "expand1s, expands, expand1r, expandr are for expressions: the block modes of these four have nothing to give their result to",
               "expand_first expands along the macros that the given ones emit hygienically, since an expander sees all global bindings"]


HARNESSES = [
    H("expr", h_value, "expressions", dict(sort="expr", gram=GX, chains=SINGLE), dict(sort="expr", gram=GX3, chains=SINGLE, both=True), reach=set(FAMILY)),
    H("chain", h_value, "several operators", dict(sort="expr", gram=GU, chains=CHAINS), dict(sort="expr", gram=GX, chains=CHAINS, both=True), reach=set(FAMILY)),
    H("block", h_value, "blocks", dict(sort="stmt", gram=GB, chains=BLOCKS), dict(sort="stmt", gram=GB3, chains=BLOCKS, both=True), reach=set(BLOCKS)),
    H("several", h_several, "several uses with different bindings", dict(uses=2), dict(uses=3), reach=set(VARIANTS)),
    H("stepr", h_stepr, "arguments to stepr", reach={"shown", "refused"}),
    H("bindings", h_bindings, "bindings at run time", dict(n=2), dict(n=3), reach={"0 shown", "1 shown"}),
    H("format", h_format, "listing of bindings", reach={"listed", "empty"}),
    H("fill expr", h_location, "locations of expressions", dict(gram=GLC, sort="expr"), reach={"none", "root", "child", "all"}),
    H("fill stmt", h_location, "locations of statements", dict(gram=GLS, sort="stmt"), reach={"none", "root", "child", "all"}),
    H("first", h_first, "expand_first", dict(most=2), dict(most=3), reach={"first", "none first"}),
    H("wrong", h_wrong, "wrong syntax", reach={"accepted", "refused"}),
    H("wrong first", h_wrong_first, "wrong arguments to expand_first", reach={"refused"}),
    H("not quoted", h_not_quoted, "static expansion of code that is not quoted", reach={"refused"}),
]
