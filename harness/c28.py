"""C28: observing an expansion does not change it."""
import ast
import contextlib
import io
import re
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, fields, locate_all
from .exp import Model, MDone, Recorder, SyntaxWrong, lclone, undone, same_code, quick_reports, DECLS
from . import c09, c11
from .c11 import EF, S_ALL, MB, WB, IB, Fails, behave, opened

BOUNDS = {"quick": "collecting: the forms of C09 (a macro with each possible declaration, in every expression and statement form, nested); hooks and stepping: the macros, behaviours and forms of C11, observed as a whole or at any inner expression or block; hooks: one, or one inside of another, with failing macros; rendering of steps: 4 kinds of arguments, 12 kinds of macro results, including none, lists, other iterables and markers, before and after another step",
          "thorough": "as quick, one level deeper"}
OUTSIDE = "deeper nesting; hooks that fail or edit what they are shown; the layout of the reports; the order in which the collector lists different macros"
ASSUMPTIONS = ["as for C09 and C11", "stepping applies to code that is being expanded recursively (else it expands more than asked for, as documented)"]


# -- the collector ------------------------------------------------------------

def collect(model, t, out):
    """What the expander would find in `t`, without expanding anything."""
    if isinstance(t, list):
        for x in t:
            if isinstance(x, ast.AST):
                collect(model, x, out)
        return
    k = nodes.sx_type(t)
    if k in (ast.Load, ast.Store, ast.Del):
        return
    if k is ast.Subscript:
        c = model.candidate_soft(t.value)
        if c:
            c = model.candidate(t.value)
            out.append((c[0], "expr"))
            collect(model, c[1], out)
            collect(model, t.slice, out)
            return
    elif k is ast.With:
        found = [it for it in t.items if model.candidate_soft(it.context_expr)]
        for it in found:
            c = model.candidate(it.context_expr)
            out.append((c[0], "block"))
            collect(model, c[1], out)
        if found:
            for it in t.items:
                if it not in found:
                    collect(model, it, out)
            collect(model, t.body, out)
            return
    elif k in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
        found = [d for d in t.decorator_list if model.candidate_soft(d)]
        for d in found:
            c = model.candidate(d)
            out.append((c[0], "decorator"))
            collect(model, c[1], out)
        for f, v in fields(t):
            if f == "decorator_list":
                collect(model, [d for d in v if d not in found], out)
            elif isinstance(v, (list, ast.AST)):
                collect(model, v, out)
        return
    elif k is ast.Name:
        if model.is_name(t.id):
            out.append((t.id, "name"))
        return
    for f, v in list(fields(t)):
        if isinstance(v, (list, ast.AST)):
            collect(model, v, out)


def h_collect(S, sort, gram):
    tree = S.tree("t", sort, gram)
    decls = {"m": S.pick("m", DECLS), "w": S.pick("w", ["none", "both"])}
    where = {"m": S.pick("where", ["local", "global"]) if decls["m"] == "both" else "local"}
    S.note(lambda: (decls, where, show(nodes.force(lclone(tree)))))
    model = Model(decls, None)
    want = []
    mine = lclone(tree)
    try:
        collect(model, mine, want)
    except SyntaxWrong:
        want = None
    rec = Recorder(S, lambda name, tree, kw: S.fail("the collector expands macros"))
    exp = rec.make(decls, where=where)
    mc = S.m.expander.MacroCollector(exp)
    S.check(mc.collected == [], "fresh collector")
    if want is None:
        S.raises((SyntaxError, S.m.core.MacroExpansionError), lambda: mc.visit(tree), "malformed macro arguments")
        S.reach("malformed")
        return
    copy = lclone(tree)
    mc.visit(tree)
    got = list(mc.collected)
    S.check(len(got) == len(set(got)), lambda: f"collected twice: {got}")
    S.check(set(got) == set(want), lambda: f"collected {sorted(got)}, expected {sorted(set(want))}")
    mc.visit([tree, None, tree])
    S.check(list(mc.collected) == got, "visiting again")
    mc.clear()
    S.check(list(mc.collected) == [], "clear")
    mc.visit([tree])
    S.check(list(mc.collected) == got, "visiting again after clear")
    d = S.m.core.Done(tree)
    mc.clear()
    mc.visit(d)
    S.check(list(mc.collected) == [], "code that is done")
    same_code(S, tree, copy, "the code after collecting", False)
    for x in got:
        S.reach(x[1])
    if not got:
        S.reach("no macros")


# -- hooks --------------------------------------------------------------------------

def setup(S, ch=None):
    """The macros of C11."""
    decls = {"m": "parametric", "w": "plain", "x": "plain", "i": "name"}
    ch = {} if ch is None else ch
    def choice(nm):
        if nm not in ch:
            ch[nm] = S.pick(nm, {"m": MB, "w": WB, "x": ["keep"], "i": IB}[nm])
        return ch[nm]
    def apply(model, inv):
        return behave(inv.name, choice(inv.name), inv.syntax, inv.tree, model, opened, Fails, Fails)
    returned = []
    def real(nm, t, kw):
        whole = lclone(kw["invocation"])
        ident = id(kw["invocation"])
        r = behave(nm, choice(nm), kw["syntax"], t, kw["expander"], opened, S.m.core.MacroExpansionError, ValueError)
        returned.append((nm, whole, ident, r))
        return r
    return decls, ch, apply, real, returned


def h_hook(S, sort, gram):
    tree = S.tree("t", sort, gram)
    decls, ch, apply, real, returned = setup(S)
    entry = S.pick("entry", ["visit_once", "visit_recursively"])
    depth = 2 if entry == "visit_once" else 1
    S.note(lambda: (entry, depth, ch, show(nodes.force(lclone(tree)))))
    model = c11.M(decls, apply)
    wrap = (lambda t: [t]) if sort == "stmt" else (lambda t: ast.Expr(value=t))
    failed = False
    try:
        want = getattr(model, entry)(wrap(lclone(tree)))
    except Fails:
        failed = True
    rec = Recorder(S, real)
    exp = rec.make(decls)
    funcs = dict(exp.bindings)
    for f in funcs.values():
        f.__name__ = f.__qualname__ = "original_name"
    logs = [[] for _ in range(depth)]
    def hook(level):
        return lambda *a: logs[level].append(a[:1] + (lclone(a[1]),) + a[2:])
    def go(level):
        if level == depth:
            return getattr(exp, entry)(wrap(tree))
        with exp.debughook(hook(level)):
            return go(level + 1)
    if failed:
        S.raises(S.m.core.MacroExpansionError, lambda: go(0), "a failing macro")
        S.reach("failed")
    else:
        r = go(0)
        S.reach("done")
    log = logs[-1]
    S.check(all(not x for x in logs[:-1]), "an outer hook is called")
    S.check([x[3] for x in log] == [x[0] for x in returned], lambda: f"the hook saw {[x[3] for x in log]}, macros applied: {[x[0] for x in returned]}")
    for a, (nm, whole, ident, res) in zip(log, returned):
        S.check(len(a) == 5, "arguments of the hook")
        S.check(a[0] == ident, f"{nm}: identity of the invocation")
        same_code(S, a[1], whole, f"{nm}: invocation shown to the hook", False)
        S.check(a[2] is res, f"{nm}: result shown to the hook")
        S.check(a[4] is funcs[nm], f"{nm}: macro shown to the hook")
        S.reach("shown")
    # afterwards, no hook is called any more
    n = [len(x) for x in logs]
    k = len(returned)
    ch["x"] = "keep"
    exp.visit_once(ast.Expr(value=ast.Subscript(value=ast.Name(id="x"), slice=ast.Name(id="v9"))))
    S.check(len(returned) == k + 1 and n == [len(x) for x in logs], "a hook is still called afterwards")
    if not failed:
        same_code(S, S.m.core.global_postprocess(r), undone(want), "expansion", False)


# -- stepping -----------------------------------------------------------------------

STEP = "step_expansion"


def strip(t):
    """The code without the observers."""
    if isinstance(t, list):
        out = []
        for x in t:
            r = strip(x)
            out.extend(r) if isinstance(r, list) and not isinstance(x, list) else out.append(r)
        return out
    if isinstance(t, ast.AST):
        k = nodes.sx_type(t)
        if k is ast.Subscript and nodes.sx_type(t.value) in (ast.Name, ast.Subscript):
            head = t.value if nodes.sx_type(t.value) is ast.Name else t.value.value
            if nodes.sx_type(head) is ast.Name and head.id == STEP:
                return strip(t.slice)
        if k is ast.With and len(t.items) == 1:
            e = t.items[0].context_expr
            if nodes.sx_type(e) is ast.Subscript:
                e = e.value
            if nodes.sx_type(e) is ast.Name and e.id == STEP:
                return strip(t.body)
        for f, v in list(fields(t)):
            if isinstance(v, (list, ast.AST)):
                setattr(t, f, strip(v))
    return t


def quick(S):
    """The text of the reports needs all of the code; leave it out where it is not the subject."""
    quick_reports(S)
    if S.symbolic:
        S.m.debug.unparse_with_fallbacks = lambda *a, **k: "(source)"
        S.m.debug.dump = lambda *a, **k: "(dump)"


def step_args(S, args):
    a = ast.Name(id=STEP)
    if args:
        elts = [ast.Constant(value=x, kind=None) for x in args]
        a = ast.Subscript(value=a, slice=ast.Tuple(elts=elts) if len(elts) > 1 else elts[0])
    return a


def h_step(S, sort, gram, where, mbehave=None):
    tree = S.tree("t", sort, gram)
    decls, ch, apply, real, returned = setup(S)
    if where == "inside":
        ch["w"] = S.pick("w", ["keep", "to_x", "fail"])
    args, hooked = S.pick("observers", [([], False), (["detailed"], True)] if where == "top" else [([], False)])
    if mbehave:
        ch["m"] = S.pick("m", mbehave)
    S.note(lambda: (args, ch, show(nodes.force(lclone(tree)))))
    mine = lclone(tree)
    wrap = (lambda t: [t]) if sort == "stmt" else (lambda t: ast.Expr(value=t))
    model = c11.M(decls, apply)
    failed = False
    if where == "inside":
        mine = strip(mine)
    steps = None
    try:
        want = model.visit(wrap(mine) if not isinstance(mine, list) else mine)
        if where == "top":
            # the steps it takes
            t, steps = wrap(lclone(tree)), 0
            while True:
                found = []
                collect_live(model, t, found)
                if not found:
                    break
                steps += 1
                t = model.once(t).body
                if steps > 30:
                    S.fail("(model does not end)")
    except Fails:
        failed = True
    quick(S)
    rec = Recorder(S, real)
    exp = rec.make(decls)
    exp.bindings[STEP] = S.m.debug.step_expansion
    exp.local_bindings[STEP] = S.m.debug.step_expansion
    if where == "top":
        if sort == "stmt":
            t = [ast.With(items=[ast.withitem(context_expr=step_args(S, args), optional_vars=None)], body=[tree])]
        else:
            t = ast.Expr(value=ast.Subscript(value=step_args(S, args), slice=tree))
    else:
        t = wrap(tree)
    seen = []
    def go():
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            try:
                if hooked:
                    with exp.debughook(lambda *a: seen.append(a[3])):
                        return exp.visit_recursively(t), err
                else:
                    return exp.visit_recursively(t), err
            finally:
                S.check(exp.recursive is True, "the mode is restored")
    if failed:
        S.raises(S.m.core.MacroExpansionError, go, "a failing macro")
        S.reach("failed")
        r = None
    else:
        r, err = go()
        r = S.m.core.global_postprocess(r)
        same_code(S, r, undone(want), "expansion", False)
        text = err.getvalue()
        if steps is not None:
            m = re.search(r"complete after (\d+) step", text)
            S.check(m and int(m.group(1)) == steps, lambda: f"reported steps: {m and m.group(1)}, expected {steps}")
            S.check(len(re.findall(r"after step \d+", text)) == steps, "a report for each step")
            S.check(text.count("Applying ") == (len(returned) if args else 0), lambda: f"applications reported: {text.count('Applying ')}, macros applied: {len(returned)}")
            S.reach(f"steps {min(steps, 3)}")
            if args:
                S.reach("detailed")
        else:
            n = text.count("macro expansion complete")
            if n:
                S.reach("stepped" if n == 1 else "stepped at several places")
    # nothing is left behind: stepping some other code reports the same as ever
    base = report(S, exp)
    n = len(seen)
    S.check(base.startswith("** Tree") or "**Tree" in base and "****Tree" not in base, lambda: f"nesting level: {base[:60]!r}")
    S.check(n == len(seen), "a hook is still called")
    S.check(not hooked or seen == ([] if failed else [STEP]), lambda: f"the hook outside saw {seen}")


def report(S, exp):
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        exp.visit_recursively(ast.Expr(value=ast.Subscript(value=ast.Name(id=STEP), slice=ast.Name(id="v8"))))
    return re.sub("\x1b\\[[0-9;]*m", "", err.getvalue())


def collect_live(model, t, out):
    """Invocations outside of Done markers."""
    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, ast.AST) and type(x) is not MDone:
            if model.recognize(lclone(x)) is not None:
                out.append(x)
                return
            for f, v in list(fields(x)):
                if isinstance(v, (list, ast.AST)) and not isinstance(v, ast.expr_context):
                    go(v)
    go(t)


RESULTS = ["none", "name", "list", "two", "empty", "tuple", "generator", "map", "done", "marker", "deleted", "unlocated", "shared"]


def h_render(S):
    """What the reports show must not matter: with the real renderers, for all kinds of results."""
    kind = S.pick("result", RESULTS)
    syntax = S.pick("syntax", ["expr", "block", "decorator", "name"])
    inner = S.pick("inner", [True, False])
    if syntax in ("expr", "name") and kind in ("list", "two", "empty", "tuple", "generator", "map", "deleted"):
        return
    args = S.pick("arguments", [[], ["dump"], ["detailed"], ["dump", "detailed"], ["unparse", "summary"]])
    located = S.pick("located", [True, False])
    if not located and syntax in ("block", "decorator") and kind in ("none", "empty", "deleted"):
        return      # (nothing to put in their place)
    S.note((kind, syntax, inner, args, located))
    E = S.m.expander
    def result(tree, kw):
        s = lambda i: ast.Expr(value=ast.Name(id=f"r{i}", ctx=ast.Load()))
        if syntax in ("expr", "name"):
            one = ast.Subscript(value=ast.Name(id="n"), slice=ast.Name(id="z")) if inner else ast.Name(id="r0")
            return {"none": lambda: None, "name": lambda: one, "done": lambda: S.m.core.Done(one), "marker": lambda: S.m.quotes.CapturedMarker(one) if hasattr(S.m.quotes, "CapturedMarker") else one,
                    "unlocated": lambda: ast.BinOp(left=one, op=ast.Add(), right=ast.Constant(value=0)), "shared": lambda: ast.Tuple(elts=[one, one])}[kind]()
        body = list(tree) if isinstance(tree, list) else [tree]
        if inner:
            body = [ast.With(items=[ast.withitem(context_expr=ast.Name(id="n"), optional_vars=None)], body=body)]
        return {"none": lambda: None, "name": lambda: body[0], "list": lambda: body, "two": lambda: [s(1), *body, s(2)], "empty": lambda: [], "tuple": lambda: (s(1), *body), "generator": lambda: (x for x in [s(1), *body]),
                "map": lambda: map(lambda x: x, [s(1), *body]), "done": lambda: S.m.core.Done(body[0]), "marker": lambda: body[0], "deleted": lambda: [x for x in body if False], "unlocated": lambda: ast.Expr(value=ast.Name(id="u")), "shared": lambda: [body[0], body[0]]}[kind]()
    def run(step):
        def m(tree, **kw):
            return result(tree, kw)
        def n(tree, **kw):
            return tree
        if syntax == "name":
            m = E.namemacro(m)
        exp = E.MacroExpander({"m": m, "n": n, STEP: S.m.debug.step_expansion}, "/nowhere/m.py")
        code = {"expr": "m[v]", "name": "m + 1", "block": "with m:\n    v", "decorator": "@m\ndef f():\n    v"}[syntax]
        t = ast.parse(code)
        if syntax in ("expr", "name"):
            e = t.body[0].value
            if step:
                e = ast.copy_location(ast.Subscript(value=step_args(S, args), slice=e), e)
            t = ast.Expr(value=e)
        else:
            t = t.body
            if step:
                t = [ast.With(items=[ast.withitem(context_expr=step_args(S, args), optional_vars=None)], body=t)]
        if not located:
            for x in ast.walk(t if isinstance(t, ast.AST) else ast.Module(body=t, type_ignores=[])):
                for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                    x.__dict__.pop(a, None)
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            r = exp.visit_recursively(t)
        return S.m.core.global_postprocess(r), err.getvalue()
    want, silent = run(False)
    got, text = run(True)
    S.check(silent == "" and "step" in text, "reports")
    S.same(got, want, "expansion")
    if "detailed" in args:
        S.check(text.count("Applying ") == text.count("Result:") and text.count("Applying ") >= 1, "reports of the applications")
        S.reach("detailed")
    S.reach(syntax)
    S.reach(kind)


BAD = [("name", None), ("expr", "other"), ("expr", 5), ("expr", "NAME"), ("block", "other"), ("decorator", None), ("block", "NAME"), ("block", "as")]


def h_misuse(S):
    syntax, arg = S.pick("misuse", BAD)
    E = S.m.expander
    exp = E.MacroExpander({STEP: S.m.debug.step_expansion}, "/nowhere/m.py")
    a = {"NAME": "[x]", None: "", "as": ""}.get(arg, f"[{arg!r}]")
    code = {"expr": f"{STEP}{a}[v]", "block": f"with {STEP}{a}:\n    v", "decorator": f"@{STEP}{a}\ndef f():\n    v", "name": STEP}[syntax]
    if arg == "as":
        code = f"with {STEP} as q: v"
    S.note(code)
    t = ast.parse(code)
    err = io.StringIO()
    def go():
        with contextlib.redirect_stderr(err):
            return exp.visit_recursively(t)
    if syntax == "name" or arg == "as":
        r = S.m.core.global_postprocess(go())
        S.check(syntax != "name" or show(r) == STEP, "a bare name is no invocation")
        S.reach("no invocation")
        return
    e = S.raises(S.m.core.MacroExpansionError, go, "misuse")
    S.check(isinstance(e.__cause__, {"decorator": SyntaxError}.get(syntax, TypeError if arg == "NAME" else ValueError)), lambda: f"rejected with {e.__cause__!r}")
    S.reach("rejected")


INEXPR = G.shapes("expr", [*EF, "step_expansion[E0]", "(step_expansion[E0], E1)", "step_expansion['detailed'][E0]"])
IN_MID = G.shapes("expr", ["m[E0]", "w[E0]", "i", "step_expansion[E0]", "(E0, m[v0])"])
IN_LEAF = G.shapes("expr", ["v0", "w[v0]", "i", "step_expansion[v0]"])
INSTMT = [*["with m: S0", "with w: S0", "with m, w: S0", "@m\ndef f(): S0", "E0", "if E0:\n S0\nelse:\n S1"], "with step_expansion: S0", "with step_expansion:\n S0\n S1", "with step_expansion['detailed']: S0"]
S_IN = G.shapes("stmt", INSTMT)
S_INM = G.shapes("stmt", ["with m: S0", "with w: S0", "E0", "with step_expansion: S0"])
GI = G.grammar(expr=[INEXPR, IN_MID, IN_LEAF], stmt=[c11.S1], focus=True)
GIT = G.grammar(expr=[INEXPR, INEXPR, IN_LEAF], stmt=[c11.S1])
GIS = G.grammar(expr=[IN_LEAF], stmt=[S_IN, S_INM, c11.SLEAF, c11.S1], focus=True)
GIST = G.grammar(expr=[IN_LEAF], stmt=[S_IN, S_INM, c11.SLEAF, c11.S1])
GCOL = G.grammar(expr=[c09.F, G.shapes("expr", ["m[E0]", "m[v0][E0]", "(m, E0)", "w[v0]", "m(E0)[v1]", "m()[v0]", "v0[E0]"]), c09.LEAF], stmt=[G.STMT_ONE], focus=True, **c09.OTHER)
INNER = ["visit", "rec", "keep", "to_w", "guard"]
SYN = {"expr", "name", "no macros"}

HARNESSES = [
    H("collect_expr", h_collect, "the collector, on expressions", dict(sort="expr", gram=GCOL), dict(sort="expr", gram=c09.G_EXPR3), reach=SYN | {"malformed"}),
    H("collect_pos", h_collect, "the collector, below every expression form", dict(sort="expr", gram=c09.G_POS), reach={"expr", "name"}),
    H("collect_stmt", h_collect, "the collector, on statements", dict(sort="stmt", gram=c09.G_STMT), dict(sort="stmt", gram=c09.G_STMT2), reach=SYN | {"malformed", "block", "decorator"}),
    H("collect_spos", h_collect, "the collector, below every statement form", dict(sort="stmt", gram=c09.G_SPOS), dict(sort="stmt", gram=c09.G_SPOS2), reach={"expr", "name", "block", "decorator"}),
    H("hook_expr", h_hook, "hooks, expressions", dict(sort="expr", gram=c11.GE), dict(sort="expr", gram=c11.GET), reach={"failed", "done", "shown"}),
    H("hook_stmt", h_hook, "hooks, statements", dict(sort="stmt", gram=c11.GS), dict(sort="stmt", gram=c11.GST), reach={"failed", "done", "shown"}),
    H("step_expr", h_step, "stepping, expressions", dict(sort="expr", gram=c11.GE, where="top"), dict(sort="expr", gram=c11.GET, where="top"), reach={"failed", "detailed", "steps 0", "steps 1", "steps 2", "steps 3"}),
    H("step_stmt", h_step, "stepping, statements", dict(sort="stmt", gram=c11.GS, where="top"), dict(sort="stmt", gram=c11.GST, where="top"), reach={"failed", "detailed", "steps 1", "steps 2", "steps 3"}),
    H("inside_expr", h_step, "stepping inside of expressions", dict(sort="expr", gram=GI, where="inside", mbehave=INNER), dict(sort="expr", gram=GIT, where="inside", mbehave=INNER), reach={"failed", "stepped", "stepped at several places"}),
    H("inside_stmt", h_step, "stepping inside of statements", dict(sort="stmt", gram=GIS, where="inside", mbehave=INNER), dict(sort="stmt", gram=GIST, where="inside", mbehave=INNER), reach={"failed", "stepped", "stepped at several places"}),
    H("render", h_render, "with the real renderers", reach={"detailed", "expr", "block", "decorator", "name", *RESULTS}),
    H("misuse", h_misuse, "misuse of the stepper", reach={"rejected", "no invocation"}),
]
