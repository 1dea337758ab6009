"""C21: multi-phase compilation."""
import ast
import builtins
import contextlib
import io
import sys
import types
import warnings
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone, preorder

MOD, PKG = "c21mod", "c21pkg"
IMPORT = "from mcpyrate.multiphase import macros, phase\n"
STEP = "from mcpyrate.debug import macros, step_phases\n"
KINDS = ["log", "two", "fail", "def", "use", "assert", "annot"]
MORE = ["phaseuse", "nested", "empty"]
PLAIN = G.shapes("stmt", ["v0", "v0 = v1", "from __future__ import annotations", "from .__future__ import v0"[:0] or "import v0", "with v0: S0", "if v0: S0", "with phase[v0]: S0", "with phase: S0", "with v0[1]: S0", "with phase[1] as v0: S0",
                          "with phase[1], v0: S0", "with phase[1][2]: S0", "with phase[1, 2]: S0", "with phase.x[1]: S0", "with phase['1']: S0", "with phase[1.0]: S0", "with phase[-1]: S0", "with phase[()]: S0", "with phase[1:2]: S0", "def phase(): S0", "async def f(): S0"])
GP = G.grammar(stmt=[PLAIN, G.shapes("stmt", ["v0", "with phase[1]: v0"])])
GSHORT = G.grammar(stmt=[G.shapes("stmt", ["v0", "from __future__ import annotations"])])
BOUNDS = {"quick": f"extraction: 3 statements, each a block of any phase up to 3 (given as any integer from -2 to 4), or an expression or future-import, one of them any of {len(PLAIN)} other statements; compilation: 3 items, each at the top level or in a block of phase 1-3, of 7 kinds (record, record twice, fail in some phase, define a macro, use one, assert, annotate); or 2 items of 10 kinds with one of: a docstring and a future-import, the optimization levels -1 to 2, debug mode, other forms of input; the module absent from, present in, or blocked in the module table, or an empty (false) one; as an ordinary module or in a package",
          "thorough": "4 items, 4 phases"}
OUTSIDE = "more phases or items; dialects (C27); phase blocks that themselves ask for multi-phase compilation; whether state survives from phase to phase"
ASSUMPTIONS = ["`phase[True]` is not considered"]


# -- splitting ---------------------------------------------------------------

def block(n, body):
    return ast.With(items=[ast.withitem(context_expr=ast.Subscript(value=ast.Name(id="phase", ctx=ast.Load()), slice=ast.Constant(value=n, kind=None), ctx=ast.Load()), optional_vars=None)], body=body, type_comment=None)


def h_split(S, items, top, gram, short):
    M = S.m.multiphase
    body, model = [], []
    for i in range(items):
        kind = S.pick(f"kind{i}", ["block", "block of two", "other"] if i < 1 else ["block", "other"])
        if kind == "other":
            s = S.stmt(f"s{i}", gram if i == 1 else short)
            body.append(s)
            model.append([0, [s], s])
        else:
            n = S.int(f"phase{i}", -2, top)
            inner = [ast.Expr(value=ast.Name(id=f"x{i}", ctx=ast.Load()))]
            if kind != "block":
                inner.append(ast.ImportFrom(module="__future__", names=[ast.alias(name="annotations")], level=0))
            s = block(n, inner)
            body.append(s)
            if n >= 1:
                model.append([n, inner, s])
                S.reach("block")
            else:
                model.append([0, [s], s])
                S.reach("wrong number")
    S.note(lambda: [show(nodes.force(s)) for s in body])
    # what each phase must contain
    want = {}
    for p in range(top, -1, -1):
        w = []
        for n, inner, s in model:
            if n >= 1:
                if n >= p:
                    w.append(("body", inner))
            elif p == 0:
                w.append(("stmt", s))
            elif nodes.sx_type(s) is ast.ImportFrom and s.module == "__future__":
                w.append(("stmt", s))
        want[p] = [clone(x) for kind, v in w for x in (v if kind == "body" else [v])]
    high = 0
    for n, _, _ in model:
        if n > high:
            high = n
    tree = ast.Module(body=body, type_ignores=[])
    got = M.detect_highest_phase(tree, filename="m.py")
    S.check(got == high or not high and not got, lambda: f"highest phase {got!r}, expected {high}")
    seen = set()
    for p in range(int(got or 0), -1, -1):
        t = M.extract_phase(tree, filename="m.py", phase=p)
        S.check(type(t) is ast.Module, f"phase {p} is no module")
        S.same(t.body, want[p], f"phase {p}")
        if p:
            S.check(t is not tree, "the phase is the whole")
            rest = [n for s in tree.body for n in preorder(s) if isinstance(n, (ast.expr, ast.stmt))]
            ids = {id(n) for n in rest}
            for s in t.body:
                if not (type(s) is ast.ImportFrom and any(s is x for x in tree.body)):
                    for n in preorder(s):
                        S.check(not isinstance(n, (ast.expr, ast.stmt)) or id(n) not in ids, lambda: f"phase {p} shares a node with what remains")
        S.reach(f"phase {p}")


# -- compiling and running ---------------------------------------------------------

class Boom(Exception):
    pass

class FalsyModule(types.ModuleType):
    def __len__(self):
        return 0


class Item:
    pass


def text_of(it, i):
    t = {"log": f"_c21('log', {i}, __phase__)", "two": f"_c21('two', {i}, __phase__)\n_c21('two2', {i}, __phase__)", "fail": f"_c21('fail', {i}, __phase__)",
         "def": f"def m{i}(tree, **kw): return _c21m({i}, tree)\n_c21('def', {i}, __phase__)", "use": f"from __self__ import macros, m{it.of}\n_c21('use', {i}, m{it.of}[0])",
         "assert": f"assert _c21('assert', {i}, __phase__)", "annot": f"x: _c21('annot', {i}, __phase__) = 0",
         "phaseuse": f"if __phase__ == 1: _c21('one', {i}, __phase__)\nelse: _c21('other', {i}, __phase__)",
         "nested": f"if _c21('cond', {i}, __phase__):\n def g(): return _c21('nested', {i}, __phase__)\n g()", "empty": "pass"}[it.kind]
    if it.phase:
        return f"with phase[{it.phase}]:\n" + "\n".join("    " + l for l in t.split("\n"))
    return t


def events(it, i, k, future, optimize):
    e = lambda what, v=k: [(what, i, v)]
    return {"log": e("log"), "two": e("two") + e("two2"), "fail": e("fail"), "def": e("def"), "use": e("use", ("macro", it.of)), "assert": e("assert") if optimize < 1 else [],
            "annot": [] if future else e("annot"), "phaseuse": e("one" if k == 1 else "other"), "nested": e("cond") + e("nested"), "empty": []}[it.kind]


def h_compile(S, items, top, kinds, options, last=None):
    m = S.m
    warnings.simplefilter("ignore")
    its = []
    for i in range(items):
        it = Item()
        it.phase = S.pick(f"phase{i}", list(range(top + 1)))
        can = kinds if i < 2 else last or kinds
        it.kind = S.pick(f"kind{i}", can)
        it.of = None
        its.append(it)
    defs = [i for i, it in enumerate(its) if it.kind == "def"]
    for i, it in enumerate(its):
        if it.kind == "use":
            if not defs:
                return
            it.of = S.pick(f"macro{i}", defs)
    high = max(it.phase for it in its)
    fails = [i for i, it in enumerate(its) if it.kind == "fail"]
    fail_at = S.pick("fails in", list(range(high + 1))) if fails else None
    opt = {"doc": False, "future": any(it.kind == "annot" for it in its) and S.pick("future", [False, True]), "debug": False, "optimize": -1, "entry": "tree", "module": MOD, "table": "module"}
    vary = S.pick("vary", ["start", "optimize", "table", "entry", "debug"]) if options else "table" if fails or items < 3 else ""
    if vary == "start":
        opt["doc"] = S.pick("doc", [False, True])
        opt["future"] = S.pick("future2", [False, True])
        opt["entry"] = S.pick("entry", ["tree", "text"])
    elif vary == "optimize":
        opt["optimize"] = S.pick("optimize", [-1, 0, 1, 2])
    elif vary == "entry":
        opt["entry"] = S.pick("entry", ["tree", "text", "list", "multiphase"])
    elif vary == "debug":
        opt["debug"] = True
    elif vary == "table":
        opt["table"] = S.pick("table", ["absent", "module"] if not options else ["absent", "module", "empty module", "blocked"])
        opt["module"] = S.pick("module", [MOD, PKG + ".sub"])
    text = ("'doc'\n" if opt["doc"] else "") + ("from __future__ import annotations\n" if opt["future"] else "") + IMPORT + (STEP if opt["debug"] else "") + "\n".join(text_of(it, i) for i, it in enumerate(its)) + "\n"
    S.note((opt, fail_at, text))
    # what must happen
    want, wrong = [], None
    for k in range(high, 0, -1):
        for i, it in enumerate(its):
            if it.phase == k and it.kind == "use" and its[it.of].phase <= k:
                wrong = wrong or ("macro", k)
        if wrong:
            break
        for i, it in enumerate(its):
            if it.phase >= k and not wrong:
                want += events(it, i, k, opt["future"], opt["optimize"])
                if it.kind == "fail" and k == fail_at:
                    wrong = ("fail", k)
        if wrong:
            break
    if not wrong and any(it.kind == "use" and it.phase == 0 and its[it.of].phase == 0 for it in its):
        wrong = ("macro", 0)
    log = []
    def record(what, i, v):
        log.append((what, i, v))
        if what == "fail" and v == fail_at:
            raise Boom
        return True
    def macro(i, tree):
        return ast.Tuple(elts=[ast.Constant(value="macro", kind=None), ast.Constant(value=i, kind=None)], ctx=ast.Load())
    builtins._c21, builtins._c21m = record, macro
    name = opt["module"]
    before = dict(sys.modules)
    pkg = types.ModuleType(PKG)
    old = {"module": lambda: types.ModuleType(name), "empty module": lambda: FalsyModule(name), "blocked": lambda: None, "absent": lambda: None}[opt["table"]]()
    try:
        sys.modules[PKG] = pkg
        pkg.sub = marker = object()
        if opt["table"] != "absent":
            sys.modules[name] = old
        S.m.dialects    # (loaded)
        def go():
            tree = ast.parse(text)
            err = io.StringIO()
            with contextlib.redirect_stderr(err):
                if opt["entry"] == "multiphase":
                    r = m.multiphase.multiphase_expand(tree, filename="/nowhere/c21.py", self_module=name, _optimize=opt["optimize"])
                else:
                    r = m.compiler.expand({"tree": tree, "list": tree.body, "text": text}[opt["entry"]], "/nowhere/c21.py", optimize=opt["optimize"], self_module=name)
            S.check(bool(err.getvalue()) == opt["debug"], "debug output")
            return r
        if wrong:
            e = S.raises(Exception, go, f"{wrong}")
            while wrong[0] == "fail" and not isinstance(e, Boom) and (e.__cause__ or e.__context__):
                e = e.__cause__ or e.__context__
            S.check(wrong[0] != "fail" or isinstance(e, Boom), lambda: f"failed with {e!r}")
            S.reach("failed at phase 0" if wrong[1] == 0 else "failed at a higher phase")
        else:
            tree = go()
        S.check((name in sys.modules) == (opt["table"] != "absent") and sys.modules.get(name) is old, lambda: f"module table entry {sys.modules.get(name)!r}, before: {opt['table']}")
        S.check(pkg.sub is marker, "the parent package was changed")
        S.check(log == want, lambda: f"run in the higher phases: {log}, expected {want}")
        if wrong:
            return
        S.check(type(tree) is ast.Module, "result is no module")
        body = list(tree.body)
        if opt["doc"]:
            S.check(show(body.pop(0)) == "'doc'", "docstring lost")
            S.reach("docstring")
        if opt["future"]:
            S.check(show(body.pop(0)) == "from __future__ import annotations", "future-import not first")
            S.reach("future")
        S.check(show(body[0]) == "__phase__ = 0", lambda: f"first statement {show(body[0])}")
        for x in ast.walk(tree):
            S.check(not (isinstance(x, ast.Name) and x.id == "phase"), "a phase block is left")
        log.clear()
        code = compile(tree, "c21.py", "exec", dont_inherit=True)
        env = {"__name__": name}
        want0 = []
        for i, it in enumerate(its):
            want0 += events(it, i, 0, opt["future"], 0)
            if it.kind == "fail" and fail_at == 0:
                break
        try:
            exec(code, env)
        except Boom:
            S.check(fail_at == 0, "fails")
        S.check(log == want0, lambda: f"run in the end: {log}, expected {want0}")
        S.check(env["__phase__"] == 0, "__phase__")
        S.reach("compiled")
    finally:
        del builtins._c21, builtins._c21m
        for k in list(sys.modules):
            if k not in before:
                del sys.modules[k]
        sys.modules.update(before)


SPECS = ["phase", "phase[0]", "phase[-1]", "phase['1']", "phase[1.0]", "phase[x]", "phase[1 + 1]", "phase[1, 2]", "phase[1:2]", "phase[None]", "phase[...]", "phase[1j]", "phase[b'1']", "phase[1][1]", "phase(1)", "phase[1] as x", "phase[1], y", "y, phase[1]", "phase[*x]", "phase[()]"]


def h_specs(S):
    """Specifications that are none, and misplaced blocks."""
    spec = S.pick("spec", SPECS + ["phase[1]"])
    where = S.pick("where", ["top", "if", "def", "block", "class"] if spec == "phase[1]" else ["top", "block"])
    if (spec, where) == ("phase[1]", "top"):
        return
    t = f"with {spec}:\n    pass"
    t = {"top": t, "if": "if 1:\n" + indent(t), "def": "def f():\n" + indent(t), "class": "class C:\n" + indent(t), "block": "with phase[1]:\n    from mcpyrate.multiphase import phase as ph\n" + indent(t) + "\n    ph"}[where]
    if where == "block":
        t = "with phase[2]:\n" + indent(t.split("\n", 1)[1])
    text = IMPORT + t
    S.note(text)
    before = dict(sys.modules)
    # (in a block, the inner one is not seen as a macro: the name is not bound in that phase. It appears in the end)
    if where == "block":
        text = IMPORT + "y = x = 0\n" + "with phase[1]:\n    if __phase__ == 0:\n" + indent(indent(f"with {spec}:\n    pass"))
    def go():
        S.m.compiler.expand(text, "/nowhere/c21.py", self_module=MOD)
    try:
        S.raises(Exception, go, f"with {spec}")
        S.check(MOD not in sys.modules, "left in the module table")
    finally:
        for k in list(sys.modules):
            if k not in before:
                del sys.modules[k]
    S.reach("rejected")


def indent(t):
    return "\n".join("    " + l for l in t.split("\n"))


def h_requests(S):
    """Which modules are compiled in phases, and which in debug mode?"""
    mod = S.pick("module", ["mcpyrate.multiphase", "mcpyrate.debug", "mcpyrate", ".multiphase", "other"])
    names = [S.pick(f"name{i}", ["macros", "phase", "step_phases", "other"]) for i in range(S.pick("n", [1, 2, 3]))]
    asname = S.pick("as", [None, "x"])
    where = S.pick("where", ["first", "later", "nested"])
    imp = ast.ImportFrom(module=mod.lstrip("."), names=[ast.alias(name=n, asname=asname if i and n == names[-1] else None) for i, n in enumerate(names)], level=1 if mod[0] == "." else 0)
    imp.lineno = imp.col_offset = 1
    body = {"first": [imp, ast.Pass()], "later": [ast.Pass(), ast.Import(names=[ast.alias(name="macros")]), imp], "nested": [ast.If(test=ast.Constant(value=1), body=[imp], orelse=[])]}[where]
    tree = ast.Module(body=body, type_ignores=[])
    S.note((where, show(imp)))
    is_import = names[0] == "macros" and where != "nested"
    for fn, module, name in (("ismultiphase", "mcpyrate.multiphase", "phase"), ("isdebug", "mcpyrate.debug", "step_phases")):
        want = is_import and mod == module and name in names[1:]
        got = getattr(S.m.multiphase, fn)(tree)
        S.check(got is want, lambda: f"{fn} is {got}, expected {want}: {show(imp)}")
        S.reach(f"{fn} {want}")


HARNESSES = [
    H("split", h_split, "extraction of phases", dict(items=3, top=3, gram=GP, short=GSHORT), dict(items=4, top=4, gram=GP, short=GSHORT), reach={"block", "wrong number", "phase 0", "phase 1", "phase 2", "phase 3"}),
    H("compile", h_compile, "compiling and running", dict(items=3, top=3, kinds=KINDS, options=False, last=["two", "use", "def"]), dict(items=4, top=3, kinds=KINDS[1:], options=False, last=["two", "use", "def"]), reach={"compiled", "failed at phase 0", "failed at a higher phase", "future"}),
    H("options", h_compile, "with all options", dict(items=2, top=2, kinds=KINDS + MORE, options=True), dict(items=2, top=3, kinds=KINDS + MORE, options=True), reach={"compiled", "failed at phase 0", "failed at a higher phase", "docstring", "future"}),
    H("specs", h_specs, "invalid specifications", reach={"rejected"}),
    H("requests", h_requests, "requests for multi-phase compilation", reach={"ismultiphase True", "ismultiphase False", "isdebug True", "isdebug False"}),
]
