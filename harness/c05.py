"""C05: hygienically captured macros."""
import ast
import marshal
import uuid
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone
from . import quo

LOG = []


def applied(which, tree, kw):
    LOG.append((which, kw["syntax"], tree, kw["args"]))
    return ast.Name(id="done", ctx=ast.Load()) if kw["syntax"] in ("expr", "name") else ast.Pass()


def mac(tree, **kw):
    return applied("mac", tree, kw)

def mac2(tree, **kw):
    return applied("mac2", tree, kw)

def wrong(tree, **kw):
    return applied("wrong", tree, kw)

def par(tree, **kw):
    return applied("par", tree, kw)

def nam(tree, **kw):
    return applied("nam", tree, kw)

class NS:
    @staticmethod
    def mac(tree, **kw):
        return applied("NS.mac", tree, kw)

class Callable:
    def __init__(self, n):
        self.n, self.__name__ = n, "mac"
    def __call__(self, tree, **kw):
        return applied(f"Callable({self.n})", tree, kw)


FUNCS = {"mac": mac, "mac2": mac2, "NS.mac": NS.mac, "par": par, "nam": nam, "Callable(1)": Callable(1), "Callable(2)": Callable(2)}
FORMS = {"expr": "h[NAME][v0]", "call": "h[NAME](v0)", "with": "with h[NAME]: v0", "decorator": "@h[NAME]\ndef f(): v0", "inner": "f(g(h[NAME][v0]))", "arg": "h[NAME][v1][v0]", "name": "h[NAME]", "withas": "with h[NAME] as x, v1: v0"}
BOUNDS = {"quick": f"histories of 4 operations (capture, capture again what is captured, run the quoting code, expand the result, forget everything as in a new process) after a first capture; up to 2 captures of {len(FUNCS)} macros (some of them of the same name) under 2 names, in 3 ways; a source of ids that may repeat any of those it gave out; 2 sets of bindings at the use site. All {len(FORMS)} syntactic forms of use, for all macros, 4 names, 4 sets of bindings. Captures of names that may or may not be bound, among 3 names, both locally and globally. 7 ways to put a quote with a capture inside an unquote; 9 quotes of code that uses an already captured macro",
          "thorough": "up to 3 captures"}
OUTSIDE = "longer histories; macros that cannot be pickled (documented); names that themselves end in an underscore and 32 hex digits"
ASSUMPTIONS = ["ids are never the same in different processes (that is what a uuid is); within a process they may repeat, but not forever"]


class Ids:
    """uuid4 that may repeat itself, though not twice in a row."""
    def __init__(self, S, on=True):
        self.S, self.n, self.old, self.last, self.on = S, 0, [], False, on
    def __call__(self):
        self.n += 1
        r = None
        if self.on and self.old and not self.last:
            r = self.S.pick(f"uuid{self.n}", [None] + self.old)
        self.last = r is not None
        if r is None:
            r = uuid.UUID(int=(0x123456789abcdef0123456789abcdef * (2 * self.n + 1)) % (1 << 128))
            self.old.append(r)
        else:
            self.S.reach("id repeated")
        return r


def declare(S):
    S.m.expander.parametricmacro(par)
    S.m.expander.namemacro(nam)
    LOG.clear()


class Cap:
    unique = tree = None


def quoting(S, name, bindings, form):
    """Code that builds, when run, code that uses the hygienically captured `name`."""
    ex = quo.expander(S, bindings)
    t = ast.parse(FORMS[form].replace("NAME", name)).body[0]
    if isinstance(t, ast.Expr):
        return quo.finish(S, ex, quo.at(quo.sub("q", t.value)), "eval")
    return quo.finish(S, ex, [quo.at(quo.blk("q", [t], "out"))], "exec")


def result(S, top):
    r = quo.run(S, top, quo.env(S))
    return r["out"] if isinstance(r, dict) else r


def captured(S, top):
    """The one macro capture in `top`."""
    got = [x for x in map(S.m.quotes.is_captured_macro, ast.walk(top)) if x is not False]
    S.check(len(got) == 1, lambda: f"{len(got)} captured macros recognized in {show(top)}")
    S.check(type(got[0]) is tuple and len(got[0]) == 3, lambda: f"recognized {got[0]!r}")
    S.check(not any(map(S.m.quotes.is_captured_value, ast.walk(top))), "a captured macro recognized as a value")
    return got[0]


def unique_in(tree, name):
    names = [n.id for n in ast.walk(tree if isinstance(tree, ast.AST) else ast.Module(body=tree, type_ignores=[])) if type(n) is ast.Name and n.id not in ("f", "g", "v0", "v1", "x")]
    return names


def expand(S, tree, bindings):
    LOG.clear()
    ex = S.m.expander.MacroExpander(dict(bindings), "/nowhere/use.py")
    t = clone(tree)
    if isinstance(t, list):
        top = ast.Module(body=[quo.at(x) for x in t], type_ignores=[])
    else:
        top = ast.Module(body=[quo.at(ast.Expr(value=t))], type_ignores=[])
    top = S.m.core.global_postprocess(ex.visit_recursively(S.m.astfixers.fix_ctx(top, copy_seen_nodes=True)))
    return ex, top, list(LOG)


def h_history(S, steps, most):
    declare(S)
    Q = S.m.quotes
    old, uuid.uuid4 = uuid.uuid4, Ids(S)
    hist, caps, seen = [], [], {}
    S.note(lambda: hist)
    gb = S.m.core.global_bindings
    def new_name(c, name, unique):
        S.check(isinstance(unique, str) and unique.startswith(name + "_") and unique.isidentifier(), lambda: f"unique name {unique!r} for {name!r}; {hist}")
        S.check(unique not in seen, lambda: f"{unique!r} given to two captures; {hist}")
        for u, (n, _) in seen.items():
            S.check(n != name or len(u) == len(unique), lambda: f"unique names of {name!r} are {u!r} and {unique!r}; {hist}")
        seen[unique] = (name, c)
        c.unique = unique
    def capture(k):
        c = Cap()
        c.func = S.pick(f"func{k}", ["mac", "NS.mac", "Callable(1)", "Callable(2)"] if k else ["mac", "Callable(1)"])
        c.name = S.pick(f"name{k}", ["mac", "x"]) if k else "mac"
        way = S.pick(f"way{k}", ["quote", "capture_macro", "capture_as_macro"])
        f = FUNCS[c.func]
        hist.append((way, c.func, c.name))
        if way == "quote":
            c.code = quoting(S, c.name, {c.name: f, "y": wrong}, "name")
        elif way == "capture_macro":
            c.code = Q.capture_macro(f, c.name)
        else:
            c.code = None
            c.tree = Q.capture_as_macro(f)
            c.name = "mac"
            S.check(type(c.tree) is ast.Name, "capture_as_macro gives no Name")
            new_name(c, "mac", c.tree.id)
        if c.code is not None:
            k = captured(S, c.code)
            S.check(k[0] == c.name, lambda: f"captured {c.name}, recognized {k[0]!r}")
            S.check(k[2].__class__ is bytes, "frozen macro")
            new_name(c, c.name, k[1])
        caps.append(c)
    def recapture(c):
        n = Cap()
        n.func, n.name = c.func, c.name
        how = S.pick(f"again{len(hist)}", (["quote"] if c.tree is not None else []) + (["uncompile"] if c.code is not None else []))
        hist.append(("recapture", how, caps.index(c)))
        if how == "quote":
            n.code = quoting(S, c.unique, {"mac": wrong, "x": wrong}, "name")
        else:
            n.code = Q.astify(Q.unastify(as_expr(c.code)), quo.expander(S, {"mac": wrong, "x": wrong}))
        k = captured(S, n.code)
        S.check(k[0] == c.name, lambda: f"captured {c.name} again, recognized {k[0]!r}")
        new_name(n, c.name, k[1])
        caps.append(n)
        S.reach("recapture " + how)
    def run(c):
        hist.append(("run", caps.index(c)))
        if isinstance(c.code, ast.Call):
            t = quo.evaluate(S, clone(c.code), quo.env(S))
            S.check(type(t) is ast.Name and t.id == c.unique, lambda: f"lookup gives {show(t)}, expected {c.unique}")
        else:
            t = quo.run(S, c.code, quo.env(S))
            S.check(type(t) is ast.Name and t.id == c.unique, lambda: f"lookup gives {show(t)}, expected {c.unique}")
        c.tree = t
        S.check(type(c.tree.id) is str, "name")
    def invoke(c, i):
        local = S.pick(f"local{i}", [{}, {"mac": wrong, "x": wrong}]) if i in (0, 101) else {"mac": mac2}
        hist.append(("expand", caps.index(c), sorted(local)))
        t = ast.Subscript(value=clone(c.tree), slice=ast.Name(id="v0", ctx=ast.Load()), ctx=ast.Load())
        ex, top, log = expand(S, t, local)
        S.check([x[:2] for x in log] == [(c.func, "expr")], lambda: f"applied {log}, expected {c.func}; {hist}")
        S.check(ex.isbound(c.unique) is not False, "unbound")
        S.reach("expand")
    try:
        capture(0)
        for i in range(steps):
            can = [("capture", None)] if len(caps) < most else []
            for c in caps:
                if len(caps) < most and (c.tree is not None or c.code is not None):
                    can.append(("recapture", c))
                if c.code is not None:
                    can.append(("run", c))
                if c.tree is not None and i < steps - 1:
                    can.append(("expand", c))
            if seen and i:
                can.append(("process", None))
            op, c = S.pick(f"op{i}", can)
            if op == "capture":
                capture(len(caps))
            elif op == "recapture":
                recapture(c)
            elif op == "run":
                run(c)
            elif op == "expand":
                invoke(c, i)
            else:
                hist.append("new process")
                gb.clear()
                S.m.reset.module(S.m.utils)
                uuid.uuid4.old = []
                for c in caps:
                    c.tree = None
                    if c.code is not None and not isinstance(c.code, ast.Call):
                        code = compile(c.code, "<run>", "eval")
                        marshal.loads(marshal.dumps(code))
                S.reach("new process")
        for i, c in enumerate(caps):
            if c.tree is None and c.code is not None:
                run(c)
            if c.tree is not None:
                invoke(c, 100 + i)
    finally:
        uuid.uuid4 = old


def as_expr(code):
    return clone(code.body if isinstance(code, ast.Expression) else code)


def h_forms(S):
    """Every syntactic form of use."""
    declare(S)
    form = S.pick("form", list(FORMS))
    func = S.pick("func", ["par"] if form == "arg" else ["nam"] if form in ("name", "call") else list(FUNCS))
    if form == "call":
        func = S.pick("func2", ["nam"])
    name = S.pick("name", ["mac", "_", "x_1", "x_0123456789abcdef"])
    local = S.pick("local", [{}, {name: wrong}, {name: wrong, "f": mac2, "v0": wrong, "v1": wrong}, {"q": wrong, "mac": mac2}])
    shadow = S.pick("globally", [False, True])
    S.note((form, func, name, sorted(local), shadow))
    if shadow:      # bound globally, at the capture: the local binding is the one that counts
        S.m.core.global_bindings[name] = wrong
    f = FUNCS[func]
    top = quoting(S, name, {name: f, "zz": wrong}, form)
    k = captured(S, top)
    S.check(k[0] == name, lambda: f"captured {name}, recognized {k[0]!r}")
    tree = result(S, top)
    names = unique_in(tree, name)
    S.check(names == [k[1]], lambda: f"names in the result {names}, expected {k[1]}")
    S.m.core.global_bindings.pop(name, None)
    t = ast.parse(FORMS[form].replace("h[NAME]", k[1])).body[0]
    want = [t] if not isinstance(t, ast.Expr) else t.value
    S.check(ast.dump(ast.Module(body=S.m.astfixers.fix_ctx(clone(tree) if isinstance(tree, list) else [ast.Expr(value=clone(tree))], copy_seen_nodes=True), type_ignores=[])) ==
            ast.dump(ast.Module(body=want if isinstance(want, list) else [ast.Expr(value=want)], type_ignores=[])), lambda: f"quoted {form}: {show(tree)}")
    ex, top, log = expand(S, tree, local)
    syntax = {"with": "block", "withas": "block", "decorator": "decorator", "name": "name", "call": "name"}.get(form, "expr")
    mine = [x for x in log if x[0] not in ("wrong", "mac2") or x[0] == func]
    S.check([x[:2] for x in mine] == [(func, syntax)], lambda: f"applied {log}, expected {func}")
    if form == "arg":
        S.check([show(a) for a in mine[0][3]] == ["v1"], lambda: f"macro arguments {mine[0][3]}")
    S.check(not any(isinstance(x, ast.Name) and x.id == k[1] for x in ast.walk(top)), lambda: f"still there: {ast.dump(top)}")
    S.check(ex.isbound(name) is (local[name] if name in local else False), "the original name is bound now")
    S.reach(form)


def h_bound(S):
    """What is a macro, and what is a value?"""
    declare(S)
    names = ["x", "y", "z"]
    local = {n: {"mac": mac, "mac2": mac2}[f] for n in names for f in [S.pick(f"local {n}", ["none", "mac", "mac2"] if n != "z" else ["none", "mac"])] if f != "none"}
    glob = {n: {"par": par, "NS.mac": NS.mac}[f] for n in names for f in [S.pick(f"global {n}", ["none", "par", "NS.mac"] if n == "x" else ["none", "par"])] if f != "none"}
    S.m.core.global_bindings.update(glob)
    use = S.pick("uses", ["x y z", "x x", "x + y", "x.a"])
    S.note((sorted(local), sorted(glob), use))
    env = {"x": [1], "y": [2], "z": [3]}
    if use in ("x y z", "x x"):
        code = ast.Tuple(elts=[quo.sub("h", ast.Name(id=n, ctx=ast.Load())) for n in use.split()], ctx=ast.Load())
    else:
        code = quo.sub("h", ast.parse(use, mode="eval").body)
        env["x"] = nodes
        if use == "x.a":
            env["x"] = FUNCS_HOLDER
        else:
            env["x"], env["y"] = 1, 2
    top = quo.finish(S, quo.expander(S, local), quo.at(quo.sub("q", code)), "eval")
    tree = quo.run(S, top, quo.env(S, **env))
    got = tree.elts if use in ("x y z", "x x") else [tree]
    bound = {**glob, **local}
    ids = []
    for g, n in zip(got, use.split() if use in ("x y z", "x x") else [None]):
        if n in bound:
            S.check(type(g) is ast.Name and g.id.startswith(n + "_") and g.id not in ids, lambda: f"capture of the macro {n}: {show(g)}")
            ids.append(g.id)
            S.check(S.m.core.global_bindings.get(g.id) is bound[n], lambda: f"{n} is bound to {S.m.core.global_bindings.get(g.id)}, expected {bound[n]}")
            S.reach("macro")
        else:
            k = S.m.quotes.is_captured_value(g)
            S.check(k is not False, lambda: f"capture of the value {n}: {show(g)}")
            S.check(S.m.quotes.is_captured_macro(g) is False, "recognized as a macro")
            v = S.m.quotes.lookup_value(k)
            want = env[n] if n else 3 if use == "x + y" else [9]
            S.check(v == want, lambda: f"value {v!r}, expected {want!r}")
            S.reach("value")
    for n in names:
        S.check(S.m.core.global_bindings.get(n) is glob.get(n), "global bindings changed")


class Holder:
    a = [9]
FUNCS_HOLDER = Holder


def h_types(S):
    """Things that are no macros."""
    v = S.pick("value", [None, 1, "mac", [], [mac], ast.Name(id="x"), object()])
    fn = S.pick("function", ["capture_macro", "capture_as_macro"])
    S.raises(TypeError, lambda: S.m.quotes.capture_macro(v, "x") if fn == "capture_macro" else S.m.quotes.capture_as_macro(v), f"capture of {v!r}")
    S.check(not S.m.core.global_bindings, "bindings changed")
    S.reach("rejected")


NEAR = ["x", "f(x)", "lookup_macro(('x', 'x_1', b''))", "quotes.lookup_macro(('x', 'x_1', b''))", "m.quotes.lookup_macro(('x', 'x_1', b''))", "mcpyrate.q.lookup_macro(('x', 'x_1', b''))", "mcpyrate.quotes.lookup_macro",
        "mcpyrate.quotes.lookup_value(('x', b''))", "mcpyrate.quotes.capture_macro(v0, 'x')", "mcpyrate.quotes.lookup_macro[('x', 'x_1', b'')]", "f(mcpyrate.quotes.lookup_macro(('x', 'x_1', b'')))", "mcpyrate.quotes.lookup_macro(('x', 'x_1', b'')).a",
        "__import__('os').quotes.lookup_macro(('x', 'x_1', b''))", "__import__(v0).quotes.lookup_macro(('x', 'x_1', b''))", "f('mcpyrate.quotes').quotes.lookup_macro(('x', 'x_1', b''))", "mcpyrate().quotes.lookup_macro(('x', 'x_1', b''))"]
GN = G.grammar(expr=[G.shapes("expr", NEAR)])


def h_other(S, gram):
    t = S.expr("t", gram)
    S.note(lambda: show(nodes.force(clone(t))))
    r = S.m.quotes.is_captured_macro(t)
    S.check(r is False, lambda: f"recognized {r!r} in {show(t)}")
    S.reach("no capture")


NEST = {"a": "q[f(a[q[X]])]", "u": "q[f(u[q[X]])]", "t": "q[t[(q[X], q[g])]]", "twice": "q[f(a[q[g(a[q[X]])]])]", "outside": "f(q[X])", "beside": "(q[h[v1]], q[a[q[X]]])"}
def h_nested(S):
    """A capture in a quote that is inside an unquote."""
    declare(S)
    nest = S.pick("nest", list(NEST))
    func = S.pick("func", ["mac", "nam", "par"])
    local = S.pick("bound", ["locally", "globally", "nowhere"])
    S.note((nest, func, local))
    b = {"name": FUNCS[func]}
    if local == "globally":
        S.m.core.global_bindings.update(b)
    ex = quo.expander(S, b if local == "locally" else {})
    src = NEST[nest].replace("X", "h[name]" if func == "nam" else "h[name][v0]" if func == "mac" else "h[name][v2][v0]")
    top = quo.finish(S, ex, quo.at(ast.parse(src, mode="eval").body), "eval")
    env = quo.env(S, f=lambda x: x, name=[1], v1=[2])
    tree = quo.run(S, top, env)
    while isinstance(tree, tuple):
        tree = tree[-1]
    if nest == "u":         # (the quoted tree is lifted: this is code that makes it)
        tree = quo.evaluate(S, tree.args[0], dict(env, f=lambda x: x))
    got = {n.id for n in ast.walk(tree) if type(n) is ast.Name} - {"f", "g", "v0", "v1", "v2"}
    if local == "nowhere":
        ks = [k for k in map(S.m.quotes.is_captured_value, ast.walk(tree)) if k]
        S.check(len(ks) == 1 and S.m.quotes.lookup_value(ks[0]) == [1], lambda: f"{src}: {show(tree)}")
        S.reach("value")
        return
    mine = [n for n in got if n.startswith("name_")]
    S.check(len(mine) == 1 and S.m.core.global_bindings.get(mine[0]) is FUNCS[func], lambda: f"{src} gives {show(tree)}; expected a capture of the macro {func}")
    ex, t, log = expand(S, tree, {"name": wrong})
    S.check([x[:2] for x in log] == [(func, "name" if func == "nam" else "expr")], lambda: f"applied {log}")
    S.reach("macro")


KEPT = ["q[U[x]]", "q[f(U[x], a[v0])]", "q[f(q[U[x]])]", "q[U]", "q[f(a[v0], u[1])]", "q[q[u[U[x]]]]", "with q as out:\n with U:\n  x", "with q as out:\n @U\n def f(): pass", "with q as out:\n U[x]\n a[v0]"]
def h_kept(S):
    """Quoted code that uses a captured macro is still that code."""
    declare(S)
    src = S.pick("code", KEPT)
    func = S.pick("func", ["mac", "nam"])
    node = S.m.quotes.capture_as_macro(FUNCS[func])
    u = node.id
    S.note((src, func))
    ex = quo.expander(S, S.pick("local", [{}, {"mac": wrong, u: wrong}]))
    LOG.clear()
    t = ast.parse(src.replace("U", u)).body[0]
    env = quo.env(S, v0=ast.Name(id="w", ctx=ast.Load()))
    if isinstance(t, ast.Expr):
        top = quo.finish(S, ex, quo.at(t.value), "eval")
        got = [ast.Expr(value=quo.run(S, top, env))]
        want = ast.parse(src.replace("U", u)[2:-1].replace("a[v0]", "w")).body
    else:
        top = quo.finish(S, ex, [quo.at(t)], "exec")
        got = quo.run(S, top, env)["out"]
        want = ast.parse("if 1:\n" + src.split("\n", 1)[1].replace("U", u).replace("a[v0]", "w")).body[0].body
    if "u[1]" in src:
        want = ast.parse("f(w, 1)").body
    S.check(LOG == [], lambda: f"{src}: applied {LOG}")
    d = lambda b: ast.dump(ast.Module(body=S.m.astfixers.fix_ctx(clone(b), copy_seen_nodes=True), type_ignores=[]))
    S.check(d(got) == d(want), lambda: f"{src}: {d(got)}, expected {d(want)}")
    S.reach("kept")


HARNESSES = [
    H("history", h_history, "captures, recaptures, lookups, expansions, new processes", dict(steps=4, most=2), dict(steps=4, most=3), reach={"expand", "recapture quote", "recapture uncompile", "new process", "id repeated"}),
    H("forms", h_forms, "all forms of use", reach=set(FORMS)),
    H("bound", h_bound, "macros and values", reach={"macro", "value"}),
    H("nested", h_nested, "captures in quotes inside unquotes", reach={"macro", "value"}),
    H("kept", h_kept, "quoted code that uses captured macros", reach={"kept"}),
    H("types", h_types, "things that are no macros", reach={"rejected"}),
    H("other", h_other, "code that is no capture", dict(gram=GN), reach={"no capture"}),
]
