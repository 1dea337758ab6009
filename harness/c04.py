"""C04: hygienically captured values."""
import ast
import copy
import sys
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import show, clone
from . import quo

EXPRS = ["x", "x.a", "x[0]", "f(x)", "1", "(x, y)", "lambda: x", "x + y", "'x'", "[x for x in y]", "not x", "f'{x}'", "x[y:]", "f(a, *b, k=c)", "-x", "x if y else z"]
NEAR = ["x", "f(x)", "lookup_value((v0, v1))", "quotes.lookup_value((v0, v1))", "mcpyrate.lookup_value((v0, v1))", "m.quotes.lookup_value((v0, v1))", "mcpyrate.q.lookup_value((v0, v1))",
        "mcpyrate.quotes.lookup_value", "mcpyrate.quotes.lookup(('x', b''))", "mcpyrate.quotes.lookup_value[('x', b'')]", "mcpyrate.quotes.lookup_macro(('x', 'y', b''))", "mcpyrate.quotes.lookup_value(('x', b''))(v0)",
        "mcpyrate.quotes.capture_value", "quotes.capture_value(v0, 'x')", "(mcpyrate.quotes.capture_value, v0)", "__import__('os').quotes.lookup_value(('x', b''))", "__import__(v0).quotes.lookup_value(('x', b''))", "f('mcpyrate.quotes').quotes.lookup_value(('x', b''))",
        "mcpyrate().quotes.lookup_value(('x', b''))", "mcpyrate.quotes().lookup_value(('x', b''))", "f(mcpyrate.quotes.lookup_value(('x', b'')))", "__import__('mcpyrate.quotes').quotes.lookup_macro(('x', 'y', b''))", "lambda: mcpyrate.quotes.capture_value(v0, 'x')"]
GN = G.grammar(expr=[G.shapes("expr", NEAR)])
VALUES = ["list1", "list2", "int", "str", "obj", "func", "class", "none"]
OPS = ["capture", "lookup", "run", "discard", "mutate", "mutate_source"]
BOUNDS = {"quick": f"histories of up to 4 operations out of {OPS} on up to 3 captures, after one capture, also of the same object again, of {len(set(VALUES))} kinds of values under two names, where the memory allocator may place a new object wherever no live one is; code with up to 3 captures, of equal or different values under equal or different names, compiled at once and run twice; {len(EXPRS)} captured expressions and {len(NEAR)} expressions that are no captures (none of their parts is symbolic)",
          "thorough": "histories of up to 5 operations on up to 4 captures; up to 4 captures compiled at once"}
OUTSIDE = "longer histories; values that cannot be pickled (documented), or whose equality or pickling misbehaves"
ASSUMPTIONS = ["`id` may return the id of an object that has been deleted, and of no other"]


class Thing:
    def __init__(self, v):
        self.v = v
    def __eq__(self, o):
        return type(o) is Thing and self.v == o.v
    __hash__ = None

def thing():
    pass


def value(kind):
    return {"list1": lambda: [1], "list2": lambda: [1, [2]], "int": lambda: 123456, "str": lambda: "a'\\", "obj": lambda: Thing([1]), "func": lambda: thing, "class": lambda: Thing, "none": lambda: None}[kind]()

MUTABLE = {"list1", "list2", "obj"}


def mutate(v):
    (v.v if type(v) is Thing else v).append("changed")


class Allocator:
    """Identities of frozen values: a new one may get the id of any one that nobody refers to any more."""
    def __init__(self, S):
        self.S, self.n, self.known = S, 0, []
        S.m.quotes.__dict__["id"] = self.id
    def dead(self):
        """Entries for objects that only this list refers to."""
        return [e for e in self.known if sys.getrefcount(e[0]) <= 2]
    def id(self, x):
        if type(x) is not bytes:
            return id(x)
        for e in self.known:
            if e[0] is x:
                return e[1]
        self.n += 1
        dead = self.dead()
        ids = sorted({e[1] for e in dead})
        new = self.S.pick(f"address{self.n}", [None] + ids) if ids else None
        if new is None:
            new = 10**6 + self.n
        else:
            self.S.reach("address reused")
        self.known = [e for e in self.known if e[1] != new] + [[x, new]]
        return new


class Cap:
    pass


def h_history(S, steps, most):
    m = S.m
    Q = m.quotes
    alloc = Allocator(S)
    caps = []
    hist = []
    S.note(lambda: hist)
    def capture():
        c = Cap()
        k = len(caps)
        olds = [o for o in caps if o.source is not None and o.kind in MUTABLE]
        kind = S.pick(f"value{k}", (["list1", "obj", "str"] if k else VALUES) + [("same", caps.index(o)) for o in olds])
        old = caps[kind[1]] if type(kind) is tuple else None
        c.kind = old.kind if old else kind
        c.name = S.pick(f"name{k}", ["x", "y"]) if k else "x"
        c.source = old.source if old else value(c.kind)
        c.want = copy.deepcopy(c.source) if c.kind in MUTABLE else value(c.kind)
        if old:
            S.reach("captured again")
        hist.append(("capture", c.kind, c.name))
        c.tree = Q.capture_value(c.source, c.name)
        got = Q.is_captured_value(c.tree)
        S.check(type(got) is tuple and len(got) == 2, lambda: f"a captured value is not recognized: {got!r}")
        S.check(got[0] == c.name, lambda: f"name of the capture {c.name}: {got[0]!r}")
        S.check(Q.is_captured_macro(c.tree) is False, "a value recognized as a macro")
        c.key, c.obj = got, None
        caps.append(c)
    capture()
    for i in range(steps):
        live = [c for c in caps if c.tree is not None]
        can = [("capture", None)] if len(caps) < most else []
        for c in live:
            can += [("lookup", c), ("discard", c)]
            if i == 0 or c.obj is not None:
                can += [("run", c)]
            if c.kind in MUTABLE:
                can += [("mutate", c)] if c.obj is not None else [("mutate_source", c)]
        if not can:
            return
        op, c = S.pick(f"op{i}", can)
        if op == "capture":
            capture()
            continue
        hist.append((op, caps.index(c)))
        if op == "discard":
            c.tree = c.key = c.obj = None
        elif op in ("lookup", "run"):
            v = Q.lookup_value(c.key) if op == "lookup" else quo.interpret(S, c.tree)
            S.check(type(v) is type(c.want) and v == c.want, lambda: f"looked up {v!r}, captured {c.want!r}; {hist}")
            S.check(c.obj is None or v is c.obj[0], lambda: f"another object than the last time; {hist}")
            if c.kind in MUTABLE:
                S.check(v is not c.source, "the captured object itself, not a snapshot")
                for o in live:
                    S.check(o is c or o.obj is None or o.obj[0] is not v, lambda: f"two captures share an object; {hist}")
            c.obj = (v,)
            v = None
            S.reach(op)
        elif op == "mutate":
            mutate(c.obj[0])
            mutate(c.want)
            S.reach(op)
        else:
            mutate(c.source)
            S.reach(op)
    for c in caps:
        if c.tree is not None:
            v = Q.lookup_value(c.key)
            S.check(type(v) is type(c.want) and v == c.want, lambda: f"at last looked up {v!r}, captured {c.want!r}; {hist}")
            v = None


def h_compiled(S, most):
    """Several captures in one piece of compiled code."""
    n = S.pick("n", list(range(2, most + 1)))
    kinds = [S.pick(f"value{i}", ["list1", "list2", "str", "obj"]) for i in range(n)]
    names = [S.pick(f"name{i}", ["x", "y"]) for i in range(n)]
    how = S.pick("how", ["one quote", "many quotes", "capture_value"])
    S.note((kinds, names, how))
    src = [value(k) for k in kinds]
    if how == "capture_value":
        trees = [S.m.quotes.capture_value(v, nm) for v, nm in zip(src, names)]
    elif how == "many quotes":
        trees = []
        for v, nm in zip(src, names):
            top = quo.finish(S, quo.expander(S), quo.at(quo.sub("q", quo.sub("h", ast.Name(id=nm, ctx=ast.Load())))), "eval")
            trees.append(quo.run(S, top, quo.env(S, **{nm: v})))
    else:
        env = {f"{nm}{i}": v for i, (v, nm) in enumerate(zip(src, names))}
        code = quo.at(quo.sub("q", ast.Tuple(elts=[quo.sub("h", ast.Name(id=nm, ctx=ast.Load())) for nm in env], ctx=ast.Load())))
        r = quo.run(S, quo.finish(S, quo.expander(S), code, "eval"), quo.env(S, **env))
        trees = r.elts
        names = list(env)
    for t, nm in zip(trees, names):
        r = S.m.quotes.is_captured_value(t)
        S.check(r and r[0] == nm, lambda: f"captured {nm}, recognized {r!r}")
    loop = ast.parse("[X for i in (1, 2)]", mode="eval").body
    loop.elt = ast.Tuple(elts=list(trees), ctx=ast.Load())
    func = ast.parse("(lambda: X)", mode="eval").body
    func.body = loop
    top = ast.Expression(body=S.m.astfixers.fix_ctx(func, copy_seen_nodes=True))
    ast.fix_missing_locations(top)
    import marshal
    code = compile(top, "<run>", "eval")
    if S.pick("file", [False, True]):
        code = marshal.loads(marshal.dumps(code))
    f = eval(code, {})
    r1, r2 = f()
    r3 = f()[0]
    for i in range(n):
        S.check(type(r1[i]) is type(src[i]) and r1[i] == src[i], lambda: f"looked up {r1[i]!r}, captured {src[i]!r}")
        S.check(r1[i] is r2[i] and r1[i] is r3[i], "repeated lookups give different objects")
        if kinds[i] in MUTABLE:
            S.check(r1[i] is not src[i], "not a snapshot")
            for j in range(i):
                S.check(r1[i] is not r1[j], lambda: f"two captures share an object: {i} and {j}")
    S.reach(how)


def h_recognize(S):
    text = S.pick("expr", EXPRS)
    S.note(text)
    t = ast.parse(text, mode="eval").body
    Q = S.m.quotes
    env = {"x": [[1], [2]], "y": [3], "z": 4, "f": lambda *a, **k: [9], "a": 1, "b": [2], "c": 3}
    outer = quo.finish(S, quo.expander(S), quo.at(quo.sub("q", ast.Tuple(elts=[quo.sub("h", clone(t)), ast.Constant(value=1, kind=None)], ctx=ast.Load()))), "eval")
    pre = [x for x in map(Q.is_captured_value, ast.walk(outer)) if x]
    want = ast.unparse(t)
    def same_source(nm):
        return nm == want or isinstance(nm, str) and ast.dump(ast.parse(nm.strip(), mode="eval").body) == ast.dump(t)
    S.check(len(pre) == 1 and type(pre[0]) is tuple and len(pre[0]) == 2 and pre[0][1] is None, lambda: f"before the capture: {pre}")
    S.check(same_source(pre[0][0]), lambda: f"before the capture, named {pre[0][0]!r}, expected {want!r}")
    S.raises(ValueError, lambda: Q.lookup_value(pre[0]), "lookup before the capture")
    env.update(x=type("N", (list,), {"a": "attr"})([1, 2])) if text == "x.a" else None
    e = quo.env(S, **env)
    try:
        value = eval(compile(ast.fix_missing_locations(ast.Expression(body=clone(t))), "<v>", "eval"), dict(e))
    except TypeError:
        return
    if callable(value):     # cannot be pickled
        return S.raises(Exception, lambda: quo.run(S, outer, e), "capture of a lambda")
    if text in ("x + y", "-x"):
        return
    r = quo.run(S, outer, e)
    post = [x for x in map(Q.is_captured_value, ast.walk(r)) if x]
    S.check(len(post) == 1 and same_source(post[0][0]), lambda: f"after the capture: {post}")
    got = Q.lookup_value(post[0])
    S.check(type(got) is type(value) and got == value, lambda: f"captured {value!r}, looked up {got!r}")
    got = quo.evaluate(S, r, {})
    S.check(got == (value, 1), lambda: f"captured {value!r}, run: {got!r}")
    S.check(not any(map(Q.is_captured_macro, ast.walk(r))), "a value recognized as a macro")
    S.reach("captured")


def h_other(S, gram):
    t = S.expr("t", gram)
    S.note(lambda: show(nodes.force(clone(t))))
    r = S.m.quotes.is_captured_value(t)
    S.check(r is False, lambda: f"recognized {r!r} in {show(t)}")
    nodes.force(t)
    S.reach("not captured")


HARNESSES = [
    H("history", h_history, "captures, lookups and discarded captures", dict(steps=4, most=3), dict(steps=5, most=4), reach={"captured again", "lookup", "run", "mutate", "mutate_source"}),
    H("compiled", h_compiled, "several captures in compiled code", dict(most=3), dict(most=4), reach={"one quote", "many quotes", "capture_value"}),
    H("recognize", h_recognize, "captures in code, before and after", reach={"captured"}),
    H("other", h_other, "code that is no capture", dict(gram=GN), reach={"not captured"}),
]
