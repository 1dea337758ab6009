"""Shared by the checks on quasiquotes (C01-C06)."""
import ast
import builtins
import warnings
from sx import nodes
from .lib import fields, preorder, show

OPS = "qunasth"


def expander(S, more=None, names=None):
    """A macro expander that knows the quasiquote operators (under `names`, if given) and the macros `more`."""
    warnings.simplefilter("ignore")
    if S.symbolic:
        S.m.expander.unparse_with_fallbacks = lambda *a, **k: "(source)"
    Q = S.m.quotes
    b = {(names or {}).get(k, k): getattr(Q, k) for k in OPS}
    b.update(more or {})
    return S.m.expander.MacroExpander(b, "/nowhere/m.py")


def at(tree, line=1):
    """Locations for nodes built here."""
    for n in ast.walk(tree):
        if "lineno" in getattr(type(n), "_attributes", ()) and "lineno" not in n.__dict__:
            n.lineno = n.end_lineno = line
            n.col_offset = n.end_col_offset = 0
    return tree


def sub(op, inner):
    return ast.Subscript(value=ast.Name(id=op, ctx=ast.Load()), slice=inner, ctx=ast.Load())


def blk(op, body, asname=None):
    return ast.With(items=[ast.withitem(context_expr=ast.Name(id=op, ctx=ast.Load()),
                                        optional_vars=ast.Name(id=asname, ctx=ast.Store()) if asname else None)], body=body, type_comment=None)


def wrap(S, code):
    """`code`, compiled quoted code, in the run-time wrapper that `q` adds."""
    w = S.m.quotes.q(ast.Constant(value=5, kind=None), syntax="expr", expander=expander(S), invocation=None)
    for parent in ast.walk(w):
        for f, v in ast.iter_fields(parent):
            vs = v if isinstance(v, list) else [v]
            for i, x in enumerate(vs):
                if isinstance(x, ast.Call) and any(isinstance(k, ast.Constant) and k.value == 5 for k in ast.walk(x)) and x is not w:
                    if isinstance(v, list):
                        v[i] = code
                    else:
                        setattr(parent, f, code)
                    return w
    raise AssertionError("`q` adds no wrapper")


def env(S, **k):
    return dict(k, mcpyrate=S.m.pkg)


def finish(S, ex, tree, kind):
    """Expand completely, as the importer would; returns code."""
    top = ast.Expression(body=tree) if kind == "eval" else ast.Module(body=tree, type_ignores=[])
    top = ex.visit_recursively(top)
    top = S.m.core.global_postprocess(top)
    ast.fix_missing_locations(top)
    return top


def run(S, top, env):
    """Compile and run expanded code."""
    if isinstance(top, ast.Expression):
        return eval(compile(top, "<run>", "eval"), env)
    exec(compile(top, "<run>", "exec"), env)
    return env


def evaluate(S, tree, env):
    """Value of an expression that is a result of quasiquoting: fix contexts and locations, compile, run."""
    top = ast.Expression(body=S.m.astfixers.fix_ctx(tree, copy_seen_nodes=True))
    ast.fix_missing_locations(top)
    return eval(compile(top, "<run>", "eval"), env)


def interpret(S, tree):
    """The value of astified code, for values that cannot be compiled (symbolic ones)."""
    t = type(tree)
    if t is ast.Constant:
        return tree.value
    def many(xs):
        out = []
        for x in xs:
            if type(x) is ast.Starred:
                out.extend(interpret(S, x.value))
            else:
                out.append(interpret(S, x))
        return out
    if t is ast.List:
        return many(tree.elts)
    if t is ast.Tuple:
        return tuple(many(tree.elts))
    if t is ast.Set:
        return set(many(tree.elts))
    if t is ast.Dict:
        out = {}
        for k, v in zip(tree.keys, tree.values):
            out.update(interpret(S, v) if k is None else {interpret(S, k): interpret(S, v)})
        return out
    if t is ast.Name:
        return {"mcpyrate": S.m.pkg, "globals": dict}[tree.id] if tree.id in ("mcpyrate", "globals") else getattr(builtins, tree.id)
    if t is ast.Attribute:
        return getattr(interpret(S, tree.value), tree.attr)
    if t is ast.Subscript:
        return interpret(S, tree.value)[interpret(S, tree.slice)]
    if t is ast.Call:
        kw = {}
        for k in tree.keywords:
            kw.update(interpret(S, k.value) if k.arg is None else {k.arg: interpret(S, k.value)})
        return interpret(S, tree.func)(*many(tree.args), **kw)
    if not any(isinstance(x, ast.Constant) and type(x.value).__module__.startswith("sx") for x in ast.walk(tree)):
        return eval(compile(ast.fix_missing_locations(S.m.astfixers.fix_ctx(ast.Expression(body=tree), copy_seen_nodes=True)), "<astified>", "eval"), {"mcpyrate": S.m.pkg})
    S.fail(f"unexpected in astified code: {tree!r}")


def no_shared(S, a, b, what):
    """No node of `a` is a node of `b` (contexts and operators may be shared)."""
    ids = {id(n) for n in preorder(a)}
    for n in preorder(b):
        if isinstance(n, (ast.expr, ast.stmt)):
            S.check(id(n) not in ids, lambda: f"{what}: {show(n)}")


# ---- what nested quasiquotes mean, independently ------------------------------------------

UNQUOTES = "unasth"


class Reject(Exception):
    """The model says: refused, `when` the code is expanded ("expand") or run ("run"), with an exception of type `exc`."""
    def __init__(self, when, exc, why):
        self.when, self.exc, self.why = when, exc, why


class Want:
    """Expected in place of a node."""
    def __init__(self, kind, value):
        self.kind, self.value = kind, value
    def __repr__(self):
        return f"<{self.kind} {self.value!r}>"


class Splice(list):
    pass


def op_of(t, names):
    """The operator invoked by `t`, and by what syntax."""
    if type(t) is ast.Subscript and type(t.value) is ast.Name:
        return names.get(t.value.id), "expr"
    if type(t) is ast.With and len(t.items) == 1 and type(t.items[0].context_expr) is ast.Name:
        return names.get(t.items[0].context_expr.id), "block"
    return None, None


class Sem:
    """`operand(name, want)` gives the value of a variable that unquoted code uses. `names`: operator names."""
    def __init__(self, S, operand, names=None, identity=()):
        self.S, self.operand = S, operand
        self.names = names or {k: k for k in OPS}
        self.identity = identity        # macros that return the code inside as it is
        self.env = {}

    # -- does it expand?
    def levels(self, t, level):
        """Check that no unquote is at level 0, and that the operators appear only as they may."""
        if isinstance(t, list):
            for x in t:
                self.levels(x, level)
            return
        if not isinstance(t, ast.AST):
            return
        op, syntax = op_of(t, self.names)
        if op:
            if op != "q" and level < 1:
                raise Reject("expand", None, f"{op} outside a quote")
            if syntax == "block" and op not in "qa":
                raise Reject("expand", None, f"{op} as a block")
            as_ = t.items[0].optional_vars if syntax == "block" else None
            if op == "a" and as_ is not None:
                raise Reject("expand", None, "a takes no as-part")
            if op == "q" and level == 0 and syntax == "block" and type(as_) is not ast.Name:
                raise Reject("expand", None, "q requires an as-name")
            inner = t.slice if syntax == "expr" else t.body
            new = level + (1 if op == "q" else -1)
            self.levels(inner, new)
            if op == "a" and syntax == "block" and new == 0 and any(type(x) is not ast.Expr for x in inner):
                raise Reject("expand", None, "a with statements inside")
            return
        for f, v in fields(t):
            self.levels(v, level)

    # -- what does it yield?
    def reject(self, exc, why):
        self.rejects.append(Reject("run", exc, why))

    def value(self, t):
        """The value of `t`, quoted once. All variables in it are given values, even if it is rejected."""
        self.rejects = []
        r = self.quote(t, 1)
        if type(r) is Splice:
            self.reject(None, "a list where there can be only one")
        if self.rejects:
            raise self.rejects[0]
        return r

    def quote(self, t, level):
        if isinstance(t, list):
            out = []
            for x in t:
                r = self.quote(x, level)
                if type(r) is Splice:
                    out.extend(r)
                else:
                    out.append(r)
            return out
        if not isinstance(t, ast.AST):
            return t
        op, syntax = op_of(t, self.names)
        f = "slice" if syntax == "expr" else "body"
        if op and op != "q" and level == 1:
            return self.unquote(op, syntax, getattr(t, f))
        n = type(t).__new__(type(t))
        for k, v in t.__dict__.items():
            if op:
                n.__dict__[k] = self.quote(v, level + (1 if op == "q" else -1)) if k == f else v
                if k == f and type(n.__dict__[k]) is Splice:
                    self.reject(None, "a list where there can be only one")
            elif isinstance(v, (list, ast.AST)) and k != "ctx":
                n.__dict__[k] = self.quote(v, level)
                if type(n.__dict__[k]) is Splice:
                    self.reject(None, "a list where there can be only one")
            else:
                n.__dict__[k] = v
        return n

    def unquote(self, op, syntax, inner):
        if syntax == "block":
            out = Splice()
            for x in inner:
                self.flatten(self.code(x.value, "stmts"), ast.stmt, out)
            return out
        v = self.code(inner, {"u": "value", "n": "source", "a": "ast", "s": "items", "t": "items", "h": "any"}[op])
        if op == "u":
            return Want("lift", v)
        if op == "h":
            return Want("hygienic", v)
        if op == "n":
            if not isinstance(v, str):
                self.reject(TypeError, "n of no string")
                return None
            try:
                return Want("parsed", ast.parse(v, mode="eval").body)
            except (SyntaxError, ValueError):
                self.reject((SyntaxError, ValueError), "n of no expression")
            return None
        if op == "a" and isinstance(v, ast.AST):
            self.typecheck(v, ast.expr)
            return Want("same", v)
        items = self.flatten(v, ast.expr, [])
        if op == "a":
            return Splice(items)
        return Want(ast.List if op == "s" else ast.Tuple, items)

    def typecheck(self, v, cls):
        if isinstance(v, self.S.m.markers.ASTMarker):
            for x in v.body if isinstance(v.body, list) else [v.body]:
                self.typecheck(x, cls)
        elif not isinstance(v, cls):
            self.reject(TypeError, f"{v!r} is not {cls}")

    def flatten(self, v, cls, out):
        def rec(x):
            if isinstance(x, list):
                for y in x:
                    rec(y)
            elif x is not None:
                self.typecheck(x, cls)
                out.append(Want("same", x))
        if cls is ast.stmt:
            rec(v)
        elif isinstance(v, (list, tuple)):
            rec(list(v))
        else:
            self.reject(TypeError, f"{v!r} is not iterable, or not of nodes")
        return out

    def code(self, t, want):
        """The value of code outside of quotes."""
        op, syntax = op_of(t, self.names)
        if op == "q":
            r = self.quote(t.slice, 1)
            if type(r) is Splice:
                self.reject(None, "a list where there can be only one")
            return Built(r)
        if type(t) is ast.Subscript and type(t.value) is ast.Name and t.value.id in self.identity:
            return self.code(t.slice, want)
        if type(t) is ast.Name:
            if t.id not in self.env:
                self.env[t.id] = self.operand(t.id, want)
            return self.env[t.id]
        if type(t) is ast.Tuple:
            return tuple(self.code(x, "ast") for x in t.elts)
        raise AssertionError(f"no model for {ast.dump(t)}")


class Built(ast.expr):
    """The value of an inner quote: an AST to compare with, made anew each time."""
    _fields = ()
    def __init__(self, tree):
        self.tree = tree
    def __repr__(self):
        return "<built>"


def compare(S, got, want, env, what):
    """Is `got` as the model wants it?"""
    if isinstance(want, list):
        S.check(type(got) is list, lambda: f"{what}: {got!r} is not a list")
        # an operator used as a block leaves a coverage marker; that is not the subject here
        given = {id(w.value) for w in want if isinstance(w, Want)}
        got = [x for x in got if not (type(x) is S.m.core.Done and isinstance(x.body, ast.stmt) and id(x) not in given)]
        S.check(len(got) == len(want), lambda: f"{what}: {len(got)} items, expected {len(want)}: {[show(x) for x in got]}")
        for i, (a, b) in enumerate(zip(got, want)):
            compare(S, a, b, env, f"{what}[{i}]")
        return
    if isinstance(want, Built):
        return compare(S, got, want.tree, env, what)
    if isinstance(want, Want):
        v = want.value
        if want.kind == "same":
            if isinstance(v, Built):
                return compare(S, got, v.tree, env, what)
            # (what went through another quote, as a value, is a copy)
            return S.check(got is v or "_copied" in env and S.is_same(got, v), lambda: f"{what}: {show(got)} is not the given AST")
        if want.kind == "parsed":
            return S.check(ast.dump(S.m.astfixers.fix_ctx(got, copy_seen_nodes=True)) == ast.dump(v), lambda: f"{what}: {show(got)}, expected {show(v)}")
        if want.kind == "lift":
            if isinstance(v, Built):
                return compare(S, evaluate(S, got, dict(env)), v.tree, dict(env, _copied=True), what)
            return same_value(S, interpret(S, got), v, what, dict(env, _copied=True))
        if want.kind == "hygienic":
            r = evaluate(S, got, dict(env))
            return same_value(S, r, v, what, dict(env, _copied=True))
        S.check(type(got) is want.kind, lambda: f"{what}: {show(got)}, expected a {want.kind.__name__}")
        return compare(S, got.elts, v, env, what)
    if isinstance(want, ast.AST):
        S.check(type(got) is type(want), lambda: f"{what}: {show(got) if isinstance(got, ast.AST) else got!r}, expected {type(want).__name__}")
        for f in type(want)._fields:
            a, b = getattr(got, f, "<missing>"), getattr(want, f, "<missing>")
            compare(S, a, b, env, f"{what}.{f}")
        return
    S.same(got, want, what)


def same_value(S, got, want, what, env):
    if isinstance(want, Built):
        return compare(S, got, want.tree, env, what)
    if isinstance(want, ast.AST):
        return S.same(got, want, what)
    S.check(nodes.sx_type(got) is nodes.sx_type(want), lambda: f"{what}: {got!r}, expected {want!r}")
    if type(want) in (list, tuple):
        S.check(len(got) == len(want), lambda: f"{what}: {got!r}, expected {want!r}")
        for a, b in zip(got, want):
            same_value(S, a, b, what, env)
    elif type(want) is dict:
        S.check(list(got) == list(want), lambda: f"{what}: {got!r}, expected {want!r}")
        for k in want:
            same_value(S, got[k], want[k], what, env)
    elif type(want) in (float, complex):
        S.check(repr(got) == repr(want), lambda: f"{what}: {got!r}, expected {want!r}")
    else:
        S.check(got == want, lambda: f"{what}: {got!r}, expected {want!r}")
