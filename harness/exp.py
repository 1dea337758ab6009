"""An independent model of macro expansion, to compare the expander with (C09-C12, C28, C30)."""
import ast
import copy
import warnings
from sx import nodes
from .lib import fields, show, preorder

DECLS = ["none", "plain", "parametric", "name", "both"]


class SyntaxWrong(Exception):
    """The model says: this invocation is rejected."""


def lclone(x):
    """Deep copy that leaves unresolved nodes unresolved."""
    if isinstance(x, list):
        return [lclone(y) for y in x]
    if isinstance(x, ast.AST):
        if nodes.is_lazy(x):
            return x.__copy__()
        cls = type(x)
        n = cls.__new__(cls)
        for k, v in x.__dict__.items():
            if k == "_fields":
                v = list(v)
            elif not isinstance(v, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
                v = lclone(v)
            n.__dict__[k] = v
        return n
    return x


class MDone(ast.AST):
    """The model's marker for code that must not be expanded again."""
    _fields = ("body",)


def undone(t):
    """Replace each Done marker (the model's or the expander's) by its body; in place, as far as possible."""
    if isinstance(t, list):
        out = []
        for x in t:
            r = undone(x)
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        t[:] = out
        return t
    if isinstance(t, ast.AST) and not nodes.is_lazy(t):
        if type(t).__name__ in ("Done", "MDone"):
            return undone(t.body)
        for f, v in list(fields(t)):
            if isinstance(v, (list, ast.AST)):
                setattr(t, f, undone(v))
    return t


class Model:
    """`decls`: name -> one of DECLS. `apply(model, inv)` gives what the macro returns: a node, a list, or None.
    `inv` is an Invocation; its parts are private copies."""
    def __init__(self, decls, apply):
        self.decls, self.apply = decls, apply
        self.recursive = True

    def is_macro(self, name):
        return self.decls.get(name, "none") != "none"
    def is_parametric(self, name):
        return self.decls.get(name, "none") in ("parametric", "both")
    def is_name(self, name):
        return self.decls.get(name, "none") in ("name", "both")

    def candidate(self, tree):
        """(name, args) if `tree` is a macro name, with arguments if it accepts them; or None."""
        t = nodes.sx_type(tree)
        if t is ast.Name:
            return (tree.id, []) if self.is_macro(tree.id) else None
        if t is ast.Subscript and nodes.sx_type(tree.value) is ast.Name:
            if self.is_parametric(tree.value.id):
                return tree.value.id, (list(tree.slice.elts) if type(tree.slice) is ast.Tuple else [tree.slice])
            return None
        if t is ast.Call and nodes.sx_type(tree.func) is ast.Name and not tree.keywords:
            if self.is_parametric(tree.func.id) or (not tree.args and self.is_macro(tree.func.id)):
                if not tree.args or any(type(a) is ast.Starred for a in tree.args):
                    raise SyntaxWrong
                return tree.func.id, list(tree.args)
        return None

    def first_with(self, items):
        for i, it in enumerate(items):
            c = self.candidate_soft(it.context_expr)
            if c:
                return i
        return None

    def candidate_soft(self, tree):
        try:
            return self.candidate(tree)
        except SyntaxWrong:
            return True

    def recognize(self, t):
        """The invocation at the node `t`, or None. Edits `t`."""
        k = nodes.sx_type(t)
        if k is ast.Subscript:
            c = self.candidate(t.value)
            if c:
                return Invocation("expr", c[0], c[1], t.slice, lclone(t), t)
        elif k is ast.With:
            i = self.first_with(t.items)
            if i is not None:
                whole = lclone(t)
                it = t.items.pop(i)
                c = self.candidate(it.context_expr)
                return Invocation("block", c[0], c[1], [t] if t.items else t.body, whole, t, it.optional_vars)
        elif k in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            for i in reversed(range(len(t.decorator_list))):
                if self.candidate_soft(t.decorator_list[i]):
                    whole = lclone(t)
                    d = t.decorator_list.pop(i)
                    c = self.candidate(d)
                    return Invocation("decorator", c[0], c[1], t, whole, d)
        elif k is ast.Name:
            if self.is_name(t.id):
                return Invocation("name", t.id, [], t, lclone(t), t)
        return None

    def visit(self, t):
        if t is None:
            return None
        if isinstance(t, list):
            out = []
            for x in t:
                r = self.visit(x) if isinstance(x, ast.AST) else x
                if isinstance(r, list):
                    out.extend(r)
                elif r is not None or not isinstance(x, ast.AST):
                    out.append(r)
            return out
        if type(t) is MDone:
            return t
        inv = self.recognize(t)
        if inv is None:
            for f, v in list(fields(t)):
                if isinstance(v, list):
                    setattr(t, f, self.visit(v))
                elif isinstance(v, ast.AST) and not isinstance(v, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
                    setattr(t, f, self.visit(v))
            return t
        return self.expand(inv)

    def run(self, inv):
        return self.apply(self, inv)

    def expand(self, inv):
        if inv.syntax == "name":
            old, self.recursive = self.recursive, False
            r = self.run(inv)
            self.recursive = old
            if r is None:
                return self.empty(inv)
            if type(r) is ast.Name and r.id == inv.name:
                return self.done(r)
            return self.visit(r) if self.recursive else r
        r = self.run(inv)
        if r is not None and self.recursive:
            r = self.visit(r)
        if inv.syntax == "expr":
            return self.empty(inv) if r is None else r
        return self.covered(inv, r)

    def done(self, t):
        m = MDone()
        m.body = t
        return m
    def once(self, t):
        old, self.recursive = self.recursive, False
        try:
            return self.done(self.visit(t))
        finally:
            self.recursive = old
    def rec(self, t):
        old, self.recursive = self.recursive, True
        try:
            return self.visit(t)
        finally:
            self.recursive = old
    def empty(self, inv):
        """An expression that evaluates to None."""
        return self.done(ast.parse("(lambda: None)()", mode="eval").body)
    def covered(self, inv, r):
        return r


class Invocation:
    def __init__(self, syntax, name, args, tree, whole, node, asvar=None):
        self.syntax, self.name, self.args, self.tree, self.whole, self.node, self.asvar = syntax, name, args, tree, whole, node, asvar

    def snapshot(self):
        return (self.syntax, self.name, lclone(self.args), lclone(self.tree), lclone(self.asvar), self.whole)


LOCS = ("lineno", "col_offset")


class COVER(ast.stmt):
    """Expected: a coverage marker, at the location of the invocation."""
    _fields = ()


def same_code(S, got, want, what, locs=True):
    """Compare, except contexts; with locations; a COVER in `want` is any statement with an effect, located there."""
    if isinstance(want, list):
        S.check(type(got) is list, lambda: f"{what}: {got} is not a list")
        S.check(len(got) == len(want), lambda: f"{what}: {len(got)} items, expected {len(want)}: {show(got)} vs. {[type(x).__name__ for x in want]}")
        for i, (a, b) in enumerate(zip(got, want)):
            same_code(S, a, b, f"{what}[{i}]", locs)
        return
    if isinstance(want, COVER):
        S.check(isinstance(got, ast.stmt) and type(got) not in (ast.Pass, ast.Expr), lambda: f"{what}: expected a coverage marker, got {show(got)}")
        for n in preorder(got):
            if isinstance(n, (ast.expr, ast.stmt)):
                S.check((n.lineno, n.col_offset) == (want.lineno, want.col_offset), lambda: f"{what}: coverage marker at {n.lineno}, expected {want.lineno}")
        S.reach("coverage")
        return
    if not isinstance(want, ast.AST):
        S.same(got, want, what)
        return
    if nodes.is_lazy(want) and nodes.is_lazy(got) and got.__dict__["_desc"] is want.__dict__["_desc"]:
        return
    nodes.resolve(want)
    if isinstance(got, ast.AST):
        nodes.resolve(got)
    S.check(type(got) is type(want), lambda: f"{what}: {type(got).__name__}, expected {type(want).__name__}")
    for a in LOCS if locs else ():
        S.check(got.__dict__.get(a) == want.__dict__.get(a), lambda: f"{what}: {type(want).__name__} at {got.__dict__.get(a)}, expected {want.__dict__.get(a)}")
    for f in type(want)._fields:
        if f != "ctx":
            same_code(S, getattr(got, f, "<missing>"), getattr(want, f, "<missing>"), f"{what}.{f}", locs)


def compare_logs(S, got, want, whole=True, what=""):
    """Both: lists of snapshots."""
    g, w = [x[:2] for x in got], [x[:2] for x in want]
    S.check(g == w, lambda: f"{what}macros applied: {g}, expected {w}")
    for a, b in zip(got, want):
        a, b = [[undone(x) if isinstance(x, (list, ast.AST)) else x for x in y] for y in (a, b)]
        a, b = tuple(a), tuple(b)
        S.check(type(a[2]) is list, lambda: f"{what}{a[:2]}: arguments {a[2]}")
        same_code(S, a[2], b[2], f"{what}{a[:2]}: arguments", False)
        same_code(S, a[3], b[3], f"{what}{a[:2]}: code inside the invocation", False)
        if a[0] == "block":
            S.check((a[4] is None) == (b[4] is None), lambda: f"{what}{a[:2]}: as-part")
            if a[4] is not None:
                same_code(S, a[4], b[4], f"{what}{a[:2]}: as-part", False)
        if whole:
            same_code(S, a[5], b[5], f"{what}{a[:2]}: whole invocation", False)


class Recorder:
    """Makes macros that log what they get, and then behave as `behave(inv-like args)` says."""
    def __init__(self, S, behave):
        self.S, self.behave, self.log, self.bad = S, behave, [], []

    def macro(self, name, decl):
        E = self.S.m.expander
        def mac(tree, **kw):
            self.log.append((kw["syntax"], name, lclone(kw["args"]) if type(kw["args"]) is list else kw["args"], lclone(tree),
                             lclone(kw.get("optional_vars")), lclone(kw["invocation"])))
            want = {"syntax", "expander", "invocation", "args"} | ({"optional_vars"} if kw["syntax"] == "block" else set())
            if set(kw) != want:
                self.bad.append(f"{name}: named arguments {sorted(kw)}")
            if kw["expander"] is not self.expander:
                self.bad.append(f"{name}: another expander")
            return self.behave(name, tree, kw)
        mac.__name__ = mac.__qualname__ = name
        if decl in ("parametric", "both"):
            mac = E.parametricmacro(mac)
        if decl in ("name", "both"):
            mac = E.namemacro(mac)
        return mac

    def make(self, decls, filename="/nowhere/m.py", where=None):
        """A MacroExpander with these macros; `where[name]`: "global" to bind it globally instead."""
        S = self.S
        quick_reports(S)
        local = {}
        for n, d in decls.items():
            if d != "none":
                if where and where.get(n) == "global":
                    S.m.core.global_bindings[n] = self.macro(n, d)
                else:
                    local[n] = self.macro(n, d)
        self.expander = S.m.expander.MacroExpander(local, filename)
        return self.expander


def quick_reports(S):
    """The source text in error reports needs the whole invocation; leave it out where it is not the subject."""
    warnings.simplefilter("ignore")
    if S.symbolic:
        S.m.expander.unparse_with_fallbacks = lambda *a, **k: "(source)"


def strip_ctx(t):
    """Remove contexts (in place)."""
    if isinstance(t, list):
        for x in t:
            strip_ctx(x)
    elif isinstance(t, ast.AST) and not nodes.is_lazy(t):
        t.__dict__.pop("ctx", None)
        for f, v in list(fields(t)):
            if isinstance(v, (list, ast.AST)):
                strip_ctx(v)
    return t
