"""C16: ASTVisitor / ASTTransformer."""
import ast
import weakref
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import positions, preorder, show, clone, fields, rebuild

TREES = G.shapes("stmt", ["v0 = f(E0, k=v1)", "if E0:\n S0\n S1\nelse:\n v2", "def f(v0, v1=E0):\n S0\n S1", "for T0 in E0: S0", "{v0: v1, **E0}",
                          "with v0 as T0, E0: S0", "[v0 for v1 in E0 if v2]", "try:\n S0\nexcept v0: v1\nfinally: v2", "match v0:\n case [P0, _]: S0", "del D0, v0",
                          "f(*E0, **v1)", "lambda v0, *v1: E0"])
INNER = G.shapes("expr", ["v0", "v0 + v1", "(v0, v1)"])
GR = G.grammar(stmt=[TREES, G.shapes("stmt", ["v0", "v0; ".strip("; ") + " = v1"])], expr=[INNER, INNER, G.EXPR_ONE],
               target=[G.shapes("target", ["v0", "(v0, v1)"])], dele=[G.DEL_LEAF], pattern=[G.PATTERN_LEAF])
GRT = G.grammar(stmt=[TREES, TREES, G.STMT_ONE], expr=[INNER, INNER, INNER, G.EXPR_ONE],
                target=[G.shapes("target", ["v0", "(v0, v1)"])], dele=[G.DEL_LEAF], pattern=[G.PATTERN_LEAF])
GSMALL = G.grammar(stmt=[TREES, G.shapes("stmt", ["v0"])], expr=[G.shapes("expr", ["v0", "(v0, v1)"]), G.EXPR_ONE], target=[G.TARGET_LEAF], dele=[G.DEL_LEAF], pattern=[G.PATTERN_LEAF])
BOUNDS = {"quick": "trees of two nested levels of 12 statement forms (or a list of two); up to two state settings made at any node, for any direct child, any list of children, any node below, or all children; an exception, a change of the state object, or another state object, at any node; empty states; nodes thrown away after setting a state for them, with their addresses used again in any way; traversal by generic_visit or by visiting each field; every kind of return value at any node",
          "thorough": "as quick, with a third level"}
OUTSIDE = "more than two settings in one traversal"
ASSUMPTIONS = ["a transformer returns a list or None only for members of a list, as for ast.NodeTransformer"]


class Boom(Exception):
    pass


def targets(node):
    """What a walker at `node` may set a state for."""
    out = []
    for f, v in fields(node):
        if isinstance(v, list):
            v = [x for x in v if isinstance(x, ast.AST)]
            if v:
                out.append(("list", f))
        if isinstance(v, ast.AST) or isinstance(v, list) and v:
            out.append(("first", f))
    if out:
        out.append(("all", None))
        deep = [p for p in positions(node) if not isinstance(p[3], (ast.expr_context, ast.operator))]
        if len(deep) > 1:
            out.append(("deep", None))
    return out


def target_of(node, t):
    kind, f = t
    if kind == "list":
        return getattr(node, f)
    if kind == "first":
        v = getattr(node, f)
        return [x for x in v if isinstance(x, ast.AST)][-1] if isinstance(v, list) else v
    if kind == "deep":
        return [p[3] for p in positions(node) if not isinstance(p[3], (ast.expr_context, ast.operator))][-1]
    return node


def run_oracle(root, actions, boom, cell):
    """Expected visits [(node, state)], and whether the traversal raised."""
    log, over = [], {}
    def visit(x, cell):
        if isinstance(x, list):
            for y in x:
                if not visit(y, cell):
                    return False
            return True
        if id(x) in over:
            cell = [over.pop(id(x))]
        log.append((x, dict(cell[0])))
        for who, t, binding in actions:
            if who is x and t == "mutate":
                cell[0].update(binding)
            elif who is x and t == "rebind":
                cell[0] = dict(binding)
            elif who is x:
                new = {**cell[0], **binding}
                tgt = target_of(x, t)
                if t[0] == "all":
                    tgt = [c for _, v in fields(x) for c in (v if isinstance(v, list) else [v]) if isinstance(c, ast.AST)]
                for y in (tgt if isinstance(tgt, list) else [tgt]):
                    if isinstance(y, ast.AST):
                        over[id(y)] = new
        if x is boom:
            return False
        for _, v in fields(x):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST) and not visit(c, cell):
                    return False
        return True
    ok = visit(root, cell)
    return log, not ok


def fresh_ctx(tree):
    # (parsed trees share context and operator instances; a walker identifies subtrees by identity)
    for n in preorder(tree):
        for f, v in fields(n):
            if isinstance(v, (ast.expr_context, ast.operator)):
                setattr(n, f, type(v)())
    return tree


def h_state(S, gram, cls):
    tree = S.stmt("t", gram)
    nodes.force(tree)
    fresh_ctx(tree)
    aslist = S.pick("root", ["node", "list"])
    other = ast.Expr(value=ast.Name(id="other", ctx=ast.Load()))
    root = tree if aslist == "node" else [tree, other]
    allnodes = [n for n in preorder(tree) if not isinstance(n, (ast.expr_context, ast.operator))]
    actions = []
    inner = [n for n in allnodes if targets(n)]
    n1 = S.pick("n1", inner)
    t1 = S.pick("t1", targets(n1))
    init = {"x": "0", "y": "0"}
    second = S.pick("second", ["none", "same node", "child", "boom", "mutate", "rebind"])
    if second in ("mutate", "rebind") and S.pick("empty", [False, True]):
        init = {}
        actions.append((n1, t1, {}))
    else:
        actions.append((n1, t1, {"x": "A"}))
    boom = None
    if second == "same node":
        actions.append((n1, S.pick("t2", targets(n1)), S.pick("b2", [{"x": "B"}, {"y": "B"}])))
    elif second == "child":
        sub = [m for m in preorder(n1) if m is not n1 and m in inner]
        if not sub:
            return
        n2 = S.pick("n2", sub)
        actions.append((n2, S.pick("t2", targets(n2)), S.pick("b2", [{"x": "B"}, {"y": "B"}])))
    elif second == "boom":
        boom = S.pick("boom", allnodes)
    elif second != "none":
        actions.append((S.pick("n2", allnodes), second, {"x": "B", "z": "C"}))
    how = S.pick("how", ["generic", "fields"])
    S.note(lambda: (show(tree), aslist, [(type(a).__name__, b, c) for a, b, c in actions], how))
    log = []

    def step(self, node):
        log.append((node, dict(self.state.items())))
        self.collect(len(log))
        for who, t, binding in actions:
            if who is node:
                if t == "mutate":
                    self.state.update(**binding)
                elif t == "rebind":
                    self.state = S.m.bunch.Bunch(**binding)
                elif t[0] == "all":
                    self.generic_withstate(node, **binding)
                else:
                    self.withstate(target_of(node, t), **binding)
        if node is boom:
            raise Boom
        if how == "generic":
            return self.generic_visit(node)
        for f in node._fields:
            v = getattr(node, f, None)
            if isinstance(v, ast.AST) or isinstance(v, list) and v and all(isinstance(x, ast.AST) for x in v):
                r = self.visit(v)
                if cls == "ASTTransformer":
                    setattr(node, f, r)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST):
                        self.visit(x)
        return node

    base = getattr(S.m.walkers, cls)
    W = type("W", (base,), {"examine" if cls == "ASTVisitor" else "transform": step})
    w = W(**init)
    st0 = w.state
    last = dict(init)
    cell = [last]
    want, raised = run_oracle(root, actions, boom, cell)
    if boom is not None:
        S.raises(Boom, lambda: w.visit(root), "exceptions pass through")
        S.check(raised, "oracle raised")
        S.reach("exception")
    else:
        r = w.visit(root)
        if cls == "ASTTransformer":
            S.check(r is root, "an unchanged tree is returned")
    S.check(w.state is st0 or cell[0] is not last, "the original state is restored")
    S.check(dict(w.state.items()) == cell[0], lambda: f"the state afterwards is {dict(w.state.items())}, expected {cell[0]}")
    S.check(dict(st0.items()) == last, "the original state object is not modified, except by the walker outside of the subtree")
    S.check(len(log) == len(want), f"{len(log)} visits, expected {len(want)}")
    for (n, st), (wn, wst) in zip(log, want):
        S.check(n is wn, "order of visits")
        S.check(st == wst, f"state at {type(n).__name__}: {st}, expected {wst}")
    S.check(w.collected == list(range(1, len(want) + 1)), "collected in order of visits")
    if boom is None:        # the settings were for that traversal
        first, now = list(log), dict(w.state.items())
        del log[:], actions[:]
        w.visit(root)
        S.check([n for n, _ in log] == [n for n, _ in first], "another order of visits")
        for n, st in log:
            S.check(st == now, lambda: f"second traversal: state at {type(n).__name__}: {st}, expected {now}")
    S.reach("state")


class Allocator:
    """Identities of nodes: a new one may get the id of any one that nobody refers to any more."""
    def __init__(self, S):
        self.S, self.n, self.known = S, 0, []
        S.m.walkers.__dict__["id"] = self.id
    def id(self, x):
        if not isinstance(x, ast.AST):
            return id(x)
        for r, i in self.known:
            if r() is x:
                return i
        self.n += 1
        free = sorted({i for r, i in self.known if r() is None} - {i for r, i in self.known if r() is not None})
        new = self.S.pick(f"address{self.n}", [None] + free) if free else None
        if new is None:
            new = 10**6 + self.n
        self.known.append((weakref.ref(x), new))
        return new


def h_discard(S, cls):
    """A node that a state was set for is thrown away; what comes to be at its place in memory is another node."""
    def make(name):
        return ast.Expr(value=ast.Name(id=name, ctx=ast.Load()))
    tree = ast.Module(body=[make("a"), make("b"), make("c")], type_ignores=[])
    Allocator(S)
    which = S.pick("which", [0, 1, 2])
    by = S.pick("by", ["node", "list", "all"])
    keep = S.pick("part", ["stmt", "expr"])
    again = S.pick("new walk", [False, True])
    log = []
    def step(self, node):
        if type(node) is ast.Name:
            log.append((node.id, self.state.x))
        if type(node) is ast.Module and not any(n.startswith("new") for n, _ in log):
            if by == "all":
                self.generic_withstate(node, x="A")
            elif keep == "stmt":
                self.withstate([node.body[which]] if by == "list" else node.body[which], x="A")
            else:
                self.withstate([node.body[which].value] if by == "list" else node.body[which].value, x="A")
            if keep == "stmt":
                node.body[which] = None
                node.body[which] = make("new")
            else:
                node.body[which].value = None
                node.body[which].value = ast.Name(id="new", ctx=ast.Load())
        return self.generic_visit(node)
    W = type("W", (getattr(S.m.walkers, cls),), {"examine" if cls == "ASTVisitor" else "transform": step})
    w = W(x="0")
    w.visit(tree)
    if again:
        w.visit(make("new2"))
    old = "A" if by == "all" else "0"
    want = [(n, old) for n in "abc"]
    want[which] = ("new", "A" if by == "all" and keep == "expr" else "0")
    if again:
        want.append(("new2", "0"))
    S.note(lambda: (which, by, keep, again))
    S.check(log == want, lambda: f"states {log}, expected {want}")
    S.reach("discarded")


def h_edit(S, gram):
    tree = S.stmt("t", gram)
    nodes.force(tree)
    rootkind = S.pick("root", ["node", "list1", "list2"])
    root = tree if rootkind == "node" else [tree] if rootkind == "list1" else [ast.Pass(), tree]
    cand = [p for p in positions(root) if not isinstance(p[3], (ast.expr_context, ast.operator))]
    if not cand:
        return
    p = S.pick("where", cand)
    inlist = p[2] is not None
    act = S.pick("act", ["replace", "same", "list2", "nested" if p[1] is None else "list0", "list0", "none", "twice", "around"] if inlist else ["replace", "same"])
    e = [ast.Name(id=f"new{i}", ctx=ast.Load()) for i in range(2)]
    target = p[3]
    ret = {"replace": e[0], "same": target, "list2": e, "list0": [], "none": None, "nested": [e[0], [e[1]]], "twice": [e[0], e[0]], "around": [e[0], target, e[1]]}[act]
    S.note(lambda: (show(root), type(target).__name__, act))
    want = rebuild(root, lambda n: ("is", clone(target) if act == "same" else e[0] if act == "replace" else list(e) if act in ("list2", "nested") else [e[0], e[0]] if act == "twice" else [e[0], clone(target), e[1]] if act == "around" else []) if n is target else None)

    class T(S.m.walkers.ASTTransformer):
        def transform(self, node):
            if node is target:
                return ret
            return self.generic_visit(node)
    r = T().visit(root)
    S.check(r is root, "edits in place")
    S.same(r, want, f"after returning {act}")
    S.reach(act)


HARNESSES = [
    H("visitor", h_state, "state scoping and collection, visitor", dict(gram=GSMALL, cls="ASTVisitor"), dict(gram=GR, cls="ASTVisitor"), reach={"state", "exception"}),
    H("transformer", h_state, "state scoping and collection, transformer", dict(gram=GSMALL, cls="ASTTransformer"), dict(gram=GR, cls="ASTTransformer"), reach={"state", "exception"}),
    H("discard", h_discard, "nodes thrown away, with reused addresses", dict(cls="ASTVisitor"), reach={"discarded"}),
    H("discard_t", h_discard, "the same, transformer", dict(cls="ASTTransformer"), reach={"discarded"}),
    H("edit", h_edit, "return values of a transformer", dict(gram=GR), dict(gram=GRT), reach={"replace", "same", "list2", "list0", "none", "nested", "twice", "around"}),
]
