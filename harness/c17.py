"""C17: AST markers."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import positions, preorder, show, clone, put

TREES = G.shapes("stmt", ["v0 = f(E0, k=v1)", "if E0:\n S0\n S1\nelse:\n v2", "def f(v0, v1=E0):\n S0\n S1", "{v0: v1, **E0}", "with v0 as v1, E0: S0",
                          "[v0 for v1 in E0 if v2]", "match v0:\n case [P0, _]: S0", "@E0\nclass C(v1): S0", "f'{E0}'", "v0[v1:E0]"])
GR = G.grammar(stmt=[TREES, G.STMT_ONE], expr=[G.shapes("expr", ["v0", "v0 + v1", "f(v0, v1)"]), G.EXPR_ONE], pattern=[G.PATTERN_LEAF])
GRT = G.grammar(stmt=[TREES, TREES, G.STMT_ONE], expr=[G.EXPR_SHORT, G.EXPR_ONE], pattern=[G.PATTERN_LEAF])
BOUNDS = {"quick": "trees of two nested levels of 10 statement forms, as a node or in a list; one or two markers of three classes (one a subclass of another) at any two positions of the tree (nested, directly inside each other, at the root, in lists), bodies a node or a suite; 3 postprocessors, any 4 operations adding, removing and running them",
          "thorough": "two full statement levels and every representative expression; 6 operations"}
OUTSIDE = "more than two markers"
ASSUMPTIONS = ["a marker around a suite stands in a list of statements"]


def setup(S, gram):
    M = S.m.markers.ASTMarker
    class A(M):
        pass
    class A1(A):
        pass
    class B(M):
        pass
    tree = S.stmt("t", gram)
    nodes.force(tree)
    root = S.pick("root", ["node", "list"])
    box = [tree, ast.Pass()] if root == "list" else [tree]
    cnt = S.pick("count", [1, 2, 0])
    made = []
    for k in range(cnt):
        ps = [p for p in positions(box) if isinstance(p[3], (ast.expr, ast.stmt, M, ast.pattern, ast.keyword, ast.arg))]
        p = S.pick(f"at{k}", ps)
        cls = S.pick(f"cls{k}", [A, A1, B])
        body = p[3]
        if isinstance(body, ast.stmt) and p[2] is not None and S.pick(f"suite{k}", [False, True]):
            lst = p[0] if p[1] is None else getattr(p[0], p[1])
            if root == "node" and lst is box:
                m = cls([body])
                lst[0] = m
            else:
                body = lst[p[2]:p[2] + 2]
                m = cls(list(body))
                lst[p[2]:p[2] + 2] = [m]
                S.reach("suite")
        else:
            m = cls(body)
            put(p, m)
        made.append(m)
    arg = box if root == "list" else box[0]
    return A, A1, B, M, arg


def expected_markers(tree, cls, out):
    if isinstance(tree, list):
        for x in tree:
            expected_markers(x, cls, out)
    elif isinstance(tree, ast.AST):
        if isinstance(tree, cls):
            out.append(tree)
        for f in tree._fields:
            expected_markers(tree.__dict__.get(f), cls, out)
    return out


def without(x, cls):
    """Independent copy of `x` with the markers replaced by their bodies."""
    if isinstance(x, list):
        out = []
        for y in x:
            r = without(y, cls)
            out.extend(r) if isinstance(r, list) else out.append(r)
        return out
    if isinstance(x, ast.AST):
        if isinstance(x, cls):
            return without(x.body, cls)
        n = type(x).__new__(type(x))
        for k, v in x.__dict__.items():
            n.__dict__[k] = without(v, cls) if isinstance(v, (ast.AST, list)) and k != "_fields" else v
        return n
    return x


def h_markers(S, gram):
    A, A1, B, M, arg = setup(S, gram)
    cls = S.pick("query", [M, A, A1, B])
    S.note(lambda: (ast.dump(arg) if isinstance(arg, ast.AST) else [ast.dump(x) for x in arg], cls.__name__))
    want = expected_markers(arg, cls, [])
    got = S.m.markers.get_markers(arg, cls) if cls is not M else S.m.markers.get_markers(arg)
    S.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), f"get_markers: {got}, expected {want}")
    if len(want) == 2:
        S.reach("two")
    chk = lambda: S.m.markers.check_no_markers_remaining(arg, filename="f.py", cls=None if cls is M else cls)
    if want:
        S.raises(S.m.core.MacroExpansionError, chk, "markers remain")
        S.reach("remaining")
    else:
        S.check(chk() is None, "no markers remain")
        S.reach("clean")
    saved = without(arg, cls)
    r = S.m.markers.delete_markers(arg, cls) if cls is not M else S.m.markers.delete_markers(arg)
    S.same(r, saved, "delete_markers")
    S.check(not S.m.markers.get_markers(r, cls), "none remains after deletion")
    S.reach("deleted")


OPS = ["end", "add 0", "add 1", "add 2", "remove 0", "remove 1", "remove 2", "run"]


def h_postprocessors(S, steps):
    """A library's own postprocessors, added and removed at any time."""
    core = S.m.core
    S.check(core.global_postprocessors == [], "none at the beginning")
    class Mine(S.m.markers.ASTMarker):
        pass
    class Own(S.m.core.MacroExpanderMarker):
        pass
    log = []
    def make(k):
        def post(tree):
            log.append((k, tree))
            S.check(not S.m.markers.get_markers(tree, core.MacroExpanderMarker), "the expander's own markers are deleted first")
            if k == 0:
                return S.m.markers.delete_markers(tree, Mine)
            return ast.Module(body=list(tree.body) + [ast.Expr(ast.Constant(k))], type_ignores=[])
        return post
    posts = [make(k) for k in range(3)]
    model = []
    done = []
    for n in range(steps + 1):
        op = S.pick(f"op{n}", OPS) if n < steps else "run"
        if op == "end":
            op = "run"
            last = True
        else:
            last = n == steps
        done.append(op)
        S.note(lambda: done)
        if op == "run":
            tree = ast.Module(body=[Mine([ast.Expr(Own(ast.Constant("a")))]), ast.Expr(core.Done(ast.Constant("b")))], type_ignores=[])
            del log[:]
            r = core.global_postprocess(tree)
            S.check([k for k, t in log] == model, f"called {[k for k, t in log]}, registered {model}")
            S.check((type(r.body[0]) is Mine) == (0 not in model), "whose markers are deleted is up to the postprocessors")
            S.check(not S.m.markers.get_markers(r, core.MacroExpanderMarker), "markers of the expander remain")
            S.check([s.value.value for s in r.body[-2 - sum(k > 0 for k in model):] if type(s) is ast.Expr and type(s.value) is ast.Constant][-1 - sum(k > 0 for k in model):] == ["b"] + [k for k in model if k], "each gets what the one before it returned")
            if len(model) > 1:
                S.reach("several")
            if last:
                break
        else:
            what, k = op.split()
            k = int(k)
            if what == "add":
                core.add_postprocessor(posts[k])
                if k in model:
                    S.reach("again")
                else:
                    model.append(k)
            else:
                core.remove_postprocessor(posts[k])
                if k in model:
                    model.remove(k)
                    S.reach("removed")
                else:
                    S.reach("not there")


HARNESSES = [
    H("postprocessors", h_postprocessors, "postprocessors added and removed", dict(steps=4), dict(steps=6), reach={"several", "again", "removed", "not there"}),
    H("markers", h_markers, "get, check and delete markers", dict(gram=GR), dict(gram=GRT), reach={"two", "remaining", "clean", "deleted", "suite"}),
]
