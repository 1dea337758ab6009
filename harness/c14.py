"""C14: fix_ctx."""
import ast
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import positions, put, preorder, show, clone, counted, COUNTED

G1 = G.grammar(expr=[G.EXPR_STRUCT, G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_SHORT, G.STMT_ONE], target=[G.TARGET_ALL, G.TARGET_ALL, G.TARGET_LEAF],
               dele=[G.DEL_ALL, G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_LEAF])
G1T = G.grammar(expr=[G.EXPR_STRUCT, G.EXPR_STRUCT, G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_ALL, G.STMT_ONE],
                target=[G.TARGET_ALL, G.TARGET_ALL, G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_ALL, G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_LEAF])
EXPR_TGT = G.shapes("expr", ["v0", "(v0 := E0)", "[E0 for T0 in v2]", "f(E0)"])
G2 = G.grammar(expr=[EXPR_TGT, EXPR_TGT, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_ONE],
               target=[G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_LEAF])
GSHARE = G.grammar(expr=[G.shapes("expr", ["v0", "v0.a", "v0[v1]", "(v0, v1)", "[v0, *v1]", "(v0, [v1.a, v2])"])])
BOUNDS = {"quick": "every statement and expression form, over every target / del form and one or two nested levels of representative forms; contexts before: all Load, all Store, all Del or absent, independently per tree level; for sharing: one instance (name, attribute, subscript, tuple, list, nested) at any two positions that may hold it; up to 1 (in some 2) items of any kind in each list of 23 constructs; what a macro and a macro in its expansion return, with any contexts, at 5 kinds of places",
          "thorough": "as quick, one level deeper"}
OUTSIDE = "deeper trees; an instance at three or more positions"
ASSUMPTIONS = ["trees are ones the parser can produce, up to contexts and sharing"]

STORE = {(ast.Assign, "targets"), (ast.AugAssign, "target"), (ast.AnnAssign, "target"), (ast.For, "target"), (ast.AsyncFor, "target"),
         (ast.withitem, "optional_vars"), (ast.comprehension, "target"), (ast.NamedExpr, "target")}
if hasattr(ast, "TypeAlias"):
    STORE.add((ast.TypeAlias, "name"))


def check_ctx(S, node, want, path="tree"):
    """Oracle: contexts by position."""
    if isinstance(node, list):
        for i, x in enumerate(node):
            if isinstance(x, ast.AST):
                check_ctx(S, x, want, f"{path}[{i}]")
        return
    t = type(node)
    if "ctx" in t._fields:
        S.check(type(getattr(node, "ctx", None)) is want, f"{path}: {t.__name__} has {type(getattr(node, 'ctx', None)).__name__}, expected {want.__name__}")
    for f in t._fields:
        v = node.__dict__.get(f)
        if f == "ctx" or not isinstance(v, (list, ast.AST)):
            continue
        if (t, f) in STORE:
            w = ast.Store
        elif t is ast.Delete:
            w = ast.Del
        elif t in (ast.Tuple, ast.List, ast.Starred):
            w = want
        else:
            w = ast.Load
        check_ctx(S, v, w, f"{path}.{f}")


def scrambler(S):
    known = {}
    def locate(desc, i, node):
        if "_desc" in node.__dict__ or "ctx" not in type(node)._fields:
            return
        if desc.name not in known:
            known[desc.name] = S.pick(desc.name + "@", ["load", "store", "del", "none"])
        k = known[desc.name]
        node.__dict__["_want"] = type(node.__dict__["ctx"])
        if k == "none":
            del node.__dict__["ctx"]
        else:
            node.__dict__["ctx"] = {"load": ast.Load, "store": ast.Store, "del": ast.Del}[k]()
    return locate


def h_fix(S, gram, sort):
    tree = S.tree("t", sort, gram, locate=scrambler(S))
    seen = S.pick("copy_seen_nodes", [False, True])
    orig = None
    r = S.m.astfixers.fix_ctx([tree] if sort == "stmt" else tree, copy_seen_nodes=seen)
    if sort == "stmt":
        S.check(len(r) == 1, "same statements")
        r = r[0]
    S.check(r is tree, "modifies in place")
    check_ctx(S, tree, ast.Load)
    for n in preorder(tree):    # what the parser says
        if "_want" in n.__dict__:
            S.check(type(n.ctx) is n.__dict__["_want"], f"{type(n).__name__}: {type(n.ctx).__name__}, the parser says {n.__dict__['_want'].__name__}")
            S.reach(n.__dict__["_want"].__name__)
    S.note(lambda: show(tree))


def h_nothing_else(S, gram, sort):
    tree = S.tree("t", sort, gram)
    saved = clone(tree)
    S.m.astfixers.fix_ctx(tree, copy_seen_nodes=S.pick("copy_seen_nodes", [False, True]))
    S.same(tree, saved, "a tree with correct contexts must not change")
    S.reach("same")


def h_share(S, gram):
    tree = S.tree("t", "stmt", gram)
    nodes.force(tree)
    pos = [p for p in positions(tree) if type(p[3]) is ast.Name]
    pos = [p for p in pos if not (type(p[0]) in (ast.NamedExpr,) and p[1] == "target")]
    if len(pos) < 2:
        return
    shared = S.expr("shared", GSHARE)
    nodes.force(shared)
    simple_only = {(ast.AugAssign, "target"), (ast.AnnAssign, "target")}
    if hasattr(ast, "TypeAlias"):
        simple_only.add((ast.TypeAlias, "name"))
    i = S.pick("i", list(range(len(pos))))
    j = S.pick("j", list(range(len(pos))))
    if not i < j:
        return
    if type(shared) in (ast.Tuple, ast.List) and any((type(p[0]), p[1]) in simple_only for p in (pos[i], pos[j])):
        return
    if type(shared) is not ast.Name and any(type(p[0]).__name__ == "TypeAlias" and p[1] == "name" for p in (pos[i], pos[j])):
        return
    pristine = clone(tree)
    pp = [p for p in positions(pristine) if type(p[3]) is ast.Name]
    pp = [p for p in pp if not (type(p[0]) in (ast.NamedExpr,) and p[1] == "target")]
    put(pp[i], clone(shared))
    put(pp[j], clone(shared))
    put(pos[i], shared)
    put(pos[j], shared)
    S.note(lambda: (i, j, show(pristine)))
    module = ast.Module(body=[tree], type_ignores=[])
    r = S.m.astfixers.fix_ctx(module, copy_seen_nodes=True)
    check_ctx(S, r.body, ast.Load)
    strip_ctx(pristine)
    strip_ctx(r.body[0])
    S.same(r.body[0], pristine, "only contexts change")
    S.reach("shared")


def strip_ctx(t):
    for n in preorder(t):
        n.__dict__.pop("ctx", None)


def h_counts(S, most):
    """Any number of items in each list."""
    kind, tree = counted(S, most)
    saved = clone(tree)
    with_ctx = [n for n in preorder(tree) if "ctx" in type(n)._fields]
    k = S.pick("before", ["load", "store", "del", "none", "other"])
    for n in with_ctx:
        c = {"load": ast.Load, "store": ast.Store, "del": ast.Del, "other": ast.Load if type(n.ctx) is not ast.Load else ast.Store}.get(k)
        if c:
            n.ctx = c()
        else:
            del n.ctx
    r = S.m.astfixers.fix_ctx(tree, copy_seen_nodes=S.pick("copy_seen_nodes", [False, True]))
    check_ctx(S, r, ast.Load)
    S.same(r, saved, "not as the parser makes it")
    S.reach(kind)


def scramble(tree, k):
    for n in preorder(tree):
        if "ctx" in type(n)._fields:
            if k == "none":
                n.__dict__.pop("ctx", None)
            else:
                n.ctx = {"load": ast.Load, "store": ast.Store, "del": ast.Del}[k]()
    return tree


def h_expansion(S, gram, tgram):
    """What macros return, with any contexts: what the macros in there see, and what is left at the end."""
    place = S.pick("place", ["value", "block", "target", "loop", "del"])
    block = place == "block"
    if block:
        tree = S.stmt("t", gram)
    elif place in ("value",):
        tree = S.expr("t", gram)
    else:
        tree = S.expr("t", tgram)
    nodes.force(tree)
    saved = clone(tree)
    first = S.pick("first", ["none", "store", "del", "load"])
    second = S.pick("second", ["none", "store", "same", "nothing"])
    seen = []
    def outer(tree_, *, syntax, **kw):
        inner = ast.Name(id="inner")
        if second == "nothing":
            result = tree
        elif block:
            result = ast.With(items=[ast.withitem(context_expr=inner, optional_vars=None)], body=[tree])
        else:
            result = ast.Subscript(value=inner, slice=tree)
        return scramble(result, first)
    def inner(tree_, *, syntax, **kw):
        got = tree_[0] if block else tree_
        seen.append(got)
        check_ctx(S, got, ast.Load, "what the inner macro gets")
        return got if second == "same" else scramble(got, second)
    src = {"value": "v9 = outer[0]", "block": "with outer: pass", "target": "outer[0] = v9", "loop": "for outer[0] in v9: v8", "del": "del v9, outer[0]"}[place]
    module = ast.parse(src)
    ex = S.m.expander.MacroExpander({"outer": outer, "inner": inner}, "f.py")
    S.note(lambda: (place, first, second, show(saved)))
    out = S.m.core.global_postprocess(ex.visit(module))
    S.check(len(seen) == (second != "nothing"), f"the inner macro ran {len(seen)} times")
    out = [s for s in out.body if not ("macro expander" in ast.dump(s) and type(s) is ast.Expr)]
    check_ctx(S, out, ast.Load)
    where = {"value": lambda: out[0].value, "block": lambda: out[-1], "target": lambda: out[0].targets[0], "loop": lambda: out[0].target, "del": lambda: out[0].targets[1]}[place]()
    strip_ctx(where)
    strip_ctx(saved)
    S.same(where, saved, "only contexts change")
    S.reach(place)


HARNESSES = [
    H("expansion", h_expansion, "what macros return, at every place", dict(gram=G2, tgram=GSHARE), dict(gram=G.grammar(expr=[G.EXPR_STRUCT, G.EXPR_SHORT, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_ONE], target=[G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_LEAF]), tgram=GSHARE), reach={"value", "block", "target", "loop", "del"}),
    H("counts", h_counts, "any number of items in each list", dict(most=1), dict(most=2), reach=set(COUNTED)),
    H("stmt", h_fix, "contexts of every statement form", dict(gram=G2, sort="stmt"), dict(gram=G1, sort="stmt"), reach={"Load", "Store", "Del"}),
    H("expr", h_fix, "contexts of every expression form", dict(gram=G2, sort="expr"), dict(gram=G.grammar(expr=[G.EXPR_STRUCT, G.EXPR_SHORT, G.EXPR_ONE]), sort="expr"), reach={"Load", "Store"}),
    H("only_ctx", h_nothing_else, "nothing else changes", dict(gram=G1, sort="stmt"), dict(gram=G1T, sort="stmt"), reach={"same"}),
    H("shared", h_share, "one node instance at two positions, copying mode", dict(gram=G2), dict(gram=G1), reach={"shared"}),
]
