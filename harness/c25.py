"""C25: rename."""
import ast
import re
from sx.api import H
from sx import grammar as G
from sx import nodes
from .lib import preorder, show, clone, counted

X = G.shapes("expr", ["v0", "x", "'x'", "f'x{v0}'", "v0.x", "f(x=v0)", "lambda x: v0"])
XS = G.shapes("stmt", ["v0", "x = v0", "global x, v0", "import x", "pass", "def x(): pass"])
G1 = G.grammar(expr=[G.EXPR_STRUCT, X, G.EXPR_ONE], stmt=[G.STMT_ALL, XS, G.STMT_ONE], target=[G.TARGET_ALL, G.TARGET_LEAF], dele=[G.DEL_ALL, G.DEL_LEAF], pattern=[G.PATTERN_ALL, G.PATTERN_LEAF], focus=True)
G2 = G.grammar(expr=[G.EXPR_STRUCT, G.EXPR_STRUCT + X, X, G.EXPR_ONE], stmt=[G.STMT_ALL, G.STMT_SHORT + XS, XS], focus=True)
BOUNDS = {"quick": "every statement and expression form over nested forms that mention the name as variable, attribute, keyword, parameter, string or import; the old name is any identifier of the tree, or absent from it; up to 1 (in some 2) items of any kind in each list of 23 constructs",
          "thorough": "as quick, one level deeper"}
OUTSIDE = "deeper trees; dotted module names are compared as a whole"
ASSUMPTIONS = ["the new name does not occur in the tree (for renaming there and back)"]

_IDENT = {}

def ident_fields(cls):
    """Fields that hold identifiers, from the grammar in the class's documentation."""
    if cls not in _IDENT:
        doc = (cls.__doc__ or "").replace("\n", " ")
        m = re.search(r"\((.*)\)", doc)
        _IDENT[cls] = [f.split()[1] for f in (m.group(1).split(",") if m else []) if f.split()[0].startswith("identifier")]
    return _IDENT[cls]


def names_in(tree):
    out = []
    for n in preorder(tree):
        for f in ident_fields(type(n)):
            v = getattr(n, f, None)
            for s in v if isinstance(v, list) else [v]:
                if isinstance(s, str) and s not in out:
                    out.append(s)
    return out


def oracle(tree, old, new):
    t = clone(tree)
    for n in preorder(t):
        for f in ident_fields(type(n)):
            v = getattr(n, f, None)
            if isinstance(v, list):
                setattr(n, f, [new if s == old else s for s in v])
            elif v == old:
                setattr(n, f, new)
    return t


def h_rename(S, gram, sort, most=1):
    tree = S.tree("t", sort, gram) if gram else counted(S, most)[1][0]
    nodes.force(tree)
    names = names_in(tree)
    if len(names) > 1 and S.pick("same", [False, True]):      # all the same name
        for n in names[1:]:
            tree = oracle(tree, n, names[0])
        names = names[:1]
        S.reach("same")
    old = S.pick("old", names + ["absent"])
    S.note(lambda: (show(tree), old))
    saved = clone(tree)
    want = oracle(tree, old, "new_name")
    wrap = [tree] if sort == "stmt" else tree
    r = S.m.utils.rename(old, "new_name", wrap)
    S.check(r is wrap, "the tree is modified in place")
    S.same(tree, want, f"rename {old}")
    S.m.utils.rename("new_name", old, wrap)
    S.same(tree, saved, "renaming back")
    S.reach("absent" if old == "absent" else "renamed")


HARNESSES = [
    H("expr", h_rename, "rename in expressions", dict(gram=G1, sort="expr"), dict(gram=G2, sort="expr"), reach={"absent", "renamed", "same"}),
    H("counts", h_rename, "rename in any number of items in each list", dict(gram=None, sort="stmt"), dict(gram=None, sort="stmt", most=2), reach={"absent", "renamed", "same"}),
    H("stmt", h_rename, "rename in statements", dict(gram=G1, sort="stmt"), dict(gram=G2, sort="stmt"), reach={"absent", "renamed", "same"}),
]
