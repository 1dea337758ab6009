"""C20: split_futureimports, inject_after_futureimports, getdocstring."""
import ast
from sx.api import H
from sx import grammar as G
from .lib import show

STMTS = G.shapes("stmt", ["'doc'", "''", "'''multi\nline'''", "...", "1", "b'x'", "None", "f'a'", "f'{v0}'", "'a' + 'b'", "('x',)", "v0 = 'doc'",
                          "from __future__ import annotations", "from __future__ import annotations, division as d",
                          "from .__future__ import annotations", "from m import x", "from . import x", "import __future__", "import m", "v0 = 1", "E0",
                          "if v0: from __future__ import annotations", "def f(): 'doc'", "pass"])
GR = G.grammar(stmt=[STMTS], expr=[G.EXPR_STRUCT, G.EXPR_ONE])
BOUNDS = {"quick": "bodies of 0 to 4 statements, each any of 24 forms (docstring-like constants of every type, future-imports, near misses, other statements); 0 to 2 injected statements",
          "thorough": "bodies of 0 to 6 statements"}
OUTSIDE = "longer bodies"
ASSUMPTIONS = []


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)

def isfut(s):
    return isinstance(s, ast.ImportFrom) and s.module == "__future__" and s.level == 0

def identical(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def h_split(S, n):
    cu = S.m.coreutils
    body = [S.stmt(f"s{i}", GR) for i in range(S.pick("n", list(range(n + 1))))]
    S.note(lambda: show(body))
    orig = list(body)
    r = cu.split_futureimports(body)
    S.check(len(r) == 3, "three parts")
    doc, fut, rest = r
    S.check(all(isinstance(x, list) for x in r), "parts are lists")
    S.check(identical(doc + fut + rest, orig), "concatenating the parts gives the original body")
    S.check(identical(body, orig), "the body itself is not modified")
    i = 0
    if orig and isdoc(orig[0]):
        i = 1
        S.reach("doc")
        if orig[0].value.value == "":
            S.reach("empty doc")
    j = i
    while j < len(orig) and isfut(orig[j]):
        j += 1
    S.check(len(doc) == i, "docstring part")
    S.check(len(fut) == j - i, "future-imports part")
    if fut:
        S.reach("future")
        if not rest:
            S.reach("all future")
    ds = S.m.utils.getdocstring(orig)
    if i:
        S.check(type(ds) is str and ds == orig[0].value.value, "getdocstring returns the docstring")
    else:
        S.check(ds is None, "getdocstring returns None when there is none")


def h_inject(S, n):
    cu = S.m.coreutils
    body = [S.stmt(f"s{i}", GR) for i in range(S.pick("n", list(range(n + 1))))]
    kind = S.pick("inject", ["one", "list0", "list1", "list2", "badbody", "badstmt"])
    new = [ast.Expr(value=ast.Name(id=f"new{i}", ctx=ast.Load())) for i in range(2)]
    orig = list(body)
    if kind == "badbody":
        S.raises(TypeError, lambda: cu.inject_after_futureimports(new, S.pick("bad", [None, new[0], tuple(new)])), "body must be a list")
        return
    if kind == "badstmt":
        S.raises(TypeError, lambda: cu.inject_after_futureimports(S.pick("bad", [None, new[0].value, "x", tuple(new)]), body), "stmts must be statements")
        return
    stmts = {"one": new[0], "list0": [], "list1": new[:1], "list2": new}[kind]
    want = stmts if isinstance(stmts, list) else [stmts]
    r = cu.inject_after_futureimports(stmts, body)
    i = 1 if orig and isdoc(orig[0]) else 0
    while i < len(orig) and isfut(orig[i]):
        i += 1
    S.check(identical(r, orig[:i] + want + orig[i:]), "injected directly after the docstring and future-imports")
    S.reach("injected")


HARNESSES = [
    H("split", h_split, "split_futureimports / getdocstring partition any body", dict(n=4), dict(n=6), reach={"doc", "empty doc", "future", "all future"}),
    H("inject", h_inject, "inject_after_futureimports places statements right after them", dict(n=3), dict(n=4), reach={"injected"}),
]
