"""The shapes of Python's syntax, as templates."""
import ast
import sys
from .nodes import parse_shape as P, const_shape as C, Grammar, node_shape

BINOPS = ["+", "-", "*", "/", "//", "%", "@", "**", "<<", ">>", "|", "^", "&"]
CMPOPS = ["==", "!=", "<", "<=", ">", ">=", "is", "is not", "in", "not in"]

OPS = [f"E0 {o} v1" for o in BINOPS] + [f"v0 {o} E0" for o in BINOPS] + \
      [f"{o}E0" for o in ("-", "+", "~", "not ")] + \
      ["E0 and v1", "v0 and E0 and v2", "v0 and E0", "E0 or v1", "v0 or E0 or v2", "v0 or E0"] + \
      [f"E0 {o} v1" for o in CMPOPS] + [f"v0 {o} E0" for o in CMPOPS] + ["v0 < E0 <= v2"]
OPS_REP = ["E0 + v1", "v0 - E0", "E0 ** v1", "v0 ** E0", "v0 @ E0", "-E0", "not E0", "E0 and v1",
           "v0 or E0", "E0 == v1", "v0 not in E0", "v0 < E0 < v2"]

DISPLAYS = ["(E0,)", "(v0, E0, v2)", "()", "(*E0, v1)", "[E0]", "[v0, E0, v2]", "[]", "[*E0, v1]",
            "{E0}", "{v0, E0, v2}", "{*E0, v1}", "{}", "{E0: v1}", "{v0: E0}", "{**E0}",
            "{v0: v1, **E0, v2: v3}"]
COMPS = ["[E0 for v1 in v2]", "[v0 for v1 in E0]", "[v0 for T0 in v2]", "[v0 for v1 in v2 if E0]",
         "[v0 for v1 in v2 if v3 if E0 for v4 in E1]", "[v0 async for v1 in E0]",
         "{E0 for v1 in v2}", "{E0: v1 for v2 in v3}", "{v0: E0 for v2 in v3 if E1}",
         "(E0 for v1 in v2)", "(v0 for v1, v5 in v2 for v3 in E0)", "f(E0 for v1 in v2)"]
CALLS = ["E0()", "E0(v1)", "f(E0)", "f(v0, E0, v2)", "f(*E0)", "f(v0, *E0, v2)", "f(k=E0)", "f(k=v0, l=E0)",
         "f(**E0)", "f(v0, *v1, k=v2, **E0)", "f(k=v0, **E0, m=v2)"]
ACCESS = ["E0.attr", "E0[v1]", "v0[E0]", "v0[v1, E0]", "v0[E0,]", "v0[()]", "v0[:]", "v0[E0:]", "v0[:E0]", "v0[::E0]",
          "v0[v1:E0:v3]", "v0[v1, E0:v2]", "v0[*E0]", "v0[v1, *E0]"]
OTHER = ["E0 if v1 else v2", "v0 if E0 else v2", "v0 if v1 else E0",
         "lambda: E0", "lambda v0, v1=E0: v2", "lambda v0=v1, /, v2=E0, *v3, v4, v5=E1, **v6: v7", "lambda *, v0: E0",
         "lambda *v0: E0", "lambda **v0: E0", "lambda v0, /: E0", "lambda v0, v1, *v2, v3=E0: v4",
         "(v0 := E0)", "(yield)", "(yield E0)", "(yield from E0)", "await E0"]
FSTRS = ["f'{E0}'", "f'a{E0}b'", "f'{E0!r}'", "f'{E0!s:>10}'", "f'{v0:{E0}}'", "f'{v0:x{E0!a}y}'", "f''", "f'a'",
         "f'{{{E0}}}'", "f'\\n{E0}\\'\"'", "f'{v0}{E0}'", "f'{v0:{{E0}}}'"[:0] or "f'a\\\\{E0}\\t'"]
CONSTS = [None, True, False, ..., 0, 1, 10**30, 1.5, 1e400, 0.0, 1e-7, 2j, 1e400j, 0j, "", "a", "it's", 'say "hi"', "'\"", "{x}",
          "back\\slash", "new\nline", "\t\r\x00\x1b", "é☃😀", "\udc80", "'''\"\"\"", b"", b"ab", b"'\"\\\n\xff\x00"]
CONST_REP = [1, "a'\n", b"\xff", None, 1.5, 2j]

TARGETS = ["v0", "T0.attr"[:0] or "E0.attr", "E0[v1]", "v0[E0]", "v0[v1:E0]", "(T0, v1)", "(v0, T0)", "(T0,)", "[T0, v1]", "[v0, *T0]",
           "(*T0, v1)", "[]", "()"]
DELS = ["v0", "E0.attr", "E0[v1]", "v0[E0]", "(D0, v1)", "[v0, D0]", "(D0,)"]

STMTS_SIMPLE = ["E0", "pass", "break", "continue", "return", "return E0", "del D0", "del v0, D0",
    "T0 = v1", "v0 = E0", "v0 = T0 = v2", "v0 = v1 = E0",
    "v0 += E0", "v0.a -= E0", "v0[E0] *= v1", "v0 @= E0",
    "v0: E0", "v0: v1 = E0", "(v0): E0", "v0.a: E0 = v1", "v0[E0]: v1",
    "raise", "raise E0", "raise v0 from E0", "assert E0", "assert v0, E0",
    "import m", "import m as v0", "import m.n", "import m.n as v0, k", "from m import x", "from m import x as v0, y",
    "from . import x", "from .. import x", "from ..m import x as v0", "from m import *",
    "global v0", "global v0, v1", "nonlocal v0", "nonlocal v0, v1"]
STMTS_BLOCK = ["if E0: pass", "if v0: S0", "if v0:\n S0\n S1", "if v0:\n pass\nelse:\n S0", "if v0:\n pass\nelif E0:\n S0\nelse:\n pass",
    "while E0: S0", "while v0:\n pass\nelse:\n S0",
    "for T0 in v1: pass", "for v0 in E0: S0", "for v0 in v1:\n pass\nelse:\n S0", "async for v0 in E0: S0",
    "with E0: pass", "with v0 as T0: S0", "with v0, E0 as v2: S0", "with (E0, v1): pass"[:0] or "with v0 as v1, v2, v3 as T0: pass",
    "async with E0 as v1: S0",
    "try:\n S0\nexcept E0: pass", "try:\n pass\nexcept:\n S0", "try:\n pass\nexcept v0 as v1:\n S0\nelse:\n S1\nfinally:\n S2",
    "try: S0\nfinally: S1", "try:\n pass\nexcept* E0 as v1:\n S0", "try:\n pass\nexcept v0: pass\nexcept (v1, E0): pass"]
STMTS_DEF = ["def f(): S0", "def f():\n S0\n S1", "def f(v0, v1=E0): pass", "def f(v0, /, v1, *v2, v3=E0, v4, **v5): pass",
    "def f(v0: E0): pass", "def f(*v0: E0, **v1: E1): pass", "def f() -> E0: pass", "@E0\ndef f(): pass", "@v0\n@E0\ndef f(): S0",
    "def f(v0=v1, /, v2=E0): pass", "def f(*, v0, v1=E0): pass", "def f(v0, v1, /, v2=v3, *, v4: E0): pass",
    "async def f(v0=E0): S0", "@E0\nasync def f() -> v1: pass",
    "class C: S0", "class C(E0): pass", "class C(v0, k=E0): pass", "class C(*E0, **v1): pass", "@E0\nclass C: S0",
    "class C(v0, metaclass=v1):\n S0\n S1"]
STMTS_TP = ["def f[T](): pass", "def f[T: E0, *Ts, **Pp](v0: v1): S0", "class C[T: E0](v0): S0", "type v0 = E0", "type v0[T, *Ts] = E0",
    "async def f[*Ts](): S0", "class C[**Pp]: pass"]
STMTS_MATCH = ["match E0:\n case v0: pass", "match v0:\n case P0: S0", "match v0:\n case v1 if E0: pass",
    "match v0:\n case P0: pass\n case P1 if v2: S0\n case _: S1", "match v0, E0:\n case _: pass", "match *E0, v1:\n case _: pass"]
PATTERNS = ["v0", "_", "1", "-1", "1.5", "1+2j", "-1-2j", "'a'", "b'a'", "'a' 'b'"[:0] or "'it\\'s'", "None", "True", "v0.a", "v0.a.b",
    "P0 | v1.a"[:0] or "v0.a | P0", "(P0 | 1) | 2"[:0] or "P0 | 2 | 3", "P0 as v1", "[]", "[P0]", "[v0, P0, v2]", "[v0, *v1]", "[*_, P0]", "[*v0, v1, P0]",
    "{}", "{'a': P0}", "{v0.k: v1, 1: P0}", "{'a': P0, **v1}", "{**v0}", "{-1: P0}",
    "C()", "C(P0)", "C(v0, P0)", "C(a=P0)", "C(v0, a=v1, b=P0)", "m.C(P0)"]
if sys.version_info < (3, 12):
    STMTS_TP = []

EXPR_REP = OPS_REP + ["(v0, E0)", "[E0, v1]", "[*E0]", "{E0: v1}", "{**E0}", "{E0, v1}", "[E0 for v1 in v2]", "(v0 for v1 in E0 if v2)",
    "{v0: E0 for v1 in v2}", "f(E0)", "E0(v1)", "f(*E0, k=v1)", "f(**E0)", "E0.attr", "v0[E0]", "E0[v1]", "v0[E0:v1]",
    "v0[v1, E0]", "E0 if v1 else v2", "v0 if v1 else E0", "lambda: E0", "lambda v0=E0: v1", "(v0 := E0)", "(yield E0)", "await E0",
    "f'a{E0}b'", "f'{v0:{E0}}'", "()"]
STMT_REP = ["E0", "v0 = E0", "T0 = v1", "v0 += E0", "v0: v1 = E0", "return E0", "del D0", "if E0: S0", "if v0:\n pass\nelse:\n S0",
    "for v0 in E0: S0", "with E0 as v1: S0", "try:\n S0\nexcept E0 as v1: pass\nfinally: pass", "def f(v0=E0): S0", "@E0\ndef f(): pass",
    "class C(E0): S0", "match v0:\n case P0: S0", "import m", "global v0", "raise v0 from E0", "while v0: S0", "pass"]


def shapes(sort, texts):
    return [P(sort, t) for t in texts]

EXPR_ALL = shapes("expr", OPS + DISPLAYS + COMPS + CALLS + ACCESS + OTHER + FSTRS + ["v0"]) + [C(v) for v in CONSTS] + [C("u", "u")]
# one of each operator class suffices where code does not look at operators
EXPR_STRUCT = shapes("expr", ["E0 + v1", "v0 + E0", "-E0", "v0 and E0 and v2", "E0 or v1", "E0 == v1", "v0 < E0 not in v2"] +
                     DISPLAYS + COMPS + CALLS + ACCESS + OTHER + FSTRS + ["v0"]) + [C(v) for v in CONST_REP]
EXPR_SHORT = shapes("expr", EXPR_REP + ["v0"]) + [C(v) for v in CONST_REP[:2]]
EXPR_LEAF = shapes("expr", ["v0"]) + [C(7)]
EXPR_ONE = shapes("expr", ["v0"])
TARGET_ALL = shapes("target", TARGETS)
TARGET_LEAF = shapes("target", ["v0"])
DEL_ALL = shapes("del", DELS)
DEL_LEAF = shapes("del", ["v0"])
STMT_ALL = shapes("stmt", STMTS_SIMPLE + STMTS_BLOCK + STMTS_DEF + STMTS_TP + STMTS_MATCH)
STMT_SHORT = shapes("stmt", STMT_REP)
STMT_LEAF = shapes("stmt", ["v0", "pass"])
STMT_ONE = shapes("stmt", ["v0"])
PATTERN_ALL = shapes("pattern", PATTERNS)
PATTERN_LEAF = shapes("pattern", ["v0", "_"])


def grammar(expr=None, stmt=None, target=None, dele=None, pattern=None, focus=False):
    """Grammar from lists of levels; defaults: leaves only, except patterns and targets (all, then leaves)."""
    return Grammar({"expr": expr or [EXPR_LEAF], "stmt": stmt or [STMT_LEAF],
                    "target": target or [TARGET_ALL, TARGET_ALL, TARGET_ALL, TARGET_LEAF], "del": dele or [DEL_ALL, DEL_ALL, DEL_LEAF],
                    "pattern": pattern or [PATTERN_ALL, PATTERN_ALL, PATTERN_LEAF]}, focus)


def kinds_covered():
    """Concrete node classes of the running Python that no template contains."""
    seen = set()
    for sh in EXPR_ALL + TARGET_ALL + DEL_ALL + STMT_ALL + PATTERN_ALL:
        for n in ast.walk(sh.tree):
            seen.add(type(n))
    def leaves(c):
        subs = [s for s in c.__subclasses__() if s.__module__ in ("ast", "_ast") and not s.__name__.startswith("Lazy")]
        return {c} if not subs else set().union(*map(leaves, subs))
    allc = leaves(ast.expr) | leaves(ast.stmt) | leaves(ast.pattern) | leaves(ast.type_param) if hasattr(ast, "type_param") else set()
    old = {"Num", "Str", "Bytes", "NameConstant", "Ellipsis"}
    return {c.__name__ for c in allc - seen} - old
