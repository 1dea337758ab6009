"""Symbolic syntax trees: lazily initialized AST nodes over a grammar of shapes.

A *shape* is one alternative for a node: a piece of source text with holes (a template), or a constant.
Each symbolic node has one z3 integer, the index of its shape in the list its grammar allows there. The
node stays unresolved until the code under test looks at it; the questions the code asks become
constraints on that integer.

Holes in templates: E0 E1 .. (expression), T0 .. (assignment target), D0 .. (`del` target),
S0 .. (statement), P0 .. (match pattern). Names `v0`, `v1`, ... get the path of holes to their node
appended, so that sibling and nested leaves can be told apart.
"""
import ast
import copy
import re

from . import engine

_SETCLASS = object.__dict__["__class__"].__set__
_HOLE = re.compile(r"^([ETDSP])(\d)$")
_SORT = {"E": "expr", "T": "target", "D": "del", "S": "stmt", "P": "pattern"}
_VNAME = re.compile(r"^v\d$")
LOCS = ("lineno", "col_offset", "end_lineno", "end_col_offset")


class Shape:
    __slots__ = ("cls", "text", "tree", "holes", "sort", "tag")
    def __init__(self, cls, text, tree, holes, sort, tag=None):
        self.cls, self.text, self.tree, self.sort, self.tag = cls, text, tree, sort, tag
        self.holes = []
        for n in ast.walk(tree):
            h = _hole_of(n)
            if h and h not in self.holes:
                self.holes.append(h)
    def __repr__(self):
        return f"<{self.sort} {self.text!r}>"


def _strip(tree):
    for n in ast.walk(tree):
        for a in LOCS:
            n.__dict__.pop(a, None)
    return tree


def parse_shape(sort, text, tag=None):
    if sort == "expr":
        tree = ast.parse("(" + text + "\n)", mode="eval").body
    elif sort == "stmt":
        body = ast.parse(text).body
        assert len(body) == 1, text
        tree = body[0]
    elif sort == "target":
        tree = ast.parse("(" + text + ") = 0").body[0].targets[0]
    elif sort == "del":
        tree = ast.parse("del (" + text + ")").body[0].targets[0]
    elif sort == "pattern":
        tree = ast.parse("match 0:\n case (" + text + "): pass").body[0].cases[0].pattern
    else:
        raise ValueError(sort)
    _strip(tree)
    return Shape(type(tree), text, tree, None, sort, tag)


def const_shape(v, kind=None):
    tree = ast.Constant(value=v, kind=kind)
    text = f"Constant({v!r})" if kind is None else f"Constant({v!r}, {kind!r})"
    return Shape(ast.Constant, text, tree, None, "expr")


def node_shape(sort, tree, text):
    return Shape(type(tree), text, tree, None, sort)


LEAF_LEVEL = 99


class Desc:
    """Identity of a symbolic node: what it may be (`shapes`), and its z3 index."""
    __slots__ = ("name", "sort", "grammar", "level", "shapes", "z", "shape", "kids", "ctx", "suffix", "focus")
    def __init__(self, ctx, name, sort, grammar, level, suffix=""):
        self.suffix, self.focus = suffix, None
        self.ctx, self.name, self.sort, self.grammar, self.level = ctx, name, sort, grammar, level
        self.shapes = grammar.shapes(sort, level)
        assert self.shapes, (name, sort, level)
        self.shape = None
        self.kids = {}
        if ctx.assignment is None:
            self.z = engine.CUR.int_var(name, 0, len(self.shapes) - 1)
        else:
            self.z = None

    def kid(self, hole):
        if hole not in self.kids:
            level = self.level + 1 if self.focus is None or self.focus == hole else LEAF_LEVEL
            self.kids[hole] = Desc(self.ctx, f"{self.name}.{hole}", _SORT[hole[0]], self.grammar, level,
                                   self.suffix + hole if self.suffix else "_" + hole)
        return self.kids[hole]

    def pick_focus(self):
        """With a focused grammar, only one hole of a shape is deeper than a leaf."""
        holes = self.shape.holes
        if self.focus is None and self.grammar.focus and len(holes) > 1:
            if self.ctx.assignment is not None:
                i = self.ctx.assignment.get(self.name + ".focus", 0)
            else:
                i = engine.CUR.choose(engine.CUR.int_var(self.name + ".focus", 0, len(holes) - 1), "f")
            self.focus = holes[i]

    def choose(self):
        if self.shape is None:
            if len(self.shapes) == 1:
                i = 0
            elif self.ctx.assignment is not None:
                i = self.ctx.assignment.get(self.name, 0)
            else:
                i = engine.CUR.choose(self.z, "s")
            self.shape = self.shapes[i]
            self.pick_focus()
        return self.shape

    def is_a(self, classes):
        """Does this node have one of `classes`? Forks, without choosing a shape."""
        if self.shape is not None:
            return issubclass(self.shape.cls, classes)
        r = self.grammar.ranges(self.shapes, classes)
        if r is True or r is False:
            return r
        import z3
        z = self.z
        return engine.CUR.branch(z3.Or(*[z3.And(z >= a, z <= b) if a != b else z == a for a, b in r]))

    def instantiate(self, node=None):
        """Fields of the chosen shape, put in `node` (which becomes an instance of its class)."""
        sh = self.choose()
        own = []
        new = _build(sh.tree, self, own, node)
        if self.ctx.locate is not None:
            for i, n in enumerate(own):
                self.ctx.locate(self, i, n)
        return new


def _hole_of(tree):
    t = type(tree)
    if t is ast.Name:
        m = _HOLE.match(tree.id)
        return m and tree.id
    if t is ast.Expr and type(tree.value) is ast.Name and tree.value.id[:1] == "S":
        m = _HOLE.match(tree.value.id)
        return m and tree.value.id
    if t is ast.MatchAs and tree.pattern is None and tree.name and tree.name[0] == "P":
        m = _HOLE.match(tree.name)
        return m and tree.name
    return None


def _build(tree, desc, own, into=None):
    cls = type(tree)
    if into is None:
        new = cls.__new__(cls)
    else:
        new = into
        _SETCLASS(new, cls)
    d = new.__dict__
    if isinstance(tree, ast.expr_context) or isinstance(tree, (ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
        return tree
    own.append(new)
    for f in cls._fields:
        v = getattr(tree, f, None)
        if isinstance(v, ast.AST):
            v = _sub(v, desc, own)
        elif isinstance(v, list):
            v = [_sub(x, desc, own) if isinstance(x, ast.AST) else _vname(x, desc) for x in v]
        elif isinstance(v, str) and not (cls is ast.Constant):
            v = _vname(v, desc)
        d.setdefault(f, v)
    return new


def _vname(x, desc):
    return x + desc.suffix if isinstance(x, str) and _VNAME.match(x) else x


def _sub(x, desc, own):
    h = _hole_of(x)
    if h:
        return make(desc.kid(h))
    return _build(x, desc, own)


# ---- lazy nodes ---------------------------------------------------------------

def resolve(node):
    """Make a lazy node (if it is one) into a real one, in place."""
    d = node.__dict__.pop("_desc", None)
    if d is None:
        return node
    try:
        return d.instantiate(node)
    except BaseException:
        node.__dict__["_desc"] = d
        raise


def _lazy_class(base):
    def _class(self):
        resolve(self)
        return type(self)
    def _fields(self):
        resolve(self)
        return type(self)._fields
    def _getattr(self, name):
        if name in LOCS or (name.startswith("__") and name.endswith("__")):
            raise AttributeError(name)
        resolve(self)
        return getattr(self, name)
    def _view(self, memo=None):
        new = type(self).__new__(type(self))
        for k, v in self.__dict__.items():
            new.__dict__[k] = v if k == "_desc" or memo is None else copy.deepcopy(v, memo)
        return new
    def _reduce(self, proto):
        resolve(self)
        return self.__reduce_ex__(proto)
    def _repr(self):
        return f"<lazy {self.__dict__['_desc'].name}>"
    return type("Lazy_" + base.__name__, (base,), {
        "__class__": property(_class), "_fields": property(_fields), "__getattr__": _getattr,
        "__copy__": _view, "__deepcopy__": _view, "__reduce_ex__": _reduce, "__repr__": _repr})

LazyExpr = _lazy_class(ast.expr)
LazyStmt = _lazy_class(ast.stmt)
LazyPattern = _lazy_class(ast.pattern)
LAZY = {"expr": LazyExpr, "target": LazyExpr, "del": LazyExpr, "stmt": LazyStmt, "pattern": LazyPattern}
LAZY_TYPES = (LazyExpr, LazyStmt, LazyPattern)
_LAZYSET = set(LAZY_TYPES)


def is_lazy(x):
    return type(x) in _LAZYSET


def make(desc):
    if desc.ctx.lazy and desc.shape is None and len(desc.shapes) > 1:
        cls = LAZY[desc.sort]
        n = cls.__new__(cls)
        n.__dict__["_desc"] = desc
        if desc.ctx.locate is not None:
            desc.ctx.locate(desc, 0, n)
        return n
    return desc.instantiate()


class SymType:
    """`type(x)` of an unresolved node."""
    __slots__ = ("node",)
    def __init__(self, node):
        object.__setattr__(self, "node", node)
    def _is(self, cls):
        if not is_lazy(self.node):
            return type(self.node) is cls
        if isinstance(cls, type):
            return self.node.__dict__["_desc"].is_a(cls) and _exact(self.node, cls)
        if type(cls) is SymType:
            return self.real() is cls.real()
        return False
    def real(self):
        resolve(self.node)
        return type(self.node)
    def __eq__(self, o):
        return self._is(o)
    def __ne__(self, o):
        return not self._is(o)
    def __hash__(self):
        return hash(self.real())
    def __call__(self, *a, **k):
        return self.real()(*a, **k)
    def __getattr__(self, name):
        return getattr(self.real(), name)
    def __repr__(self):
        return repr(self.real())
    @property
    def __class__(self):
        return type


def _exact(node, cls):
    # every class a shape may have is a leaf of the class hierarchy: abstract bases are never exact
    return cls not in (ast.AST, ast.expr, ast.stmt, ast.pattern)


# ---- replacements for builtins in the instrumented modules -----------------------

def sx_type(x):
    if type(x) in _LAZYSET:
        return SymType(x)
    if isinstance(x, engine.Sym):
        return x.__class__
    return type(x)


def sx_is(a, b):
    if type(a) is SymType:
        return a._is(b)
    if type(b) is SymType:
        return b._is(a)
    return a is b


def _flat(c, out):
    if isinstance(c, tuple):
        for x in c:
            _flat(x, out)
    elif hasattr(c, "__args__"):   # A | B
        for x in c.__args__:
            _flat(x, out)
    else:
        out.append(c)
    return out


def sx_isinstance(x, classes):
    if type(x) in _LAZYSET:
        cl = _flat(classes, [])
        if all(isinstance(c, type) for c in cl):
            return x.__dict__["_desc"].is_a(tuple(cl))
    return isinstance(x, classes)


# ---- grammar -----------------------------------------------------------------

class Grammar:
    """Which shapes are allowed for each sort at each nesting level (the last entry: all deeper ones).

    `levels` maps a sort to a list (by level) of lists of shapes.
    """
    def __init__(self, levels, focus=False):
        self.focus = focus
        self.levels = {s: [sorted(l, key=lambda sh: sh.cls.__name__) for l in ls] for s, ls in levels.items()}
        self._ranges = {}
        for s, ls in self.levels.items():
            for sh in ls[-1]:
                for h in sh.holes:
                    assert not any(x.holes for x in self.levels[_SORT[h[0]]][-1]), f"unbounded: {sh.text}"

    def shapes(self, sort, level):
        ls = self.levels[sort]
        return ls[min(level, len(ls) - 1)]

    def ranges(self, shapes, classes):
        k = (id(shapes), classes)
        r = self._ranges.get(k)
        if r is None:
            hit = [issubclass(s.cls, classes) for s in shapes]
            if all(hit):
                r = True
            elif not any(hit):
                r = False
            else:
                r = []
                i = 0
                while i < len(hit):
                    if hit[i]:
                        j = i
                        while j + 1 < len(hit) and hit[j + 1]:
                            j += 1
                        r.append((i, j))
                        i = j
                    i += 1
            self._ranges[k] = r
        return r


def same(a, b, attrs=False, _path=None):
    """Structural equality of two trees (or lists, or constants); unresolved identical nodes are equal."""
    return diff(a, b, attrs) is None


def diff(a, b, attrs=False, path="tree"):
    if a is b and not isinstance(a, (ast.AST, list)):
        return None
    if isinstance(a, engine.Sym) or isinstance(b, engine.Sym):
        return None if a == b else path
    if isinstance(a, list) or isinstance(b, list):
        if type(a) is not type(b):
            return f"{path}: {_short(a)} vs. {_short(b)}"
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} vs. {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, attrs, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, ast.AST) or isinstance(b, ast.AST):
        if not (isinstance(a, ast.AST) and isinstance(b, ast.AST)):
            return f"{path}: {_short(a)} vs. {_short(b)}"
        la, lb = is_lazy(a), is_lazy(b)
        if not (la and lb and a.__dict__["_desc"] is b.__dict__["_desc"]):
            if la:
                resolve(a)
            if lb:
                resolve(b)
            if type(a) is not type(b):
                return f"{path}: {type(a).__name__} vs. {type(b).__name__}"
            for f in type(a)._fields:
                x, y = getattr(a, f, _MISSING), getattr(b, f, _MISSING)
                # omitted optional fields read as None; others, e.g. the value of a constant, may not be missing
                d = diff(x, y, attrs, f"{path}.{f}")
                if d:
                    return d
        if attrs:
            for f in LOCS:
                x, y = a.__dict__.get(f, _MISSING), b.__dict__.get(f, _MISSING)
                if x is not y and not (x == y):
                    return f"{path}.{f}: {x} vs. {y}"
        return None
    if type(a) is not type(b):
        return f"{path}: {_short(a)} vs. {_short(b)}"
    if isinstance(a, (tuple, frozenset)):
        if len(a) != len(b):
            return f"{path}: {_short(a)} vs. {_short(b)}"
        if isinstance(a, frozenset):
            return None if a == b else path
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, attrs, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, (float, complex)):
        return None if repr(a) == repr(b) else f"{path}: {a!r} vs. {b!r}"
    return None if a == b else f"{path}: {_short(a)} vs. {_short(b)}"

class _Missing:
    def __repr__(self):
        return "<missing>"
_MISSING = _Missing()


def _short(x):
    try:
        s = repr(x)
    except Exception:
        s = f"<{type(x).__name__}>"
    return s if len(s) < 80 else s[:77] + "..."


def force(tree):
    """Resolve every lazy node in `tree`."""
    if isinstance(tree, list):
        for x in tree:
            force(x)
    elif isinstance(tree, ast.AST):
        resolve(tree)
        for f in type(tree)._fields:
            v = tree.__dict__.get(f)
            if isinstance(v, (ast.AST, list)):
                force(v)
    return tree
