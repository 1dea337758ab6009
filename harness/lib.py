"""Helpers shared by the harnesses: independent tree functions for the oracles."""
import ast

LOC = ("lineno", "col_offset", "end_lineno", "end_col_offset")


def fields(node):
    """(name, value) of each field present, for real nodes and markers."""
    for f in node._fields:
        if f in node.__dict__:
            yield f, node.__dict__[f]


def positions(tree, out=None):
    """(parent, field, index or None, node) for each AST child, in AST order (preorder). The root is not included."""
    if out is None:
        out = []
    if isinstance(tree, list):
        for i, x in enumerate(tree):
            if isinstance(x, ast.AST):
                out.append((tree, None, i, x))
                positions(x, out)
        return out
    for f, v in fields(tree):
        if isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, ast.AST):
                    out.append((tree, f, i, x))
                    positions(x, out)
        elif isinstance(v, ast.AST):
            out.append((tree, f, None, v))
            positions(v, out)
    return out


def put(pos, new):
    parent, f, i, _ = pos
    if f is None:
        parent[i] = new
    elif i is None:
        setattr(parent, f, new)
    else:
        getattr(parent, f)[i] = new


def preorder(tree):
    """All nodes in AST order, the root(s) first."""
    if isinstance(tree, list):
        return [p[3] for p in positions(tree)]
    return [tree] + [p[3] for p in positions(tree)]


def clone(x):
    """Independent deep copy (keeps symbolic values; fresh node for each occurrence)."""
    if isinstance(x, list):
        return [clone(y) for y in x]
    if isinstance(x, ast.AST):
        x._fields       # (resolves)
        cls = type(x)
        n = cls.__new__(cls)
        for k, v in x.__dict__.items():
            if k == "_fields":
                v = list(v)
            elif not isinstance(v, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
                v = clone(v)
            n.__dict__[k] = v
        return n
    return x


def rebuild(x, f):
    """Deep copy, where `f(node)` may return ("is", replacement) to replace a node: a node, or a list to splice."""
    if isinstance(x, list):
        out = []
        for y in x:
            r = rebuild(y, f)
            if isinstance(r, list) and not isinstance(y, list):
                out.extend(r)
            else:
                out.append(r)
        return out
    if isinstance(x, ast.AST):
        r = f(x)
        if r is not None:
            return r[1]
        x._fields
        cls = type(x)
        n = cls.__new__(cls)
        for k, v in x.__dict__.items():
            if k == "_fields":
                n.__dict__[k] = list(v)
            elif isinstance(v, (list, ast.AST)) and not isinstance(v, ast.expr_context):
                n.__dict__[k] = rebuild(v, f)
            else:
                n.__dict__[k] = v
        return n
    return x


def show(tree):
    try:
        if isinstance(tree, list):
            return "\n".join(ast.unparse(x) for x in tree)
        return ast.unparse(tree)
    except Exception:
        try:
            return ast.dump(tree)
        except Exception:
            return repr(tree)


def locate_all(tree, line=1):
    for i, n in enumerate(preorder(tree)):
        if "lineno" in getattr(n, "_attributes", ()):
            n.lineno = n.end_lineno = line + i
            n.col_offset = n.end_col_offset = i
    return tree


COUNTED = ["def", "lambda", "call", "class", "dict", "display", "subscript", "compare", "bool", "comp", "import", "from", "with", "try", "mapping", "classpat", "seq", "if", "decorators", "assign", "typeparams", "fstring", "starred"]


def counted(S, most=2, kinds=COUNTED):
    """The source text of a statement in which the lengths of lists, and the kinds of their items, are any."""
    kind = S.pick("kind", kinds)
    no = [0]
    def x():
        no[0] += 1
        return f"x{no[0]}"
    def items(name, choices, lo=0, hi=None):
        hi = most if hi is None else hi
        n = S.pick(f"n {name}", list(range(lo, hi + 1)))
        return [S.pick(f"{name} {i}", choices) for i in range(n)]
    def fill(t):
        while "@" in t:
            t = t.replace("@", x(), 1)
        return t
    def flag(name):
        return S.pick(name, [False, True])
    if kind in ("def", "lambda"):
        ann = kind == "def" and flag("annotated")
        a = (lambda: f"{x()}: {x()}") if ann else x
        np, na = S.pick("posonly", list(range(most + 1))), S.pick("args", list(range(most + 1)))
        nd = S.pick("defaults", list(range(np + na + 1)))
        pos = [a() for _ in range(np + na)]
        pos = [p if i < np + na - nd else f"{p}={x()}" for i, p in enumerate(pos)]
        parts = pos[:np] + (["/"] if np else []) + pos[np:]
        vararg = flag("vararg")
        kwonly = [f"{a()}={x()}" if d else a() for d in items("kwonly", [False, True])]
        parts += [f"*{a()}"] if vararg else ["*"] if kwonly else []
        parts += kwonly + ([f"**{a()}"] if flag("kwarg") else [])
        text = ", ".join(parts)
        if kind == "lambda":
            text = f"f(lambda {text}: {x()})"
        else:
            text = f"def f({text})" + (f" -> {x()}" if ann else "") + ":\n    pass"
            if ann and flag("async"):
                text = "async " + text
    elif kind == "call":
        text = fill(f"f({', '.join(items('item', ['@', '*@', '@=@', '**@'], 0, most + 1))})")
    elif kind == "class":
        bases = items("base", ["@", "*@", "@=@", "**@"])
        text = fill(f"class C({', '.join(bases)}): pass" if bases else "class C: pass")
    elif kind == "dict":
        text = fill("{" + ", ".join(items("item", ["@: @", "**@"], 0, most + 1)) + "}")
    elif kind == "display":
        o, c = S.pick("brackets", ["()", "[]", "{}"])
        i = items("item", ["@", "*@"], 1, most + 1)
        text = fill(o + ", ".join(i) + ("," if o == "(" else "") + c)
    elif kind == "subscript":
        i = items("item", ["@", "*@", ":", "@:", ":@", "@:@", "::@", "@:@:@", "(@, @)"], 1, most)
        text = fill(f"f[{', '.join(i)}{',' if flag('comma') else ''}]")
    elif kind == "compare":
        text = fill("@ " + " ".join(f"{op} @" for op in items("op", ["<", "==", "in", "is not"], 1, most + 1)))
    elif kind == "bool":
        def tree(name, d):
            if d == 0:
                return x()
            op = S.pick(f"{name} op", [None, "and", "or", "not", "if", "+", "<"])
            if op is None:
                return x()
            if op == "not":
                return f"(not {tree(name + 'a', d - 1)})"
            if op == "if":
                return f"({tree(name + 'a', d - 1)} if {x()} else {x()})"
            return f"({tree(name + 'a', d - 1)} {op} {tree(name + 'b', d - 1)})"
        text = tree("", 2)
    elif kind == "comp":
        form = S.pick("form", ["[@ {}]", "{{@ {}}}", "{{@: @ {}}}", "(@ {})", "f(@ {})"])
        gens = []
        for i in range(S.pick("generators", list(range(1, most + 1)))):
            gens.append(("async " if flag(f"async {i}") else "") + S.pick(f"target {i}", ["for @ in @", "for @, *@ in @"]) + " if @" * S.pick(f"ifs {i}", list(range(most + 1))))
        text = fill(form.format(" ".join(gens)))
    elif kind == "import":
        text = fill("import " + ", ".join(items("alias", ["@", "@.@", "@ as @", "@.@.@ as @"], 1, most + 1)))
    elif kind == "from":
        level = S.pick("level", list(range(most + 2)))
        module = S.pick("module", ["", "@", "@.@"] if level else ["@", "@.@"])
        text = fill(f"from {'.' * level}{module} import " + ", ".join(["*"] if flag("star") else items("alias", ["@", "@ as @"], 1, most + 1)))
    elif kind == "with":
        i = items("item", ["@", "@ as @", "@ as (@, *@)", "@ as @.a", "@ as @[@]", "(@, @)", "(@, @) as @", "(yield)"], 1, most)
        text = fill(("async " if flag("async") else "") + (f"with ({', '.join(i)}): pass" if flag("parentheses") else f"with {', '.join(i)}: pass"))
    elif kind == "try":
        star = flag("star")
        h = items("handler", ["", " @", " @ as @", " (@, @) as @"] if not star else [" @", " @ as @"], 0, most + 1)
        text = "try:\n    pass\n" + "".join(f"except{'*' * star}{t}:\n    @\n" for t in h) + ("else:\n    @\n" if flag("else") else "") + ("finally:\n    @\n" if flag("finally") else "")
        text = fill(text)
    elif kind in ("mapping", "classpat", "seq"):
        if kind == "mapping":
            i = items("item", ["1: @", "@.a: [@]", "-1j: _", "None: (@ as @)"]) + (["**@"] if flag("rest") else [])
            p = "{" + ", ".join(i) + "}"
        elif kind == "classpat":
            p = S.pick("class", ["@", "@.@"]) + "(" + ", ".join(items("item", ["@", "_", "@()", "1 | 2"]) + items("keyword", ["@=@", "@=_", "@=[*_]"])) + ")"
        else:
            i = items("item", ["@", "_", "*@", "*_", "1", "@ as @"], 0, most + 1)
            p = ("[{}]" if flag("list") else "({}{})").format(", ".join(i), "," if i else "")
        text = fill("match @:\n    case " + S.pick("around", ["{}", "{} as @", "{} | None", "[{}]", "{} if @"]).format(p) + ":\n        pass\n    case @ if @: pass")
    elif kind == "if":
        n = S.pick("elif", list(range(most + 2)))
        text = "if @:\n    @\n" + "elif @:\n    @\n" * n
        text += S.pick("else", ["", "else:\n    @\n", "else:\n    if @:\n        @\n    @\n", "else:\n    @\n    if @:\n        @\n    else:\n        @\n", "else:\n    if @:\n        @\n    else:\n        @\n"])
        text = fill(text)
    elif kind == "decorators":
        text = fill("".join(f"@{d}\n".replace("@", "\0") for d in items("decorator", ["#", "#.a", "#(#)", "#[#]", "(# := #)", "#, #"])).replace("#", "@"))
        text = text.replace("\0", "@") + S.pick("of", ["def f(): pass", "async def f(): pass", "class C: pass", "class C(f): pass"])
    elif kind == "assign":
        text = fill(" = ".join(items("target", ["@", "(@, @)", "[@]", "*@, @", "@.a", "@[@]", "()"], 1, most + 1)) + " = " + S.pick("value", ["@", "*@, @", "(yield)", "@, @", "(yield @, @)", "lambda: (@, @)", "(@ := @)"]))
    elif kind == "typeparams":
        t = items("param", ["@", "@: @", "@: (@, @)", "*@", "**@"])
        t = f"[{', '.join(t)}]" if t else ""
        text = fill(S.pick("of", ["def f#(): pass", "async def f#(): pass", "class C#: pass", "class C#(@): pass", "type @# = @"]).replace("#", t))
    elif kind == "fstring":
        text = fill("f'" + "".join(items("part", ["a", "{{", "{@}", "{@!r}", "{@:b}", "{@:}", "{@=}", "{@!s:{@}}", "{@:{@}c{@!a}}", "{ {@} }", "{'x'}", "\\n"], 0, most + 1)) + "'")
    else:
        i = ", ".join(items("item", ["@", "*@", "(@, @)", "lambda: @", "@ if @ else @"], 1, most))
        text = fill(S.pick("form", ["return {},", "yield_ = yield {},", "for @ in {},: pass", "for @, *@ in @: pass", "@ += {},", "@: @ = {},", "del {},", "(yield {},)", "f((yield {},))", "f[{},]", "raise @", "assert @, ({},)", "async for @ in {},: pass", "@ = [{},]", "match {},:\n    case _: pass"]).format(i))
        text = text.replace("yield_ = ", "x0 = ")
    S.note(text)
    try:
        tree = ast.parse(text).body
    except SyntaxError:
        S.assume(False)
    return kind, tree
