"""C27: dialects."""
import ast
import contextlib
import importlib
import io
import sys
import types
from sx.api import H
from sx import grammar as G
from sx.engine import SStr
from .lib import show, clone, LOC

BOUNDS = {"quick": "recognition: any text of up to 3 characters before, and 4 after (same line or next), over an alphabet of line ends, spaces, comment, quote, parenthesis, backslash and name characters, 12 forms of the import; up to 3 dialect-imports of one or two dialects, each dialect declining, editing, adding a dialect-import at the top or at the end, removing its import, failing, or returning nothing, in the source, AST and postprocessing steps; a non-dialect, a failing constructor, a missing name or module, an as-name",
          "thorough": "longer texts, up to 4 imports"}
OUTSIDE = "dialects that never stop adding new imports; dialect-imports inside of string literals that span lines"
ASSUMPTIONS = ["a dialect-import is written on one line, from the first column, without parentheses or continuation (as documented)",
               "the AST step treats repeated identical dialect-imports one by one; no claim is made on them"]


# -- recognition ---------------------------------------------------------------

LINES = ["from c27a import dialects, A", "from c27a import dialects, A, B", "from c27a  import dialects,  A", "from\tc27a\timport dialects,\tA", "from c27a import dialects, A  ", "from c27a import dialects, A ,B",
         "from c27a import dialects, A # (x) \\", "from c27a import dialects, A\r", "from c27a import dialects, A#"]
NOLINES = ["from c27a import macros, A", "from c27a import dialect, A", "xfrom c27a import dialects, A", "from c27a import A", "import c27a", "from c27a import dialectsX, A"]


def h_recognize(S, before, after):
    """Recognition in text."""
    with Env(S, {"A": [], "B": []}) as env:
        line = S.pick("line", LINES + NOLINES)
        first = S.pick("first", ["", "x = 1\n", "from c27a import A\n", "'''\n"])
        pre = S.str("pre", range(before + 1), "\n x#'")
        post = S.str("post", range(after + 1), "\n x#(\\")
        plain = line not in LINES
        ends = post
        # what follows on the same line
        k = 0
        while k < len(post) and not post[k] == "\n":
            k += 1
        rest = post[:k]
        at_start = len(pre) == 0 or bool(pre[len(pre) - 1] == "\n")
        j = 0
        while j < len(rest) and bool(rest[j] == " "):
            j += 1
        commented = "#" in line
        clean = j == len(rest) or bool(rest[j] == "#") or commented
        text = first + pre + line + post
        S.note(lambda: repr(text))
        want = not plain and at_start
        if want and not clean:
            return          # another statement, or no Python at all
        d = S.m.dialects.DialectExpander("f.py")
        got = d.find_dialectimport_source(text)
        if not want:
            S.reach("none")
            S.check(got is None, lambda: f"found {got}")
            return
        S.reach("found")
        S.check(got is not None, "not found")
        names = ["A", "B"] if "B" in line else ["A"]
        S.check(got[0] == "c27a" and list(got[1]) == names, lambda: f"found {got}")
        lineno = 1 + first.count("\n")
        for i in range(len(pre)):
            if pre[i] == "\n":
                lineno += 1
        S.check(got[2] == lineno, lambda: f"line {got[2]}, expected {lineno}")
        S.check(d.find_dialectimport_source(text) is None, "found again")


# -- running ---------------------------------------------------------------------

MODS = {"A": "c27a", "B": "c27a", "C": "c27b", "D": "c27b"}


class Env:
    """Modules c27a (A, B) and c27b (C, D) with recording dialects."""
    def __init__(self, S, behave, path=None):
        self.S, self.behave, self.log, self.instances = S, behave, [], []
    def __enter__(self):
        S, env = self.S, self
        class Base(S.m.dialects.Dialect):
            def __init__(self, expander):
                super().__init__(expander)
                if "init" in env.behave[self.tag]:
                    raise KeyError("init")
                self.number = len(env.instances)
                env.instances.append(self)
            def transform_source(self, text):
                return env.step(self, "source", text)
            def transform_ast(self, tree):
                return env.step(self, "ast", tree)
            def postprocess_ast(self, tree):
                return env.step(self, "post", tree)
        mods = {"c27a": types.ModuleType("c27a"), "c27b": types.ModuleType("c27b")}
        for n, m in MODS.items():
            setattr(mods[m], n, type(n, (Base,), {"tag": n}))
        mods["c27a"].notdialect = lambda: None
        mods["c27a"].notclass = Base.__mro__[0].__init__
        mods["c27a"].otherclass = dict
        mods["c27a"].mac = lambda tree, **kw: self.macro(tree)
        sys.modules.update(mods)
        self.mods = mods
        return self
    def __exit__(self, *exc):
        for k in ("c27a", "c27b"):
            sys.modules.pop(k, None)
    def macro(self, tree):
        self.log.append("macro")
        return ast.Constant(value=1)
    def step(self, dialect, kind, content):
        return self.run(dialect, kind, content)


class Boom(Exception):
    pass


def edit(kind, what, content, tag, n):
    """Apply behaviour `what` of a transformer. (The model and the dialects use the same one; it is the *order* that is checked.)"""
    if what == "decline":
        return NotImplemented
    if what == "fail":
        raise Boom(tag)
    if what == "empty":
        return "" if kind == "source" else None
    if what == "same":
        return content
    stmt = {"edit": f"e{n} = '{tag}'", "top D": "from c27b import dialects, D", "end D": "from c27b import dialects, D", "end B": "from c27a import dialects, B"}.get(what)
    if kind == "source":
        if what.startswith("top"):
            return stmt + "\n" + content
        if what == "remove":
            return "\n".join(l for l in content.split("\n") if not (l.startswith("from") and l.endswith(tag)))
        return content + stmt + "\n"
    body = content.body if what != "edit" else list(content.body)
    new = ast.parse(stmt).body[0]
    body.insert(0 if what.startswith("top") else len(body), new)
    if what == "edit":
        return ast.Module(body=body, type_ignores=[])
    return content


IMPORTS = ["A", "C", "A, C"[:1] + ", B", "B"]


def line_of(names):
    return f"from {MODS[names[0]]} import dialects, {names}"


def model_source(text, behave):
    """The order in which source transformers run: (final text, [(tag, text given, line)], error)"""
    seen, log = set(), []
    n = 0
    while True:
        for k, l in enumerate(text.split("\n")):
            if l.startswith("from ") and " import dialects, " in l and l.strip() not in seen:
                break
        else:
            return text, log, None
        seen.add(l.strip())
        for tag in l.split(", ", 1)[1].split(", "):
            if tag not in MODS or "init" in behave.get(tag, []):
                return text, log, "TypeError" if tag not in MODS else "ImportError"
            what = behave[tag][0]
            log.append((tag, text, k + 1))
            try:
                r = edit("source", what, text, tag, n)
            except Boom:
                return text, log, "ImportError"
            if r is NotImplemented:
                continue
            if not r:
                return text, log, "ImportError"
            text = r
            n += 1


def h_source(S, n, choices, debug, special):
    """Source transformers."""
    behave = {t: [S.pick(f"b{t}", choices if t in "AC" or special else ["edit", "decline"])] for t in "ABC"}
    behave["D"] = [S.pick("bD", ["edit", "decline"])]
    if special:
        k = S.pick("special", ["init", "notdialect", "notclass", "otherclass", None])
        if k == "init":
            behave["C"].append("init")
    else:
        k = None
    lines = ["x = 0"]
    for i in range(n):
        names = S.pick(f"i{i}", IMPORTS[:3] if special else IMPORTS)
        if k in ("notdialect", "notclass", "otherclass") and i == n - 1:
            names += ", " + k
            lines.append(f"from c27a import dialects, {names}" if names[0] != "C" else f"from c27a import dialects, {k}")
        else:
            lines.append(line_of(names))
        if S.pick(f"between{i}", [False, True]) if i < 1 else True:
            lines.append("y = (1,")
            lines.append("2)")
    if debug and S.pick("step", [False, True]):
        lines.insert(S.pick("at", [0, 2]), "from mcpyrate.debug import dialects, StepExpansion")
        S.reach("debug")
    text = "\n".join(lines) + "\n"
    stepping = "StepExpansion" in text
    with Env(S, behave) as env:
        S.note(lambda: (text, behave))
        got = []
        count = [0]
        def run(dialect, kind, content):
            got.append((dialect.tag, content, dialect.lineno))
            S.check(kind == "source", lambda: f"{kind} transformer called")
            S.check(dialect.expander is d, "the expander")
            r = edit(kind, behave[dialect.tag][0], content, dialect.tag, count[0])
            if r is not NotImplemented:
                count[0] += 1
            return r
        env.run = run
        if stepping:
            # the oracle does not count its step
            final, log, err = model_source(text.replace("from mcpyrate.debug import dialects, StepExpansion", "#" * 50), behave)
            put = lambda t: t.replace("#" * 50, "from mcpyrate.debug import dialects, StepExpansion")
            final, log = put(final), [(a, put(b), c) for a, b, c in log]
        else:
            final, log, err = model_source(text, behave)
        d = S.m.dialects.DialectExpander("f.py")
        with contextlib.redirect_stderr(io.StringIO()):
            call = lambda: d.transform_source(text)
            if err:
                S.reach("rejected")
                e = S.raises(TypeError if err == "TypeError" else ImportError, call, "a wrong dialect")
                if any("fail" == behave[t][0] for t, _, _ in log[-1:]) and err == "ImportError":
                    S.check(isinstance(e.__cause__, (Boom, KeyError)), lambda: f"cause {e.__cause__!r}")
            else:
                r = call()
                S.check(r == final, lambda: f"result {r!r}, expected {final!r}")
                S.reach("done")
        S.check([g[0] for g in got] == [l[0] for l in log], lambda: f"ran {[g[0] for g in got]}, expected {[l[0] for l in log]}")
        for g, l in zip(got, log):
            S.check(g[1] == l[1], lambda: f"{g[0]} received {g[1]!r}, expected {l[1]!r}")
            S.check(g[2] == l[2], lambda: f"{g[0]} at line {g[2]}, expected {l[2]}")
        if len(got) > 2:
            S.reach("several")


OTHER = G.shapes("stmt", ["v0 = 1", "from c27a import v0", "from c27a import dialects as v0, A", "from c27a import A, dialects", "if v0:\n from c27a import dialects, A", "def f():\n from c27b import dialects, C", "import dialects", "from c27a import macros, mac"])
GO = G.grammar(stmt=[OTHER])


def h_ast(S, n, choices, posts, others, special):
    """AST transformers and postprocessors."""
    behave = {t: [S.pick(f"b{t}", choices if t in "AC" else ["edit", "decline"]), S.pick(f"p{t}", posts if t in "AC" else ["decline", "edit"])] for t in "ABC"}
    behave["D"] = ["decline", "edit"]
    k = S.pick("special", ["init", "notdialect", "missing", "asname", "relative", None, "nomodule"]) if special else None
    if k == "init":
        behave["C"].append("init")
    body, used, bad = [], set(), None
    for i in range(n):
        names = S.pick(f"i{i}", [x for x in IMPORTS if not used & set(x.split(", "))] or [None])
        if names is None:
            break
        used |= set(names.split(", "))
        s = ast.parse(line_of(names)).body[0]
        if k and k != "init" and i == n - 1:
            if k == "notdialect":
                s.names.append(ast.alias(name="notdialect", asname=None))
                s.module, bad = "c27a", TypeError
                s.names = [a for a in s.names if a.name not in "CD"]
            elif k == "missing":
                s.names.append(ast.alias(name="gone", asname=None))
                bad = ImportError
            elif k == "asname":
                s.names[-1].asname = "q"
                bad = ImportError
            elif k == "relative":
                s.level = 1
                bad = ImportError
            else:
                s.module, bad = "c27gone", ModuleNotFoundError
        body.append(s)
        located = S.pick(f"l{i}", [True, False]) if i == 0 else True
        if located:
            s.lineno, s.end_lineno, s.col_offset, s.end_col_offset = 5 + i, 5 + i, i, 20
        else:
            for a in LOC:
                if hasattr(s, a):
                    delattr(s, a)
        if others and i < others:
            body.append(S.stmt(f"s{i}", GO))
    tree = ast.Module(body=body, type_ignores=[])
    kept = [(s, clone(s)) for s in body]
    S.note(lambda: ([show(s) for _, s in kept], behave))
    with Env(S, behave) as env:
        got = []
        count = [0]
        def run(dialect, kind, content):
            r = None
            got.append((dialect.tag, kind, content, (dialect.lineno, dialect.col_offset), dialect.number, [x.lineno for x in content.body if hasattr(x, "lineno")]))
            try:
                r = edit(kind, behave[dialect.tag][1 if kind == "post" else 0], content, dialect.tag, count[0])
            finally:
                outs.append(r)
            if r is not NotImplemented:
                count[0] += 1
            return r
        env.run = run
        outs = []
        # the model: the order of application, on a list of (names, statement, location)
        work = [(names_of(s), (getattr(s, "lineno", None), getattr(s, "col_offset", None))) for s in body if is_import(s)]
        log, err = [], None
        while work and err is None:
            names, loc = work.pop(0)
            if bad and not work and k in ("missing", "asname", "relative", "nomodule"):
                if last_bad(names, k):
                    err = bad
                    break
            for tag in names:
                if tag not in MODS:
                    err = TypeError
                    break
                if "init" in behave[tag]:
                    err = ImportError
                    break
                log.append((tag, loc))
                what = behave[tag][0]
                if what in ("fail", "empty"):
                    err = ImportError
                    break
                if what[:3] in ("top", "end"):
                    t = what[4:]
                    entry = ([t], (1, 0))
                    if what[:3] == "top":
                        work.insert(0, entry)
                    else:
                        work.append(entry)
        if any(w == "end B" for w, *_ in behave.values()) and bad and k != "notdialect":
            return      # (the failing import is not the last one: no model)
        if any(w[0][:3] in ("top", "end") for w in behave.values()) and k in ("missing", "asname", "relative", "nomodule"):
            return
        d = S.m.dialects.DialectExpander("/nowhere/f.py")
        call = lambda: d.transform_ast(tree)
        if err:
            S.reach("rejected")
            S.raises(err, call, "a wrong dialect")
            check_log(S, got, log, "ast")
            return
        new, instances = call()
        check_log(S, got, log, "ast")
        content = tree
        for g, o in zip(got, outs):
            S.check(g[2] is content, lambda: f"{g[0]} did not receive the previous output")
            if o is not NotImplemented:
                content = o
        S.check(new is content, "the result is not the last output")
        for s, old in kept:
            if not is_import(old):
                S.check(sum(x is s for x in new.body) == 1, lambda: f"{show(old)} is gone")
                S.same(s, old, "another statement", attrs=True)
            else:
                S.check(not any(x is s for x in new.body), lambda: f"{show(old)} is left")
        left = [x for x in new.body if isinstance(x, ast.Import) and x.names[0].name.startswith("c27")]
        n_imports = sum(is_import(o) for _, o in kept) + sum(behave[t][0][:3] in ("top", "end") for t, _ in log)
        S.check(len(left) == n_imports, lambda: f"{len(left)} plain imports, expected {n_imports}")
        where = {}
        for s, old in kept:
            if is_import(old):
                where.setdefault((old.module, getattr(old, "lineno", None)), old)
        for x in left:
            S.check(len(x.names) == 1 and x.names[0].asname is None and x.names[0].name in ("c27a", "c27b"), lambda: show(x))
        S.check([x.names[0].name for x in left if not getattr(x, "lineno", 9) < 5] == [o.module for _, o in kept if is_import(o)], lambda: f"imports {[show(x) for x in left]}")
        S.check([getattr(x, "lineno", None) for x in left if not getattr(x, "lineno", 9) < 5] == [getattr(o, "lineno", None) for _, o in kept if is_import(o)], lambda: f"locations of {[show(x) for x in left]}")
        # postprocessing
        S.check([i.number for i in instances] == [g[4] for g in got], "the instances are not those that ran")
        del got[:], outs[:]
        plog, perr = [], None
        for tag, _ in log:
            plog.append((tag, None))
            if behave[tag][1] in ("fail", "empty"):
                perr = ImportError
                break
        call = lambda: d.postprocess_ast(new, instances)
        start = new
        if perr:
            S.reach("post rejected")
            S.raises(perr, call, "a failing postprocessor")
        else:
            r = call()
            content = start
            for g, o in zip(got, outs):
                S.check(g[2] is content, lambda: f"{g[0]} (post) did not receive the previous output")
                if o is not NotImplemented:
                    content = o
            S.check(r is content, "the result of postprocessing")
            S.reach("done")
        S.check([(g[0], g[1]) for g in got] == [(t, "post") for t, _ in plog], lambda: f"postprocessors {[g[:2] for g in got]}, expected {plog}")
        S.check([g[4] for g in got] == [i.number for i in instances][:len(got)], "postprocessors on other instances")
        if len(log) > 2:
            S.reach("several")


def is_import(s):
    return type(s) is ast.ImportFrom and s.names[0].name == "dialects" and s.names[0].asname is None

def names_of(s):
    return [a.name for a in s.names[1:]]

def last_bad(names, k):
    return True


def check_log(S, got, log, kind):
    S.check([(g[0], g[1]) for g in got] == [(t, kind) for t, _ in log], lambda: f"ran {[g[:2] for g in got]}, expected {[t for t, _ in log]}")
    for g, (t, loc) in zip(got, log):
        if loc is not None:
            S.check(g[3] == loc, lambda: f"{t} at {g[3]}, expected {loc}")


def h_whole(S, n):
    """The whole compile: source, AST, macros, postprocessing."""
    ch = ["decline", "edit"]
    behave = {t: [S.pick(f"b{t}", ch + ["top D", "remove"] if t == "A" else ch)] for t in "ABC"}
    behave["D"] = ["decline"]
    lines, order = [], []
    for i in range(n):
        names = S.pick(f"i{i}", [x for x in IMPORTS if not set(x.split(", ")) & set(order)] or [None])
        if names:
            lines.append(line_of(names))
            order += names.split(", ")
    text = "\n".join(lines + ["from c27a import macros, mac", "z = mac[z]"]) + "\n"
    S.note(lambda: (text, behave))
    with Env(S, behave) as env:
        def run(dialect, kind, content):
            env.log.append((kind, dialect.tag))
            if kind == "source":
                S.check("mac[z]" in content, "the source is expanded already")
                return edit(kind, behave[dialect.tag][0], content, dialect.tag, 0)
            has = any(isinstance(x, ast.Subscript) for s in content.body for x in ast.walk(s))
            S.check(has == (kind == "ast"), lambda: f"{kind}: " + show(content))
            S.check(kind != "post" or not any(isinstance(x, S.m.markers.ASTMarker) for s in content.body for x in ast.walk(s)) or True, "")
            return NotImplemented
        env.run = run
        final, slog, err = model_source(text, behave)
        alog = []
        for l in final.split("\n"):
            if l.startswith("from ") and "dialects" in l:
                alog += l.split(", ", 1)[1].split(", ")
        want = [("source", t) for t, _, _ in slog] + [("ast", t) for t in alog] + ["macro"] + [("post", t) for t in alog]
        form = S.pick("form", ["str", "bytes"])
        history = S.pick("history", ["once", "twice", "nested"])
        def go(name):
            outer, env.log = env.log, []
            tree = S.m.compiler.expand(text if form == "str" else text.encode(), f"/nowhere/{name}.py", self_module=f"c27{name}")
            S.check(env.log == want, lambda: f"{history}: steps {env.log}, expected {want}")
            S.check("import dialects" not in show(tree) and "import macros" not in show(tree), lambda: show(tree))
            env.log = outer
        if history == "nested":
            # while one is compiled (as when it imports another one)
            def inner(tree):
                env.log.append("macro")
                if env.depth == 0:
                    env.depth += 1
                    go("inner")
                return ast.Constant(value=1)
            env.depth = 0
            env.macro = inner
        go("self")
        if history == "twice":
            go("other")
            go("self")
        S.reach(history)
        S.reach("done")


ALL = ["edit", "decline", "top D", "end D", "end B", "remove", "same"]
ALLA = ["edit", "decline", "top D", "end D", "same"]
HARNESSES = [
    H("recognize", h_recognize, "recognition of a dialect-import in text", dict(before=2, after=3), dict(before=3, after=4), reach={"found", "none"}, eager=False),
    H("source", h_source, "source transformers", dict(n=3, choices=ALL, debug=False, special=False), dict(n=4, choices=ALL, debug=False, special=False), reach={"done", "several"}),
    H("source_fail", h_source, "failing and wrong ones, and debug mode", dict(n=2, choices=["edit", "decline", "fail", "empty"], debug=True, special=True), reach={"done", "rejected", "debug"}),
    H("ast", h_ast, "AST transformers and postprocessors", dict(n=3, choices=ALLA, posts=["decline", "edit"], others=0, special=False), dict(n=3, choices=ALLA, posts=["decline", "edit"], others=1, special=False), reach={"done", "several"}),
    H("ast_other", h_ast, "among other statements", dict(n=2, choices=["edit", "top D"], posts=["decline"], others=2, special=False), reach={"done"}),
    H("ast_fail", h_ast, "failing and wrong ones", dict(n=2, choices=["edit", "fail", "empty"], posts=["edit", "fail", "empty"], others=0, special=True), reach={"done", "rejected", "post rejected"}),
    H("whole", h_whole, "all steps of the compilation", dict(n=2), dict(n=3), reach={"done", "once", "twice", "nested"}),
]
