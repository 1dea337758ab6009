"""C29: create_module, temporary_module, run."""
import __future__  # noqa: F401, loaded beforehand
import ast
import builtins
import encodings.latin_1  # noqa: F401
import sys
import types
import warnings
from sx.api import H
from sx.engine import SStr

PKG, SUB = "c29p", "c29m"
BOUNDS = {"quick": "names of up to 5 characters of 'a', '.', '1', a letter beyond ASCII and a space, below a package or not; 9 other kinds of names, 6 kinds of file names, 10 states of the parent package and of a module of that name; in temporary modules, 2 steps out of 11 kinds that change the module table, the module or its package, or fail; code of 3 statements of 11 kinds, with 7 kinds of beginnings, in 11 forms, at 4 optimization levels, run twice, in 14 kinds of modules",
          "thorough": "names of up to 6 characters, 3 steps, 4 statements"}
OUTSIDE = "dialects, multi-phase compilation and macro-imports as such (C21, C26, C27); code that sets its own docstring"
ASSUMPTIONS = ["false values (an empty name) count as no name or file name given", "what is put under the module's name later, by somebody else, may be removed with it or stay; the same if the package itself is removed from the module table meanwhile"]


class Refused(Exception):
    pass

class Locked(types.ModuleType):
    def __setattr__(self, k, v):
        raise Refused(k)

class FalsyModule(types.ModuleType):
    def __len__(self):
        return 0


PARENTS = ["package", "absent", "blocked", "has it", "has a value", "false", "locked", "in a package", "registered only", "other name"]


def world(S, state, name):
    """Set up the parent of `name`: return (the package, its dictionary)."""
    parent, _, last = name.rpartition(".")
    if not parent:
        if state in ("has it", "registered only"):
            sys.modules[name] = types.ModuleType(name)
        elif state == "blocked":
            sys.modules[name] = None
        return None, None
    if state == "absent":
        return None, None
    if state == "blocked":
        sys.modules[parent] = None
        return None, None
    p = {"false": FalsyModule, "locked": Locked}.get(state, types.ModuleType)(parent)
    sys.modules[parent] = p
    if state in ("has it", "registered only"):
        old = sys.modules[name] = types.ModuleType(name)
        if state == "has it":
            setattr(p, last, old)
    elif state == "has a value":
        setattr(p, last, 5)
    elif state == "other name":
        p.__name__ = "c29_other"
        p.__package__ = "c29_another"
        return p, dict(p.__dict__)
    elif state == "in a package":
        sys.modules.setdefault(parent.rpartition(".")[0] or PKG + "x", types.ModuleType("x"))
    return p, dict(p.__dict__)


def table():
    return dict(sys.modules)


def changed(before):
    """How has the module table changed?"""
    now = dict(sys.modules)
    return {k: now.get(k, "gone") for k in {*before, *now} if k not in now or k not in before or now[k] is not before[k]}


def restore(saved):
    for k in list(sys.modules):
        if k not in saved:
            del sys.modules[k]
    sys.modules.update(saved)


NAMES = [("none", None), ("empty", ""), ("int", 5), ("bytes", b"a"), ("tuple", ("a",)), ("false", 0), ("keyword", "c29p.if"), ("main", "__main_c29"), ("deep", "c29p.q.r.a")]
FILES = [None, "", "/x/a.py", "some text", 5, b"f"]


def a_name(S, lengths):
    how = S.pick("name", ["text", "below"] + [n for n, _ in NAMES])
    if how in ("text", "below"):
        s = S.str("text", lengths, "a.1\u00e9 ")
        if isinstance(s, SStr):
            s = s.concrete()
        s = "c29_" + s if how == "text" else PKG + "." + s
        return s
    return dict(NAMES)[how]


def is_name(name):
    return all(c and not c[0].isdigit() and all(x.isalnum() or x == "_" for x in c) for c in name.split("."))


def h_create(S, lengths):
    m = S.m.compiler
    saved = table()
    try:
        name = a_name(S, lengths)
        text = isinstance(name, str) and name
        file = S.pick("file", FILES) if not text or len(name) < 8 else FILES[2]
        state = S.pick("parent", PARENTS) if text and is_name(name) else "package"
        update = S.pick("update_parent", [True, False, None])
        pkg, pdict = world(S, state, name if text else PKG + ".a")
        S.note(lambda: (name, file, state, update))
        kw = {} if update is None else {"update_parent": update}
        before = table()
        positional = S.pick("call", [True, False]) if file is None else True
        go = (lambda: m.create_module(name, file, **kw)) if positional else (lambda: m.create_module(filename=file, dotted_name=name, **kw))
        parent, last = (name.rpartition(".")[0::2]) if text else ("", "")
        if name and not isinstance(name, str) or text and not is_name(name) or file and not isinstance(file, str):
            S.raises(TypeError, go, "invalid name")
            S.reach("invalid")
            failed = True
        elif parent and (state in ("absent", "blocked")):
            S.raises(ModuleNotFoundError, go, "no parent")
            S.reach("no parent")
            failed = True
        elif parent and state == "locked" and update is not False:
            S.raises(Refused, go, "parent refuses")
            S.reach("refused")
            failed = True
        else:
            failed = False
            mod = go()
        if failed:
            S.check(not changed(before), lambda: f"the module table changed: {changed(before)}")
            S.check(pdict is None or dict(pkg.__dict__) == pdict, "the package changed")
            return
        S.check(type(mod) is types.ModuleType, "no module")
        if text:
            S.check(mod.__name__ == name, lambda: f"name {mod.__name__!r}")
        else:
            S.check(isinstance(mod.__name__, str) and is_name(mod.__name__) and "." not in mod.__name__ and mod.__name__ not in before, lambda: f"name {mod.__name__!r}")
            S.reach("anonymous")
        S.check(changed(before) == {mod.__name__: mod}, lambda: f"the module table changed: {changed(before)}")
        if file:
            S.check(mod.__file__ == file, lambda: f"file name {mod.__file__!r}")
        else:
            S.check(isinstance(mod.__file__, str) and mod.__file__ and not mod.__file__.endswith(".py") and (not text or name in mod.__file__), lambda: f"file name {mod.__file__!r}")
        S.check(mod.__package__ == (parent or None), lambda: f"package {mod.__package__!r}")
        S.check(mod.__doc__ is None and mod.__loader__ is None and mod.__spec__ is None, "other attributes")
        S.check(set(mod.__dict__) == {"__name__", "__doc__", "__package__", "__loader__", "__spec__", "__file__"}, lambda: f"attributes {set(mod.__dict__)}")
        if parent:
            want = {**pdict, last: mod} if update is not False else pdict
            S.check(dict(pkg.__dict__) == want and (last not in want or pkg.__dict__[last] is want[last]), lambda: f"the package has {set(pkg.__dict__)}, expected {set(want)}")
            S.reach("attached" if update is not False else "not attached")
        elif pkg is not None:
            S.check(dict(pkg.__dict__) == pdict, "the package changed")
        other = m.create_module(None if not text else name, None, **kw)
        S.check(other is not mod and sys.modules.get(other.__name__) is other, "a second module")
        if not text:
            S.check(other.__name__ != mod.__name__ and sys.modules.get(mod.__name__) is mod, "a second module of the same name")
            S.check(other.__file__ != mod.__file__, "the same file name")
    finally:
        restore(saved)


STEPS = ["nothing", "unregister", "replace", "detach", "reattach", "remove package", "inner", "inner same", "submodule", "run", "fail", "exit"]
class Boom(Exception):
    pass


TOP = PKG


def h_temporary(S, steps, names):
    m = S.m.compiler
    saved = table()
    try:
        name = S.pick("name", names)
        PKG = name.rpartition(".")[0] if name and "." in name else TOP
        state = S.pick("parent", ["package", "has it", "has a value", "false", "registered only"]) if name else "package"
        update = S.pick("update_parent", [None, True, False])
        todo = []
        for i in range(steps):
            s = S.pick(f"step{i}", STEPS)
            todo.append(s)
            if s in ("fail", "exit"):
                break
            if s == "nothing":
                break
        S.note(lambda: (name, state, update, todo))
        pkg, pdict = world(S, state, name or PKG + "." + SUB)
        above = sys.modules.setdefault(TOP, types.ModuleType(TOP)) if PKG != TOP else None
        adict = dict(above.__dict__) if above else {}
        before = table()
        kw = {} if update is None else {"update_parent": update}
        dotted = bool(name) and "." in name
        attach = dotted and update is not False
        foreign_table = foreign_attr = False
        package_gone = False
        error = Boom() if "fail" in todo else KeyboardInterrupt() if "exit" in todo else None
        caught = None
        extra = {}
        try:
            with m.temporary_module(name, None, **kw) as mod:
                n = mod.__name__
                S.check(sys.modules.get(n) is mod, "not registered")
                S.check(name is None or n == name, "wrong name")
                S.check(not attach or getattr(pkg, SUB, None) is mod, "not attached")
                for s in todo:
                    if s == "unregister":
                        sys.modules.pop(n, None)
                        foreign_table = False
                    elif s == "replace":
                        sys.modules[n] = types.ModuleType("other")
                        foreign_table = True
                    elif s == "detach":
                        if dotted and hasattr(pkg, SUB):
                            delattr(pkg, SUB)
                            foreign_attr = False
                    elif s == "reattach":
                        if dotted:
                            setattr(pkg, SUB, 7)
                            foreign_attr = True
                    elif s == "remove package":
                        if dotted:
                            sys.modules.pop(PKG, None)
                            before.pop(PKG, None)
                            package_gone = True
                    elif s == "inner":
                        with m.temporary_module() as inner:
                            S.check(inner is not mod and inner.__name__ != n and sys.modules[inner.__name__] is inner, "inner module")
                        S.check(inner.__name__ not in sys.modules, "the inner module is left")
                    elif s == "inner same":
                        if not (dotted and package_gone):
                            with m.temporary_module(n, **kw):
                                pass
                            S.check(n not in sys.modules and not (attach and hasattr(pkg, SUB)), "the inner module is left")
                            foreign_table = False
                            foreign_attr = foreign_attr and not attach
                    elif s == "submodule":
                        if sys.modules.get(n) is not None:
                            extra[n + ".deep"] = m.create_module(n + ".deep", update_parent=False)
                    elif s == "run":
                        S.check(m.run("x = 1", mod) is mod and mod.x == 1, "run")
                    elif s in ("fail", "exit"):
                        raise error
        except (Boom, KeyboardInterrupt) as e:
            caught = e
        S.check(caught is error, lambda: f"exception {caught!r}, expected {error!r}")
        S.reach("failed" if error else "done")
        S.check(sys.modules.get(n) is not mod, "still registered")
        S.check(foreign_table or n not in sys.modules, "still registered")
        want = {k: v for k, v in before.items() if k != n}
        want.update(extra)
        if foreign_table and n in sys.modules:
            want[n] = sys.modules[n]
        S.check(changed(want) == {}, lambda: f"module table: {changed(want)}")
        if dotted:
            now = dict(pkg.__dict__)
            if attach and not package_gone:
                if not foreign_attr:
                    S.check(SUB not in now, "still attached to its package")
                    S.reach("detached")
                pdict.pop(SUB, None)
                now.pop(SUB, None)
            elif package_gone or "detach" in todo or "reattach" in todo:
                pdict.pop(SUB, None)
                now.pop(SUB, None)
            else:
                S.reach("never attached")
            S.check(now == pdict, lambda: f"package: {set(now)}, expected {set(pdict)}")
        else:
            S.check(pkg is None or dict(pkg.__dict__) == pdict, "another package changed")
        S.check(above is None or dict(above.__dict__) == adict, "the package above changed")
    finally:
        restore(saved)


# -- run ---------------------------------------------------------------------------

STARTS = ["", "'doc'\n", "''\n", "from __future__ import annotations\n", "'doc'\nfrom __future__ import annotations\n", "f'doc'\n", "b'doc'\n", "x0 = 'doc'\n'late'\n"]
DOC = {"'doc'\n": "doc", "''\n": "", "'doc'\nfrom __future__ import annotations\n": "doc"}
ITEMS = ["set", "add", "log", "name", "macro", "fail", "assert", "def", "relative", "text"]
FORMS = ["text", "bytes", "tree", "list", "code", "code at 0", "code of the module", "located", "mangled"]
MODULES = ["new", "object", "name", "py", "package", "package name", "without file", "no file", "unregistered", "missing", "int", "dict", "bytes", "nothing in the table"]


def text_of(kind, i):
    return {"set": f"v = {i + 1}", "add": "v = globals().get('v', 10) * 2", "log": f"_c29('log', {i}, globals().get('v'))", "name": "_c29('name', __name__, globals().get('__file__'))",
            "macro": f"from c29_macros import macros, twice\nw{i} = twice[{i}]", "fail": f"_c29('fail', {i}, 0)", "assert": f"assert _c29('assert', {i}, 0)", "def": f"def f{i}(): return _c29('call', {i}, v0)\nv0 = {i}\nf{i}()",
            "relative": "from . import c29x\n_c29('relative', c29x, 0)", "text": "'a text'"}[kind]


class Fail(Exception):
    pass


def programs(S, runs, items, kinds):
    """The programs to run, and their effects"""
    ps = []
    for r in range(runs):
        start = S.pick(f"start{r}", STARTS) if items < 3 or r else S.pick(f"start{r}", STARTS[:2])
        ks = [S.pick(f"item{r}.{i}", kinds) for i in range(items if not r else 1)]
        ps.append((start, ks, start + "\n".join(text_of(k, i) for i, k in enumerate(ks)) + "\n"))
    return ps


def h_run(S, items, kinds, forms, modules, optimize, runs):
    m = S.m.compiler
    warnings.simplefilter("ignore")
    saved = table()
    log = []
    def record(*a):
        log.append(a)
        if a[0] == "fail":
            raise Fail
        return True
    builtins._c29 = record
    try:
        def twice(tree, **kw):
            return ast.Tuple(elts=[tree, tree], ctx=ast.Load())
        macs = types.ModuleType("c29_macros")
        macs.twice = twice
        sys.modules["c29_macros"] = macs
        pkg = types.ModuleType(PKG)
        pkg.__path__ = []
        pkg.c29x = "sibling"
        sys.modules[PKG] = pkg
        ps = programs(S, runs, items, kinds)
        where = S.pick("module", modules)
        form = S.pick("form", forms)
        opt = S.pick("optimize", optimize)
        S.note(lambda: (where, form, opt, [p[2] for p in ps]))
        name = PKG + "." + SUB if "package" in where else SUB
        mod = arg = None
        if where in ("object", "name", "py", "package", "package name", "nothing in the table"):
            mod = m.create_module(name, "/x/y.py" if where == "py" else None)
            arg = name if "name" in where else mod
            if where == "nothing in the table":
                del sys.modules[name]
        elif where in ("without file", "unregistered", "no file"):
            mod = arg = types.ModuleType(name)
            if where == "unregistered":
                mod.__file__ = "there"
            elif where == "no file":
                mod.__file__ = None
        elif where != "new":
            arg = {"missing": "c29_missing", "int": 5, "dict": {}, "bytes": b"c29m"}[where]
        for r, (start, ks, text) in enumerate(ps):
            before = table()
            def source():
                if form == "text":
                    return text
                if form == "bytes":
                    return ("# -*- coding: latin-1 -*-\n" + text).encode("latin-1")
                if form == "code":
                    return compile(text_plain, "c", "exec", dont_inherit=True)
                if form == "code at 0":
                    return compile(text_plain, "c", "exec", dont_inherit=True, optimize=0)
                if form == "code of the module":
                    return m.compile(text, "c29 file", optimize=opt)
                t = ast.parse(text)
                if form == "mangled":   # as if quoted: without locations
                    for n in ast.walk(t):
                        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                            n.__dict__.pop(a, None)
                return t.body if form == "list" else t
            text_plain = text
            if form in ("code", "code at 0") and "macro" in ks:
                return
            if form == "mangled" and where == "py":
                return      # (trees from a file have locations)
            docs = "a text" if not start and ks[0] == "text" else DOC.get(start)
            opt_now = 0 if form == "code at 0" else -1 if form == "code" else opt
            if docs is not None and "code" in form and opt_now == 2:
                docs = None     # (left out by the compiler)
            go = lambda: m.run(source(), arg, **({} if opt == -1 else {"optimize": opt}))
            log.clear()
            if where in ("missing", "int", "dict", "bytes"):
                S.raises(ModuleNotFoundError if where == "missing" else TypeError, go, where)
                S.check(not log and changed(before) == {}, "wrong module, but the code has run")
                S.reach("wrong module")
                return
            old = dict(mod.__dict__) if mod is not None else {}
            want, v, fails = [], old.get("v"), None
            exp = {}
            rel = "package" in where
            nm = mod.__name__ if mod is not None else None
            for i, k in enumerate(ks):
                if k == "set":
                    v = i + 1
                elif k == "add":
                    v = (10 if v is None else v) * 2
                elif k == "log":
                    want.append(("log", i, v))
                elif k == "name":
                    want.append(("name",))
                elif k == "macro":
                    exp[f"w{i}"] = (i, i)
                elif k == "fail":
                    want.append(("fail", i, 0))
                    fails = Fail
                    break
                elif k == "assert":
                    if opt_now < 1:
                        want.append(("assert", i, 0))
                elif k == "def":
                    want.append(("call", i, i))
                elif k == "relative":
                    if not rel:
                        fails = ImportError
                        break
                    want.append(("relative", "sibling", 0))
            # an unregistered module is fine, too
            if fails:
                e = S.raises(fails, go, "code that fails")
                S.reach("failed")
                if mod is None:
                    return
                res = mod
            else:
                res = go()
                S.reach("done")
            S.check(type(res) is types.ModuleType and (mod is None or res is mod), lambda: f"result {res!r}")
            if mod is None:
                S.check(changed(before) == {res.__name__: res}, lambda: f"module table: {changed(before)}")
                mod = arg = res
                S.reach("new module")
                t = table()
                other = m.run("v = 0")
                S.check(other is not res and changed(t) == {other.__name__: other} and other.__name__ not in t and other.__file__ != res.__file__, "another new module")
                del sys.modules[other.__name__]
            else:
                S.check(changed(before) == {}, lambda: f"module table: {changed(before)}")
            got = [x if x[0] != "name" else ("name",) for x in log]
            S.check(got == want, lambda: f"effects {log}, expected {want}")
            for x in log:
                if x[0] == "name":
                    S.check(x[1] == mod.__name__ and x[2] == getattr(mod, "__file__", None), lambda: f"{x}")
            S.check(mod.__dict__.get("v") == v, lambda: f"v is {mod.__dict__.get('v')}, expected {v}")
            S.check(not exp or fails or all(mod.__dict__.get(k) == x for k, x in exp.items()), "macro not expanded")
            S.check(mod.__doc__ == docs, lambda: f"docstring {mod.__doc__!r}, expected {docs!r}")
            S.reach("docstring" if docs is not None else "no docstring")
            for k, x in old.items():
                if k not in ("v", "v0", "__doc__", "__builtins__") and not k.startswith(("f", "w", "annotations", "x0", "c29x", "macros")):
                    S.check(k in mod.__dict__ and mod.__dict__[k] is x, lambda: f"{k} changed")
    finally:
        del builtins._c29
        restore(saved)


def h_sources(S):
    """What is no code."""
    m = S.m.compiler
    what = S.pick("source", ["int", "None", "tuple", "statement", "expression", "string in list", "Expression", "syntax error", "Interactive", "expr in module"])
    where = S.pick("module", ["text", "file"])
    saved = table()
    try:
        mod = m.create_module(SUB, "/x/y.py" if where == "file" else None)
        mod.__doc__ = "old"
        before, old = table(), dict(mod.__dict__)
        src = {"int": 5, "None": None, "tuple": ("x = 1",), "statement": ast.parse("x = 1").body[0], "expression": ast.parse("x").body[0].value, "string in list": ["x = 1"], "Expression": ast.parse("x", mode="eval"),
               "syntax error": "x =", "Interactive": ast.parse("x = 1", mode="single"), "expr in module": ast.Module(body=[ast.parse("x").body[0].value], type_ignores=[])}[what]
        S.note((what, where))
        if where == "text" and what in ("statement", "expression", "Interactive", "expr in module", "string in list", "Expression"):
            return      # (unparsed first)
        S.raises(ImportError if what == "syntax error" else TypeError, lambda: m.run(src, mod), what)
        S.check(changed(before) == {}, "the module table changed")
        S.check(dict(mod.__dict__) == old, "the module changed")
        S.reach("rejected")
    finally:
        restore(saved)


SHALLOW, DEEP = [None, SUB, PKG + "." + SUB], [PKG + ".q." + SUB, PKG + ".q.r." + SUB, PKG + "." + PKG + "." + SUB]
HARNESSES = [
    H("create", h_create, "create_module", dict(lengths=range(0, 5)), dict(lengths=range(0, 7)), reach={"invalid", "no parent", "refused", "anonymous", "attached", "not attached"}),
    H("temporary deep", h_temporary, "temporary_module in nested packages", dict(steps=2, names=DEEP), dict(steps=3, names=DEEP), reach={"failed", "done", "detached", "never attached"}),
    H("temporary", h_temporary, "temporary_module", dict(steps=3, names=SHALLOW), dict(steps=4, names=SHALLOW), reach={"failed", "done", "detached", "never attached"}),
    H("run", h_run, "run: the code", dict(items=3, kinds=ITEMS, forms=["text"], modules=["object", "package"], optimize=[-1], runs=1), dict(items=4, kinds=ITEMS, forms=["text"], modules=["object", "package"], optimize=[-1], runs=1), reach={"done", "failed", "docstring", "no docstring"}),
    H("forms", h_run, "run: forms and modules", dict(items=1, kinds=ITEMS, forms=FORMS, modules=MODULES, optimize=[-1, 0, 1, 2], runs=1), reach={"done", "failed", "docstring", "no docstring", "wrong module", "new module"}),
    H("again", h_run, "running twice", dict(items=1, kinds=["set", "add", "log", "fail", "def"], forms=["text", "tree", "code"], modules=["new", "name", "unregistered"], optimize=[-1], runs=2),
      dict(items=2, kinds=["set", "add", "log", "fail"], forms=["text", "tree", "code"], modules=["new", "name"], optimize=[-1], runs=3), reach={"done", "docstring", "no docstring", "new module"}),
    H("sources", h_sources, "invalid sources", reach={"rejected"}),
]
