"""Generate small mutants of mcpyrate that pass its tests, and run the checks on a sample of them.

usage: mutants.py gen OUT.json [-j N]          all mutants that pass the tests (in copies below /tmp)
       mutants.py run OUT.json RESULT.jsonl [--n N] [--seed S] [--only FILE]
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
CHECKS = {"quotes.py": "C02 C01 C04 C03 C06 C05 C30", "unparser.py": "C07 C08", "astdumper.py": "C08", "colorizer.py": "C08", "core.py": "C10 C13 C11 C12 C15 C28 C14",
          "expander.py": "C09 C26 C10 C28 C11 C13 C05", "astfixers.py": "C14 C15", "walkers.py": "C16", "markers.py": "C17 C12", "splicing.py": "C18 C19",
          "coreutils.py": "C20 C23 C26 C27 C22 C34", "multiphase.py": "C21", "importer.py": "C22 C33", "compiler.py": "C29 C21 C33 C12", "utils.py": "C24 C25 C20 C18 C13 C02 C37 C38",
          "bunch.py": "C32", "dialects.py": "C27 C28", "debug.py": "C28 C30 C38", "metatools.py": "C30", "pycachecleaner.py": "C31", "repl/console.py": "C34", "repl/utils.py": "C34",
          "repl/macropython.py": "C35", "activate.py": "C33", "repl/iconsole.py": "C36"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {"!=": "==", "==": "!=", "<": "<=", "<=": "<", ">": ">=", ">=": ">"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    data = src.encode()
    def pos(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    def text(n): a, b = pos(n); return data[a:b].decode()
    out = []
    def put(a, b, new, what, n):
        s = (data[:a] + new.encode() + data[b:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((n.lineno, what, s))
    tree = ast.parse(src)
    def walk(n, skip):
        for c in ast.iter_child_nodes(n):
            s = skip
            if isinstance(c, ast.Raise) or isinstance(c, ast.Assert) or isinstance(c, ast.JoinedStr):
                s = True
            if not s:
                one(c, n)
            elif isinstance(c, ast.Raise):
                a, b = pos(c); put(a, b, "pass", "drop raise", c)
            walk(c, s)
    def one(n, parent):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            put(a, b, f" {CMP[type(n.ops[0])]} ", "compare", n)
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                a, b = pos(n)
                op = " and " if isinstance(n.op, ast.And) else " or "
                put(a, b, "(" + op.join("(" + text(v) + ")" for v in rest) + ")", f"drop operand {i}", n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = pos(n); put(a, b, "(" + text(n.operand) + ")", "drop not", n)
        if isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            a, b = pos(n.test)
            put(a, b, "(" + text(n.test) + " or True)", "if true", n)
            put(a, b, "(" + text(n.test) + " and False)", "if false", n)
        if isinstance(n, ast.Constant) and not isinstance(parent, ast.Expr):
            a, b = pos(n)
            if isinstance(n.value, bool):
                put(a, b, str(not n.value), "flip", n)
            elif isinstance(n.value, int):
                put(a, b, f"({n.value} + 1)", "plus one", n)
                if n.value > 0: put(a, b, f"({n.value} - 1)", "minus one", n)
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = pos(n); put(a, b, "pass", "drop statement", n)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            a, b = pos(n); put(a, b, "pass", "drop assignment", n)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            a, b = pos(n); put(a, b, "pass", "drop reassignment", n)
        if isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                a, b = pos(k)
                e = b
                while data[e:e + 1] in b", \n": e += 1
                put(a, e, "", "drop keyword " + str(k.arg), n)
        if isinstance(n, ast.Tuple) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            for i in range(len(n.elts)):
                rest = [text(v) for j, v in enumerate(n.elts) if j != i]
                a, b = pos(n)
                put(a, b, "(" + ", ".join(rest) + ",)", f"drop element {i}", n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "rstrip", "lstrip", "copy") :
            a, b = pos(n); put(a, b, text(n.func.value), "drop ." + n.func.attr, n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "set", "sorted", "reversed", "deepcopy", "copy", "tuple") and len(n.args) == 1 and not n.keywords:
            a, b = pos(n); put(a, b, text(n.args[0]), f"drop {n.func.id}()", n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("deepcopy", "copy") and len(n.args) == 1:
            a, b = pos(n); put(a, b, text(n.args[0]), f"drop {n.func.attr}()", n)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = pos(n)
            put(a, b, text(n.left), "left operand", n); put(a, b, text(n.right), "right operand", n)
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if f.name in ("test", "main") and "test" in path: continue
            for i in range(len(f.body)):
                fake = ast.Module(body=[f.body[i]], type_ignores=[])
                walk(fake, False)
    seen, uniq = set(), []
    for l, w, s in out:
        if s not in seen and s != src:
            seen.add(s); uniq.append((l, w, s))
    return uniq


def passes(copy, out):
    """Does the copy of the repository pass the tests?"""
    subprocess.run(["find", copy, "-name", "__pycache__", "-prune", "-exec", "rm", "-rf", "{}", "+"])
    tools = copy + ".tests"
    os.makedirs(tools, exist_ok=True)
    for f in ("test.sh", "run_mcpyrate_tests.py"):
        with open("/opt/vp/" + f) as i, open(f"{tools}/{f}", "w") as o:
            o.write(i.read().replace("/opt/vp/run_", tools + "/run_").replace("/repo", copy))
    try:
        subprocess.run(["bash", tools + "/test.sh", out], cwd=copy, capture_output=True, timeout=120)
        o = json.load(open(out))
    except Exception:
        return False
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    p = set(o.get("passed") or o.get("pass") or ())
    return all(t in p for t in b)


def gen(out, j, limit):
    todo = []
    per = 10**9 if limit is None else int(limit)
    for f in CHECKS:
        all_ = mutants(f"{REPO}/mcpyrate/{f}")
        for l, w, s in random.Random(1).sample(all_, min(per, len(all_))):
            todo.append((f, l, w, s))
    random.Random(1).shuffle(todo)
    print(len(todo), "mutants")
    import queue
    q = queue.Queue()
    for i in range(j):
        d = f"/tmp/p/mt{i}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        q.put(d)
    res = []
    def job(t):
        f, l, w, s = t
        d = q.get()
        try:
            p = f"{d}/mcpyrate/{f}"
            old = open(p).read()
            open(p, "w").write(s)
            ok = passes(d, d + ".json")
            open(p, "w").write(old)
            if ok:
                res.append((f, l, w, s))
                json.dump(res, open(out, "w"))
        finally:
            q.put(d)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(job, todo))
    print(len(res), "pass the tests")


def check(d, f, verif, budget, j):
    caught, codes = None, {}
    for c in CHECKS[f].split():
        try:
            p = subprocess.run(["python3-vt", "check.py", c, "--budget", str(budget), "-j", str(j)], cwd=verif, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=900)
            codes[c] = p.returncode
            if "VIOLATION" in p.stdout:
                return c, codes
        except subprocess.TimeoutExpired:
            codes[c] = "timeout"
    return None, codes


def run(inp, result, n, seed, only, j):
    """Run the checks in j copies of /verif (each has an output folder of its own)."""
    ms = json.load(open(inp))
    if only: ms = [m for m in ms if m[0] in only.split(",")]
    done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(result))} if os.path.exists(result) else set()
    random.Random(seed).shuffle(ms)
    import queue
    q = queue.Queue()
    for i in range(j):
        v = f"/tmp/p/vmut{i}"
        shutil.rmtree(v, ignore_errors=True)
        shutil.copytree("/verif", v, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", "out"))
        q.put((v, f"/tmp/p/mrun{i}"))
    def job(m):
        f, l, w, s = m
        if (f, l, w) in done: return
        v, d = q.get()
        try:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
            open(f"{d}/mcpyrate/{f}", "w").write(s)
            caught, codes = check(d, f, v, 200, 8 // j)
            with open(result, "a") as r:
                r.write(json.dumps({"file": f, "line": l, "what": w, "caught": caught, "codes": codes}) + "\n")
        finally:
            q.put((v, d))
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(job, ms[:n]))


if __name__ == "__main__":
    a = sys.argv
    def opt(name, default): return a[a.index(name) + 1] if name in a else default
    if a[1] == "gen":
        gen(a[2], int(opt("-j", 8)), opt("--per-file", None))
    else:
        run(a[2], a[3], int(opt("--n", 1000)), int(opt("--seed", 1)), opt("--only", None), int(opt("-j", 4)))
