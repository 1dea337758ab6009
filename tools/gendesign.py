"""Write DESIGN.md: the text below, with the bounds etc. taken from the harnesses (run with python3-vt)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
src = open("tools/design.md").read()
props = [json.loads(l) for l in open("properties.jsonl")]


def constants(i):
    """The stated bounds etc. of a harness, in a process of its own (each loads mcpyrate)."""
    import subprocess
    code = f"""
import sys, json, os, tempfile; sys.path.insert(0, {V!r})
os.environ["VERIF_SCRATCH"] = tempfile.gettempdir()
from sx import load
load.load(False)
import importlib
m = importlib.import_module('harness.{i.lower()}')
print('@@' + json.dumps(dict(b=m.BOUNDS, o=m.OUTSIDE, a=m.ASSUMPTIONS, h=[(h.name, h.doc) for h in m.HARNESSES])))
"""
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
    for l in r.stdout.splitlines():
        if l.startswith("@@"):
            return json.loads(l[2:])
    raise SystemExit(i + r.stderr)


parts = dict(re.findall(r"^## (C\d\d)\n(.*?)(?=^## |\Z)", src.split("<!-- oracles -->")[1], re.M | re.S))
out = []
for p in props:
    i = p["id"]
    c = constants(i)
    out.append(f"### {i}: {p['title']}\n\n{parts[i].strip()}\n")
    out.append("* Harnesses: " + "; ".join(f"`{n}` ({t})" for n, t in c["h"]) + ".")
    out.append("* Bounds, quick: " + c["b"]["quick"] + ".")
    out.append("* Bounds, thorough: " + c["b"]["thorough"] + ".")
    out.append("* Outside: " + c["o"] + ".")
    if c["a"]:
        out.append("* Assumptions: " + "; ".join(c["a"]) + ".")
    out.append("")
seeded = []
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    seeded.append(f"| {d.split('/')[1]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
text = src.split("<!-- oracles -->")[0].replace("<!-- properties -->", "\n".join(out)).replace("<!-- seeded -->", "\n".join(seeded))
open("DESIGN.md", "w").write(text)
