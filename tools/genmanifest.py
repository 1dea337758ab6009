"""Write MANIFEST.json from the harnesses that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    fn = f"{V}/harness/{i.lower()}.py"
    if i in NA or not os.path.exists(fn):
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the real source with z3 (lazily initialized symbolic syntax trees and values), counterexamples replayed",
        "level": "model_checking",
        "level_note": "bounded: every feasible path within the stated bounds is executed; each decision on symbolic data is put to z3; see bounds, outside and assumptions in the evidence",
    })
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
