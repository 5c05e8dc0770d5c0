#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from props.py, the
harnesses' comments and design.md."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
TECH = "symbolic execution of the real code's SSA + SMT (z3), counterexamples replayed natively"

def P(id, title, statement, over, text, why, files, mech, bounds, claimed=True):
    PROPS.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech], "hook_needed": None}})
    if claimed is True:
        CHECKS.append({"property": id, "quick_cmd": f"./check.sh {id} quick", "thorough_cmd": f"./check.sh {id} thorough",
            "technique": TECH, "level": "model_checking", "level_note": bounds})
    else:
        NA.append({"property": id, "reason": claimed})

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": CHECKS, "not_applicable": NA,
     "notes": "No hooks in /repo: harnesses are laid over the tree with packages.Config.Overlay / go build -overlay. Bounds and assumptions: DESIGN.md and evidence/<id>.json."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
docs = {}
for f in sorted(glob.glob(os.path.join(ROOT, "harness", "*.go"))):
    for d, name in re.findall(r"((?:^//.*\n)*)^func (C\d\d_\w+)\(\)", open(f).read(), re.M):
        d = " ".join(x[2:].strip() for x in d.strip().split("\n")) if d else ""
        d = re.sub(r"^" + name + r":?\s*", "", d)
        docs.setdefault(name[:3], []).append((name, d))
out = []
for p in PROPS:
    b = next(c["level_note"] for c in CHECKS if c["property"] == p["id"])
    out.append(f"### {p['id']} {p['title']}\n\nCode: {', '.join(p['anchors']['files'])}. Tests: {p['why_tests_cant']}\n\nBounds: {b}\n")
    for n, d in docs.get(p["id"], []):
        out.append(f"* `{n}`" + (f" — {d}" if d else ""))
    out.append("")
t = open(os.path.join(ROOT, "tools", "design.md")).read().replace("<!-- properties -->", "\n".join(out))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
print(len(PROPS), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")
