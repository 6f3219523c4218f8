"""Writes DESIGN.md (run by hand after editing a property, harness or seed)."""
import ast
import json
import os
import glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NB = "mmcore/geom/nurbs.pyx"
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique=None, state=None, claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, reason=reason))


exec(open(os.path.join(V, "tools", "table.py")).read())


def consts(p):
    r = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ORACLE"):
            r[n.targets[0].id] = ast.literal_eval(n.value)
    return r


o = [open(os.path.join(V, "tools", "design_head.md")).read()]
o.append("## 3. Properties\n")
try:
    stats = json.load(open(os.path.join(V, "tools", "stats.json")))
except OSError:
    stats = {}
for p in P:
    o.append(f"### {p['id']} {p['title']}\n")
    if not p["claim"]:
        o.append(f"Not applicable: {p['reason']}\n")
        continue
    c = consts(os.path.join(V, "props", p["id"].lower() + ".py"))
    o.append(p["statement"] + "\n")
    o.append(f"* **Quantifier:** {p['text']}.")
    o.append(f"* **Why tests cannot:** {p['why']}")
    o.append("* **Code encoded:** " + ", ".join(f"`{w}` ({n})" for n, w in p["mech"]) + "; the evidence file lists every function executed.")
    if "ORACLE" in c:
        o.append(f"* **Oracle:** {c['ORACLE']}")
    o.append(f"* **Bounds:** {c['BOUNDS']}")
    o.append(f"* **Outside:** {c['OUTSIDE']}")
    if p["id"] in stats:
        o.append(f"* **Cost (quick):** {stats[p['id']]}")
    o.append("")
o.append(open(os.path.join(V, "tools", "design_tail.md")).read())
o.append("## Planted bugs (`seeded/`)\n")
o.append("| id | property | what it breaks | needs | result |\n|---|---|---|---|---|")
try:
    res = json.load(open(os.path.join(V, "tools", "seed_results.json")))
except OSError:
    res = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    o.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, 'caught by ' + m['property'])} |")
k = json.load(open(os.path.join(V, "known_findings.json")))
o.append("\n## Genuine defects found\n")
o.append("Repaired, one `fix:` commit each in /repo (also in `known_findings.json`):\n")
o += [f"* {x['property']} {x['commit']}: {x['what']}" for x in k if x["status"] == "fixed"]
o.append("\nRecorded, not repaired:\n")
o += [f"* {x['property']}: {x['what']}" for x in k if x["status"] != "fixed"] or ["* none among the claimed properties"]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
