"""Rebuilds the 'fixed' entries of known_findings.json from the fix: commits of /repo (run by hand)."""
import json
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
kf = os.path.join(V, "known_findings.json")
old = [k for k in (json.load(open(kf)) if os.path.exists(kf) else []) if k.get("status") != "fixed"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
# undoes a part of an earlier one, which the tests pin
partial = {'fix: keep the step of point_inversion_surface that recorded intersections depend on'}
undone = {l.split(' ', 1)[1][len('Revert "'):-1] for l in log if l.split(' ', 1)[1].startswith('Revert "')}
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and s not in undone | partial:
        p = PROP[s[5:]]
        out.append(dict(property=p, status="fixed", commit=h, what=s[5:], entry=f"fixed: property={p} {h} {s[5:]}"))
json.dump(old + out, open(kf, "w"), indent=1)
print(len(old), "known,", len(out), "fixed")
