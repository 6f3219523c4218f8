"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NB = "mmcore/geom/nurbs.pyx"
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique=None, state=None, claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, technique=technique,
                  state=state, claim=claim, reason=reason))


TECH = "bounded symbolic execution of the real Cython/Python source, z3 over real arithmetic"
BASE = ("For every value of the symbolic inputs within the bounds in the evidence file the claim is proved by z3 on the translated source; "
        "trusts the translator (cross-checked on solver-chosen witnesses against the compiled code) and reads floating point as real arithmetic.")

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m) for n, m in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
cmd = "/opt/venv/bin/python lib/run.py %s --tier %s"
m = dict(version=1, setup_cmd="/opt/venv/bin/python lib/selftest.py",
         checks=[dict(property=p["id"], quick_cmd=cmd % (p["id"], "quick"), thorough_cmd=cmd % (p["id"], "thorough"), technique=p["technique"] or TECH,
                      level="other", level_note=p["note"] or BASE) for p in P if p["claim"]],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in P if not p["claim"]],
         notes="Every check translates the current sources of /repo on each run; nothing generated is kept. A counterexample is a VIOLATION only after the "
               "compiled code (rebuilt in a scratch copy when its sources changed) reproduces it; whatever the solver or the replay cannot settle is "
               "printed as INCONCLUSIVE or UNCONFIRMED and recorded in the evidence.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
