"""Replay solver models against the compiled package.

  replay.py FILE.json     one replay file as written next to a VIOLATION (exit 1 if the violation shows)
  replay.py -             jobs on stdin (used by the driver)"""
import importlib.util
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.environ.get("VERIF_REPLAY_ROOT") or os.environ.get("VERIF_REPO", "/repo")
sys.path = [root] + [p for p in sys.path if os.path.realpath(p or ".") not in ("/repo", here)] + [here]
sys.dont_write_bytecode = True
import h  # noqa

_mods = {}


def props(prop):
    if prop not in _mods:
        p = os.path.join(os.path.dirname(here), "props", prop.lower() + ".py")
        spec = importlib.util.spec_from_file_location("prop_" + prop, p)
        m = importlib.util.module_from_spec(spec)
        sys.path.append(os.path.dirname(p))
        spec.loader.exec_module(m)
        _mods[prop] = m
    return _mods[prop]


def main():
    one = sys.argv[1] != "-"
    jobs = [json.load(open(sys.argv[1]))] if one else json.load(sys.stdin)
    rc = 0
    for j in jobs:
        cs = {c.name: c for c in props(j["prop"]).cases(j["tier"])}
        case = cs[j["case"]]
        r = h.run_real(case, j["model"], j.get("picks"), j.get("limit", 60))
        r["case"] = j["case"]
        if not one:
            r.setdefault("obs", {})
            print("RESULT " + json.dumps(r), flush=True)
        else:
            r.pop("obs", None)
            print(json.dumps(r, indent=1))
            rc |= r["status"] in ("fail", "error", "timeout")
    sys.exit(rc)


main()
