"""Driver: run.py PROP [--tier quick|thorough] [--case SUBSTR] [-v]"""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import time
import traceback

here = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(here)
sys.path[:0] = [here, os.path.join(VERIF, "props")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(8000)

import z3  # noqa
import sym  # noqa
import crt  # noqa
import h  # noqa
import loader  # noqa
import real  # noqa
from sym import Engine, PathAbort, NonFinite, MemFault, EngineGap, StepLimit  # noqa


def load_prop(prop):
    p = os.path.join(VERIF, "props", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("prop_" + prop, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def qstr(v):
    return str(v)


def explore_case(world, case, t_limit):
    """runs in a worker process"""
    z3.set_param("smt.random_seed", 1)
    t0 = time.time()
    e = Engine(timeout_ms=case.timeout_ms, max_paths=case.paths, deadline=t0 + t_limit)
    e.max_decisions = case.decisions
    e.max_ticks = case.ticks
    e.max_obs = 400
    state = dict(witnesses=[], live=0, samples=[])
    executed = set()
    mon = sys.monitoring
    root = world.root

    def on_start(code, off):
        if code.co_filename.startswith(root):
            executed.add(os.path.relpath(code.co_filename.replace(" (encoded)", ""), root) + ":" + code.co_qualname)
        return mon.DISABLE
    try:
        mon.use_tool_id(3, "verif")
        mon.register_callback(3, mon.events.PY_START, on_start)
        mon.set_events(3, mon.events.PY_START)
    except ValueError:
        pass

    def path():
        ctx = h.Ctx(world, e, case)
        try:
            case.run(ctx)
        except (PathAbort, KeyboardInterrupt, MemoryError):
            raise
        except h.Skip:
            return
        except MemFault as ex:
            return e.violate("memory access: " + str(ex), "mem")
        except StepLimit as ex:
            return e.violate("termination: " + str(ex), "step")
        except EngineGap as ex:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return e.gap(str(ex))
        except NonFinite as ex:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return e.violate("result not finite: " + str(ex), "nonfinite")
        except RecursionError as ex:
            return e.violate("termination: recursion limit", "step")
        except Exception as ex:
            tb = traceback.format_exc()
            if os.environ.get("VERIF_DEBUG"):
                print(tb)
            return e.violate(f"unexpected {type(ex).__name__}: {str(ex)[:160]}", "exc", tb[-1200:])
        if e.path_obligations and len(state["witnesses"]) < case.witnesses:
            m = e._nice_model(None)
            if m is None:
                return
            state["live"] += 1
            obs = {}
            for lab, a, b in e.obs[:200]:
                try:
                    obs[lab] = [repr(e.value(a, m)), repr(e.value(b, m))]
                except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                    pass
            state["witnesses"].append(dict(model={k: qstr(v) for k, v in m.items()}, picks=dict(e.picks), obs=obs))

    err = None
    try:
        e.explore(path)
    except BaseException as ex:
        err = f"{type(ex).__name__}: {ex}"
        traceback.print_exc()
    st = dict(e.stats)
    return dict(case=case.name, stats=st, reached=len(e.reached), labels=sorted(e.reached)[:6], inconclusive=sorted(set(e.inconclusive)), err=err,
                violations=[dict(label=v.label, kind=v.kind, detail=str(v.detail)[:1500], picks=v.picks,
                                 model={k: qstr(x) for k, x in v.model.items()}) for v in e.violations],
                witnesses=state["witnesses"], wall=round(time.time() - t0, 2), executed=sorted(executed), bounds=case.bounds)


def worker(world, case, t_limit, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        r = explore_case(world, case, t_limit)
    except BaseException as ex:
        r = dict(case=case.name, err=f"{type(ex).__name__}: {ex}", stats={}, reached=0, labels=[], inconclusive=["worker failed"], violations=[],
                 witnesses=[], wall=0, executed=[], bounds=case.bounds)
    conn.send(r)
    conn.close()


def run_pool(world, cases, scale, jobs, budget, verbose):
    ctx = mp.get_context("fork")
    todo = sorted(cases, key=lambda c: -c.weight)
    live, out = {}, []
    t_start = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            c = todo.pop(0)
            left = budget - (time.time() - t_start)
            lim = max(5, min(c.time_s * scale, left))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(world, c, lim, b))
            p.start()
            b.close()
            live[p.pid] = (p, a, c, time.time() + lim * 1.3 + 45)
        import multiprocessing.connection as mc
        mc.wait([v[1] for v in live.values()], timeout=1)
        for pid, (p, a, c, kill) in list(live.items()):
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(case=c.name, err="worker died", inconclusive=["worker died"], stats={}, reached=0, labels=[], violations=[], witnesses=[], wall=0,
                             executed=[], bounds=c.bounds)
            elif not p.is_alive() or time.time() > kill:
                if p.is_alive():
                    p.kill()
                r = dict(case=c.name, err="worker stopped", inconclusive=["worker stopped (time or memory)"], stats={}, reached=0, labels=[],
                         violations=[], witnesses=[], wall=0, executed=[], bounds=c.bounds)
            if r is not None:
                p.join(5)
                a.close()
                del live[pid]
                out.append(r)
                if verbose:
                    s = r["stats"]
                    print(f"  {r['case']:<44} paths={s.get('paths')} obl={s.get('obligations')} ok={s.get('discharged')} q={s.get('queries')} "
                          f"z3={s.get('solver_s', 0):.1f}s wall={r['wall']}s {'VIOL ' + r['violations'][0]['label'] if r['violations'] else ''} "
                          f"{'INC ' + '; '.join(r['inconclusive'])[:160] if r['inconclusive'] else ''} {r['err'] or ''}", flush=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop.upper()
    mod = load_prop(prop)
    cases = [c for c in mod.cases(a.tier) if a.case in c.name]
    names = [c.name for c in cases]
    assert len(names) == len(set(names)), "duplicate case names"
    quick = a.tier == "quick"
    world = loader.World()
    if hasattr(mod, "setup"):
        mod.setup(world)
    load_err = {}
    for m in sorted({m for c in cases for m in c.mods}):
        try:
            world.load(m)
        except BaseException as ex:
            load_err[m] = f"{type(ex).__name__}: {ex}"
            if a.v or os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
    runnable = [c for c in cases if not any(m in load_err for m in c.mods)]
    t_load = time.time() - t0
    if a.v:
        print(f"loaded in {t_load:.1f}s; {len(runnable)} cases; load errors: {load_err}")
    res = run_pool(world, runnable, 1, a.jobs, 520 if quick else 3 * 3600, a.v)
    res.sort(key=lambda r: names.index(r["case"]))
    if load_err and not runnable:
        # the package cannot be imported in the encoding: see whether it can be at all
        pass

    # ---- replays
    known = json.load(open(os.path.join(VERIF, "known_findings.json"))) if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []
    known = [k for k in known if k.get("property") == prop and k.get("status", "known") == "known"]
    viol = [(r["case"], v) for r in res for v in r["violations"]]
    confirmed, unconfirmed, knowns = [], [], []
    stale = real.stale()
    roots, cleanup = {}, []

    exe = {r["case"]: sorted({x.split(":")[0] for x in r["executed"] if ".pyx:" in x}) for r in res}

    def root_for(mode, case=None):
        key = (mode, case) if mode == "asan" else mode
        if key not in roots:
            if mode == "plain" and not stale:
                roots[key] = real.REPO
            else:
                ch = list(stale or [])
                if mode == "asan" and "*" not in ch:
                    ch = sorted(set(ch) | set(exe.get(case, [])))
                roots[key] = real.scratch(mode, ch, mode)
                cleanup.append(roots[key])
        return roots[key]
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    n = 0
    try:
        for case, v in viol:
            job = dict(prop=prop, case=case, tier=a.tier, model=v["model"], picks=v["picks"], label=v["label"], kind=v["kind"], limit=30)
            kf = next((k for k in known if k["case"] == case and re.search(k["label"], v["label"])), None)
            n += 1
            path = os.path.join(rdir, f"{prop}-{n}.json")
            json.dump(job, open(path, "w"), indent=1)
            if a.no_replay:
                ok, how = True, "not replayed"
            elif time.time() - t0 > 780:
                ok, how = False, "no time left to replay"
            else:
                try:
                    ok, how = confirm(job, root_for, real)
                except Exception as ex:
                    ok, how = False, f"replay impossible: {type(ex).__name__}: {str(ex)[:300]}"
            rec = dict(case=case, label=v["label"], kind=v["kind"], model=v["model"], picks=v["picks"], replay=path, how=how, detail=v["detail"][:300])
            if a.v:
                print("   ", case, v["label"], "->", "confirmed" if ok else "NOT CONFIRMED", how, {k: x for k, x in list(v["model"].items())[:60]}, v["picks"], v["detail"][-500:])
            if not ok:
                unconfirmed.append(rec)
            elif kf:
                knowns.append((kf, rec))
            else:
                confirmed.append(rec)
            if len(confirmed) >= 3:
                break
        # ---- witnesses: the encoding and the compiled code agree on solver-chosen inputs
        wj, wr = [], dict(replayed=0, agreed=0, compared_values=0, disagreed=[], skipped="")
        if stale:
            wr["skipped"] = "extensions in place are older than the sources: " + ",".join(stale)[:200]
        elif not a.no_replay:
            for r in res:
                for w in r["witnesses"]:
                    wj.append(dict(prop=prop, case=r["case"], tier=a.tier, model=w["model"], picks=w["picks"], limit=20, _obs=w["obs"]))
            if wj:
                out, stop = [], []
                while len(out) < len(wj) and len(stop) < 5:
                    o, info = real.replay(real.REPO, [{k: v for k, v in j.items() if k != "_obs"} for j in wj[len(out):]], timeout=240)
                    out += o or []
                    if len(out) < len(wj):
                        stop.append(f"{wj[len(out)]['case']}: {info}")
                        w = {k: v for k, v in wj[len(out)].items() if k != "_obs"}
                        if isinstance(info, tuple) and info[1] in (-4, -6, -7, -8, -11):      # the compiled code was ended by a signal: once more, alone
                            o, again = real.replay(real.REPO, [w], timeout=90)
                            if not o and again[1] == info[1]:
                                n += 1
                                path = os.path.join(rdir, f"{prop}-{n}.json")
                                json.dump(dict(w, label="the compiled code crashes", kind="crash"), open(path, "w"), indent=1)
                                confirmed.append(dict(case=w["case"], label="the compiled code crashes", kind="crash", model=w["model"], picks=w["picks"],
                                                      replay=path, how=f"signal {-info[1]}", detail=""))
                        out.append(dict(status="ended", why=str(info)[-300:], obs={}))
                wr["not_replayed"] = len(wj) - len(out)
                for j, o in zip(wj, out):
                    wr["replayed"] += 1
                    bad = None if o["status"] == "ok" else f"{o['status']}: {o.get('label', '')} {o.get('why', '')}"
                    for lab, (x, y) in j["_obs"].items():
                        if lab in o["obs"] and bad is None:
                            wr["compared_values"] += 1
                            p, q = float(x), float(o["obs"][lab][0])
                            if not (p == q or abs(p - q) <= 1e-6 * max(1, abs(p), abs(q))):
                                bad = f"{lab}: encoded {p}, compiled {q}"
                    if bad is None:
                        wr["agreed"] += 1
                    else:
                        wr["disagreed"].append(dict(case=j["case"], why=bad, model=j["model"], picks=j["picks"]))
                        if a.v:
                            print("    WITNESS DISAGREES", j["case"], bad, j["model"], j["picks"], o.get("tb", "")[-600:])
    finally:
        for r in cleanup:
            shutil.rmtree(r, ignore_errors=True)

    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    executed = sorted({x for r in res for x in r["executed"]})
    vac = [r["case"] for r in res if not r["reached"] and not r["violations"]]
    inc = {r["case"]: (r["inconclusive"] + ([r["err"]] if r["err"] else [])) for r in res if r["inconclusive"] or r["err"]}
    inc.update({c.name: ["not loaded: " + "; ".join(load_err[m] for m in c.mods if m in load_err)] for c in cases if c not in runnable})
    samples = []
    for r in res[:200]:
        for w in r["witnesses"][:1]:
            samples.append(dict(case=r["case"], inputs=dict(list(w["model"].items())[:12]), picks=w["picks"]))
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", wall_s=round(time.time() - t0, 1),
              violations=[f"{r['case']}: {r['label']}" for r in confirmed],
              assumptions=ASSUME + list(getattr(mod, "ASSUMPTIONS", [])),
              coverage=dict(
                  explanation="Bounded symbolic execution of the functions listed, translated from the current sources on this run; every "
                              "obligation is a z3 query 'path condition and not claim', unsat for all values within the stated bounds. "
                              "Bounds: " + getattr(mod, "BOUNDS", "see cases"),
                  outside_the_bounds=getattr(mod, "OUTSIDE", ""),
                  cases=len(res), paths=tot.get("paths", 0), obligations=tot.get("obligations", 0), discharged=tot.get("discharged", 0),
                  queries=tot.get("queries", 0), solver_s=round(tot.get("solver_s", 0), 1), unknown=tot.get("unknown", 0),
                  functions_encoded=executed, functions_encoded_count=len(executed),
                  inconclusive=inc, vacuous_cases=vac, unconfirmed=[dict(case=r["case"], label=r["label"], how=r["how"]) for r in unconfirmed],
                  witness_replay=dict(wr, disagreed=wr["disagreed"][:10]),
                  known_findings=[k["what"] for k, _ in knowns], samples=samples[:12],
                  per_case=[dict(case=r["case"], bounds=r["bounds"], paths=r["stats"].get("paths"), obligations=r["stats"].get("obligations"),
                                 discharged=r["stats"].get("discharged"), wall_s=r["wall"]) for r in res]))
    if not a.case:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {a.tier}: {len(res)} cases, {tot.get('paths', 0)} paths, {tot.get('obligations', 0)} obligations, {tot.get('discharged', 0)} discharged, "
          f"{tot.get('queries', 0)} queries, {tot.get('solver_s', 0):.1f}s solver, {time.time() - t0:.1f}s wall; witnesses {wr['agreed']}/{wr['replayed']} agree "
          f"({wr['compared_values']} values); inconclusive {len(inc)}; vacuous {len(vac)}; unconfirmed {len(unconfirmed)}")
    for c, w in list(inc.items())[:10]:
        print(f"INCONCLUSIVE case={c} {'; '.join(x for x in w if x)[:200]}")
    for w in wr["disagreed"][:5]:
        print(f"WITNESS DISAGREES case={w['case']} {w['why'][:200]}")
    for r in unconfirmed[:5]:
        print(f"UNCONFIRMED case={r['case']} {r['label']} ({r['how']})")
    seen = set()
    for k, r in knowns:
        if k["what"] not in seen:
            seen.add(k["what"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for r in confirmed:
        print(f"VIOLATION property={prop} replay={r['replay']}")
        print(f"  case {r['case']}: {r['label']} ({r['how']}); inputs {dict(list(r['model'].items())[:20])}")
    sys.exit(1 if confirmed else 0)


ASSUME = ["floating-point numbers are treated as reals (rounding is outside the claim); integers do not overflow",
          "numpy's array bookkeeping runs on symbolic elements; linear solves, inverses, norms, isclose/allclose, unique and linspace are exact "
          "re-statements of numpy's documented behaviour", "malloc does not fail; no two different keys share a hash"]


def confirm(job, root_for, real):
    kind = job["kind"]
    if kind == "mem" and "uninitialised" in job["label"]:
        root = root_for("plain")
        res = []
        for pert in ("85", "171"):
            o, info = real.replay(root, [job], extra_env={"MALLOC_PERTURB_": pert, "PYTHONMALLOC": "malloc", "NPY_DISABLE_CACHE": "1"}, timeout=90)
            res.append(o[0] if o else None)
        if any(r and r["status"] in ("fail", "error", "timeout") for r in res):
            return True, "replayed with perturbed heap contents: " + str([r and r["status"] for r in res])
        if res[0] is None or res[1] is None:
            return True, "replay crashed with perturbed heap contents"
        if res[0]["obs"] != res[1]["obs"]:
            return True, "results differ between two heap fill patterns"
        return False, "no effect of heap contents seen"
    root = root_for("plain")
    o, info = real.replay(root, [job], timeout=90)
    if o:
        r = o[0]
        if r["status"] in ("fail", "error", "timeout"):
            return True, f"replayed on the compiled code: {r['status']} {r.get('label', '')} {r.get('why', '')}"[:300]
        st = f"compiled code: {r['status']} {r.get('why', '')}"
    elif info == "timeout":
        return (True, "replay does not terminate") if kind == "step" else (True, "replay hangs")
    else:
        return True, f"replay process crashed ({info[1]}) {info[0][-200:]}"
    if kind == "mem":
        root = root_for("asan", job["case"])
        o, info = real.replay(root, [job], asan=True, timeout=150)
        if not o and info != "timeout":
            m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", info[0])
            fr = re.findall(r"#\d+ \S+ in (\S+)", info[0])
            if m:
                return True, f"AddressSanitizer on the compiled code: {m.group(1)} in {' < '.join(fr[:3])}"
            return False, "sanitizer replay failed: " + info[0][-300:]
        return False, "AddressSanitizer saw no fault; " + st
    return False, st


if __name__ == "__main__":
    main()
