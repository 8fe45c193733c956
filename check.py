#!/usr/bin/env python3-vt
"""Check one property: discharge the contracts' obligations for /repo's current source, then search
for (and replay) failing inputs on the real code.  Exit 0: held; 1: VIOLATION; see DESIGN.md."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
PY = "/opt/venv/bin/python"

CONTRACTS = ["emit"]


def load_units():
    from pyvc import vc
    errs = []
    for m in all_contracts():
        try:
            importlib.import_module("contracts." + m)
        except Exception as e:      # pragma: no cover
            errs.append(f"{m}: {type(e).__name__}: {e}")
    return vc.UNITS, errs


def all_contracts():
    d = os.path.join(HERE, "contracts")
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py") and f not in ("__init__.py", "common.py"))


def _work(args):
    idx, tier = args
    from pyvc import vc
    units, _ = load_units()
    return vc.run_unit(units[idx], tier=tier)


def run_units(prop, tier, jobs):
    units, errs = load_units()
    sel = [i for i, u in enumerate(units) if u.prop == prop]
    res = []
    if sel:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(jobs, len(sel)), maxtasksperchild=4) as pool:
            pend = [(i, pool.apply_async(_work, ((i, tier),))) for i in sel]
            for i, p in pend:
                lim = units[i].timeout * (3 if tier == "thorough" else 1) + 60
                try:
                    res.append(p.get(lim))
                except mp.TimeoutError:
                    res.append({"unit": units[i].name, "targets": units[i].targets, "bound": units[i].bound, "status": "undecided",
                                "reason": "time limit", "obligations": [], "ms": lim * 1000})
                except Exception as e:
                    res.append({"unit": units[i].name, "targets": units[i].targets, "bound": units[i].bound, "status": "undecided",
                                "reason": f"verifier process: {type(e).__name__}", "obligations": [], "ms": 0})
            pool.terminate()
    return res, errs


def run_dyn(prop, tier, seed, budget):
    if not os.path.exists(os.path.join(HERE, "dyn", prop.lower() + ".py")):
        return None
    out = f"/tmp/verif_dyn_{prop}_{os.getpid()}.json"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", QT_QPA_PLATFORM="offscreen", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    try:
        p = subprocess.run([PY, "-m", "dyn.core", prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget),
                            "--out", out], cwd=HERE, env=env, capture_output=True, text=True, timeout=budget * 3 + 90)
        if os.path.exists(out):
            with open(out) as f:
                return json.load(f)
        return {"error": (p.stderr or p.stdout)[-1500:]}
    except subprocess.TimeoutExpired:
        return {"error": "timeout"}
    finally:
        if os.path.exists(out):
            os.unlink(out)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-dyn", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    res, errs = run_units(prop, tier, a.jobs)
    refuted = [r for r in res if r["status"] == "refuted"]
    undec = [r for r in res if r["status"] == "undecided"]
    budget = {"quick": 6.0, "thorough": 120.0}[tier]
    if tier == "quick" and (refuted or undec):
        budget = 30.0           # the counterexample search gets longer when a proof does not go through
    dyn = None if a.no_dyn else run_dyn(prop, tier, a.seed, budget)
    kf = known_findings()
    listed = {f["id"]: f for f in kf["findings"] if f["property"] == prop}
    code = 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    nviol = 0
    if dyn and not dyn.get("error"):
        for k in dyn["known"]:
            if k["id"] in listed:
                print(f"KNOWN-FINDING: property={prop} {listed[k['id']]['what']}")
            else:
                dyn["violations"].append({"scenario": k["scenario"], "message": k["message"]})
        for v in dyn["violations"]:
            path = os.path.join(HERE, "replays", f"{prop}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "scenario": v["scenario"], "message": v["message"],
                           "failed_obligations": [(r["unit"], r["reason"]) for r in refuted + undec],
                           "replay_cmd": f"cd {HERE} && {PY} -m dyn.core {prop} --replay {path}"}, f, indent=1, default=str)
            print(v["message"][:1500])
            for r in refuted:
                print(f"failed obligation: {r['unit']}: {r['reason']}")
            print(f"VIOLATION property={prop} replay={path}")
            nviol += 1
            code = 1
            break
    elif dyn and dyn.get("error"):
        print(f"dynamic layer error: {dyn['error']}")
    if code == 0 and refuted:
        path = os.path.join(HERE, "replays", f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "failed_obligations": [
                {"unit": r["unit"], "targets": r["targets"], "reason": r["reason"],
                 "verifier_output": [o for o in r["obligations"] if o["status"] != "proved"][:6]} for r in refuted],
                "replay_cmd": f"cd {HERE} && python3-vt check.py {prop} --no-dyn"}, f, indent=1, default=str)
        for r in refuted:
            print(f"failed obligation: {r['unit']}: {r['reason']}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        nviol += 1
        code = 1
    for r in undec:
        print(f"UNDECIDED: {r['unit']}: {r['reason']}" + (" -- bounded dynamic stand-in only" if dyn else ""))
    obl = [o for r in res if not r.get("bound") for o in r.get("obligations", []) if o["kind"] != "guard"]
    bobl = [o for r in res if r.get("bound") for o in r.get("obligations", []) if o["kind"] != "guard"]
    disch = [o for o in obl if o["status"] == "proved"]
    by = {}
    for o in disch:
        by[o["solver"]] = by.get(o["solver"], 0) + 1
    guards = [o for r in res for o in r.get("obligations", []) if o["kind"] == "guard"]
    proved = bool(res) and all(r["status"] == "proved" for r in res)
    cov = {
        "obligations": len(obl), "discharged": len(disch), "discharged_by": by,
        "checker_cmd": f"python3-vt check.py {prop} --tier {tier}",
        "trusted_base": ["pyvc (this repository's VC generator over the Python AST of /repo/src)", "z3 4.x", "cvc5 1.1.2",
                         "models of builtins and stdlib in pyvc/lib.py"],
        "units": [{k: r.get(k) for k in ("unit", "targets", "bound", "status", "reason", "paths", "ms", "functions", "inlined", "stubbed", "loops",
                                         "solver_ms", "feasibility_queries")} for r in res],
        "bounded_units": [{"unit": r["unit"], "bound": r["bound"], "status": r["status"]} for r in res if r.get("bound")],
        "bounded_obligations": {"total": len(bobl), "discharged": sum(o["status"] == "proved" for o in bobl), "note": "symbolic, but for pre-states of the stated size only; not counted as proved"},
        "functions_under_contract": sorted({f for r in res if not r.get("bound") for f in r.get("functions", [])}),
        "functions_under_bounded_contract": sorted({f for r in res if r.get("bound") for f in r.get("functions", [])}),
        "functions_inlined": sorted({f for r in res for f in r.get("inlined", [])}),
        "callees_by_contract": sorted({f for r in res for f in r.get("stubbed", [])}),
        "vacuity_guards_passed": sum(1 for g in guards if g["status"] == "proved"),
        "solver_seconds": round(sum(r.get("solver_ms", 0) for r in res) / 1000, 2),
        "undecided": [[r["unit"], r["reason"]] for r in undec], "refuted": [[r["unit"], r["reason"]] for r in refuted],
        "contract_load_errors": errs,
        "explanation": "proof: every obligation generated from the current source was discharged" if proved else
        "not (fully) proved on this tree: the bounded dynamic stand-in decided",
    }
    if dyn and not dyn.get("error"):
        cov.update({"evaluations": dyn["evaluations"], "distinct_nontrivial": dyn["distinct"],
                    "rule": (dyn["rule"] or "")[:600] + " [bounded: " + dyn["bound"] + "]", "samples": dyn["samples"] or ["none"],
                    "bounded_standin_exhaustive_part_completed": dyn["exhaustive_done"]})
    elif dyn:
        cov["dynamic_error"] = dyn["error"]
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "proof" if proved else "exploration" if dyn and not dyn.get("error") else "other",
          "coverage": cov, "assumptions": sorted({x for r in res for x in r.get("assumptions", [])}),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v:
        for r in res:
            print(r["status"], r["ms"], r["unit"], r["reason"])
    print(f"{prop}: units proved {sum(r['status'] == 'proved' for r in res)}/{len(res)}, obligations {len(disch)}/{len(obl)}, "
          f"dynamic cases {dyn.get('evaluations') if dyn else 0}, {ev['wall_s']} s -> exit {code}")
    if code == 0 and not res and (dyn is None or dyn.get("error")):
        code = 3
    if code == 0 and dyn and dyn.get("error") and not proved:
        code = 3
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
