"""Dynamic layer: replays scenarios against the real code and compares with a model oracle.

Bounded stand-in and counterexample search for the deductive layer.  Run with
/opt/venv/bin/python; a property module `cXX.py` provides
    exhaustive(tier)      -> iterator of scenarios (small scope, complete up to its stated bound)
    random_scenario(rng)  -> one scenario (JSON data)
    run(scenario)         -> None, or a message saying what is wrong
    KNOWN                 -> {finding id: scenario that shows it}
"""
import contextlib
import gc
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

SRC = os.environ.get("VERIF_REPO_SRC")
if SRC:
    sys.path.insert(0, SRC)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Stop(Exception):
    pass


def run_scenario(mod, sc):
    """message or None; an exception of the harness itself is a failure of the property only if the
    module says so (it normally turns exceptions of the code under test into results itself)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                return mod.run(sc)
            except Exception:
                return "unexpected exception:\n" + traceback.format_exc()[-1500:]


def shrink(mod, sc, msg, budget=4.0):
    """Greedy removal of operations while the scenario still fails."""
    t0 = time.time()
    key = "ops" if isinstance(sc, dict) and isinstance(sc.get("ops"), list) else None
    if key is None:
        return sc, msg
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        ops = sc[key]
        for i in range(len(ops) - 1, -1, -1):
            if time.time() - t0 > budget:
                break
            cand = dict(sc, ops=ops[:i] + ops[i + 1:])
            m = run_scenario(mod, cand)
            if m is not None:
                sc, msg, ops, changed = cand, m, cand[key], True
    return sc, msg


def explore(name, tier, seed, budget):
    mod = importlib.import_module("dyn." + name.lower())
    res = {"property": name, "evaluations": 0, "distinct": 0, "exhaustive_done": False, "violations": [], "known": [],
           "samples": [], "rule": getattr(mod, "RULE", (mod.__doc__ or "").strip()), "bound": getattr(mod, "BOUND", "")}
    t0 = time.time()
    for fid, sc in getattr(mod, "KNOWN", {}).items():
        m = run_scenario(mod, sc)
        if m is not None:
            res["known"].append({"id": fid, "scenario": sc, "message": m})
    seen = set()

    def one(sc):
        m = run_scenario(mod, sc)
        res["evaluations"] += 1
        h = hash(json.dumps(sc, sort_keys=True, default=str))
        if h not in seen:
            seen.add(h)
            if getattr(mod, "nontrivial", lambda s: True)(sc):
                res["distinct"] += 1
        if len(res["samples"]) < 3:
            res["samples"].append(sc)
        if m is not None:
            sc2, m2 = shrink(mod, sc, m)
            res["violations"].append({"scenario": sc2, "message": m2})
            raise Stop

    try:
        ex = getattr(mod, "exhaustive", None)
        done = True
        if ex is not None:
            for sc in ex(tier):
                one(sc)
                if time.time() - t0 > budget * 0.6:
                    done = False
                    break
            res["exhaustive_done"] = done
        rng = random.Random(seed)
        rs = getattr(mod, "random_scenario", None)
        gc.disable() if getattr(mod, "GC_OFF", False) else None
        while rs is not None and time.time() - t0 < budget and res["evaluations"] < 400000:
            one(rs(rng))
    except Stop:
        pass
    res["wall_s"] = time.time() - t0
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("name")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float, default=6.0)
    ap.add_argument("--replay")
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        mod = importlib.import_module("dyn." + a.name.lower())
        m = run_scenario(mod, d["scenario"])
        print("REPRODUCED: " + m if m is not None else "not reproduced")
        sys.stdout.flush()
        os._exit(1 if m is not None else 0)
    r = explore(a.name, a.tier, a.seed, a.budget)
    txt = json.dumps(r, default=str)
    if a.out:
        with open(a.out, "w") as f:
            f.write(txt)
    else:
        print(json.dumps(r, indent=1, default=str))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    from dyn import core
    core.main()
