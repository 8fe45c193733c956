"""Writes MANIFEST.json: one check per property that has contracts or a dynamic harness."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
units, errs = check.load_units()
assert not errs, errs
claimed = {u.prop for u in units}
NA = {}
checks = []
na = []
for l in open(H + "/properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    n = sum(u.prop == p for u in units)
    if p in claimed:
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p} --tier quick", thorough_cmd=f"python3-vt check.py {p} --tier thorough",
            technique="contracts on the real functions, verification conditions generated from /repo's AST by pyvc and discharged by z3/cvc5; counterexample search replays on the real code",
            level="proof", level_note=f"{n} contract unit(s), every obligation discharged on each run; assumptions are listed in the evidence file and DESIGN.md. Where a changed source leaves the verifier's reach the bounded dynamic stand-in decides and the evidence says so."))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import z3, sys; sys.path.insert(0,'.'); import check; u,e=check.load_units(); assert u and not e, e\"",
  checks=checks, not_applicable=na, notes="See DESIGN.md. No hooks in /repo are needed."), open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
