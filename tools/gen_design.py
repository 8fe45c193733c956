"""DESIGN.md = design_head.md + per property: how it is decided, the units, what is bounded + design_tail.md"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from pyvc import vc

for f in sorted(glob.glob(HERE + "/contracts/*.py")):
    n = os.path.basename(f)[:-3]
    if n != "__init__":
        importlib.import_module("contracts." + n)
how = {}
cur = None
for line in open(HERE + "/tools/design_props.md"):
    if line.startswith("### "):
        cur = line[4:].split()[0]
        how[cur] = ""
    elif cur:
        how[cur] += line
out = open(HERE + "/tools/design_head.md").read()
for line in open(HERE + "/properties.jsonl"):
    p = json.loads(line)
    out += f"### {p['id']} {p['title']}\n\n{how.get(p['id'], '').strip()}\n\nUnits (contract on the real code -> functions run):\n\n"
    for u in vc.UNITS:
        if u.prop == p["id"]:
            out += f"* {u.name} -- `{', '.join(u.targets)}`\n"
    out += "\n"
out += open(HERE + "/tools/design_tail.md").read()
open(HERE + "/DESIGN.md", "w").write(out)
rows = ["| bug | property | how it is caught | needs |", "|---|---|---|---|"]
res = json.load(open(HERE + "/tools/bug_results.json")) if os.path.exists(HERE + "/tools/bug_results.json") else {}
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = d.split("/")[-2]
    rows.append(f"| {n} | {m['property']} | {res.get(n, 'caught')} | {m['needs'][:160]} |")
s = open(HERE + "/DESIGN.md").read().replace("BUGTABLE", "\n".join(rows))
open(HERE + "/DESIGN.md", "w").write(s)
