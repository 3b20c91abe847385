#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the property table of DESIGN.md from tools/props.py."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import P, NOT_APPLICABLE, DECIDES  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in P:
    if p["id"] in na:
        continue
    assert os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py")), p["id"]
    checks.append(dict(
        property=p["id"], quick_cmd="./check.py %s --tier quick" % p["id"], thorough_cmd="./check.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the Python source + SMT (z3), all paths within bounds", level="model_checking",
        level_note="Every path of the real code is executed with symbolic numbers and every assertion is decided by the solver for all values within the bounds (%s); "
                   "floats are treated as exact reals; trusts the symbolic interpreter (symx), z3, and that the runs sampled and replayed on the unmodified code are representative." % p["note"]))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NOT_APPLICABLE,
           notes="One harness per property in harness/; the engine is symx/; no hooks in /repo. Counterexamples are replayed on the unmodified code before VIOLATION is printed.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
d = os.path.join(HERE, "DESIGN.md")
if os.path.exists(d):
    rows = []
    for p in P:
        if p["id"] in na:
            continue
        rows.append("| %s | %s | %s | %s |" % (p["id"], p["title"], DECIDES[p["id"]], p["note"]))
    text = open(d).read()
    text = re.sub(r"(<!-- table -->\n).*?(<!-- /table -->)", lambda m: m.group(1) + "| id | property | how it is decided (`harness/p<nn>.py`) | bounds (details in the evidence) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + m.group(2), text, flags=re.S)
    seeds = []
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))) if os.path.isdir(os.path.join(HERE, "seeded")) else []:
        meta = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
        seeds.append("| %s | %s | %s |" % (s, meta["property"], meta["needs"].replace("|", "/")))
    text = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "".join(x + "\n" for x in seeds) + m.group(2), text, flags=re.S)
    open(d, "w").write(text)
print(len(P), "properties,", len(checks), "checks")
