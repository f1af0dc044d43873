#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from claims import CLAIMS, NA  # noqa
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in CLAIMS:
        note, thms = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd="./check %s --tier quick" % p, thorough_cmd="./check %s --tier thorough" % p,
            technique="contract-based deductive verification of the real Go source (govc: weakest-precondition style obligations from go/ssa, discharged by z3/cvc5)",
            level="proof", level_note=note, evidence_file="evidence/%s.json" % p, theorems=thms))
na = [dict(property=p, reason=NA.get(p, "not claimed yet: contracts in progress")) for p in props if p not in CLAIMS]
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo. The checks read /repo's working tree: govc loads the packages from source on every run, the replay harness is laid over them with go test -overlay. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
