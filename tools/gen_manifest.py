"""Writes MANIFEST.json from the property list and the suites that exist."""
import sys
sys.dont_write_bytecode = True
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "harness"), "/repo"]
import registry

NOT = {
}
NOTE = ("Decided by TLC on spec/: every recorded execution of the real code must be a behaviour the specification allows%s. "
        "Holds for the executions explored in this run; trusts TLC, the BigNum override (self-tested), the encoding of doubles "
        "as exact integers and the recording through the public API.")
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NOT or (p not in registry.SUITES and p not in registry.MODELS):
        continue
    mc = bool(registry.MODELS.get(p))
    tech = "TLA+ specification, TLC trace validation of recorded executions"
    if mc:
        tech = "TLA+ specification: TLC exhaustive model check, behaviours replayed into the code"
        if p in registry.SUITES:
            tech += ", trace validation of recorded executions"
    checks.append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p, technique=tech,
                       level="model_checking",
                       level_note=NOTE % (", and every behaviour of the bounded models is replayed into the code" if mc else "")))
claimed = {c["property"] for c in checks}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in claimed and p not in NOT:
        NOT[p] = "check not built yet"
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
               not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT.items())],
               notes="No hooks in /repo: everything is recorded through the public API. Known findings: known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", sorted(NOT))
