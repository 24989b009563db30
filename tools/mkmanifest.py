"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
        missing.append(dict(property=pid, reason="check not built yet"))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd="./check.sh " + pid,
        thorough_cmd="VERIF_TIER=thorough ./check.sh " + pid,
        evidence_file="evidence/%s.json" % pid,
        technique="runtime monitoring: the real code is run on generated realistic, hostile and stress workloads while recorders and oracles (reference models, invariants, metamorphic relations) judge every observed execution",
        level="exploration",
        level_note="held on all executions observed; sampled inputs, not exhaustive",
    ))
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c \"import numpy, pandas, scipy, sklearn, numba, numexpr\"",
    checks=checks,
    not_applicable=missing,
    notes="Every check imports the package from /repo's working tree, writes evidence/<id>.json and evidence/replay/*, and honours VERIF_SEED, VERIF_TIER, VERIF_BUDGET (seconds) and VERIF_PROCS. Replay a violation with ./check.sh <id> --replay <file>.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "without")
