#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks are those with a module in harness/."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
 "C01": "Walks of a polynomial machine: every program of one operation, random programs of 16 (30) operations; TLC checks ring laws on the specification. Exact in dyadic rationals.",
}
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        cmd = f"/opt/venv/bin/python run_check.py {i}"
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough", evidence_file=f"evidence/{i}.json",
            technique="TLA+ specification checked with TLC; its behaviours replayed on, and traces recorded from, the real code",
            level="model_checking", level_note=NOTE.get(i, "Model checking of the specification within small constants; conformance by replay.")))
    else:
        na.append(dict(property=i, reason="Not claimed yet: the check is being built."))
json.dump(dict(version=1,
    setup_cmd="/opt/venv/bin/python harness/setup.py",
    checks=checks, not_applicable=na,
    notes="TLA+ with TLC. No hooks are needed in /repo: the public API exposes the abstract state."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
