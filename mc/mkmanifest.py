#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

NOTE = (
    "Every execution of the listed bounded programs within the stated scheduling bound is run on the real code and "
    "judged; nothing is sampled. Trusted: the facades' semantics, the reference models, and that a defect shows within "
    "the enumerated programs, bounds and execution caps (the evidence lists jobs stopped at a cap)."
)
HOOK = os.popen("git -C /repo log --format=%H --grep='^hook' --reverse").read().split()
checks = []
ids = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
for i in ids:
    s = props.PROPS[i]
    checks.append(
        {
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "technique": s["technique"],
            "level": "model_checking",
            "level_note": s.get("note", NOTE),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "hooks": {
        "guard": "--cfg dam_mc",
        "enable": "RUSTFLAGS='--cfg dam_mc' on a copy of /repo's sources with the synchronisation crates replaced by "
        "facades (mc/mkws.py)",
        "source_commits": HOOK,
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Known findings: known/findings.jsonl. Design and coverage: DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
