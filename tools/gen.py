#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS, NOT_CLAIMED  # noqa

NOTE = ("Generated-input search with an explicit oracle, Hypothesis generators, shrinking and JSON replay; deterministic "
        "given VERIF_SEED. Never establishes absence. Trusts the oracle code in checks/{id}.py, numpy/torch and the compiler.")
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in PROPS + [x for x, _ in NOT_CLAIMED]:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick",
                   "thorough_cmd": f"bash run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p.get("technique", "property-based testing (Hypothesis) against a reference model"),
                   "level": "exploration", "level_note": NOTE.format(id=p["id"]) + " " + p.get("note", "")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": p["id"], "reason": r} for p, r in NOT_CLAIMED],
     "notes": "Known findings: known_findings.json. Replay: bash run.sh <ID> --replay <file>."}
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
