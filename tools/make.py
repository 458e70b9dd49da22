#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list in tools/props_*.py. Run after editing; both are committed."""

import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
import props_core  # noqa: E402

try:
    import props_exp  # noqa: E402

    EXP = props_exp.PROPS
except ImportError:
    EXP = []

ALL = props_core.PROPS + EXP
with open(ROOT / "properties.jsonl", "w") as f:
    for p in ALL:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(
            json.dumps(
                {
                    "id": p["id"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["for_all"]},
                    "why_tests_cant": p["why"],
                    "anchors": {
                        "files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": p["observe"],
                        "hook_needed": None,
                    },
                }
            )
            + "\n"
        )
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": p.get("level", "exploration"),
            "level_note": p["note"],
        }
        for p in ALL
    ],
    "not_applicable": [],
    "notes": "All checks: seeded Hypothesis generation in 8 processes, explicit oracle, shrinking, replay file confirmed in a fresh process (./check ID --replay FILE). The code under test is imported from /repo's source on every run; nothing is built. No hooks in /repo.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(ALL), "properties")
