"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""

import json
import os

from props import PROPS, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/jaxoplanet/"

PROPS = [p for p in PROPS
         if os.path.exists(os.path.join(ROOT, f"checks/{p['id'].lower()}.py"))]

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS + [q for q, _ in NOT_APPLICABLE]:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": [S + x for x in p["files"]],
                "mechanism": [{"name": n, "where": S + w} for n, w in p["mech"]],
                "observe_at": p["at"],
                "hook_needed": None,
            },
        }) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        }
        for p in PROPS
    ],
    "not_applicable": [
        {"property": q["id"], "reason": r} for q, r in NOT_APPLICABLE
    ],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
