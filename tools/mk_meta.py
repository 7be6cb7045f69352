"""Writes properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta import NOT_APPLICABLE, PROPS  # noqa: E402

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w}
                              for n, w in p["mechanism"]],
                "observe_at": [p["observe"]],
            },
        }) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(ROOT, "props",
                                       p["id"].lower() + ".py")):
        print("no check for", p["id"])
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick ./check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
        "technique": "property-based testing: " + p["technique"],
        "level": "exploration",
        "level_note": p["note"],
        "evidence_file": "evidence/%s.json" % p["id"],
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "All checks import tespy from /repo/src (pure python, "
                 "nothing to build) and run offline; VERIF_SEED selects the "
                 "generated cases.",
    }, f, indent=1)
    f.write("\n")
