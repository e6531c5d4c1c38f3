"""Writes properties.jsonl and MANIFEST.json: the claimed properties (those with a check module)
and the ones model checking cannot reach here."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from propdata import NA, PROPS  # noqa: E402

ids = set()
lines, checks, na = [], [], []
for p in PROPS + NA:
    assert p["id"] not in ids, p["id"]
    ids.add(p["id"])
    claimed = os.path.exists(os.path.join(V, "mc", "checks", p["id"].lower() + ".py"))
    if p in PROPS and not claimed:
        print("no check yet:", p["id"])
        continue
    assert len(p["title"]) <= 80, p["title"]
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
    lines.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None},
    })
    if p in PROPS:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 mc/run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 mc/run.py %s --tier thorough" % p["id"],
            "technique": p["tech"], "level": "model_checking", "level_note": p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
m = {"version": 1, "setup_cmd": "python3 mc/build.py plain inst full", "checks": checks,
     "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
