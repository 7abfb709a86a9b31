"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when checks/<id>.py exists."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")},
                           ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']} quick",
            "thorough_cmd": f"./run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "model checking: " + p["technique"],
            "level": "model_checking",
            "level_note": "Every case within the bounds recorded in the evidence file was executed on the real code and "
                          "compared with a reference model; nothing is sampled. " + p["note"],
        })
    else:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import sys; assert sys.version_info >= (3, 8)'",
     "checks": checks, "not_applicable": na,
     "notes": "Level model_checking throughout: exhaustive enumeration of bounded spaces of files, operation sequences, "
              "faults and interleavings on the real code, against reference models in /verif/vlib and /verif/checks. "
              "No hooks in /repo are needed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
