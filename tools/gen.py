"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import NOT_APPLICABLE, PROPS  # noqa

TECH = "bounded symbolic execution of the real Python code with proxy values; Z3 decides every branch and assertion"


def main():
  with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
      f.write(json.dumps({
          "id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]},
          "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                      "observe_at": p.get("observe", [])},
      }) + "\n")
  checks = []
  for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
      continue
    cmd = f"/opt/venv/bin/python run.py check {p['id']} --tier "
    checks.append({
        "property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p.get("technique", TECH), "level": "other", "level_note": p["level_note"],
    })
  man = {
      "version": 1,
      "setup_cmd": "/opt/venv/bin/python run.py setup",
      "hooks": {"guard": "none", "enable": "no hooks: /repo carries only fix: commits", "source_commits": []},
      "checks": checks,
      "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
      "notes": "Level 'other' = bounded symbolic checking: every assertion is decided by Z3 for all values within the stated bounds; "
               "evidence/<id>.json gives harness bounds, encoded functions, queries and solver time of the run.",
  }
  with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


main()
