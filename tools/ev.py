"""Prints one line per harness of the evidence files given."""
import json, sys
for p in sys.argv[1:]:
  d = json.load(open(f"/verif/evidence/{p}.json"))
  for k, h in d["coverage"]["harnesses"].items():
    print(p, k, "EXH" if h.get("exhausted_within_bounds") else "cut", "paths", h.get("paths"), "checks", h.get("checks"), f"{h.get('wall_s', 0):.0f}s", h.get("prune_reasons") or "", (h.get("error") or "")[-200:])
