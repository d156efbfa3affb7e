"""Writes DESIGN.md from design_text.py, properties.jsonl and what the harnesses declare."""

import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import symx  # noqa
from symx import registry  # noqa
from tools.design_text import HEAD, OBS, TEXT  # noqa
from tools.props import NOT_APPLICABLE, PROPS  # noqa


def main():
  registry._load_all()
  out = [HEAD]
  for p in PROPS:
    out.append(f"**{p['id']} {p['title']}.** {p['statement']}\n")
    t = TEXT.get(p["id"], "").strip()
    if p["id"] in NOT_APPLICABLE:
      t = "Not applicable: " + NOT_APPLICABLE[p["id"]]
    if t:
      out.append("*How:* " + t + "\n")
  out.append("## 3. Not applicable\n")
  out.append("\n".join(f"- {k}: {v}" for k, v in NOT_APPLICABLE.items()) or
             "No property is listed as not applicable: each one above is decided by solver queries over the real\n"
             "code, within the bounds of section 4.  What lies outside them is not claimed.")
  out.append("\n## 4. Harnesses and bounds\n\nBudgets are the seconds the quick and the thorough tier may use.  `py` = symbolic execution of\n"
             "Python, `custom` = an own encoding (LLVM IR or floating point, see section 1).\n")
  for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
      continue
    out.append(f"### {p['id']}\n")
    for h in registry._REG[p["id"]]:
      b = " ".join((h.bounds or "").split())
      st = getattr(h, "stubs", None)
      st = "" if not st else " Stubs: " + ("; ".join(st) if not isinstance(st, str) else st) + "."
      out.append(f"- `{h.name}` ({h.engine}, {h.quick_s}/{h.thorough_s} s): {b}.{st}".replace("..", "."))
    out.append("")
  out.append(OBS)
  out.append("## 7. Planted bugs\n\nOne directory each in `seeded/`; every one builds, passes the stable tests and has a demonstration\n"
             "that fails with it.  The check named is the one that reports it (quick tier).\n")
  for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out.append(f"- `{os.path.basename(os.path.dirname(d))}`: {m['what_it_breaks']}; needs {m['needs']}. "
               f"{'Caught by ' + m['property'] if m.get('caught', True) else 'Not caught'}.")
  with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")


main()
