#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (keeps them in step).

A property is claimed when checks/<id>.py exists and it is not in NA.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "tensornetwork/"
TECH = "deterministic simulation with seeded fault injection: "


def P(pid, title, statement, over, text, why, files, mechanism, tech, note,
      na=None):
  return dict(id=pid, title=title, statement=statement, over=over, text=text,
              why=why, files=files, mechanism=mechanism, tech=tech, note=note,
              na=na)


PROPS = []


def add(*a, **k):
  PROPS.append(P(*a, **k))


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())


def main():
  with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
      assert len(p["title"]) <= 80, p["title"]
      f.write(json.dumps({
          "id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]},
          "why_tests_cant": p["why"],
          "anchors": {"files": [T + x for x in p["files"]],
                      "mechanism": [{"name": n, "where": T + w}
                                    for n, w in p["mechanism"]]}}) + "\n")
  checks, na = [], []
  for p in PROPS:
    if p["na"]:
      na.append({"property": p["id"], "reason": p["na"]})
      continue
    if not os.path.exists(os.path.join(HERE, "checks",
                                       p["id"].lower() + ".py")):
      na.append({"property": p["id"],
                 "reason": "no check has been built yet"})
      continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run_check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH + p["tech"],
        "level": "exploration",
        "level_note": p["note"]})
  with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
               "setup_cmd": "python3 tools/setup.py",
               "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
  design(checks, na)
  print("%d properties, %d claimed" % (len(PROPS), len(checks)))


def design(checks, na):
  """DESIGN.md from tools/design_head.md, design_parts.py, catches.txt."""
  parts = {}
  exec(open(os.path.join(HERE, "tools", "design_parts.py")).read(), parts)
  text = open(os.path.join(HERE, "tools", "design_head.md")).read()
  claimed = {c["property"] for c in checks}
  out = []
  for p in PROPS:
    if p["id"] in claimed:
      out.append("### %s  %s\n\n%s\n* Why tests cannot settle it: %s.\n" % (
          p["id"], p["title"], parts["D"][p["id"]].strip(), p["why"]))
  text = text.replace("@@PROPS@@", "\n".join(out))
  text = text.replace("@@NA@@", "\n".join(
      "* %s: %s" % (x["property"], x["reason"]) for x in na) or "(none)")
  rows = ["| planted bug | property | caught by |", "|---|---|---|"]
  for line in open(os.path.join(HERE, "tools", "catches.txt")):
    if line.strip() and not line.startswith("#"):
      rows.append("| " + " | ".join(
          x.strip() for x in line.split("|")) + " |")
  text = text.replace("@@SEEDED@@", "\n".join(rows))
  with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text)


if __name__ == "__main__":
  main()
