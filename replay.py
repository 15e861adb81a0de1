#!/usr/bin/env python3
"""replay.py FILE: re-executes a replay file; exit 1 if it fails the same way."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_check  # noqa: E402


def main():
  path = os.path.abspath(sys.argv[1])
  rec = json.load(open(path))
  meta, err = run_check.meta_of(rec["property"])
  if meta is None:
    print(err)
    return 1
  res = run_check.replay(meta["PYTHON"], path)
  for line in res.get("log") or []:
    print(line)
  print(json.dumps({k: v for k, v in res.items() if k != "log"}, indent=1))
  if "harness_error" in res:
    return 2
  return 1 if res["sig"] is not None else 0


if __name__ == "__main__":
  sys.exit(main())
