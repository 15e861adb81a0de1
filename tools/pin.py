"""pin.py REPLAY NAME: keep the plan of a replay as pinned/<NAME>.json."""
import json
import os
import sys
rec = json.load(open(sys.argv[1]))
out = {k: rec[k] for k in ("property", "plan", "violation") if k in rec}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "pinned", sys.argv[2] + ".json"), "w") as f:
  json.dump(out, f, indent=1)
  f.write("\n")
