"""Executes one replay file in this process; prints a JSON verdict."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core, worker  # noqa: E402


def main():
  rec = json.load(open(sys.argv[1]))
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)
  try:
    scn = worker.load(rec["property"])
    scn.setup()
    viol, ctx = core.run_plan(scn, rec["plan"], keep_log=True)
  except Exception as e:  # pylint: disable=broad-except
    if core.lib_in_traceback(e.__traceback__):
      out.write(json.dumps({"sig": "setup-failed:" + type(e).__name__,
                            "detail": traceback.format_exc()[-1500:],
                            "digest": "", "log": []}))
      return
    out.write(json.dumps({"harness_error": traceback.format_exc()}))
    return
  out.write(json.dumps({
      "sig": None if viol is None else viol.sig,
      "detail": None if viol is None else viol.detail,
      "digest": ctx.digest(),
      "log": ctx.log_lines,
  }, default=str))
  out.flush()


if __name__ == "__main__":
  main()
