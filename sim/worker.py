"""Runs a slice of seeds in one process and writes JSON lines to stdout."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core  # noqa: E402


def load(pid):
  mod = importlib.import_module("checks." + pid.lower())
  return mod.SCENARIO()


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("pid")
  ap.add_argument("--seed", type=int, default=1)
  ap.add_argument("--start", type=int, default=0)
  ap.add_argument("--step", type=int, default=1)
  ap.add_argument("--runs", type=int, default=100)
  ap.add_argument("--budget", type=float, default=60)
  ap.add_argument("--tier", default="quick")
  ap.add_argument("--digests", action="store_true")
  ap.add_argument("--stop-on-violation", type=int, default=1)
  a = ap.parse_args()
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)  # anything the library prints goes to stderr

  def emit(**kw):
    out.write(json.dumps(kw, default=str) + "\n")
    out.flush()

  t0 = time.monotonic()
  try:
    scn = load(a.pid)
    scn.setup()
  except Exception as e:  # pylint: disable=broad-except
    # the library cannot even be imported or prepared
    if core.lib_in_traceback(e.__traceback__):
      emit(type="violation", sig="setup-failed:" + type(e).__name__,
           detail=traceback.format_exc()[-1800:], plan=None)
      return
    emit(type="harness_error", error=traceback.format_exc())
    return
  counters = {}
  plan_hashes = set()
  state_hashes = set()
  digest_set = set()
  samples = []
  done = 0
  nontriv = set()
  ticks = 0
  rechecks = 0
  for k in range(a.runs):
    if time.monotonic() - t0 > a.budget:
      break
    idx = a.start + k * a.step
    try:
      plan = core.make_plan(scn, a.seed, idx, a.tier)
      viol, ctx = core.run_plan(scn, plan)
    except Exception:  # pylint: disable=broad-except
      emit(type="harness_error", error=traceback.format_exc(), index=idx)
      return
    done += 1
    for c, n in ctx.counters.items():
      counters[c] = counters.get(c, 0) + n
    counters["cfg:" + plan["cfg"]] = counters.get("cfg:" + plan["cfg"], 0) + 1
    ticks += ctx.ticks
    ph = core.short_hash({k2: v for k2, v in plan.items() if k2 not in (
        "seed", "index")})
    plan_hashes.add(ph)
    if ctx.nontrivial:
      nontriv.add(ph)
    if len(state_hashes) < 400000:
      state_hashes |= ctx.states
    digest_set.add(ctx.digest())
    if a.digests:
      emit(type="digest", index=idx, digest=ctx.digest(), events=ctx.events)
    if len(samples) < 1 and ctx.nontrivial:
      samples.append(plan)
    if viol is None and k % int(os.environ.get("SIM_RECHECK", "97")) == 5 % int(os.environ.get("SIM_RECHECK", "97")):
      # same seed, same process, again: the event logs must agree
      rechecks += 1
      v2, ctx2 = core.run_plan(scn, plan)
      if v2 is not None or ctx2.digest() != ctx.digest():
        emit(type="nondeterminism", index=idx,
             first=ctx.digest(), second=ctx2.digest(),
             viol=None if v2 is None else v2.sig)
        if v2 is not None:
          viol = v2
    if viol is not None:
      small, execs = core.shrink(scn, plan, viol.sig)
      v3, _ = core.run_plan(scn, small)
      if v3 is None:
        small, v3 = plan, viol
      emit(type="violation", sig=v3.sig, detail=v3.detail, plan=small,
           orig_plan=plan, index=idx, shrink_execs=execs)
      if a.stop_on_violation:
        break
  emit(type="summary", done=done, counters=counters,
       plans=sorted(plan_hashes), nontriv=sorted(nontriv),
       states=len(state_hashes), state_list=sorted(state_hashes)[:60000],
       digests=sorted(digest_set), samples=samples, ticks=ticks,
       rechecks=rechecks, wall=time.monotonic() - t0)


if __name__ == "__main__":
  main()
