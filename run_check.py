#!/usr/bin/env python3
"""Entry point of every check: run_check.py <ID> [--tier quick|thorough].

exit 0: the property held on everything explored.
exit 1: a line `VIOLATION property=<id> replay=<path>` was printed.
exit 2: the check itself failed (harness error); no statement is made.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import core  # noqa: E402
from sim import known  # noqa: E402

REPO = core.REPO


def child_env(extra=None):
  env = dict(os.environ)
  env.update({
      "PYTHONPATH": REPO + os.pathsep + HERE,
      "PYTHONHASHSEED": "0",
      "PYTHONDONTWRITEBYTECODE": "1",
      "OMP_NUM_THREADS": "1",
      "OPENBLAS_NUM_THREADS": "1",
      "MKL_NUM_THREADS": "1",
      "TF_CPP_MIN_LOG_LEVEL": "3",
      "TF_USE_LEGACY_KERAS": "1",
      "CUDA_VISIBLE_DEVICES": "",
      "JAX_PLATFORMS": "cpu",
      "PYTHONWARNINGS": "ignore",
  })
  env.update(extra or {})
  return env


def meta_of(pid):
  """Static facts about a scenario (importing it needs /repo's interpreter)."""
  code = ("import json,sys;from sim import worker;s=worker.load(%r);"
          "print('META'+json.dumps({k:getattr(s,k) for k in "
          "('PYTHON','QUICK_RUNS','QUICK_BUDGET','THOROUGH_RUNS',"
          "'THOROUGH_BUDGET','RULE','REAL','STUB','ASSUMPTIONS','RUN_LIMIT',"
          "'SIM_TIME_UNIT')}))" % pid)
  mod = open(os.path.join(HERE, "checks", pid.lower() + ".py")).read()
  py = core.Scenario.PYTHON
  if "PYTHON = VENV_JAX" in mod:
    py = "/opt/venv-jax/bin/python"
  r = subprocess.run([py, "-c", code], cwd=HERE, env=child_env(),
                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                     timeout=300, check=False)
  for line in r.stdout.splitlines():
    if line.startswith("META"):
      m = json.loads(line[4:])
      m["PYTHON"] = py
      return m, None
  return None, r.stderr[-3000:]


def replay(py, path, timeout=200):
  r = subprocess.run([py, os.path.join(HERE, "sim", "replay_one.py"), path],
                     cwd=HERE, env=child_env(), stdout=subprocess.PIPE,
                     stderr=subprocess.PIPE, text=True, timeout=timeout,
                     check=False)
  try:
    return json.loads(r.stdout)
  except ValueError:
    return {"harness_error": r.stdout[-500:] + r.stderr[-2000:]}


def write_replay(pid, rec, tag):
  d = os.path.join(HERE, "replays", pid)
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, tag + ".json")
  with open(path, "w") as f:
    json.dump(rec, f, indent=1, default=str)
  return path


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("pid")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--seed", type=int,
                  default=int(os.environ.get("VERIF_SEED", "1")))
  ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
  ap.add_argument("--runs", type=int, default=None)
  ap.add_argument("--budget", type=float, default=None)
  a = ap.parse_args()
  pid = a.pid.upper()
  t0 = time.monotonic()
  print("check %s tier=%s VERIF_SEED=%d repo=%s" % (pid, a.tier, a.seed, REPO))
  meta, err = meta_of(pid)
  violations = []  # (sig, detail, path)
  harness_errors = []
  if meta is None:
    if REPO + "/" in (err or "") and "checks/" in err:
      # the library does not import: every property about it is broken
      path = write_replay(pid, {"property": pid, "plan": None,
                                "violation": "import failed", "detail": err},
                          "import")
      print(err, file=sys.stderr)
      print("VIOLATION property=%s replay=%s" % (pid, path))
      return 1
    print("HARNESS-ERROR", err, file=sys.stderr)
    return 2
  py = meta["PYTHON"]
  quick = a.tier != "thorough"
  runs = a.runs or (meta["QUICK_RUNS"] if quick else meta["THOROUGH_RUNS"])
  budget = a.budget or (meta["QUICK_BUDGET"] if quick
                        else meta["THOROUGH_BUDGET"])

  # 1. pinned plans: defects fixed in /repo, known findings, past catches.
  pinned_dir = os.path.join(HERE, "pinned")
  pinned = sorted(f for f in os.listdir(pinned_dir)
                  if f.startswith(pid + "-") and f.endswith(".json"))
  listed = known.load(os.path.join(HERE, "known_findings.txt"))
  pinned_done = 0

  def do_pinned(f):
    return f, replay(py, os.path.join(pinned_dir, f))

  if pinned:
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(a.workers) as ex:
      results = list(ex.map(do_pinned, pinned))
    for f, res in results:
      pinned_done += 1
      if "harness_error" in res:
        harness_errors.append("pinned %s: %s" % (f, res["harness_error"]))
      elif res["sig"] is not None:
        kf = known.match(listed, pid, res["sig"], f)
        if kf is not None:
          print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
        else:
          rec = json.load(open(os.path.join(pinned_dir, f)))
          rec["violation"], rec["detail"] = res["sig"], res["detail"]
          rec["log"] = res["log"]
          violations.append((res["sig"], res["detail"],
                             write_replay(pid, rec, "pinned-" + f[:-5])))

  # 2. seeded search.
  nw = max(1, min(a.workers, runs))
  per = [runs // nw + (1 if w < runs % nw else 0) for w in range(nw)]
  procs = []
  scratch = tempfile.mkdtemp(prefix="tnsim-")
  stop = threading.Event()
  results = [[] for _ in range(nw)]
  errlogs = []

  def reader(w, p):
    for line in p.stdout:
      try:
        m = json.loads(line)
      except ValueError:
        continue
      results[w].append(m)
      if m["type"] == "violation":
        stop.set()

  threads = []
  for w in range(nw):
    ef = open(os.path.join(scratch, "err%d" % w), "w+")
    errlogs.append(ef)
    p = subprocess.Popen(
        [py, "-m", "sim.worker", pid, "--seed", str(a.seed), "--start", str(w),
         "--step", str(nw), "--runs", str(per[w]), "--budget", str(budget),
         "--tier", a.tier],
        cwd=HERE, env=child_env({"TNSIM_SCRATCH": scratch}),
        stdout=subprocess.PIPE, stderr=ef, text=True)
    procs.append(p)
    t = threading.Thread(target=reader, args=(w, p), daemon=True)
    t.start()
    threads.append(t)
  hard = time.monotonic() + budget + 2 * meta["RUN_LIMIT"] + 60
  stop_at = None
  while any(p.poll() is None for p in procs):
    time.sleep(0.1)
    now = time.monotonic()
    if stop.is_set() and stop_at is None:
      stop_at = now + 2.0
    if (stop_at and now > stop_at) or now > hard:
      for p in procs:
        if p.poll() is None:
          p.kill()
      break
  timed_out = time.monotonic() > hard and not stop.is_set()
  for p in procs:
    p.wait()
  for t in threads:
    t.join(10)

  done = 0
  ticks = 0
  counters = {}
  plans, nontriv, states, digests = set(), set(), set(), set()
  samples = []
  nondet = 0
  rechecks = 0
  for w in range(nw):
    summ = None
    for m in results[w]:
      if m["type"] == "summary":
        summ = m
      elif m["type"] == "harness_error":
        harness_errors.append(m["error"])
      elif m["type"] == "nondeterminism":
        nondet += 1
        print("NONDETERMINISM", m, file=sys.stderr)
      elif m["type"] == "violation":
        kf = known.match(listed, pid, m["sig"], None)
        if kf is not None:
          continue
        rec = {"property": pid, "seed": a.seed, "index": m.get("index"),
               "plan": m["plan"], "violation": m["sig"],
               "detail": m["detail"], "orig_plan": m.get("orig_plan")}
        tag = "v-%s" % core.short_hash([m["sig"], m["plan"]])
        path = write_replay(pid, rec, tag)
        if m["plan"] is not None:
          # replay in a fresh process
          res = replay(py, path)
          rec["fresh_replay"] = {k: res.get(k) for k in ("sig", "digest")}
          if res.get("sig") != m["sig"] and m.get("orig_plan"):
            rec["plan"] = m["orig_plan"]
            path = write_replay(pid, rec, tag)
            res = replay(py, path)
            rec["fresh_replay"] = {k: res.get(k) for k in ("sig", "digest")}
          rec["log"] = res.get("log")
          path = write_replay(pid, rec, tag)
        violations.append((m["sig"], m["detail"], path))
    if summ is None:
      if not stop.is_set():
        errlogs[w].seek(0)
        harness_errors.append("worker %d ended without a summary: %s" %
                              (w, errlogs[w].read()[-1500:]))
      continue
    done += summ["done"]
    ticks += summ["ticks"]
    rechecks += summ["rechecks"]
    for c, n in summ["counters"].items():
      counters[c] = counters.get(c, 0) + n
    plans |= set(summ["plans"])
    nontriv |= set(summ["nontriv"])
    states |= set(summ["state_list"])
    digests |= set(summ["digests"])
    if len(samples) < 3:
      samples += summ["samples"]
  for ef in errlogs:
    ef.close()
    os.unlink(ef.name)
  for root, dirs, files in os.walk(scratch, topdown=False):
    for f in files:
      os.unlink(os.path.join(root, f))
    for dd in dirs:
      os.rmdir(os.path.join(root, dd))
  os.rmdir(scratch)
  if timed_out:
    harness_errors.append("workers exceeded the hard time limit")

  wall = time.monotonic() - t0
  faults = {c[6:]: n for c, n in sorted(counters.items())
            if c.startswith("fault:")}
  ops = {c[3:]: n for c, n in sorted(counters.items()) if c.startswith("op:")}
  probes = {c[6:]: n for c, n in sorted(counters.items())
            if c.startswith("probe:")}
  cfgs = {c[4:]: n for c, n in sorted(counters.items())
          if c.startswith("cfg:")}
  ev = {
      "property": pid,
      "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
      "seed": a.seed,
      "level": "exploration",
      "coverage": {
          "evaluations": done + pinned_done,
          "distinct_nontrivial": len(nontriv),
          "rule": meta["RULE"],
          "samples": samples[:3],
          "simulated_runs": done,
          "pinned_replays": pinned_done,
          "runs_per_hour": round(done / wall * 3600) if wall else 0,
          "runs_by_configuration": cfgs,
          "simulated_time": {"unit": meta["SIM_TIME_UNIT"], "total": ticks},
          "faults_injected": faults,
          "operations": ops,
          "probes": probes,
          "distinct_plans": len(plans),
          "distinct_event_logs": len(digests),
          "distinct_states": len(states),
          "state_measure": "hash of the abstract state the oracle sees after "
                           "each step (capped per worker)",
          "determinism_rechecks": rechecks,
          "determinism_mismatches": nondet,
          "real_components": meta["REAL"],
          "stubbed_components": meta["STUB"],
          "workers": nw,
      },
      "assumptions": meta["ASSUMPTIONS"],
      "wall_s": round(wall, 2),
      "violations": len(violations),
  }
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
    json.dump(ev, f, indent=1, default=str)
  print("%s: %d runs (%d distinct non-trivial), %d states, faults=%s, "
        "%.1f s" % (pid, done, len(nontriv), len(states), faults, wall))
  if violations:
    seen = set()
    for sig, detail, path in violations:
      if sig in seen:
        continue
      seen.add(sig)
      print("violated: %s\n%s" % (sig, detail))
      print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
  if harness_errors:
    for e in harness_errors[:3]:
      print("HARNESS-ERROR", e, file=sys.stderr)
    return 2
  if nondet:
    print("HARNESS-ERROR nondeterministic replay", file=sys.stderr)
    return 2
  if done == 0:
    print("HARNESS-ERROR nothing ran", file=sys.stderr)
    return 2
  return 0


if __name__ == "__main__":
  sys.exit(main())
