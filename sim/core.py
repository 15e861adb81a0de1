"""Core of the deterministic simulator.

A *plan* is a JSON value that fully determines one simulated execution: the
operations, their arguments, the seeds of every seam (hash order, RNG, thread
schedule) and the faults.  A scenario turns a PRNG into a plan (`gen`) and a
plan into an execution (`execute`).  Nothing in an execution may depend on
anything but the plan and the code in /repo.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("TN_REPO", "/repo")


def seed_int(*parts):
  h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
  return int.from_bytes(h[:8], "big")


def prng(*parts):
  return random.Random(seed_int(*parts))


def short_hash(obj):
  if not isinstance(obj, (bytes, str)):
    obj = json.dumps(obj, sort_keys=True, default=str)
  if isinstance(obj, str):
    obj = obj.encode()
  return hashlib.sha256(obj).hexdigest()[:16]


class Violation(Exception):
  """The property under test does not hold in this execution."""

  def __init__(self, sig, detail=""):
    super().__init__("%s: %s" % (sig, detail))
    self.sig = sig
    self.detail = str(detail)[:2000]


class SkipOp(Exception):
  """The operation does not apply in the current state."""


class RunTimeout(BaseException):
  pass


class Ctx:
  """Collects the event log, counters and the states reached by one run."""

  def __init__(self, keep_log=False):
    self.counters = {}
    self.states = set()
    self._log_hash = hashlib.sha256()
    self.events = 0
    self.log_lines = [] if keep_log else None
    self.nontrivial = False
    self.ticks = 0

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  def op(self, name):
    self.count("op:" + name)

  def fault(self, kind, n=1):
    self.count("fault:" + kind, n)

  def probe(self, name, n=1):
    self.count("probe:" + name, n)

  def state(self, obj):
    self.states.add(short_hash(obj))

  def log(self, *parts):
    line = " ".join(str(p) for p in parts)
    self.events += 1
    self._log_hash.update(line.encode("utf-8", "replace") + b"\n")
    if self.log_lines is not None:
      self.log_lines.append(line)

  def digest(self):
    return self._log_hash.hexdigest()[:16]


class Scenario:
  ID = None
  # (name, weight): fault-free and fault-injecting configurations run apart.
  CONFIGS = [("nofault", 1)]
  QUICK_RUNS = 2000
  QUICK_BUDGET = 75.0
  THOROUGH_RUNS = 10**9
  THOROUGH_BUDGET = 780.0
  RUN_LIMIT = 60.0
  PYTHON = "/opt/venv/bin/python"
  RULE = ""
  REAL = []
  STUB = []
  ASSUMPTIONS = []
  SIM_TIME_UNIT = "library operations"

  def setup(self):
    """Once per worker process, before the first run."""

  def gen(self, rng, cfg, tier):
    raise NotImplementedError

  def execute(self, plan, ctx):
    raise NotImplementedError

  # keys of `plan` that hold lists whose elements can be dropped
  SHRINK_LISTS = ("ops",)

  def simplify(self, plan):
    """Yield simpler variants of `plan` (beyond dropping list elements)."""
    return iter(())


def _alarm(signum, frame):
  raise RunTimeout()


def lib_in_traceback(tb):
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    if fn.startswith(REPO + "/"):
      return True
    tb = tb.tb_next
  return False


def innermost_lib_frame(tb):
  res = "?"
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    if fn.startswith(REPO + "/"):
      res = "%s:%s" % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
    tb = tb.tb_next
  return res


def run_plan(scn, plan, keep_log=False):
  """Execute a plan.  Returns (violation-or-None, ctx).

  Exceptions that pass through /repo code and that the scenario did not expect
  are violations ("a valid operation raised"), and so are results the model
  cannot read (never seen on a correct tree); other exceptions with no /repo
  frame are harness errors and propagate.
  """
  ctx = Ctx(keep_log)
  old = None
  try:
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, scn.RUN_LIMIT)
  except ValueError:
    old = None
  try:
    scn.execute(plan, ctx)
    return None, ctx
  except Violation as v:
    ctx.log("VIOLATION", v.sig)
    return v, ctx
  except RunTimeout:
    return Violation("no-progress",
                     "run did not finish within %s s" % scn.RUN_LIMIT), ctx
  except SkipOp:
    raise
  except Exception as e:  # pylint: disable=broad-except
    if lib_in_traceback(e.__traceback__):
      detail = "".join(
          traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
      v = Violation("unexpected-exception:" + type(e).__name__, detail)
      ctx.log("VIOLATION", v.sig)
      return v, ctx
    if isinstance(e, (TypeError, ValueError, AttributeError, LookupError,
                      ArithmeticError)):
      # a result that the reference model cannot even read
      detail = "".join(
          traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
      v = Violation("malformed-result:" + type(e).__name__, detail)
      ctx.log("VIOLATION", v.sig)
      return v, ctx
    raise
  finally:
    if old is not None:
      signal.setitimer(signal.ITIMER_REAL, 0)
      signal.signal(signal.SIGALRM, old)


def pick_config(scn, rng):
  if os.environ.get("SIM_CFG"):     # development only
    return os.environ["SIM_CFG"]
  total = sum(w for _, w in scn.CONFIGS)
  x = rng.random() * total
  for name, w in scn.CONFIGS:
    x -= w
    if x < 0:
      return name
  return scn.CONFIGS[-1][0]


def make_plan(scn, seed, index, tier):
  rng = prng(seed, scn.ID, index)
  cfg = pick_config(scn, rng)
  plan = scn.gen(rng, cfg, tier)
  plan["cfg"] = cfg
  plan["seed"] = seed
  plan["index"] = index
  return plan


def _sig_class(sig):
  return sig


def shrink(scn, plan, sig, budget_s=25.0, max_execs=600):
  """Delta-debug the plan while the same violation class persists."""
  t0 = time.monotonic()
  execs = [0]

  def fails(p):
    if execs[0] >= max_execs or time.monotonic() - t0 > budget_s:
      return False
    execs[0] += 1
    try:
      v, _ = run_plan(scn, p)
    except Exception:  # pylint: disable=broad-except
      return False
    return v is not None and _sig_class(v.sig) == _sig_class(sig)

  best = plan
  changed = True
  while changed and time.monotonic() - t0 < budget_s:
    changed = False
    for key in scn.SHRINK_LISTS:
      if key not in best or not isinstance(best[key], list):
        continue
      n = len(best[key])
      size = max(1, n // 2)
      while size >= 1:
        i = 0
        while i < len(best[key]):
          cand = dict(best)
          cand[key] = best[key][:i] + best[key][i + size:]
          if len(cand[key]) < len(best[key]) and fails(cand):
            best = cand
            changed = True
          else:
            i += size
        if size == 1:
          break
        size = max(1, size // 2)
    for cand in scn.simplify(best):
      if fails(cand):
        best = cand
        changed = True
        break
  return best, execs[0]
