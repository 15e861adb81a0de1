"""Simulated threads: one seeded schedule decides every interleaving.

Each task runs in a real thread, but only the thread that holds the baton
runs.  Line events (sys.monitoring) are counted in code of the library; when
the count of the current slice is used up, the baton goes to the task the plan
names.  `switches` is a list of [gap, choice]; after the
last one every task runs to its end.  Locks created by library code while the
simulator is installed are simulated as well, so that a thread that holds one
can be descheduled without blocking the simulator.
"""
import gc
import sys
import threading
import types

from sim.core import REPO, Violation

_PKG = REPO + "/tensornetwork/"
_RealLock = threading.Lock
_RealRLock = threading.RLock
_current = None  # the running Sched


class _Abort(BaseException):
  """Unwinds the other threads after a violation."""


class Sched:
  def __init__(self, switches, ctx, max_points=6000000, only=None,
               accesses=False):
    self.switches = [(max(1, int(g)), int(c)) for g, c in switches]
    self.pos = 0
    self.left = self.switches[0][0] if self.switches else None
    self.ctx = ctx
    self.only = only            # restrict the points to these file names
    self.accesses = accesses    # also switch at accesses of shared objects
    self.max_points = max_points
    self.points = 0
    self.switched = 0
    self.tasks = []
    self.done = []
    self.blocked = []           # lock a task waits for, or None
    self.sems = []
    self.cur = None
    self.main = threading.Semaphore(0)
    self.error = None
    self.abort = False
    self.where = []             # last library line per task
    self.files = {}

  # -- scheduling ----------------------------------------------------------
  def runnable(self):
    return [i for i in range(len(self.tasks)) if not self.done[i] and
            (self.blocked[i] is None or self.blocked[i].free(i))]

  def point(self, tid, code, line):
    """A place where the running task may be descheduled."""
    if self.abort:
      raise _Abort()
    self.points += 1
    if self.points > self.max_points:
      raise Violation("no-progress", "more than %d steps" % self.max_points)
    self.where[tid] = (code.co_name, line)
    if self.left is None:
      return
    self.left -= 1
    if self.left > 0:
      return
    choice = self.switches[self.pos][1]
    self.pos += 1
    self.left = self.switches[self.pos][0] if self.pos < len(
        self.switches) else None
    others = [i for i in self.runnable() if i != tid]
    if others:
      nxt = others[choice % len(others)]
      self.ctx.log("switch", tid, nxt, code.co_name, line)
      self.ctx.state(("sw", code.co_filename[len(_PKG):], line) +
                     tuple(self.where[nxt] or ()))
      self.switched += 1
      self.hand_over(tid, nxt)

  def hand_over(self, tid, nxt):
    self.cur = nxt
    self.sems[nxt].release()
    self.sems[tid].acquire()
    if self.abort:
      raise _Abort()

  def block(self, tid, lock):
    """The running task waits for `lock`."""
    self.blocked[tid] = lock
    nxt = [i for i in self.runnable() if i != tid]
    if not nxt:
      self.blocked[tid] = None
      raise Violation("deadlock", "every task waits for a lock: %s" %
                      [self.where[i] for i in range(len(self.tasks))])
    self.ctx.log("blocked", tid, nxt[0])
    self.hand_over(tid, nxt[0])
    self.blocked[tid] = None

  # -- tasks ---------------------------------------------------------------
  def on_line(self, code, line):
    fn = code.co_filename
    ok = self.files.get(fn)
    if ok is None:
      ok = fn.startswith(_PKG) and (self.only is None or
                                    fn.endswith(self.only))
      self.files[fn] = ok
    if ok and threading.get_ident() == self.idents[self.cur]:
      # the interpreter reports a line again after a call on it, depending on
      # how far it has specialised the code: such repetitions do not count
      last = self.last[self.cur]
      if last.get(code) != line:
        last[code] = line
        self.point(self.cur, code, line)

  def on_access(self, frame):
    """A shared object's attribute is read or written by library code."""
    if self.accesses and frame.f_code.co_filename.startswith(_PKG) and \
        threading.get_ident() == self.idents[self.cur]:
      self.point(self.cur, frame.f_code, frame.f_lineno)

  def on_start(self, code):
    if threading.get_ident() == self.idents[self.cur]:
      self.last[self.cur].pop(code, None)

  def _run(self, tid):
    self.sems[tid].acquire()
    try:
      if not self.abort:
        self.idents[tid] = threading.get_ident()
        self.tasks[tid]()
    except _Abort:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      if self.error is None:
        self.error = e
      self.abort = True
    self.done[tid] = True
    self.idents[tid] = None
    if self.abort:
      self.main.release()
      return
    nxt = self.runnable()
    if nxt:
      self.cur = nxt[0]
      self.ctx.log("end", tid, nxt[0])
      self.sems[nxt[0]].release()
    else:
      if not all(self.done):
        self.error = Violation("deadlock", "a lock was never released")
        self.abort = True
      self.main.release()

  def run(self, tasks, first=0):
    """Run all tasks to their end under the schedule."""
    global _current
    n = len(tasks)
    self.tasks = list(tasks)
    self.done = [False] * n
    self.blocked = [None] * n
    self.where = [None] * n
    self.idents = [None] * n
    self.last = [{} for _ in range(n)]
    self.sems = [threading.Semaphore(0) for _ in range(n)]
    threads = [threading.Thread(target=self._run, args=(i,), daemon=True)
               for i in range(n)]
    _current = self
    try:
      for t in threads:
        t.start()
      self.cur = first % n
      self.sems[self.cur].release()
      self.main.acquire()
    except BaseException:
      self.abort = True
      raise
    finally:
      self.abort = self.abort or not all(self.done)
      if self.abort:
        for s in self.sems:
          s.release()
      for t in threads:
        t.join(20)
      _current = None
    if self.error is not None:
      raise self.error
    self.ctx.count("threads:points", self.points)
    self.ctx.count("threads:switches", self.switched)
    return self.switched

  def tid(self):
    return self.cur


class SimLock:
  """A lock owned by a simulated task (or by nobody)."""

  def __init__(self, reentrant=False):
    self.owner = None
    self.count = 0
    self.reentrant = reentrant

  def _me(self):
    s = _current
    if s is None:
      return ("main",)
    return ("task", id(s), s.tid())

  def free(self, tid):
    return self.owner is None or (self.reentrant and
                                  self.owner[-1] == tid)

  def acquire(self, blocking=True, timeout=-1):
    del timeout
    me = self._me()
    while self.owner is not None and not (self.reentrant and
                                          self.owner == me):
      if not blocking:
        return False
      s = _current
      if s is None:
        raise Violation("deadlock", "a lock is taken twice")
      s.block(s.tid(), self)
    self.owner = me
    self.count += 1
    return True

  def release(self):
    if self.owner is None:
      raise RuntimeError("release unlocked lock")
    self.count -= 1
    if self.count == 0:
      self.owner = None

  def locked(self):
    return self.owner is not None

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *exc):
    self.release()


_TOOL = 4
_seen = set()


def _instrument(code):
  if code in _seen:
    return
  _seen.add(code)
  mon = sys.monitoring
  mon.set_local_events(_TOOL, code, mon.events.LINE | mon.events.PY_START)
  for c in code.co_consts:
    if isinstance(c, types.CodeType):
      _instrument(c)


def _line_event(code, line):
  s = _current
  if s is not None:
    s.on_line(code, line)


def _start_event(code, offset):
  del offset
  s = _current
  if s is not None:
    s.on_start(code)


def instrument():
  """Line events for all library code that is loaded, in all threads."""
  mon = sys.monitoring
  if mon.get_tool(_TOOL) is None:
    mon.use_tool_id(_TOOL, "sim")
    mon.register_callback(_TOOL, mon.events.LINE, _line_event)
    mon.register_callback(_TOOL, mon.events.PY_START, _start_event)
  for f in gc.get_objects():
    if type(f) is types.FunctionType and \
        f.__code__.co_filename.startswith(_PKG):
      _instrument(f.__code__)


def share(cls):
  """Reading or writing an attribute of an instance is a switch point."""
  get, put = cls.__getattribute__, cls.__setattr__

  def getattribute(self, name):
    s = _current
    if s is not None:
      s.on_access(sys._getframe(1))
    return get(self, name)

  def setattr_(self, name, value):
    s = _current
    if s is not None:
      s.on_access(sys._getframe(1))
    put(self, name, value)

  cls.__getattribute__, cls.__setattr__ = getattribute, setattr_


def warm_up(scn, n):
  """Fill the lazily made process-wide objects (jitted functions, backends).

  Without this the first run of a process would take other lines than later
  ones, and a replay in a fresh process another schedule.
  """
  from sim import core
  for i in range(n):
    plan = dict(core.make_plan(scn, 0, i, "quick"))
    plan["switches"] = []
    try:
      core.run_plan(scn, plan)
    except Exception:  # pylint: disable=broad-except
      pass


def cold_start():
  """Functions compiled on first use are compiled anew in every run.

  Their first use is part of the schedule then, in every run of a process.
  """
  mod = sys.modules.get("tensornetwork.ncon_interface")
  made = getattr(mod, "_CACHED_JITTED_NCONS", None)
  if isinstance(made, dict):
    made.clear()


def install_locks():
  """Locks that library code creates from now on are simulated."""

  def factory(real, reentrant):
    def make(*args, **kwargs):
      fn = sys._getframe(1).f_code.co_filename
      if fn.startswith(_PKG):
        return SimLock(reentrant)
      return real(*args, **kwargs)
    return make

  threading.Lock = factory(_RealLock, False)
  threading.RLock = factory(_RealRLock, True)


def gen_switches(rng, tier="quick", span=3000):
  """A schedule: none, a few far-apart switches, or many close ones."""
  mode = rng.random()
  if mode < 0.55:
    n = rng.randrange(1, 9 if tier == "quick" else 20)
    return [[int(2 ** rng.uniform(0, max(1.0, span.bit_length()))),
             rng.randrange(6)] for _ in range(n)]
  hi = rng.choice([2, 5, 15, 40, 120])
  n = rng.randrange(20, 200 if tier == "quick" else 800)
  return [[rng.randrange(1, hi + 1), rng.randrange(6)] for _ in range(n)]
