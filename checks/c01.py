"""C01: a with-block's backend or collection is in effect exactly inside it."""
import contextvars
import random

from sim import core
from sim import scopes
from sim.scopes import ScopeSim, gen_scope_ops
from sim.seams import hash_order, seeded_numpy
from sim.threads import (Sched, gen_switches, install_locks, instrument,
                         warm_up)


class C01(core.Scenario):
  ID = "C01"
  CONFIGS = [("single", 1), ("threads", 3), ("tasks", 1)]
  QUICK_RUNS = 40000
  QUICK_BUDGET = 38.0
  SHRINK_LISTS = ("switches", "order", "prog0", "prog1", "prog2")
  RULE = ("A run is one to three programs of nested backend and collection "
          "blocks, left normally or by an exception, with constructions in "
          "between; the programs run in one thread, in threads that a seeded "
          "schedule interleaves at library lines, or as tasks with their own "
          "context; non-trivial: a block was entered.")
  REAL = ["DefaultBackend, NodeCollection, set_default_backend",
          "Node, CopyNode, Tensor, FiniteMPS, ncon", "real threads"]
  STUB = ["the thread scheduler (seeded, one thread runs at a time)",
          "the task scheduler (seeded)", "a backend whose conversion fails"]
  ASSUMPTIONS = ["blocks of one thread are properly nested",
                 "threads switch at line boundaries of library "
                 "code; numpy calls are atomic"]

  def setup(self):
    install_locks()
    import numpy as np
    import tensornetwork as tn
    from tensornetwork.backends import backend_factory
    tn.ncon([np.ones((2, 2))], [(-1, -2)])
    backend_factory.get_backend("symmetric")
    for b in scopes.backends()[:4]:
      if b != "symmetric":
        tn.ncon([np.ones((2, 2))], [(-1, -2)], backend=b)
    instrument()
    warm_up(self, 20)

  def gen(self, rng, cfg, tier):
    n = {"single": 1}.get(cfg) or rng.choice([2, 2, 3])
    plan = {"data_seed": rng.getrandbits(32), "switches": [], "order": [], "n": n}
    for i in range(n):
      plan["prog%d" % i] = gen_scope_ops(
          rng, rng.randrange(6, 40 if cfg == "single" else 22))
    if cfg == "threads":
      plan["switches"] = gen_switches(
          rng, tier, span=400)
    elif cfg == "tasks":
      plan["order"] = [rng.randrange(n) for _ in range(60)]
    return plan

  def execute(self, plan, ctx):
    import tensornetwork as tn
    shared = {"default": "numpy", "settable": plan["cfg"] != "threads"}
    tn.set_default_backend("numpy")
    n = plan["n"]
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]):
      sims = [ScopeSim(dict(plan, data_seed=plan["data_seed"] + i), ctx,
                       shared, i) for i in range(n)]

      def program(i):
        for op in plan["prog%d" % i]:
          sims[i].step(op)
        sims[i].finish()

      try:
        if plan["cfg"] == "single":
          contextvars.copy_context().run(program, 0)
        elif plan["cfg"] == "threads":
          Sched(plan["switches"], ctx).run(
              [lambda i=i: program(i) for i in range(n)])
          self.outside(tn, shared)
        else:
          self.tasks(plan, sims, ctx)
          self.outside(tn, shared)
      finally:
        self.reset(tn)

  @staticmethod
  def outside(tn, shared):
    """The thread that entered no block sees none."""
    got = tn.backend_contextmanager.get_default_backend()
    if got is not shared["default"] and got != shared["default"]:
      raise core.Violation("default-changed-outside", repr(got))
    box = []
    with tn.NodeCollection(box):
      pass
    tn.CopyNode(2, 2)
    if box:
      raise core.Violation("collected-outside", "")

  @staticmethod
  def tasks(plan, sims, ctx):
    ctxs = [contextvars.copy_context() for _ in sims]
    todo = [list(plan["prog%d" % i]) for i in range(len(sims))]
    order = list(plan["order"])
    while any(todo):
      live = [i for i in range(len(sims)) if todo[i]]
      i = live[order.pop(0) % len(live)] if order else live[0]
      ctxs[i].run(sims[i].step, todo[i].pop(0))
    for i, s in enumerate(sims):
      ctxs[i].run(s.finish)

  @staticmethod
  def reset(tn):
    """A violation must not leak into the next run of this process."""
    for mod, name in ((tn.backend_contextmanager, "_default_backend_stack"),
                      (tn.ops, "_default_collection_stack")):
      st = getattr(mod, name, None)
      while st is not None and len(getattr(st, "stack", ())) > 0:
        before = len(st.stack)
        (getattr(st, "pop", None) or st.stack.pop)()
        if len(st.stack) >= before:
          break
    try:
      tn.set_default_backend("numpy")
    except AssertionError:
      pass

  def simplify(self, plan):
    for k in range(len(plan["switches"])):
      g, c = plan["switches"][k]
      if g > 1:
        sw = list(plan["switches"])
        sw[k] = [g // 2, c]
        yield dict(plan, switches=sw)


SCENARIO = C01
