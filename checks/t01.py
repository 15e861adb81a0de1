"""T01: threads that share no tensors do not influence each other."""
import contextvars

from sim import blocks, core, mpssim, netsim, scopes
from sim.seams import hash_order, seeded_numpy
from sim.threads import (Sched, cold_start, gen_switches, install_locks,
                         instrument, share, warm_up)

BLOCK_OPS = [(n, w) for n, w in blocks.OPS if n not in ("new_ca", "wide")] + [
    ("cache_on", 3), ("cache_off", 2), ("cache_clear", 2)]


class T01(core.Scenario):
  ID = "T01"
  CONFIGS = [("disjoint", 4), ("cache", 2), ("scopes", 1)]
  QUICK_RUNS = 20000
  QUICK_BUDGET = 38.0
  SHRINK_LISTS = ("switches", "prog0", "prog1", "prog2")
  KINDS = ("net", "net", "block", "block", "mps", "scope")
  RULE = ("A run is two or three programs (network operations, block-sparse "
          "operations with the block cache being switched and cleared, MPS "
          "operations, backend and collection blocks) in threads that share "
          "no tensors, interleaved at library lines by a seeded "
          "schedule; every program checks its own results against its own "
          "reference model; non-trivial: at least one switch happened.")
  REAL = ["network, block-sparse and MPS code", "the global block cache",
          "the global backend and collection state", "real threads"]
  STUB = ["the thread scheduler (seeded, one thread runs at a time)",
          "object hashes (seeded)"]
  ASSUMPTIONS = ["threads switch at line boundaries of library "
                 "code; numpy calls are atomic",
                 "numpy and symmetric backends"]

  def setup(self):
    install_locks()
    import numpy as np
    import tensornetwork as tn
    from tensornetwork import block_sparse as bs
    from tensornetwork.backends import backend_factory
    tn.ncon([np.ones((2, 2))], [(-1, -2)])
    backend_factory.get_backend("symmetric")
    for b in scopes.backends()[:4]:
      if b != "symmetric":
        tn.ncon([np.ones((2, 2))], [(-1, -2)], backend=b)
    instrument()
    share(type(bs.get_cacher()))
    warm_up(self, 12)

  # lines at which threads are switched where one global is contended
  ONLY = {"cache": ["block_sparse/caching.py",
                    "block_sparse/blocksparse_utils.py"],
          "scopes": ["backend_contextmanager.py", "ops.py",
                     "backends/backend_factory.py", "network_components.py",
                     "tensor.py"]}

  def gen(self, rng, cfg, tier):
    n = rng.choice([2, 2, 3])
    if cfg in self.ONLY:
      return self.gen_contended(rng, cfg, tier, n)
    same = rng.random() < 0.3
    kind0 = rng.choice(self.KINDS)
    kinds = [kind0 if same else rng.choice(self.KINDS) for _ in range(n)]
    plan = {"data_seed": rng.getrandbits(32), "kinds": kinds,
            "first": rng.randrange(n),
            "params": []}
    for i, k in enumerate(kinds):
      plan["params"].append(self.params(rng, k))
      plan["prog%d" % i] = self.ops(rng, k)
    plan["switches"] = gen_switches(
        rng, tier, span=6000)
    return plan

  def gen_contended(self, rng, cfg, tier, n):
    """Short programs that keep hitting the same global."""
    kind = "block" if cfg == "cache" else "scope"
    plan = {"data_seed": rng.getrandbits(32), "kinds": [kind] * n,
            "first": rng.randrange(n), "params": [], "only": self.ONLY[cfg]}
    for i in range(n):
      plan["params"].append(self.params(rng, kind))
      if cfg == "scopes":
        plan["prog%d" % i] = self.ops(rng, kind)
        continue
      plan["params"][i].update(syms=["U1"], maxrank=3)
      plan["prog%d" % i] = blocks.gen_block_ops(
          rng, rng.randrange(3, 9), first=1,
          ops=[("tensordot", 5), ("svd", 2), ("qr", 1), ("new", 1),
               ("cache_clear", 5), ("cache_on", 3), ("cache_off", 1)])
      plan["prog%d" % i].insert(1, {"op": "cache_on", "r": 0})
    if cfg == "cache" and rng.random() < 0.6:
      # switch between single accesses of the cache only
      plan.update(only=[], access=True)
      plan["switches"] = [[rng.choice([1, 1, 1, 2, 3, 5]), rng.randrange(6)]
                          for _ in range(rng.randrange(2, 40))]
      return plan
    plan["switches"] = gen_switches(rng, tier, span=250)
    return plan

  @staticmethod
  def params(rng, kind):
    p = {"data_seed": rng.getrandbits(32)}
    if kind == "net":
      p["dtype"] = rng.choice(["float64", "complex128"])
    elif kind == "block":
      p.update(syms=rng.sample(sorted(blocks.SYMMETRIES), 1), maxdim=3,
               maxrank=4, small_charges=rng.random() < 0.3)
    elif kind == "mps":
      p.update(backend=rng.choice(["numpy", "symmetric"]), dtype="float64",
               N=rng.choice([2, 3]), maxD=2, varied=False, open=False)
    return p

  @staticmethod
  def ops(rng, kind):
    if kind == "net":
      return netsim.gen_ops(rng, rng.randrange(4, 12))
    if kind == "block":
      return blocks.gen_block_ops(rng, rng.randrange(4, 12), ops=BLOCK_OPS)
    if kind == "mps":
      return mpssim.gen_ops(rng, rng.randrange(3, 7))
    return scopes.gen_scope_ops(rng, rng.randrange(5, 20))

  @staticmethod
  def make(kind, params, ctx, shared, tid):
    if kind == "net":
      return netsim.NetSim(params, ctx)
    if kind == "block":
      return blocks.BlockSim(params, ctx)
    if kind == "mps":
      return mpssim.MPSSim(params, ctx)
    return scopes.ScopeSim(params, ctx, shared, tid)

  def execute(self, plan, ctx):
    from tensornetwork import block_sparse as bs
    shared = {"default": "numpy", "settable": False}
    n = len(plan["kinds"])
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]):
      bs.set_caching_status(False)
      bs.clear_cache()
      cold_start()
      try:
        def program(i):
          sim = self.make(plan["kinds"][i], plan["params"][i], ctx, shared, i)
          for op in plan["prog%d" % i]:
            ctx.log("thread", i)
            sim.step(op)
          if plan["kinds"][i] == "scope":
            sim.finish()

        if n == 1:
          contextvars.copy_context().run(program, 0)
        else:
          only = plan.get("only")
          switched = Sched(plan["switches"], ctx,
                           only=None if only is None else tuple(only),
                           accesses=plan.get("access", False)).run(
              [lambda i=i: program(i) for i in range(n)],
              first=plan["first"])
          if switched:
            ctx.nontrivial = True
      finally:
        bs.set_caching_status(False)
        bs.clear_cache()

  def simplify(self, plan):
    n = len(plan["kinds"])
    if n > 2:
      for k in range(n):
        new = dict(plan, kinds=plan["kinds"][:k] + plan["kinds"][k + 1:],
                   params=plan["params"][:k] + plan["params"][k + 1:],
                   first=0)
        progs = [plan["prog%d" % i] for i in range(n) if i != k]
        for i, p in enumerate(progs):
          new["prog%d" % i] = p
        new.pop("prog%d" % (n - 1))
        yield new
    for k in range(len(plan["switches"])):
      g, c = plan["switches"][k]
      if g > 1:
        sw = list(plan["switches"])
        sw[k] = [g // 2, c]
        yield dict(plan, switches=sw)


SCENARIO = T01
