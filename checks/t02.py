"""T02: threads may read the same block-sparse tensors."""
from sim import blocks, core
from sim.blocks import BlockSim, SYMMETRIES, gen_block_ops
from sim.seams import hash_order, seeded_numpy
from sim.threads import (Sched, gen_switches, install_locks, instrument,
                         warm_up)

# operations that only read their operands
SHARED_OPS = [(n, w) for n, w in blocks.OPS if n not in ("contiguous", "wide")]


class T02(core.Scenario):
  ID = "T02"
  CONFIGS = [("nocache", 2), ("cache", 1), ("layout", 1), ("charge", 2)]
  QUICK_RUNS = 20000
  QUICK_BUDGET = 38.0
  SHRINK_LISTS = ("switches", "init", "prog0", "prog1", "prog2")
  RULE = ("A run makes 1-4 block-sparse tensors and hands them to two or three "
          "threads, each of which applies 2-9 operations that only read their "
          "operands, with and without the shared block cache; a seeded "
          "schedule interleaves them at library lines; "
          "non-trivial: at least one switch happened.")
  REAL = ["tensornetwork.block_sparse", "symmetric backend",
          "the shared block cache", "real threads"]
  STUB = ["the thread scheduler (seeded, one thread runs at a time)",
          "the global random generator (seeded)"]
  ASSUMPTIONS = ["threads switch at line boundaries of library "
                 "code; numpy calls are atomic",
                 "in-place operations are not applied to shared tensors"]

  def setup(self):
    install_locks()
    from tensornetwork.backends import backend_factory
    backend_factory.get_backend("symmetric")
    instrument()
    warm_up(self, 12)

  def gen(self, rng, cfg, tier):
    n = rng.choice([2, 2, 3])
    ops = SHARED_OPS + ([("cache_on", 3), ("cache_off", 1),
                         ("cache_clear", 2)] if cfg == "cache" else [])
    only = rng.choice([None, None, None, ["block_sparse/charge.py"],
                       ["block_sparse/charge.py", "block_sparse/index.py",
                        "block_sparse/caching.py",
                        "block_sparse/blocksparse_utils.py"]])
    plan = {"data_seed": rng.getrandbits(32), "n": n, "only": only, "first": rng.randrange(n),
            "syms": rng.sample(sorted(SYMMETRIES), 1), "maxdim": 3,
            "maxrank": rng.choice([2, 3, 4]), "caching": cfg == "cache",
            "small_charges": rng.random() < 0.3,
            "init": gen_block_ops(rng, rng.randrange(1, 5), first=9)}
    for i in range(n):
      plan["prog%d" % i] = gen_block_ops(rng, rng.randrange(2, 9), ops=ops,
                                         first=0)
    if cfg == "layout":
      # sums align the storage layouts of their operands
      plan["init"] = [{"op": o, "r": rng.getrandbits(32)}
                      for o in ("new", rng.choice(["new", "reshape", "conj"]),
                                "transpose", "transpose")]
      for i in range(n):
        plan["prog%d" % i] = gen_block_ops(
            rng, rng.randrange(1, 4), first=0,
            ops=[("add", 3), ("tensordot", 1), ("transpose", 1), ("reshape", 1),
                 ("conj", 1), ("scale", 1)])
    if cfg == "charge":
      # charges nobody has looked at yet, some of them shared by tensors
      plan["fresh"] = True
      plan["init"] = [{"op": o, "r": rng.getrandbits(32)} for o in rng.choice(
          [("new",), ("new", "new"), ("new", "transpose"),
           ("new", "reshape")])]
      plan["only"] = ["block_sparse/charge.py"]
      for i in range(n):
        plan["prog%d" % i] = gen_block_ops(
            rng, rng.randrange(1, 4), first=0,
            ops=[("tensordot", 4), ("svd", 2), ("qr", 2), ("eigh", 1),
                 ("trace", 2), ("diag", 1)])
    if rng.random() < (0.6 if cfg == "charge" else 0.25):
      # the same work in every thread
      for i in range(1, n):
        plan["prog%d" % i] = plan["prog0"]
    span = 4000
    if only is not None:
      span //= 4
    if cfg in ("layout", "charge"):
      span = 300
    plan["switches"] = gen_switches(rng, tier, span=span)
    return plan

  def execute(self, plan, ctx):
    from tensornetwork import block_sparse as bs
    n = plan["n"]
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]):
      bs.clear_cache()
      bs.set_caching_status(plan["caching"])
      try:
        base = BlockSim(plan, ctx)
        for op in plan["init"]:
          base.step(op)
        if plan.get("fresh"):
          self.freshen(base.pool, bs)
        sims = []
        for i in range(n):
          s = BlockSim(dict(plan, data_seed=plan["data_seed"] + i + 1), ctx)
          s.pool = list(base.pool)
          s.types = base.types
          sims.append(s)

        def program(i):
          for op in plan["prog%d" % i]:
            ctx.log("thread", i)
            sims[i].step(op)

        ctx.nontrivial = False
        only = plan["only"]
        sw = Sched(plan["switches"], ctx,
                   only=None if only is None else tuple(only)).run(
                       [lambda i=i: program(i) for i in range(n)],
                       first=plan["first"])
        ctx.nontrivial = bool(sw)
        base.check_all("concurrent use")
      finally:
        bs.set_caching_status(False)
        bs.clear_cache()

  @staticmethod
  def freshen(pool, bs):
    """Rebuild the tensors from charges whose lazy parts are not computed."""
    known = {}
    for m in pool:
      t = m.t
      if not isinstance(t, bs.BlockSparseTensor):
        continue
      cs = []
      for c in t._charges:
        q = c.charges
        key = (type(c), str(c.charge_types), q.dtype, q.shape, q.tobytes())
        if key not in known:
          known[key] = type(c)(q.copy(), charge_types=list(c.charge_types),
                               charge_dtype=q.dtype)
        cs.append(known[key])
      m.t = bs.BlockSparseTensor(t.data, cs, list(t._flows),
                                 order=[list(g) for g in t._order])

  def simplify(self, plan):
    if plan["n"] > 2:
      yield dict(plan, n=2, first=0)
    if plan["caching"]:
      yield dict(plan, caching=False)
    for k in range(len(plan["switches"])):
      g, c = plan["switches"][k]
      if g > 1:
        sw = list(plan["switches"])
        sw[k] = [g // 2, c]
        yield dict(plan, switches=sw)


SCENARIO = T02
