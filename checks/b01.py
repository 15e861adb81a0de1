"""B01: block-sparse operations equal the same operations on dense arrays."""
from sim import core
from sim.blocks import BlockSim, SYMMETRIES, gen_block_ops
from sim.seams import LineFaults, NumpyFaults, hash_order, seeded_numpy


PURE_FILES = ("block_sparse/blocksparse_utils.py", "block_sparse/utils.py",
              "block_sparse/index.py", "block_sparse/charge.py")


class B01(core.Scenario):
  ID = "B01"
  CONFIGS = [("nofault", 2), ("alloc-faults", 1),
             ("line-faults", 1)]
  QUICK_RUNS = 6000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a random history of 8-40 operations on block-sparse "
          "tensors of one or two symmetries; non-trivial: at least one "
          "operation on an existing tensor succeeded or failed by injection.")
  REAL = ["tensornetwork.block_sparse", "symmetric backend",
          "tensornetwork nodes on top of it"]
  STUB = ["numpy allocations called by the library (fail at a seeded call)",
          "the global random generator (seeded)"]
  ASSUMPTIONS = ["numpy linalg and einsum are correct",
                 "tensors of at most 3000 dense elements, non-empty legs"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(8, 36 if tier == "quick" else 70)
    return {"data_seed": rng.getrandbits(32),
            "syms": rng.sample(sorted(SYMMETRIES), rng.choice([1, 1, 1, 2])),
            "maxdim": rng.choice([2, 3, 4]), "maxrank": rng.choice([3, 5, 5]),
            "lowp": rng.random() < 0.2,
            "qdtype": rng.choice(["int16"] * 4 + ["int32", "int64"]),
            "caching": rng.random() < 0.2,
            "ops": gen_block_ops(rng, n, faults=0.4 if cfg == "alloc-faults" else 0,
                                 lines=0.4 if cfg == "line-faults" else 0)}

  def execute(self, plan, ctx):
    from tensornetwork import block_sparse as bs
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]), \
        NumpyFaults() as faults:
      bs.clear_cache()
      bs.set_caching_status(plan["caching"])
      try:
        sim = BlockSim(plan, ctx, faults=faults,
                       lines=LineFaults(PURE_FILES))
        for op in plan["ops"]:
          sim.step(op)
      finally:
        bs.set_caching_status(False)
        bs.clear_cache()

  def simplify(self, plan):
    for k, vals in (("maxdim", (1, 2, 3)), ("maxrank", (2, 3)),
                    ("caching", (False,))):
      for v in vals:
        if plan[k] > v:
          yield dict(plan, **{k: v})
    for s in plan["syms"]:
      if len(plan["syms"]) > 1:
        yield dict(plan, syms=[s])
    if plan.get("qdtype", "int16") != "int16":
      yield dict(plan, qdtype="int16")
    if plan["syms"] != ["U1"]:
      yield dict(plan, syms=["U1"])


SCENARIO = B01
