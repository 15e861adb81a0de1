"""B04: charges and indexes compute like lists of group elements."""
from sim import core
from sim.chargesim import ChargeSim, gen_ops
from sim.seams import NumpyFaults, hash_order, seeded_numpy


class B04(core.Scenario):
  ID = "B04"
  CONFIGS = [("plain", 3), ("faults", 1)]
  QUICK_RUNS = 60000
  QUICK_BUDGET = 30.0
  RULE = ("A run is a history of 8-40 operations on up to eight charges (one to "
          "five symmetries) and five indexes; non-trivial: an operation "
          "succeeded or failed by injection.")
  REAL = ["BaseCharge, U1Charge, Z2Charge, ZNCharge, Index",
          "unique/intersect of block_sparse.utils"]
  STUB = ["numpy calls of library code (fail at a seeded call)",
          "the global random generator (seeded)"]
  ASSUMPTIONS = ["numpy is correct", "charges of up to 2500 elements (40000 in "
                 "one operation), values within their dtype"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(8, 41 if tier == "quick" else 100)
    dtype = rng.choice(["int16", "int16", "int16", "int32", "int64", "int8"])
    return {"data_seed": rng.getrandbits(32),
            "groups": rng.choice([[0], [0], [0, 2], [2], [0, 2, 3], [3, 4, 0],
                                  [7]]),
            "spread": rng.choice([1, 3, 10, 200 if dtype != "int8" else 100]),
            "z2_as_zn": rng.random() < 0.3,
            "dtype": dtype,
            "ops": gen_ops(rng, n, 0.3 if cfg.startswith("faults") else 0.0)}

  def execute(self, plan, ctx):
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]), \
        NumpyFaults() as faults:
      sim = ChargeSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        sim.step(op)

  def simplify(self, plan):
    for k, v in (("dtype", "int16"), ("z2_as_zn", False), ("spread", 3),
                 ("groups", [0])):
      if plan[k] != v:
        yield dict(plan, **{k: v})


SCENARIO = B04
