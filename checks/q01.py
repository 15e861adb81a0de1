"""Q01: operators and vectors given by networks compute like matrices."""
from sim import core
from sim.qusim import QuSim, gen_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy


class Q01(core.Scenario):
  ID = "Q01"
  CONFIGS = [("nofault", 2), ("backend-faults", 1)]
  QUICK_RUNS = 20000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a history of 4-24 operations on up to seven operators, "
          "vectors, adjoint vectors and scalars given by networks, under a "
          "seeded set order and in one configuration with failing backend "
          "calls; non-trivial: an operation succeeded or failed by injection.")
  REAL = ["tensornetwork.quantum", "network operations and contractors"]
  STUB = ["object hashes / set iteration order of nodes and edges (seeded)",
          "backend primitives (fail at a seeded call)"]
  ASSUMPTIONS = ["numpy einsum is correct"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(4, 24 if tier == "quick" else 50)
    return {"data_seed": rng.getrandbits(32), "hash_seed": rng.getrandbits(32),
            "dtype": rng.choice(["float64", "complex128"]),
            "dims": rng.choice([[2], [2, 3], [1, 2], [1, 2, 3]]),
            "ops": gen_ops(rng, n, 0.4 if cfg == "backend-faults" else 0.0)}

  def execute(self, plan, ctx):
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(names=("numpy",)) as faults:
      sim = QuSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        sim.step(op)
      sim.finish()

  def simplify(self, plan):
    for i, op in enumerate(plan["ops"]):
      if "fault" in op:
        ops = [dict(o) for o in plan["ops"]]
        del ops[i]["fault"]
        yield dict(plan, ops=ops)
    if plan["dtype"] != "float64":
      yield dict(plan, dtype="float64")
    if plan["dims"] != [2]:
      yield dict(plan, dims=[2])


SCENARIO = Q01
