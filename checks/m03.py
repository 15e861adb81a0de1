"""M03: infinite MPS histories, with and without failures."""
from sim import core
from sim.infsim import InfSim, gen_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy


class M03(core.Scenario):
  ID = "M03"
  CONFIGS = [("nofault", 2), ("backend-faults", 1)]
  QUICK_RUNS = 20000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a history of 4-20 operations (moving the center, "
          "canonicalization, truncation, gates, transfer matrices) on an "
          "infinite MPS with a cell of 1-4 sites, in one configuration with "
          "failing backend calls; non-trivial: an operation succeeded or "
          "failed by injection.")
  REAL = ["InfiniteMPS, BaseMPS", "Arnoldi solver of the numpy backend, ncon"]
  STUB = ["backend primitives (fail at a seeded call)",
          "the global random generator (seeded)"]
  ASSUMPTIONS = ["numpy linalg is correct",
                 "states with unique, well-conditioned fixed points"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(4, 18 if tier == "quick" else 40)
    return {"data_seed": rng.getrandbits(32),
            "dtype": rng.choice(["float64", "complex128"]),
            "N": rng.choice([1, 2, 2, 3, 4]), "maxD": rng.choice([1, 2, 3, 4]),
            "varied": rng.random() < 0.4,
            "ops": gen_ops(rng, n, 0.5 if "fault" in cfg.replace(
                "nofault", "") else 0.0)}

  def execute(self, plan, ctx):
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(names=("numpy",)) as faults:
      sim = InfSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        sim.step(op)

  def simplify(self, plan):
    for k, vals in (("N", (1, 2)), ("maxD", (1, 2, 3)), ("varied", (False,))):
      for v in vals:
        if plan[k] > v:
          yield dict(plan, **{k: v})
    if plan["dtype"] != "float64":
      yield dict(plan, dtype="float64")


SCENARIO = M03
