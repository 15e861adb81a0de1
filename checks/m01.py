"""M01: any history of MPS operations denotes the state the steps define."""
from sim import core
from sim.mpssim import MPSSim, gen_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy


class M01(core.Scenario):
  ID = "M01"
  CONFIGS = [("numpy", 3), ("symmetric", 1)]
  FAULTS = 0.0
  QUICK_RUNS = 20000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a random history of 6-30 operations (construction, moving "
          "the center with and without truncation, gates, canonicalization, "
          "measurements, environments) on up to three finite MPS that may "
          "share tensors; non-trivial: an operation on an existing MPS "
          "succeeded or failed by injection.")
  REAL = ["FiniteMPS, BaseMPS", "ncon, nodes and contraction",
          "numpy and symmetric backends"]
  STUB = ["backend primitives (fail at a seeded call)",
          "the global random generator (seeded)"]
  ASSUMPTIONS = ["numpy linalg is correct",
                 "1-6 sites, bond dimension <= 5, dense states <= 2000 numbers"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(6, 26 if tier == "quick" else 50)
    return {"data_seed": rng.getrandbits(32),
            "backend": "symmetric" if cfg.startswith("symm") else "numpy",
            "dtype": rng.choice(["float64", "complex128"]),
            "N": rng.choice([1, 2, 3, 3, 4, 4, 5, 6]),
            "maxD": rng.choice([1, 2, 3, 5]),
            "varied": rng.random() < 0.5, "open": rng.random() < 0.3,
            "ops": gen_ops(rng, n, faults=self.FAULTS)}

  def execute(self, plan, ctx):
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(names=("numpy", "symmetric")) as faults:
      sim = MPSSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        sim.step(op)

  def simplify(self, plan):
    for k, vals in (("N", (1, 2, 3)), ("maxD", (1, 2, 3)),
                    ("varied", (False,)), ("open", (False,))):
      for v in vals:
        if plan[k] > v:
          yield dict(plan, **{k: v})
    if plan["dtype"] != "float64":
      yield dict(plan, dtype="float64")
    if plan["backend"] != "numpy":
      yield dict(plan, backend="numpy")


SCENARIO = M01
