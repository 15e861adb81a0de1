"""D01: DMRG histories: energies, canonical form, environments."""
from sim import core
from sim.dmrgsim import DMRGSim, gen_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy


class D01(core.Scenario):
  ID = "D01"
  CONFIGS = [("numpy", 3), ("symmetric", 1)]
  FAULTS = 0.0
  QUICK_RUNS = 20000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a history of 3-10 operations (one- and two-site DMRG runs, "
          "moving the center, energies, gates on "
          "the state, new Hamiltonians, restarts) on one chain; non-trivial: "
          "an operation succeeded or failed by injection.")
  REAL = ["FiniteDMRG, FiniteMPS, FiniteMPO", "Lanczos solvers, ncon",
          "numpy and symmetric backends"]
  STUB = ["backend primitives (fail at a seeded call)",
          "the global random generator (seeded)"]
  ASSUMPTIONS = ["numpy linalg is correct",
                 "1-6 sites of dimension 2 or 3, bond dimension <= 5"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(3, 9 if tier == "quick" else 20)
    d = rng.choice([2, 2, 2, 3])
    return {"data_seed": rng.getrandbits(32),
            "backend": "symmetric" if cfg.startswith("symm") else "numpy",
            "dtype": rng.choice(["float64", "complex128"]), "d": d,
            "N": rng.choice([1, 2, 3, 4, 4, 5, 6] if d == 2 else [1, 2, 3, 4]),
            "maxD": rng.choice([1, 2, 3, 5]),
            "ops": gen_ops(rng, n, faults=self.FAULTS)}

  def execute(self, plan, ctx):
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(names=("numpy", "symmetric")) as faults:
      sim = DMRGSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        sim.step(op)

  def simplify(self, plan):
    for k, vals in (("N", (1, 2, 3)), ("maxD", (1, 2, 3)), ("d", (2,))):
      for v in vals:
        if plan[k] > v:
          yield dict(plan, **{k: v})
    if plan["dtype"] != "float64":
      yield dict(plan, dtype="float64")
    if plan["backend"] != "numpy":
      yield dict(plan, backend="numpy")


SCENARIO = D01
