"""D03: the built-in Hamiltonians are the sums of their terms."""
from sim import core
from sim.hamsim import HamSim, gen_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy


class D03(core.Scenario):
  ID = "D03"
  CONFIGS = [("numpy", 3), ("tensorflow", 1)]
  QUICK_RUNS = 60000
  QUICK_BUDGET = 30.0
  RULE = ("A run is a history of 4-14 operations (building chains, grids and "
          "cells with random couplings, rolling cells, reusing the arrays of "
          "couplings, energies, failed allocations) over a pool of operators; "
          "non-trivial: an operation succeeded or failed by injection.")
  REAL = ["FiniteXXZ, FiniteTFI, FiniteFreeFermion2D, FiniteMPO, InfiniteMPO",
          "FiniteDMRG environments, FiniteMPS", "numpy and tensorflow backends"]
  STUB = ["backend primitives (fail at a seeded call)"]
  ASSUMPTIONS = ["numpy Kronecker products and eigenvalues are correct",
                 "2-8 sites, finite couplings"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(4, 15 if tier == "quick" else 40)
    return {"data_seed": rng.getrandbits(32),
            "backend": "tensorflow" if cfg.startswith("tensor") else "numpy",
            "ops": gen_ops(rng, n)}

  def execute(self, plan, ctx):
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(names=(plan["backend"],)) as faults:
      sim = HamSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        sim.step(op)

  def simplify(self, plan):
    if plan["backend"] != "numpy":
      yield dict(plan, backend="numpy")


SCENARIO = D03
