"""K01: Krylov solvers solve the problem they are given and own nothing else."""
from sim import core
from sim.krylov import KrylovSim, gen_ops
from sim.seams import NumpyFaults, hash_order, seeded_numpy


class K01(core.Scenario):
  ID = "K01"
  CONFIGS = [("numpy", 2), ("symmetric", 1), ("numpy-faults", 2),
             ("symmetric-faults", 2)]
  QUICK_RUNS = 20000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a random history of 3-10 solver calls (Lanczos, Arnoldi, "
          "GMRES; backend level and public front end) on operators that "
          "return their input, a shared buffer, a view or a kept result, with "
          "operators that raise and allocations that fail in the fault "
          "configurations; non-trivial: a solver ran.")
  REAL = ["numpy and symmetric backend solvers", "tensornetwork.linalg.krylov",
          "tensornetwork.block_sparse", "scipy ARPACK and GMRES"]
  STUB = ["the operator (raises at a seeded call)",
          "numpy allocations called by the library (fail at a seeded call)",
          "the global random generator (seeded)"]
  ASSUMPTIONS = ["scipy's solvers converge on well-conditioned problems of at "
                 "most 30 unknowns", "Krylov solvers of the jax backend cannot "
                 "run with the installed jax and are not covered"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(3, 9 if tier == "quick" else 16)
    f = cfg.endswith("faults")
    return {"v": 3, "data_seed": rng.getrandbits(32), "which": cfg.split("-")[0],
            "ops": gen_ops(rng, n, faults=0.3 if f else 0,
                           aborts=0.3 if f else 0)}

  def execute(self, plan, ctx):
    from tensornetwork import block_sparse as bs
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]), \
        NumpyFaults() as faults:
      bs.set_caching_status(False)
      bs.clear_cache()
      try:
        sim = KrylovSim(plan, ctx, faults)
        for op in plan["ops"]:
          sim.step(op)
      finally:
        bs.set_caching_status(False)
        bs.clear_cache()


SCENARIO = K01
