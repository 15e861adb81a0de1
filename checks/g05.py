"""G05: contraction orders cost what they claim; optimal ones are optimal."""
from sim import core, pathsim
from sim.seams import NumpyFaults, hash_order, seeded_numpy


class G05(core.Scenario):
  ID = "G05"
  CONFIGS = [("nofault", 3), ("alloc-faults", 1)]
  QUICK_RUNS = 16000
  QUICK_BUDGET = 25.0
  RULE = ("A run rewires a network of up to 7 tensors in 8-23 steps and asks "
          "the order solver (all search limits), the cost checker and the "
          "contractors in between, in one configuration with failing numpy "
          "calls; non-trivial: an order for at least three tensors was "
          "executed and metered.")
  REAL = ["contractors.custom_path_solvers", "contractors.path_solver",
          "contractors.optimal", "ncon", "numpy backend", "opt_einsum"]
  STUB = ["object hashes / set iteration order of nodes and edges (seeded)",
          "numpy calls made by library code (fail at a seeded call)",
          "the pairwise products of the numpy backend (recorded, then real)"]
  ASSUMPTIONS = ["numpy einsum is correct",
                 "cost claims for connected networks"]

  def gen(self, rng, cfg, tier):
    plan = pathsim.gen(rng, tier, 0.5 if cfg != "nofault" else 0.0)
    plan.update(data_seed=rng.getrandbits(32), hash_seed=rng.getrandbits(32))
    return plan

  def execute(self, plan, ctx):
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]), \
        NumpyFaults() as faults:
      sim = pathsim.PathSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        if sim.step(op) == "ok" and len(sim.labels) > 2 and op["op"] in (
            "solve", "cost", "contractor"):
          ctx.nontrivial = True

  def simplify(self, plan):
    for i, op in enumerate(plan["ops"]):
      if "fault" in op:
        ops = [dict(o) for o in plan["ops"]]
        del ops[i]["fault"]
        yield dict(plan, ops=ops)


SCENARIO = G05
