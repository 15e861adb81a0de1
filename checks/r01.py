"""R01: random tensors follow their seed."""
from sim import core
from sim.randsim import RandomFaults, RandSim, gen_plan
from sim.seams import hash_order, seeded_numpy


class R01(core.Scenario):
  ID = "R01"
  CONFIGS = [("nofault", 2), ("random-faults", 1)]
  QUICK_RUNS = 20000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a history of 6-24 draws, with and without seeds, through "
          "the backends, tensors, nodes, block-sparse tensors and MPS, of "
          "re-seeded episodes, draws by the user and non-random library calls, "
          "in one configuration with failing random primitives; non-trivial: "
          "a draw that had been seen was repeated, a sample was tested or a "
          "draw failed by injection.")
  REAL = ["numpy, tensorflow, jax and symmetric backends with the generators "
          "of the real libraries"]
  STUB = ["random primitives (fail at a seeded call)",
          "the global seeds (part of the plan)"]
  ASSUMPTIONS = ["one thread; the generators of numpy, tensorflow and jax are "
                 "functions of their seed"]

  def setup(self):
    import jax
    jax.config.update("jax_enable_x64", True)

  def gen(self, rng, cfg, tier):
    plan = {"data_seed": rng.getrandbits(31)}
    n = rng.randrange(6, 24 if tier == "quick" else 60)
    plan.update(gen_plan(rng, n, 0.3 if cfg == "random-faults" else 0.0))
    return plan

  def execute(self, plan, ctx):
    with hash_order(plan["data_seed"]), seeded_numpy(plan["data_seed"]), \
        RandomFaults() as faults:
      sim = RandSim(plan, ctx, faults)
      for op in plan["ops"]:
        sim.step(op)

  def simplify(self, plan):
    for i, op in enumerate(plan["ops"]):
      if op.get("fault"):
        ops = [dict(o) for o in plan["ops"]]
        del ops[i]["fault"]
        yield dict(plan, ops=ops)
    for i, ep in enumerate(plan["episodes"]):
      for j in range(len(ep["draws"])):
        eps = [dict(e) for e in plan["episodes"]]
        eps[i] = dict(ep, draws=ep["draws"][:j] + ep["draws"][j + 1:])
        yield dict(plan, episodes=eps)


SCENARIO = R01
