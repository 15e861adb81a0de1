"""X01: every backend computes what numpy computes."""
from sim import core, tensim
from sim.mpssim import MPSSim, gen_ops as mps_ops
from sim.netsim import NetSim, gen_ops as net_ops
from sim.qusim import QuSim, gen_ops as qu_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy

OTHER = ["tensorflow", "jax"]


class X01(core.Scenario):
  ID = "X01"
  CONFIGS = [("tensors", 3), ("tensors-faults", 1), ("graph", 2),
             ("graph-faults", 1), ("operators", 1), ("mps", 1)]
  QUICK_RUNS = 16000
  QUICK_BUDGET = 70.0
  RULE = ("A run is a history of 4-30 operations on tensors of the numpy, "
          "tensorflow and jax backends side by side, or of network, operator "
          "or MPS operations on one of tensorflow and jax, in some "
          "configurations with failing backend calls; non-trivial: an "
          "operation with a result succeeded or failed by injection.")
  REAL = ["tensorflow, jax and numpy backends on the real libraries",
          "Tensor class and linalg functions, nodes, operators, FiniteMPS"]
  STUB = ["backend primitives (fail at a seeded call)",
          "object hashes / set iteration order of nodes and edges (seeded)"]
  ASSUMPTIONS = ["numpy is correct", "64 bit types (jax_enable_x64)",
                 "operands of one operation have one dtype on tensorflow",
                 "tensorflow slices tensors of at most 7 dimensions"]

  def setup(self):
    import jax
    jax.config.update("jax_enable_x64", True)

  def gen(self, rng, cfg, tier):
    plan = {"data_seed": rng.getrandbits(32), "hash_seed": rng.getrandbits(32),
            "dtype": rng.choice(["float64", "complex128"]),
            "kind": cfg.split("-")[0]}
    rate = 0.4 if cfg.endswith("-faults") else 0.0
    big = tier != "quick"
    if plan["kind"] == "tensors":
      n = rng.randrange(8, 50 if big else 31)
      plan["ops"] = tensim.gen_ops(rng, n, ["numpy"] + OTHER, rate)
      return plan
    plan["backend"] = rng.choice(OTHER)
    if plan["kind"] == "graph":
      plan["ops"] = net_ops(rng, rng.randrange(8, 50 if big else 26),
                            faults=rate)
    elif plan["kind"] == "operators":
      plan["dims"] = rng.choice([[2], [2, 3], [1, 2], [1, 2, 3]])
      plan["ops"] = qu_ops(rng, rng.randrange(4, 40 if big else 20))
    else:
      plan.update(N=rng.choice([1, 2, 3, 4]), maxD=rng.choice([1, 2, 3]),
                  varied=rng.random() < 0.4, open=rng.random() < 0.3,
                  ops=mps_ops(rng, rng.randrange(4, 30 if big else 16)))
    return plan

  def execute(self, plan, ctx):
    kind = plan["kind"]
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(names=("numpy", "tensorflow", "jax")) as faults:
      if kind == "tensors":
        sim = tensim.TenSim(plan, ctx, faults=faults)
      elif kind == "graph":
        sim = NetSim(plan, ctx, faults=faults, backend=plan["backend"])
      elif kind == "operators":
        sim = QuSim(plan, ctx, faults=faults)
      else:
        sim = MPSSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        res = sim.step(op)
        if kind == "graph" and res in ("ok", "fault"):
          ctx.nontrivial = True
      if kind == "operators":
        sim.finish()

  def simplify(self, plan):
    for i, op in enumerate(plan["ops"]):
      if "fault" in op:
        ops = [dict(o) for o in plan["ops"]]
        del ops[i]["fault"]
        yield dict(plan, ops=ops)
    if plan["dtype"] != "float64":
      yield dict(plan, dtype="float64")
    if plan["kind"] == "mps":
      for k, vals in (("N", (1, 2, 3)), ("maxD", (1, 2)),
                      ("varied", (False,)), ("open", (False,))):
        for v in vals:
          if plan[k] > v:
            yield dict(plan, **{k: v})


SCENARIO = X01
