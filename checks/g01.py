"""G01: any history of graph operations denotes the defining sum."""
from sim import core
from sim.netsim import NetSim, gen_ops
from sim.seams import hash_order, seeded_numpy


class G01(core.Scenario):
  ID = "G01"
  CONFIGS = [("nofault", 1)]
  QUICK_RUNS = 16000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a random history of 8-40 public graph operations on up to "
          "9 nodes with a seeded hash (set) order; non-trivial: at least one "
          "contraction, split, flatten or copy changed a network that had a "
          "bond.")
  REAL = ["tensornetwork.network_components", "tensornetwork.network_operations",
          "numpy backend"]
  STUB = ["object hashes / set iteration order of nodes and edges (seeded)"]
  ASSUMPTIONS = ["numpy einsum/linalg are correct",
                 "dense numpy backend, dimensions 1..12"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(8, 41 if tier == "quick" else 70)
    return {"data_seed": rng.getrandbits(32), "hash_seed": rng.getrandbits(32),
            "dtype": rng.choice(["float64", "complex128"]),
            "ops": gen_ops(rng, n)}

  def execute(self, plan, ctx):
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]):
      sim = NetSim(plan, ctx)
      for op in plan["ops"]:
        had = bool(sim.bonds())
        if sim.step(op) == "ok" and had and op["op"] not in (
            "new", "newcopy", "copy_star", "connect", "queries", "bad_args"):
          ctx.nontrivial = True


SCENARIO = G01
