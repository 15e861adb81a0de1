"""B03: networks of symmetric tensors behave as their dense networks."""
from sim import core
from sim.netsim import gen_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy
from sim.blocks import SYMMETRIES
from sim.symnet import EXCLUDE, OWN, SymNet


class B03(core.Scenario):
  ID = "B03"
  CONFIGS = [("nofault", 3), ("backend-faults", 2)]
  QUICK_RUNS = 16000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a random history of 8-40 public graph operations on up to "
          "9 nodes holding block-sparse tensors of one symmetry group, joined "
          "along legs of equal charges and opposite flow, with a seeded hash "
          "order and, in one configuration, failing backend calls; "
          "non-trivial: a contraction, split, flatten or copy changed a "
          "network that had a bond.")
  REAL = ["tensornetwork.network_components", "tensornetwork.network_operations",
          "tensornetwork.contractors", "ncon", "tensornetwork.block_sparse",
          "symmetric backend"]
  STUB = ["object hashes / set iteration order of nodes and edges (seeded)",
          "outcome of individual backend calls in the fault configuration"]
  ASSUMPTIONS = ["numpy einsum/linalg are correct",
                 "legs of at most 18 positions, tensors of at most 2000 "
                 "elements"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(8, 41 if tier == "quick" else 70)
    faulty = cfg != "nofault"
    return {"data_seed": rng.getrandbits(32), "hash_seed": rng.getrandbits(32),
            "dtype": rng.choice(["float64", "complex128"]),
            "qdtype": rng.choice(["int16"] * 4 + ["int32", "int64"]),
            "sym": rng.choice(sorted(SYMMETRIES)),
            "small_charges": rng.random() < 0.4,
            "ops": gen_ops(rng, n, faults=faulty, exclude=EXCLUDE,
                           extra=OWN, boost={"connect": 2, "new": 1.5,
                                             "split_node": 1.5})}

  def execute(self, plan, ctx):
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(names=("symmetric",)) as faults:
      sim = SymNet(plan, ctx, faults=faults)
      for op in plan["ops"]:
        had = bool(sim.bonds())
        if sim.step(op) == "ok" and had and op["op"] not in (
            "new", "connect", "queries", "node_queries", "names"):
          ctx.nontrivial = True


SCENARIO = B03
