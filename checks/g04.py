"""G04: a graph operation that fails leaves the network as it was."""
from sim import core
from sim.netsim import NetSim, gen_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy


class G04(core.Scenario):
  ID = "G04"
  CONFIGS = [("backend-faults", 4), ("nofault", 1)]
  QUICK_RUNS = 16000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a random history of 8-40 graph operations in which the "
          "k-th numerical backend call of chosen operations fails; "
          "non-trivial: at least one fault fired inside an operation.")
  REAL = ["tensornetwork.network_components",
          "tensornetwork.network_operations", "numpy backend"]
  STUB = ["object hashes / set iteration order of nodes and edges (seeded)",
          "outcome of individual backend calls (injected MemoryError / "
          "LinAlgError)"]
  ASSUMPTIONS = ["numpy einsum/linalg are correct",
                 "a failing backend call has no effect of its own"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(8, 41 if tier == "quick" else 70)
    faulty = cfg != "nofault"
    return {"data_seed": rng.getrandbits(32), "hash_seed": rng.getrandbits(32),
            "dtype": rng.choice(["float64", "complex128"]),
            "ops": gen_ops(rng, n, faults=faulty,
                           fault_rate=rng.choice([0.15, 0.4, 0.8]),
                           exclude=("bad_args",) if faulty else (),
                           boost={"bad_args": 8})}

  def execute(self, plan, ctx):
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults() as faults:
      sim = NetSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        res = sim.step(op)
        if res == "fault" or (op["op"] == "bad_args" and res == "ok"):
          ctx.nontrivial = True

  def simplify(self, plan):
    for i, op in enumerate(plan["ops"]):
      if "fault" in op:
        ops = [dict(o) for o in plan["ops"]]
        del ops[i]["fault"]
        yield dict(plan, ops=ops)


SCENARIO = G04
