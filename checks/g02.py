"""G02: every contractor returns the defining sum, for every order."""
from sim import core
from sim.netsim import NetSim, gen_ops
from sim.seams import BackendFaults, hash_order, seeded_numpy


class G02(core.Scenario):
  ID = "G02"
  CONFIGS = [("nofault", 3), ("backend-faults", 2)]
  QUICK_RUNS = 16000
  QUICK_BUDGET = 38.0
  RULE = ("A run builds a random network (traces, copy nodes, scalars, several "
          "components), then contracts connected parts with greedy, optimal, "
          "branch, auto, custom optimizers, path_solver/contract_path and "
          "bucket under a seeded set order; non-trivial: a contractor ran on "
          ">= 2 nodes.")
  REAL = ["tensornetwork.contractors", "tensornetwork.network_components",
          "tensornetwork.network_operations", "opt_einsum", "numpy backend"]
  STUB = ["object hashes / set iteration order of nodes and edges (seeded)",
          "outcome of individual backend calls in the fault configuration"]
  ASSUMPTIONS = ["numpy einsum is correct"]

  def gen(self, rng, cfg, tier):
    n = rng.randrange(8, 36 if tier == "quick" else 60)
    faulty = cfg != "nofault"
    return {"data_seed": rng.getrandbits(32), "hash_seed": rng.getrandbits(32),
            "dtype": rng.choice(["float64", "complex128"]),
            "ops": gen_ops(rng, n, faults=faulty, fault_rate=0.3,
                           exclude=("bad_args", "arith", "reduced_density",
                                    "split_edge", "flatten_all", "queries",
                                    "contract", "contract_parallel",
                                    "remove_node", "slice_edge"),
                           always=("contract_all",),
                           boost={"contract_all": 5, "new": 2, "connect": 3,
                                  "bucket": 4, "newcopy": 2, "copy_star": 2})}

  def execute(self, plan, ctx):
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults() as faults:
      sim = NetSim(plan, ctx, faults=faults)
      for op in plan["ops"]:
        n = len(sim.m)
        if sim.step(op) != "skip" and op["op"] in ("contract_all", "bucket"):
          if len(sim.m) < n or "fault" in op:
            ctx.nontrivial = True


SCENARIO = G02
