"""Shared scenario for the persistence properties."""
from sim import core
from sim.persist import H5Faults, PersistSim, gen_persist
from sim.seams import BackendFaults, hash_order, seeded_numpy

REAL = ["tensornetwork.utils (save_nodes, load_nodes)",
        "tensornetwork.network_operations", "tensornetwork.network_components",
        "h5py / libhdf5", "numpy backend"]
STUB = ["the file (in-memory disk that journals, fails, tears or loses "
        "writes; about one save in seven goes to a real scratch file)",
        "object hashes / set iteration order of nodes and edges (seeded)"]


class PersistScenario(core.Scenario):
  OPS = ()
  EXCL = ()
  REAL = REAL
  STUB = STUB
  QUICK_BUDGET = 28.0
  QUICK_RUNS = 16000
  BACKEND_SEAM = ("serialize_tensor", "deserialize_tensor",
                  "convert_to_tensor")

  def gen(self, rng, cfg, tier):
    n = rng.randrange(6, 22 if tier == "quick" else 40)
    return {"data_seed": rng.getrandbits(32), "hash_seed": rng.getrandbits(32),
            "dtype": rng.choice(["float64", "complex128"]),
            "ops": gen_persist(rng, n, self.OPS, faults=cfg != "nofault",
                               exclude=self.EXCL)}

  def execute(self, plan, ctx):
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(methods=self.BACKEND_SEAM) as faults, H5Faults() as h5:
      sim = PersistSim(plan, ctx, faults=faults)
      sim.h5faults = h5
      for op in plan["ops"]:
        sim.step(op)
