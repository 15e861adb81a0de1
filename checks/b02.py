"""B02: caching of block data never changes any result."""
from checks.b01 import B01
from sim.blocks import CACHE_OPS, OPS, gen_block_ops


class B02(B01):
  ID = "B02"
  CONFIGS = [("nofault", 2), ("alloc-faults", 1),
             ("line-faults", 1)]
  QUICK_RUNS = 6000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a random history of 12-50 operations on block-sparse "
          "tensors of several symmetries over the same charge values, with "
          "caching switched on, off and cleared in between; non-trivial: an "
          "operation on an existing tensor succeeded or failed by injection.")

  def gen(self, rng, cfg, tier):
    n = rng.randrange(12, 50 if tier == "quick" else 90)
    syms = rng.choice([
        ["U1", "Z2"], ["U1", "Z3"], ["Z2", "Z3", "Z5"], ["U1xU1", "U1xZ2"],
        ["Z2xZ3", "U1xZ2"], ["U1"], ["Z2"], ["U1", "U1xU1"],
        ["U1xU1", "U1xZ2", "Z2xZ3"], ["U1", "Z5"]])
    ops = [o for o in OPS if o[0] not in ("cache_on",)]
    return {"data_seed": rng.getrandbits(32), "syms": syms,
            "maxdim": rng.choice([2, 2, 3]), "maxrank": rng.choice([3, 5]),
            "lowp": False, "caching": rng.random() < 0.7,
            "small_charges": True,
            "ops": gen_block_ops(rng, n, ops=ops + [(x, 2 * w) for x, w in
                                                    CACHE_OPS],
                                 faults=0.4 if cfg == "alloc-faults" else 0,
                                 lines=0.4 if cfg == "line-faults" else 0)}


SCENARIO = B02
