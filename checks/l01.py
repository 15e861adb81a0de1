"""L01: Keras layers compute, train and restore the contraction they show."""
from sim import core, kerassim
from sim.seams import BackendFaults, hash_order, seeded_numpy


class L01(core.Scenario):
  ID = "L01"
  CONFIGS = [("nofault", 2), ("faults", 1)]
  QUICK_RUNS = 16000
  QUICK_BUDGET = 60.0
  RULE = ("A run builds a stack of 1-3 layers (decomposed, MPO, entangler, "
          "condenser, expander or convolution) and takes 4-10 steps of calls, "
          "compiled calls, training steps, checkpoints and crashes, in one "
          "configuration with failing backend calls; non-trivial: a call or "
          "training step was compared after the first.")
  REAL = ["tensornetwork.tn_keras layers", "nodes and contractors",
          "tensorflow backend, TensorFlow eager and graph mode, autodiff, "
          "legacy Keras base layer"]
  STUB = ["process crash (all layers dropped; configuration text and weight "
          "arrays of the last checkpoint survive)",
          "backend primitives (fail at a seeded call)",
          "object hashes / set iteration order of nodes and edges (seeded)"]
  ASSUMPTIONS = ["tf.einsum, tf.nn.conv2d and autodiff are correct",
                 "channels_last convolutions (the CPU has no other)"]

  def setup(self):
    import tensorflow as tf
    try:
      tf.config.threading.set_intra_op_parallelism_threads(1)
      tf.config.threading.set_inter_op_parallelism_threads(1)
    except RuntimeError:
      pass

  def gen(self, rng, cfg, tier):
    plan = kerassim.gen(rng, tier, 0.4 if cfg == "faults" else 0.0)
    plan.update(data_seed=rng.getrandbits(32), hash_seed=rng.getrandbits(32))
    return plan

  def execute(self, plan, ctx):
    with hash_order(plan["hash_seed"]), seeded_numpy(plan["data_seed"]), \
        BackendFaults(names=("tensorflow",)) as faults:
      sim = kerassim.KerasSim(plan, ctx, faults=faults)
      for i, op in enumerate(plan["ops"]):
        if sim.step(op) == "ok" and i:
          ctx.nontrivial = True

  def simplify(self, plan):
    for i, op in enumerate(plan["ops"]):
      if "fault" in op:
        ops = [dict(o) for o in plan["ops"]]
        del ops[i]["fault"]
        yield dict(plan, ops=ops)


SCENARIO = L01
