"""M02: an MPS operation that fails leaves a usable state."""
from checks.m01 import M01


class M02(M01):
  ID = "M02"
  CONFIGS = [("numpy-faults", 3), ("symmetric-faults", 1)]
  FAULTS = 0.5

  def gen(self, rng, cfg, tier):
    plan = super().gen(rng, cfg, tier)
    return plan


SCENARIO = M02
