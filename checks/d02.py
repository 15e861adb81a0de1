"""D02: DMRG under failures."""
from checks.d01 import D01


class D02(D01):
  ID = "D02"
  CONFIGS = [("numpy-faults", 3), ("symmetric-faults", 1)]
  FAULTS = 0.6
  RULE = ("A run is a D01 history in which about half of the operations fail at "
          "a seeded backend call, some are repeated and the history goes on; "
          "non-trivial: an operation succeeded or failed by injection.")


SCENARIO = D02
