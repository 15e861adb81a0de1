"""S02: failed or interrupted saves change nothing and are recognised."""
from sim.persist_scenario import PersistScenario


class S02(PersistScenario):
  ID = "S02"
  OPS = ("save_fault", "save_fault", "save_fault", "save_load", "save_subset")
  CONFIGS = [("disk-faults", 1)]
  RULE = ("A run is a random graph history with saves that hit an I/O error, "
          "short write, full disk, allocation failure, crash or torn write at "
          "a seeded point; non-trivial: at least one such save.")
  ASSUMPTIONS = ["writes reach the disk in program order (a crash persists a "
                 "prefix of them, the last one possibly torn)"]


SCENARIO = S02
