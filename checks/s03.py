"""S03: JSON text of any part of a network loads back exactly."""
from sim.persist_scenario import PersistScenario


class S03(PersistScenario):
  ID = "S03"
  OPS = ("json", "json", "json", "json_copy_node")
  CONFIGS = [("nofault", 1), ("alloc-faults", 1)]
  RULE = ("A run is a random graph history in which random subsets of the "
          "network are written to JSON text with random edge bindings and "
          "read back, possibly truncated; non-trivial: at least one round "
          "trip.")
  ASSUMPTIONS = ["the json module and numpy.save are correct"]


SCENARIO = S03
