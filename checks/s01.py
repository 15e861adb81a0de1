"""S01: a saved network loads back exactly, and the history can go on."""
from sim.persist_scenario import PersistScenario


class S01(PersistScenario):
  ID = "S01"
  OPS = ("save_load", "save_load", "load_old", "save_subset")
  CONFIGS = [("nofault", 1)]
  RULE = ("A run is a random graph history in which the network is saved and "
          "loaded several times, each time possibly continuing from the file "
          "after a simulated restart; non-trivial: at least one round trip.")
  ASSUMPTIONS = ["libhdf5 reads back what it wrote"]


SCENARIO = S01
