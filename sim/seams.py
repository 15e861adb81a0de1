"""Seams: every source of nondeterminism or failure the properties depend on.

Nothing here edits /repo.  Seams are installed on public classes for the
duration of one simulated run and removed afterwards.
"""
import contextlib
import os
import random
import sys

import numpy as np

from sim.core import REPO


class SimOOM(MemoryError):
  """An injected allocation failure."""


class SimLinAlgError(np.linalg.LinAlgError):
  """An injected numerical failure of a decomposition."""


class SimInterrupt(Exception):
  """An exception raised by a user callback."""


# ---------------------------------------------------------------------------
# iteration order of sets and dicts of nodes and edges
# ---------------------------------------------------------------------------
@contextlib.contextmanager
def hash_order(seed):
  """Hashes (hence set order) and id-ordering of nodes/edges become seeded."""
  import tensornetwork as tn
  rng = random.Random(seed)
  classes = [tn.network_components.AbstractNode, tn.Edge]
  saved = []

  def value(obj):
    d = obj.__dict__
    h = d.get("_sim_hash")
    if h is None:
      h = rng.getrandbits(40)
      d["_sim_hash"] = h
    return h

  def sim_hash(self):
    return value(self)

  def sim_lt(self, other):
    if not isinstance(other, tn.network_components.AbstractNode):
      raise ValueError("Object {} is not a Node type.".format(other))
    return value(self) < value(other)

  for cls in classes:
    saved.append((cls, "__hash__", cls.__dict__.get("__hash__")))
    cls.__hash__ = sim_hash
  if "__lt__" in classes[0].__dict__:
    saved.append((classes[0], "__lt__", classes[0].__dict__["__lt__"]))
    classes[0].__lt__ = sim_lt
  try:
    yield
  finally:
    for cls, name, old in saved:
      if old is None:
        delattr(cls, name)
      else:
        setattr(cls, name, old)


# ---------------------------------------------------------------------------
# numerical backend: the k-th call fails
# ---------------------------------------------------------------------------
BACKEND_METHODS = (
    "tensordot reshape transpose slice svd qr rq einsum trace outer_product "
    "multiply addition subtraction divide diagflat diagonal sqrt conj norm "
    "broadcast_right_multiplication broadcast_left_multiplication eigh inv "
    "expm matmul eye ones zeros randn random_uniform convert_to_tensor "
    "index_update eigsh_lanczos eigs eigsh gmres sin cos exp log abs sign "
    "pivot power sum cholesky").split()
DECOMP_METHODS = ("svd", "qr", "rq", "eigh", "eigs", "eigsh_lanczos", "inv")


class BackendFaults:
  """Class-level wrapper around the primitives of the numerical backends."""

  def __init__(self, names=("numpy",), methods=BACKEND_METHODS):
    self.names = names
    self.methods = methods
    self.remaining = None
    self.fired = None
    self.calls = 0
    self._saved = []
    self.kind = "oom"
    self.depth = 0

  def __enter__(self):
    from tensornetwork.backends import backend_factory
    for n in self.names:
      cls = type(backend_factory.get_backend(n))
      for m in self.methods:
        orig = getattr(cls, m, None)
        if orig is None or not callable(orig):
          continue
        self._saved.append((cls, m, cls.__dict__.get(m)))
        setattr(cls, m, self._wrap(m, orig))
    return self

  def _wrap(self, name, orig):
    faults = self

    def wrapper(obj, *args, **kwargs):
      faults.hit(name)
      return orig(obj, *args, **kwargs)

    wrapper.__name__ = name
    wrapper.__doc__ = getattr(orig, "__doc__", None)
    return wrapper

  def hit(self, name):
    self.calls += 1
    if self.remaining is None:
      return
    self.remaining -= 1
    if self.remaining <= 0:
      self.remaining = None
      self.fired = name
      if self.kind == "linalg" and name in DECOMP_METHODS:
        raise SimLinAlgError("injected: %s did not converge" % name)
      raise SimOOM("injected: allocation failed in %s" % name)

  def arm(self, k, kind="oom"):
    self.remaining = k
    self.fired = None
    self.kind = kind

  def disarm(self):
    self.remaining = None
    fired, self.fired = self.fired, None
    return fired

  def __exit__(self, *exc):
    for cls, m, old in reversed(self._saved):
      if old is None:
        delattr(cls, m)
      else:
        setattr(cls, m, old)
    self._saved = []
    return False


# ---------------------------------------------------------------------------
# numpy primitives called from /repo: the k-th call fails
# ---------------------------------------------------------------------------
NUMPY_FUNCS = ("empty zeros ones dot tensordot concatenate append cumsum "
               "nonzero unique full arange reshape transpose einsum outer "
               "kron eye diag trace").split()
NUMPY_LINALG = "svd qr eigh eig norm inv".split()


class NumpyFaults:
  """numpy functions fail when the *direct* caller is code of /repo."""

  def __init__(self, funcs=NUMPY_FUNCS, linalg=NUMPY_LINALG):
    self.funcs = [(np, f) for f in funcs if hasattr(np, f)]
    self.funcs += [(np.linalg, f) for f in linalg]
    self.remaining = None
    self.fired = None
    self._saved = []
    self.calls = 0

  def __enter__(self):
    for mod, f in self.funcs:
      orig = getattr(mod, f)
      self._saved.append((mod, f, orig))
      setattr(mod, f, self._wrap(f, orig))
    return self

  def _wrap(self, name, orig):
    faults = self

    def wrapper(*args, **kwargs):
      if faults.remaining is not None and \
          sys._getframe(1).f_code.co_filename.startswith(REPO + "/"):
        faults.remaining -= 1
        if faults.remaining <= 0:
          faults.remaining = None
          faults.fired = name
          raise SimOOM("injected: np.%s" % name)
      return orig(*args, **kwargs)

    wrapper.__name__ = name
    return wrapper

  def arm(self, k, kind="oom"):
    del kind
    self.remaining = k
    self.fired = None

  def disarm(self):
    self.remaining = None
    fired, self.fired = self.fired, None
    return fired

  def __exit__(self, *exc):
    for mod, f, orig in self._saved:
      setattr(mod, f, orig)
    self._saved = []
    return False


class LineFaults:
  """MemoryError at the k-th executed line of the given library files.

  Only for files whose code has no side effect but the one under test.
  """

  def __init__(self, files):
    self.all = tuple(os.path.join(REPO, "tensornetwork", f) for f in files)
    self.files = self.all
    self.remaining = None
    self.fired = None

  def _trace(self, frame, event, arg):
    del arg
    if event == "call" and frame.f_code.co_filename not in self.files:
      return None
    if event == "line" and self.remaining is not None:
      self.remaining -= 1
      if self.remaining <= 0:
        self.remaining = None
        self.fired = "%s:%s" % (os.path.basename(frame.f_code.co_filename),
                                frame.f_code.co_name)
        raise SimOOM("injected at a line")
    return self._trace

  def arm(self, k, only=None):
    """Fail at the k-th line, counting all files or only the `only`-th one."""
    self.files = self.all if only is None else self.all[only:only + 1]
    self.remaining = k
    self.fired = None
    sys.settrace(self._trace)

  def disarm(self):
    sys.settrace(None)
    self.remaining = None
    fired, self.fired = self.fired, None
    return fired


@contextlib.contextmanager
def seeded_numpy(seed):
  """The global numpy generator is part of the plan."""
  state = np.random.get_state()
  np.random.seed(seed % (2**32))
  try:
    yield
  finally:
    np.random.set_state(state)
