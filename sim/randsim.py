"""Histories of random draws; the model remembers what every seed gave and, in
abstract tokens, where the global generators are."""
import contextlib
import random

import numpy as np

from sim import tensim
from sim.core import Violation, short_hash
from sim.seams import SimOOM

BACKENDS = ["numpy", "tensorflow", "jax", "symmetric"]
SEEDS = [0, 0, 1, 2, 3, 10, 2**31 - 1]
BOUNDS = [None, (0.0, 1.0), (-1.0, 1.0), (2.0, 5.0), (-3.0, -1.0), (0.0, 0.125)]
DTYPES = [None, "float64", "float64", "float32", "complex128", "complex64"]


class RandomFaults:
  """The random primitives of the numerical libraries fail at a seeded call."""

  def __init__(self):
    self.remaining, self.fired, self._saved = None, None, []

  def __enter__(self):
    import jax
    import tensorflow as tf
    for owner, names in ((np.random, ("randn", "uniform", "randint")),
                         (tf.random, ("normal", "uniform")),
                         (jax.random, ("normal", "uniform"))):
      for name in names:
        orig = getattr(owner, name)
        self._saved.append((owner, name, orig))
        setattr(owner, name, self._wrap(orig, name))
    return self

  def _wrap(self, orig, name):
    def wrapper(*args, **kwargs):
      if self.remaining is not None:
        self.remaining -= 1
        if self.remaining <= 0:
          self.remaining, self.fired = None, name
          raise SimOOM("injected: allocation failed in " + name)
      return orig(*args, **kwargs)
    return wrapper

  def __exit__(self, *exc):
    for owner, name, orig in reversed(self._saved):
      setattr(owner, name, orig)
    return False

  def arm(self, k):
    self.remaining, self.fired = k, None

  def disarm(self):
    self.remaining = None
    fired, self.fired = self.fired, None
    return fired


def gen_draw(rng, seeded=None):
  b = rng.choice(BACKENDS)
  op = {"op": "draw", "b": b, "api": "backend",
        "kind": rng.choice(["randn", "uniform"]),
        "dtype": rng.choice(DTYPES), "bounds": None,
        "shape": [rng.choice((2, 3)) for _ in range(rng.randrange(1, 4))],
        "seed": None}
  if b != "symmetric":
    op["api"] = rng.choice(["backend", "tensor", "node"])
  elif rng.random() < 0.3:
    op["api"] = rng.choice(["class", "function", "chargearray", "like"])
  if op["kind"] == "uniform":
    op["bounds"] = rng.choice(BOUNDS)
  if (rng.random() < 0.6 if seeded is None else seeded) and \
      op["api"] not in ("class", "function", "chargearray", "like"):
    op["seed"] = rng.choice(SEEDS)
  op["ctx"] = rng.random() < 0.3
  op["native"] = rng.random() < 0.6     # tensorflow's dtypes, else numpy's
  return op


def gen_plan(rng, n, faults=0.0):
  few = [gen_draw(rng) for _ in range(5)]
  episodes = []
  for _ in range(3):
    episodes.append({"seed": rng.choice(SEEDS),
                     "draws": [dict(rng.choice(few)) if rng.random() < 0.5 else
                               gen_draw(rng, False)
                               for _ in range(rng.randrange(1, 5))]})
  ops = []
  for _ in range(n):
    x = rng.random()
    if x < 0.45:
      op = dict(rng.choice(few)) if rng.random() < 0.7 else gen_draw(rng)
      if rng.random() < 0.5 and op["seed"] is not None:
        op["seed"] = rng.choice(SEEDS)
      if rng.random() < 0.3 and op["b"] != "symmetric":
        op["api"] = rng.choice(["backend", "tensor", "node"])
      op["ctx"] = rng.random() < 0.3
    elif x < 0.65:
      op = {"op": "episode", "i": rng.randrange(3)}
    elif x < 0.73:
      op = {"op": "mps", "seed": rng.choice(SEEDS + [None]),
            "dtype": rng.choice(["float64", "complex128"]),
            "b": rng.choice(["numpy", "jax"])}
    elif x < 0.78:
      op = {"op": "sample", "r": rng.getrandbits(32)}
    elif x < 0.85:
      op = {"op": "user", "k": rng.randrange(1, 4)}
    else:
      op = {"op": "lib", "r": rng.getrandbits(32)}
    if rng.random() < faults and op["op"] in ("draw", "mps"):
      op["fault"] = rng.randrange(1, 4)
    ops.append(op)
  return {"episodes": episodes, "ops": ops}


class RandSim:

  def __init__(self, plan, ctx, faults=None):
    import tensorflow as tf
    import tensornetwork as tn
    self.tn, self.tf, self.plan, self.ctx = tn, tf, plan, ctx
    self.faults = faults
    self.seeded = {}            # descriptor with seed -> array
    self.by_seed = {}           # descriptor without seed -> {seed: array}
    self.follow = {}            # (token, descriptor) -> array
    self.token = {"np": "start", "tf": "start"}
    self.epoch = {"np": {}, "tf": {}}
    tf.random.set_seed(plan["data_seed"])
    self.lib = None
    self.g = np.random.RandomState(plan["data_seed"])

  # -- model of the global generators ------------------------------------
  def family(self, b):
    return "tf" if b == "tensorflow" else "np"

  def move(self, fam, what, fresh=False):
    self.token[fam] = short_hash((self.token[fam], what))
    if fresh:
      self.epoch[fam] = {}

  # -- drawing -----------------------------------------------------------
  def dtype(self, b, name, native=True):
    if name is None:
      return None
    if b == "tensorflow" and native:
      return self.tf.dtypes.as_dtype(name)
    return np.dtype(name).type

  def indices(self, shape):
    tn = self.tn
    from tensornetwork.block_sparse import Index, U1Charge
    g = np.random.RandomState(len(shape) * 100 + sum(shape))
    return [Index(U1Charge(np.concatenate([[0, 1], g.randint(0, 2, size=d)])),
                  bool(i % 2)) for i, d in enumerate(shape)]

  def draw(self, op):
    tn, b, api = self.tn, op["b"], op["api"]
    kw = {"dtype": self.dtype(b, op["dtype"], op.get("native", True))}
    if op["dtype"] is None:
      kw = {}
    if op["bounds"] is not None:
      kw["boundaries"] = tuple(op["bounds"])
    if op["seed"] is not None or op["ctx"]:
      kw["seed"] = op["seed"]
    shape = tuple(op["shape"])
    if b == "symmetric":
      shape = self.indices(shape)
    if api == "backend":
      be = tn.backends.backend_factory.get_backend(b)
      fn = be.randn if op["kind"] == "randn" else be.random_uniform
      res = fn(shape, **kw)
    elif api in ("class", "function", "chargearray", "like"):
      from tensornetwork import block_sparse as bs
      from tensornetwork.block_sparse.blocksparsetensor import ChargeArray
      kw.pop("seed", None)
      if api == "chargearray":
        cls = ChargeArray
        res = cls.random(shape, **kw)
      elif api == "like":
        pattern = bs.zeros(shape, dtype=np.dtype(op["dtype"] or "float64"))
        kw.pop("dtype", None)
        res = (bs.randn_like if op["kind"] == "randn" else bs.random_like)(
            pattern, **kw)
      elif api == "class":
        cls = bs.BlockSparseTensor
        res = (cls.randn if op["kind"] == "randn" else cls.random)(shape, **kw)
      else:
        res = (bs.randn if op["kind"] == "randn" else bs.random)(shape, **kw)
    else:
      from tensornetwork.linalg import node_linalg
      name = "randn" if op["kind"] == "randn" else "random_uniform"
      owner = tn if api == "tensor" else node_linalg
      con = contextlib.nullcontext()
      if op["ctx"]:
        con = tn.DefaultBackend(b)
      else:
        kw["backend"] = b
      with con:
        res = getattr(owner, name)(shape, **kw)
      if res.backend.name != b:
        raise Violation("wrong-backend", "%s, expected %s" % (
            res.backend.name, b))
      res = res.array if api == "tensor" else res.tensor
    if b == "symmetric":
      return np.asarray(res.data), tuple(res.shape)
    return np.asarray(res), tuple(res.shape)

  def op_draw(self, op):
    b, fam = op["b"], self.family(op["b"])
    bounds = op["bounds"] if op["kind"] == "uniform" else None
    chargearray = op["api"] == "chargearray"
    kind = "uniform" if chargearray else op["kind"]
    if bounds is None and kind == "uniform":
      bounds = (0.0, 1.0)
    desc = (b, kind, tuple(op["shape"]), op["dtype"] or "float64",
            tuple(bounds or ()), op["api"] if chargearray else "")
    if self.faults is not None and op.get("fault"):
      self.faults.arm(op["fault"])
    try:
      arr, shape = self.draw(op)
    except SimOOM:
      self.faults.disarm()
      self.ctx.fault("random")
      self.move(fam, ("failed", desc, op["seed"], op["fault"]), True)
      self.ctx.nontrivial = True
      return
    finally:
      if self.faults is not None:
        self.faults.disarm()
    want = tuple(op["shape"]) if b != "symmetric" else tuple(
        d + 2 for d in op["shape"])
    if shape != want:
      raise Violation("wrong-shape", "%s, expected %s" % (shape, want))
    self.check(arr, np.dtype(op["dtype"] or "float64"), kind, bounds)
    self.ctx.state((desc, op["seed"], op["api"]))
    self.ctx.log("draw", desc, op["seed"], short_hash(arr.tobytes()))
    if op["seed"] is not None:
      key = desc + (op["seed"],)
      old = self.seeded.setdefault(key, arr)
      if not np.array_equal(old, arr):
        raise Violation("seed-not-repeatable", "%s seed %s: %s then %s" % (
            desc, op["seed"], old, arr))
      others = self.by_seed.setdefault(desc, {})
      for s, o in others.items():
        if s != op["seed"] and np.array_equal(o, arr):
          raise Violation("seeds-agree", "%s: seeds %s and %s give %s" % (
              desc, s, op["seed"], arr))
      if old is not arr:
        self.ctx.nontrivial = True
      others[op["seed"]] = arr
      self.move(fam, ("seeded", desc, op["seed"]), True)
      return
    self.unseeded(fam, desc, arr)

  def unseeded(self, fam, desc, arr):
    key = (self.token[fam], desc)
    old = self.follow.setdefault(key, arr)
    if not np.array_equal(old, arr):
      raise Violation("does-not-follow-generator", "%s: %s then %s" % (
          desc, old, arr))
    if old is not arr:
      self.ctx.nontrivial = True
    for o in self.epoch[fam].get(desc, []):
      if np.array_equal(o, arr):
        raise Violation("repeats-itself", "%s: %s" % (desc, arr))
    self.epoch[fam].setdefault(desc, []).append(arr)
    self.move(fam, ("drew", desc))

  def check(self, arr, dtype, kind, bounds):
    if arr.dtype != dtype:
      raise Violation("wrong-dtype", "%s, expected %s" % (arr.dtype, dtype))
    if not np.all(np.isfinite(arr)):
      raise Violation("not-finite", str(arr))
    parts = [arr.real, arr.imag] if dtype.kind == "c" else [arr]
    if len(parts) == 2 and np.array_equal(*parts):
      raise Violation("parts-agree", str(arr))
    if kind == "uniform":
      lo, hi = bounds
      eps = 1e-6 * (abs(lo) + abs(hi))
      for p in parts:
        if np.any(p < lo - eps) or np.any(p > hi + eps):
          raise Violation("out-of-bounds", "%s not in %s" % (p, bounds))

  def op_sample(self, op):
    """A large draw looks like the distribution."""
    rng = random.Random(op["r"])
    d = gen_draw(rng)
    n = 40
    d["shape"] = [n, n]
    bounds = d["bounds"] if d["kind"] == "uniform" else None
    kind = "uniform" if d["api"] == "chargearray" else d["kind"]
    if kind == "uniform" and bounds is None:
      bounds = (0.0, 1.0)
    arr, _ = self.draw(d)
    self.check(arr, np.dtype(d["dtype"] or "float64"), kind, bounds)
    fam = self.family(d["b"])
    self.move(fam, ("sample", op["r"]), True)
    if arr.size < 500:
      return
    parts = [arr.real, arr.imag] if arr.dtype.kind == "c" else [arr]
    for p in parts:
      p = np.asarray(p, np.float64).ravel()
      mean, sd = 0.0, 1.0
      if kind == "uniform":
        mean, sd = sum(bounds) / 2, (bounds[1] - bounds[0]) / np.sqrt(12)
      if abs(p.mean() - mean) > 7 * sd / np.sqrt(p.size) or \
          abs(p.std() - sd) > 0.2 * sd or len(np.unique(p)) < 0.98 * p.size:
        raise Violation("wrong-distribution", "%s: mean %g sd %g (expected %g "
                        "%g), %d distinct of %d" % (
                            {k: d[k] for k in ("b", "api", "kind", "dtype",
                                               "bounds", "seed")},
                            p.mean(), p.std(), mean, sd, len(np.unique(p)),
                            p.size))
    self.ctx.nontrivial = True

  def op_mps(self, op):
    """A random MPS follows the generator of numpy, whatever the backend."""
    tn = self.tn
    if op["seed"] is not None:
      np.random.seed(op["seed"])
      self.token["np"] = short_hash(("seed", op["seed"]))
      self.epoch["np"] = {}
    if self.faults is not None and op.get("fault"):
      self.faults.arm(op["fault"])
    desc = ("mps", op["dtype"], op["b"])
    try:
      mps = tn.FiniteMPS.random([2, 2, 3], [2, 2], dtype=np.dtype(
          op["dtype"]).type, backend=op["b"], canonicalize=False)
    except SimOOM:
      self.ctx.fault("random")
      self.move("np", ("failed", desc, op["fault"]), True)
      return
    finally:
      if self.faults is not None:
        self.faults.disarm()
    arr = np.concatenate([np.asarray(t).ravel() for t in mps.tensors])
    if arr.dtype != np.dtype(op["dtype"]):
      raise Violation("wrong-dtype", str(arr.dtype))
    self.ctx.log("mps", short_hash(arr.tobytes()))
    self.unseeded("np", ("mps", op["dtype"]), arr)

  def op_episode(self, op):
    """The global seeds are set and the same draws follow."""
    ep = self.plan["episodes"][op["i"]]
    np.random.seed(ep["seed"])
    self.tf.random.set_seed(ep["seed"])
    for fam in self.token:
      self.token[fam] = short_hash(("seed", ep["seed"]))
      self.epoch[fam] = {}
    for d in ep["draws"]:
      self.op_draw(d)
      if self.g.random_sample() < 0.2:
        self.op_lib({"r": int(self.g.randint(2**31))})

  def op_user(self, op):
    np.random.random_sample(op["k"])
    self.move("np", ("user", op["k"]))

  def op_lib(self, op):
    """Operations that are not random leave the generators alone."""
    rng = random.Random(op["r"])
    if self.lib is None:
      self.lib = (tensim.TenSim(dict(self.plan, dtype="complex128"), self.ctx))
    before, py = np.random.get_state(), random.getstate()
    self.lib.step(tensim.gen_ops(rng, 1, ["numpy"])[-1])
    after = np.random.get_state()
    if before[2] != after[2] or before[3] != after[3] or \
        before[4] != after[4] or not np.array_equal(before[1], after[1]) or \
        py != random.getstate():
      raise Violation("generator-moved", "by " + self.lib.what)

  def step(self, op):
    getattr(self, "op_" + op["op"])(op)
    self.ctx.op(op["op"])
    self.ctx.ticks += 1
    self.ctx.log(op["op"], self.token["np"], self.token["tf"])
