"""Histories of block-sparse tensor operations against dense arrays.

A model tensor is a dense array with one axis per elementary leg, the charges
and flow of every leg, and the grouping of legs into axes.  The reading of a
library tensor (`read`) uses only its data, charges, flows and order and is
written from the definition: the data lists, in row-major order of the stored
legs, the elements whose total charge is the identity.
"""
import random
import warnings

import numpy as np

from sim.core import Violation, short_hash
from sim.netsim import close
from sim.seams import SimOOM

# name -> moduli of the factors (0: U(1))
SYMMETRIES = {
    "U1": (0,), "Z2": (2,), "Z3": (3,), "Z5": (5,), "U1xU1": (0, 0),
    "U1xZ2": (0, 2), "Z2xZ3": (2, 3), "U1xU1xZ2": (0, 0, 2),
}


class Leg:
  """Charges (n, nsym) and flow of one elementary leg."""
  __slots__ = ("q", "flow")

  def __init__(self, q, flow):
    self.q = q
    self.flow = bool(flow)

  @property
  def dim(self):
    return self.q.shape[0]

  def dual(self):
    return Leg(self.q, not self.flow)


def mod_eq(a, b):
  return a.q.shape == b.q.shape and np.array_equal(a.q, b.q) and \
      a.flow == b.flow


def mask_of(legs, mods):
  """Boolean array: True where the total charge is the identity."""
  shape = tuple(l.dim for l in legs)
  ok = np.ones(shape, dtype=bool)
  for s, m in enumerate(mods):
    tot = np.zeros(shape, dtype=np.int64)
    for i, l in enumerate(legs):
      v = l.q[:, s].astype(np.int64)
      if l.flow:
        v = -v
      tot = tot + v.reshape([-1 if j == i else 1 for j in range(len(legs))])
    if m:
      tot = tot % m
    ok &= tot == 0
  return ok


class Model:
  def __init__(self, arr, legs, groups, mods, tensor, charge_array=False):
    self.arr = arr            # elementary shape, current order
    self.legs = legs
    self.groups = groups      # list of lists of elementary positions
    self.mods = mods
    self.t = tensor
    self.ca = charge_array

  @property
  def ndim(self):
    return len(self.groups)

  @property
  def shape(self):
    return tuple(
        int(np.prod([self.legs[i].dim for i in g])) for g in self.groups)

  def dense(self):
    return self.arr.reshape(self.shape)

  def gleg(self, axis):
    return [self.legs[i] for i in self.groups[axis]]


def read(t, mods, charge_array=False):
  """(arr, legs, groups) of a library tensor, from its definition."""
  data = np.asarray(t.data)
  order = [[int(x) for x in o] for o in t._order]
  if not order:
    if data.size != 1 and not (data.size == 0):
      raise Violation("scalar-data", "scalar tensor with %d numbers" % data.size)
    return data.reshape(()) if data.size == 1 else np.zeros(()), [], []
  flat = [x for o in order for x in o]
  if sorted(flat) != list(range(len(t._charges))):
    raise Violation("bad-order", "%s of %d legs" % (order, len(t._charges)))
  legs = []
  for c, f in zip(t._charges, t._flows):
    q = np.asarray(c.charges)
    if q.ndim == 1:
      q = q[:, None]
    q = q.astype(np.int64)
    if q.shape[1] != len(mods):
      raise Violation("charge-types", "%d symmetries, expected %d" %
                      (q.shape[1], len(mods)))
    legs.append(Leg(q, f))
  shape = tuple(l.dim for l in legs)
  if charge_array:
    if data.size != int(np.prod(shape)):
      raise Violation("data-size", "%d numbers for shape %s" %
                      (data.size, shape))
    out = data.reshape(shape)
  else:
    mask = mask_of(legs, mods)
    if int(mask.sum()) != data.size:
      raise Violation(
          "data-size", "%d numbers, but %d elements conserve charge" %
          (data.size, int(mask.sum())))
    out = np.zeros(shape, dtype=data.dtype)
    out[mask] = data
  groups, k = [], 0
  for o in order:
    groups.append(list(range(k, k + len(o))))
    k += len(o)
  return out.transpose(flat), [legs[i] for i in flat], groups


class BlockSim:
  """Executes a history; every op draws its choices from its own seed."""

  def __init__(self, plan, ctx, faults=None, lines=None):
    import tensornetwork as tn
    from tensornetwork import block_sparse as bs
    from tensornetwork.block_sparse import charge
    from tensornetwork.backends import backend_factory
    self.tn, self.bs, self.ch = tn, bs, charge
    self.be = backend_factory.get_backend("symmetric")
    self.plan, self.ctx, self.faults = plan, ctx, faults
    self.pool = []
    self.types = {0: charge.U1Charge, 2: charge.Z2Charge}
    self.maxdim = plan.get("maxdim", 4)
    self.maxrank = plan.get("maxrank", 5)
    self.syms = plan["syms"]
    self.npr = np.random.RandomState(plan["data_seed"] % 2**32)
    self.ends = None
    self.lines = lines
    self.lowp = plan.get("lowp", False)
    self.qdtype = plan.get("qdtype", "int16")   # of the charges

  # -- construction ---------------------------------------------------------
  def ctype(self, m):
    # (asking twice for the same group gives the same group)
    return self.types[m] if m in self.types else self.ch.ZNCharge(m)

  def charge_obj(self, leg, mods, rng=None):
    """A library charge; several equivalent ways to build it."""
    parts = []
    dt = self.qdtype
    if dt == "mixed":
      dt = rng.choice(["int16", "int32", "int64"]) if rng is not None and \
          np.all(np.abs(leg.q) < 6000) else "int32"
    dt = np.dtype(dt).type
    kw = {} if dt is np.int16 else {"charge_dtype": dt}
    for s, m in enumerate(mods):
      parts.append(self.ctype(m)(leg.q[:, s].astype(dt), **kw))
    if len(parts) == 1:
      c = parts[0]
      if rng is not None and rng.random() < 0.3:
        c.unique_charges  # noqa: B018  (switch to the label representation)
      if rng is not None and rng.random() < 0.15:
        # an equal charge made by conjugating the conjugate
        q = -leg.q[:, 0] % mods[0] if mods[0] else -leg.q[:, 0]
        c = self.ctype(mods[0])(q.astype(dt), **kw)
        c.unique_charges  # noqa: B018
        c = c.dual(True)
    elif rng is not None and rng.random() < 0.3:
      c = self.ch.BaseCharge(leg.q.astype(dt),
                             charge_types=[self.ctype(m) for m in mods], **kw)
    else:
      c = parts[0]
      for p in parts[1:]:
        c = c @ p
    return c

  def rand_leg(self, rng, mods):
    if rng.random() < 0.03 and not self.plan.get("small_charges") and \
        (mods[0] == 0 or mods[0] == 5):
      # many blocks
      q = np.zeros((18, len(mods)), dtype=np.int64)
      q[:, 0] = np.arange(-9, 9) if mods[0] == 0 else np.arange(18) % 5
      for s, m in list(enumerate(mods))[1:]:
        q[:, s] = [rng.randrange(m or 3) for _ in range(18)]
      return Leg(q, rng.random() < 0.5)
    d = rng.choice([1, 2, 2, 3, 3, 4])
    d = min(d, self.maxdim)
    q = np.zeros((d, len(mods)), dtype=np.int64)
    for s, m in enumerate(mods):
      for i in range(d):
        q[i, s] = rng.choice([-1, 0, 0, 1]) if m == 0 else rng.randrange(m)
    if self.plan.get("small_charges"):
      # the same values are charges of every symmetry
      q = np.array([[rng.randrange(2) for _ in mods] for _ in range(d)],
                   dtype=np.int64).reshape(d, len(mods))
      return Leg(q, rng.random() < 0.5)
    if rng.random() < 0.2:
      q = q[np.lexsort(q.T[::-1])]
    if 0 in mods and rng.random() < 0.1:
      q[:, mods.index(0)] *= rng.choice(
          [2, 3, 100, 1000] + [20000, 40000] * (self.qdtype != "int16"))
    return Leg(q, rng.random() < 0.5)

  def new_legs(self, rng, mods, rank):
    legs = []
    like = [m for m in self.pool if m.mods == mods and m.legs and not m.ca]
    while len(legs) < rank:
      x = rng.random()
      if like and x < 0.5:
        m = rng.choice(like)
        l = rng.choice(m.legs)
        legs.append(l.dual() if rng.random() < 0.7 else l)
      elif legs and x < 0.7:
        legs.append(rng.choice(legs).dual())
      else:
        legs.append(self.rand_leg(rng, mods))
    rng.shuffle(legs)
    while legs and np.prod([l.dim for l in legs]) > 400:
      legs.pop()
    return legs

  def indices(self, legs, groups, mods, rng):
    cs = [self.charge_obj(l, mods, rng) for l in legs]
    return [self.tn.block_sparse.Index([cs[i] for i in g],
                                       [legs[i].flow for i in g])
            for g in groups]

  def group(self, n, rng, p=0.25):
    groups, cur = [], []
    for i in range(n):
      cur.append(i)
      if i == n - 1 or rng.random() > p:
        groups.append(cur)
        cur = []
    return groups

  def values(self, shape, dtype, rng):
    a = self.npr.randn(*shape)
    if np.dtype(dtype).kind == "c":
      a = a + 1j * self.npr.randn(*shape)
    return a.astype(dtype)

  def rand_dtype(self, rng):
    if self.lowp:
      return rng.choice([np.float32, np.float32, np.complex64, np.float64])
    return rng.choice([np.float64, np.float64, np.complex128])

  # -- bookkeeping ----------------------------------------------------------
  def put(self, m):
    if any(l.dim == 0 for l in m.legs):
      self.ctx.probe("empty-leg")
      return
    self.pool.append(m)
    while len(self.pool) > 7:
      self.pool.pop(0)

  def accept(self, t, arr, legs, mods, what, shape=None, charge_array=False,
             tol=None, dtype=None):
    """Check a result against the model values and put it into the pool."""
    got, glegs, groups = read(t, mods, charge_array)
    if len(glegs) != len(legs):
      raise Violation("wrong-legs", "%s: %d legs, expected %d" %
                      (what, len(glegs), len(legs)))
    for i, (a, b) in enumerate(zip(glegs, legs)):
      if not mod_eq(a, b):
        raise Violation("wrong-legs", "%s: leg %d has charges %s flow %s, "
                        "expected %s flow %s" %
                        (what, i, a.q.tolist(), a.flow, b.q.tolist(), b.flow))
    if shape is not None and tuple(t.shape) != tuple(shape):
      raise Violation("wrong-shape", "%s: %s, expected %s" %
                      (what, tuple(t.shape), tuple(shape)))
    if dtype is None:
      dtype = np.asarray(arr).dtype
    if np.dtype(t.dtype) != np.dtype(dtype):
      raise Violation("wrong-dtype", "%s: %s, expected %s" %
                      (what, t.dtype, np.dtype(dtype)))
    self.eq(got, arr, what)
    m = Model(np.asarray(arr).reshape([l.dim for l in legs]), legs, groups,
              mods, t, charge_array)
    self.verify(m, what)
    self.put(m)
    return m

  def eq(self, got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
      raise Violation("wrong-shape", "%s: %s, expected %s" %
                      (what, got.shape, want.shape))
    scale = max(1.0, float(np.abs(want).max()) if want.size else 1.0)
    tol = (1e-3 if self.lowp else 1e-8) * scale
    if not np.all(np.isfinite(got)) or (
        want.size and np.abs(got - want).max() > tol):
      raise Violation("wrong-value", "%s: max deviation %s (scale %s)" %
                      (what, np.abs(got - want).max() if want.size else None,
                       scale))

  def verify(self, m, what):
    got, glegs, groups = read(m.t, m.mods, m.ca)
    if not all(mod_eq(a, b) for a, b in zip(glegs, m.legs)) or \
        len(glegs) != len(m.legs) or groups != m.groups:
      raise Violation("operand-changed", "%s changed the legs of a tensor" %
                      what)
    if tuple(m.t.shape) != m.shape:
      raise Violation("wrong-shape", "%s: %s, expected %s" %
                      (what, m.t.shape, m.shape))
    g, w = np.asarray(got), m.arr
    if not np.array_equal(g, w):
      try:
        self.eq(g, w, what)
      except Violation as v:
        raise Violation("operand-changed" if v.sig == "wrong-value" else v.sig,
                        "%s: %s" % (what, v.detail))

  def check_all(self, what):
    for m in self.pool:
      self.verify(m, what)

  def close_result(self, m, name):
    """`todense` of the library agrees with the reading from the definition."""
    d = m.t.todense()
    if m.legs and np.shape(d) != tuple(m.shape):
      raise Violation("wrong-shape", "%s.todense: %s, expected %s" %
                      (name, np.shape(d), tuple(m.shape)))
    self.eq(np.asarray(d).reshape(m.shape if m.legs else ()), m.dense(),
            name + ".todense")

  # -- choosing -------------------------------------------------------------
  def pick(self, rng, pred=lambda m: not m.ca):
    cand = [m for m in self.pool if pred(m)]
    return rng.choice(cand) if cand else None

  def step(self, op):
    res = self.step1(op)
    if res == "fault" and op.get("retry"):
      # the same operation again, now without a failure
      self.ctx.probe("retried")
      self.step1({k: v for k, v in op.items() if k in ("op", "r")})
    return res

  def step1(self, op):
    rng = random.Random(op["r"])
    name = op["op"]
    fn = getattr(self, "do_" + name)
    self.ctx.ticks += 1
    k = op.get("fault")
    if k is not None and self.faults is not None:
      self.faults.arm(k)
    snapshot = list(self.pool)
    line = op.get("line") if self.lines is not None else None
    if line is not None:
      self.lines.arm(line, op.get("only"))
    try:
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = fn(rng)
    except SimOOM:
      site = self.lines.disarm() if line is not None else None
      if site is not None:
        self.ctx.fault("out-of-memory-at-a-line")
        self.ctx.probe("fault-at-" + site)
      elif self.faults is not None and self.faults.disarm() is not None:
        self.ctx.fault("alloc")
      else:
        raise
      self.pool = snapshot
      self.check_all("a failed " + name)
      self.ctx.log(name, "failed")
      self.ctx.nontrivial = True
      return "fault"
    finally:
      if line is not None:
        self.lines.disarm()
      if self.faults is not None:
        self.faults.disarm()
    if res == "skip":
      self.ctx.log(name, "skip")
      return "skip"
    self.ctx.op(name)
    if name not in ("new",):
      self.ctx.nontrivial = True
    self.check_all(name)
    self.ctx.log(name, self.summary())
    self.ctx.state(self.summary())
    return "ok"

  def summary(self):
    return short_hash([[m.shape, [l.q.tolist() for l in m.legs],
                        [l.flow for l in m.legs], m.mods, str(m.arr.dtype)]
                       for m in self.pool])

  # -- operations -----------------------------------------------------------
  def paired_legs(self, rng, mods, legs):
    """Two axes of fused legs that can be traced over or multiplied."""
    half = list(legs[:rng.choice([1, 2, 2, 3])]) or [self.rand_leg(rng, mods)]
    while len(half) > 1 and np.prod([l.dim for l in half]) > 12:
      half.pop()
    other = [self.rand_leg(rng, mods)] if rng.random() < 0.4 else []
    res = half + other + [l.dual() for l in half]
    groups = [list(range(len(half))), list(range(len(half), len(half + other))),
              list(range(len(half + other), len(res)))]
    return res, [g for g in groups if g]

  def do_new(self, rng):
    mods = SYMMETRIES[rng.choice(self.syms)]
    legs = self.new_legs(rng, mods, rng.choice([1, 2, 2, 3, 3, 4, 5]) if
                         self.maxrank >= 5 else rng.randrange(1, self.maxrank + 1))
    groups = self.group(len(legs), rng)
    if rng.random() < 0.15:
      legs, groups = self.paired_legs(rng, mods, legs)
    dtype = self.rand_dtype(rng)
    idx = self.indices(legs, groups, mods, rng)
    shape = tuple(l.dim for l in legs)
    mask = mask_of(legs, mods)
    T = self.bs.BlockSparseTensor
    kind = rng.choice(["fromdense", "fromdense", "data", "ones", "zeros",
                       "randn", "random"])
    gshape = tuple(int(np.prod([legs[i].dim for i in g])) for g in groups)
    if kind == "fromdense":
      a = self.values(shape, dtype, rng)
      src = a.reshape(gshape)
      keep = src.copy()
      t = T.fromdense(idx, src)
      if not np.array_equal(src, keep):
        raise Violation("argument-changed", "fromdense changed its array")
      arr = np.where(mask, a, 0).astype(dtype)
    elif kind == "data":
      a = np.where(mask, self.values(shape, dtype, rng), 0).astype(dtype)
      t = T(a[mask], [c for i in idx for c in i.flat_charges],
            [f for i in idx for f in i.flat_flows],
            order=groups, check_consistency=True)
      arr = a
    elif kind in ("ones", "zeros"):
      f = rng.choice([getattr(T, kind), getattr(self.bs, kind)])
      t = f(idx, dtype=dtype)
      arr = (mask * (1 if kind == "ones" else 0)).astype(dtype)
    else:
      f = rng.choice([getattr(T, kind), getattr(self.bs, kind)])
      t = f(idx, dtype=dtype)
      arr = read(t, mods)[0]
      if kind == "random" and np.any(np.abs(np.real(arr)) > 1):
        raise Violation("wrong-value", "random() outside of its boundaries")
      arr = np.where(mask, arr, 0).astype(dtype)
    if rng.random() < 0.3:
      self.close_result(
          Model(arr, legs, groups, mods, t), kind)
    self.accept(t, arr, legs, mods, kind, shape=gshape, dtype=dtype)

  def do_reshape(self, rng):
    m = self.pick(rng, lambda m: m.legs)
    if m is None:
      return "skip"
    groups = self.group(len(m.legs), rng, 0.4)
    shape = [int(np.prod([m.legs[i].dim for i in g])) for g in groups]
    if rng.random() < 0.2:
      arg = [self.tn.block_sparse.Index([m.t.flat_charges[i] for i in g],
                                        [bool(m.legs[i].flow) for i in g])
             for g in groups]
    else:
      arg = shape
    f = rng.choice([lambda: m.t.reshape(arg), lambda: self.bs.reshape(m.t, arg),
                    lambda: self.be.reshape(m.t, np.array(shape))])
    self.accept(f(), m.arr, m.legs, m.mods, "reshape", shape=shape,
                charge_array=m.ca, dtype=m.arr.dtype)

  def perm_model(self, m, perm):
    flat = [i for g in perm for i in m.groups[g]]
    return m.arr.transpose(flat), [m.legs[i] for i in flat]

  def do_transpose(self, rng):
    m = self.pick(rng, lambda m: m.legs)
    if m is None:
      return "skip"
    perm = list(range(m.ndim))
    rng.shuffle(perm)
    arr, legs = self.perm_model(m, perm)
    sh = [m.shape[p] for p in perm]
    how = rng.randrange(5 if self.ends is None else 4)
    perm = self.from_end(perm, m.ndim)
    if self.ends is not None and m.ca and m.ndim == 2:
      arr, legs = self.perm_model(m, [1, 0])
      self.accept(m.t.T, arr, legs, m.mods, "T", shape=m.shape[::-1],
                  charge_array=True, dtype=m.arr.dtype)
      return
    if how == 0:
      t = m.t.transpose(tuple(perm))
    elif how == 1:
      t = m.t.transpose(tuple(perm), shuffle=True)
    elif how == 2:
      t = self.bs.transpose(m.t, tuple(perm), rng.random() < 0.5)
    elif how == 3:
      t = self.be.transpose(m.t, tuple(perm))
    else:
      perm = list(range(m.ndim))[::-1]
      arr, legs = self.perm_model(m, perm)
      sh = [m.shape[p] for p in perm]
      if m.ndim == 2 and rng.random() < 0.5:
        t = m.t.T
      else:
        t = self.be.transpose(m.t)
    self.accept(t, arr, legs, m.mods, "transpose", shape=sh,
                charge_array=m.ca, dtype=m.arr.dtype)

  def do_contiguous(self, rng):
    m = self.pick(rng, lambda m: m.legs)
    if m is None:
      return "skip"
    if m.ca:
      t = m.t.contiguous()
    else:
      how = rng.randrange(3)
      if how == 0:
        t = m.t.contiguous()
      elif how == 1:
        perm = list(range(len(m.legs)))
        rng.shuffle(perm)
        t = m.t.contiguous(perm, inplace=rng.random() < 0.5)
      else:
        t = m.t.contiguous(inplace=True)
        if t is not m.t:
          raise Violation("wrong-value", "in-place contiguous returned a copy")
      if how != 1 and list(t.flat_order) != list(range(len(m.legs))):
        raise Violation("not-contiguous", "order %s" % (t._order,))
    self.accept(t, m.arr, m.legs, m.mods, "contiguous", shape=m.shape,
                charge_array=m.ca, dtype=m.arr.dtype)

  def do_conj(self, rng):
    m = self.pick(rng, lambda m: m.legs)
    if m is None:
      return "skip"
    if m.ndim == 2 and rng.random() < 0.4:
      arr, legs = self.perm_model(m, [1, 0])
      self.accept(m.t.H, arr.conj(), [l.dual() for l in legs], m.mods, "H",
                  shape=m.shape[::-1], charge_array=m.ca)
      return
    f = rng.choice([lambda: m.t.conj(), lambda: self.bs.conj(m.t),
                    lambda: self.be.conj(m.t)])
    self.accept(f(), m.arr.conj(), [l.dual() for l in m.legs], m.mods, "conj",
                shape=m.shape, charge_array=m.ca, dtype=m.arr.dtype)

  def do_copy(self, rng):
    m = self.pick(rng, lambda m: not m.ca and m.legs)
    if m is None:
      return "skip"
    c = m.t.copy()
    keep = m.arr.copy()
    if c.data.size and rng.random() < 0.5:
      c.data *= 3
      arr = m.arr * 3
      self.verify(m, "writing into a copy")
    else:
      arr = keep
    self.accept(c, arr, m.legs, m.mods, "copy", shape=m.shape)

  def do_scale(self, rng):
    m = self.pick(rng, lambda m: not m.ca)
    if m is None:
      return "skip"
    x = rng.choice([2.0, -0.5, 3, 1.5])
    how = rng.randrange(7)
    w = {0: lambda: (m.t * x, m.arr * x), 1: lambda: (x * m.t, m.arr * x),
         2: lambda: (m.t / x, m.arr / x), 3: lambda: (-m.t, -m.arr),
         4: lambda: (m.t**2, m.arr**2),
         5: lambda: (self.be.multiply(m.t, x), m.arr * x),
         6: lambda: (self.be.divide(m.t, x), m.arr / x)}
    t, arr = w[how]()
    self.accept(t, arr, m.legs, m.mods, "scale%d" % how, shape=m.shape)

  def partner(self, rng, m):
    """A tensor with the same legs as m but possibly another layout."""
    cand = [x for x in self.pool if not x.ca and x.shape == m.shape and
            x.mods == m.mods and len(x.legs) == len(m.legs) and
            all(mod_eq(a, b) for a, b in zip(x.legs, m.legs)) and
            x.groups == m.groups]
    cand2 = [x for x in cand if x is not m]
    if cand2 and rng.random() < 0.5:
      return rng.choice(cand2)
    if cand and rng.random() < 0.1:
      return m
    # build one: transpose of a tensor stored in another order
    perm = list(range(m.ndim))
    rng.shuffle(perm)
    inv = [perm.index(i) for i in range(m.ndim)]
    dtype = self.rand_dtype(rng)
    a = self.values([l.dim for l in m.legs], dtype, rng)
    a = np.where(mask_of(m.legs, m.mods), a, 0).astype(dtype)
    idx = self.indices(m.legs, m.groups, m.mods, None)
    pa, _ = self.perm_model(Model(a, m.legs, m.groups, m.mods, None), perm)
    t = self.bs.BlockSparseTensor.fromdense(
        [idx[p] for p in perm], pa.reshape([m.shape[p] for p in perm]))
    t = t.transpose(inv)
    return self.accept(t, a, m.legs, m.mods, "partner", shape=m.shape)

  def do_add(self, rng):
    m = self.pick(rng, lambda m: not m.ca and m.legs)
    if m is None:
      return "skip"
    o = self.partner(rng, m)
    how = rng.randrange(4)
    try:
      t, arr = [lambda: (m.t + o.t, m.arr + o.arr),
                lambda: (m.t - o.t, m.arr - o.arr),
                lambda: (self.be.addition(m.t, o.t), m.arr + o.arr),
                lambda: (self.be.subtraction(m.t, o.t), m.arr - o.arr)][how]()
    except ValueError as e:
      raise Violation("valid-refused", "adding tensors with equal legs: %s" % e)
    self.accept(t, arr, m.legs, m.mods, "add%d" % how, shape=m.shape,
                dtype=np.result_type(m.arr.dtype, o.arr.dtype))

  def do_iadd(self, rng):
    """+= on a name does not change other references to the tensor."""
    m = self.pick(rng, lambda m: not m.ca and m.legs)
    if m is None:
      return "skip"
    o = self.partner(rng, m)
    t = m.t
    if rng.random() < 0.5:
      t += o.t
      arr = m.arr + o.arr
    else:
      t -= o.t
      arr = m.arr - o.arr
    self.accept(t, arr, m.legs, m.mods, "iadd", shape=m.shape)

  def do_bad(self, rng):
    """Non-matching arguments are refused."""
    m = self.pick(rng, lambda m: not m.ca and m.legs)
    o = self.pick(rng, lambda x: not x.ca and x.legs)
    if m is None or m.mods != o.mods:
      return "skip"
    how = rng.randrange(4)
    if how == 3:
      # the same numbers as charges of another group
      i, s = rng.randrange(m.ndim), rng.randrange(len(m.mods))
      legs = m.gleg(i)
      qs = np.concatenate([l.q[:, s] for l in legs])
      ks = [k for k in (0, 2, 3, 5) if k != m.mods[s] and
            (not k or (qs.min() >= 0 and qs.max() < k))]
      if not ks or np.prod([l.dim for l in legs]) > 20:
        return "skip"
      mods = list(m.mods)
      mods[s] = rng.choice(ks)
      ind = self.indices([l.dual() for l in legs] + list(legs),
                         [list(range(len(legs))),
                          list(range(len(legs), 2 * len(legs)))],
                         type(m.mods)(mods), rng)
      u = self.bs.BlockSparseTensor.ones(ind, dtype=m.arr.dtype)
      f = lambda: self.bs.tensordot(m.t, u, ([i], [0]))
    elif how == 0:
      if m.shape == o.shape and m.groups == o.groups and \
          all(mod_eq(a, b) for a, b in zip(m.legs, o.legs)):
        return "skip"
      f = lambda: m.t + o.t
    elif how == 1:
      i, j = rng.randrange(m.ndim), rng.randrange(o.ndim)
      a, b = m.gleg(i), o.gleg(j)
      if len(a) == len(b) and all(mod_eq(x, y.dual()) for x, y in zip(a, b)):
        return "skip"
      f = lambda: self.bs.tensordot(m.t, o.t, ([i], [j]))
    else:
      if m.ndim < 2:
        return "skip"
      i, j = rng.sample(range(m.ndim), 2)
      a, b = m.gleg(i), m.gleg(j)
      if len(a) == len(b) and all(mod_eq(x, y.dual()) for x, y in zip(a, b)):
        return "skip"
      f = lambda: self.bs.trace(m.t, (i, j))
    try:
      f()
    except (ValueError, TypeError):
      self.ctx.probe("refused")
      return None
    raise Violation("mismatch-accepted",
                    ["add", "tensordot", "trace", "tensordot"][how] +
                    " of tensors whose legs do not match")

  def do_tensordot(self, rng):
    pairs = []
    for a in self.pool:
      for b in self.pool:
        if a.ca or b.ca or a.mods != b.mods or not a.legs or not b.legs:
          continue
        for i in range(a.ndim):
          for j in range(b.ndim):
            x, y = a.gleg(i), b.gleg(j)
            if len(x) == len(y) and all(
                mod_eq(p, q.dual()) for p, q in zip(x, y)):
              pairs.append((a, b, i, j))
    mode = rng.random()
    if not pairs or mode < 0.12:
      a = self.pick(rng)
      if a is None:
        return "skip"
      b = self.pick(rng, lambda x: not x.ca and x.mods == a.mods)
      if not a.legs or not b.legs:
        # scalars carry no symmetry
        pass
      if np.prod(a.shape) * np.prod(b.shape) > 3000 or \
          len(a.legs) + len(b.legs) > 12:
        return "skip"
      arr = np.multiply.outer(a.arr, b.arr)
      f = rng.choice([lambda: self.bs.tensordot(a.t, b.t, 0),
                      lambda: self.bs.tensordot(a.t, b.t, ([], [])),
                      lambda: self.be.outer_product(a.t, b.t),
                      lambda: self.bs.outerproduct(a.t, b.t)])
      self.accept(f(), arr, a.legs + b.legs, a.mods if a.legs else b.mods,
                  "outer", shape=a.shape + b.shape,
                  dtype=np.result_type(a.arr.dtype, b.arr.dtype))
      return
    a, b, i, j = rng.choice(pairs)
    ax1, ax2 = [i], [j]
    rest = [(p[2], p[3]) for p in pairs if p[0] is a and p[1] is b]
    rng.shuffle(rest)
    want = rng.choice([1, 1, 2, 3, 9])
    for p, q in rest:
      if len(ax1) < want and p not in ax1 and q not in ax2:
        ax1.append(p)
        ax2.append(q)
    fa = [x for k in range(a.ndim) if k not in ax1 for x in a.groups[k]]
    fb = [x for k in range(b.ndim) if k not in ax2 for x in b.groups[k]]
    legs = [a.legs[x] for x in fa] + [b.legs[x] for x in fb]
    if np.prod([l.dim for l in legs]) > 3000 or len(legs) > 12:
      return "skip"
    arr = np.tensordot(a.arr, b.arr,
                       ([x for k in ax1 for x in a.groups[k]],
                        [x for k in ax2 for x in b.groups[k]]))
    shape = [a.shape[k] for k in range(a.ndim) if k not in ax1] + \
        [b.shape[k] for k in range(b.ndim) if k not in ax2]
    n = len(ax1)
    ax1, ax2 = self.from_end(ax1, a.ndim), self.from_end(ax2, b.ndim)
    fs = [lambda: self.bs.tensordot(a.t, b.t, (ax1, ax2)),
          lambda: self.be.tensordot(a.t, b.t, (ax1, ax2)),
          lambda: self.bs.tensordot(a.t, b.t, (tuple(ax1), tuple(ax2)))]
    if self.ends is not None and n == 1 and i == j:
      # one axis that is the same for both
      fs += [lambda: self.bs.tensordot(a.t, b.t, [i]),
             lambda: self.bs.tensordot(a.t, b.t, (i,))]
    if ax1 == list(range(a.ndim - n, a.ndim)) and ax2 == list(range(n)):
      fs += [lambda: self.bs.tensordot(a.t, b.t, n)] * 2
      if n == 1 and a.ndim <= 2 and b.ndim <= 2:
        fs += [lambda: a.t @ b.t] * 2
    k1, k2 = list(ax1), list(ax2)
    try:
      t = rng.choice(fs)()
    except ValueError as e:
      raise Violation("valid-refused", "contracting matching legs: %s" % e)
    if k1 != ax1 or k2 != ax2:
      raise Violation("argument-changed", "tensordot changed its axes")
    self.accept(t, arr, legs, a.mods, "tensordot%s" % ((ax1, ax2),),
                shape=shape, dtype=np.result_type(a.arr.dtype, b.arr.dtype))

  def from_end(self, axes, ndim):
    """Some of the axes counted from the end."""
    if self.ends is None:
      return axes
    return [a - ndim if self.ends.random() < 0.6 else a for a in axes]

  def do_ends(self, rng):
    """Operations whose axes are counted from the end, and repeated axes."""
    how = rng.choice(["tensordot", "tensordot", "transpose", "trace", "bad", "same",
                      "T"])
    if how == "T":
      mods = SYMMETRIES[rng.choice(self.syms)]
      legs = self.new_legs(rng, mods, rng.choice([2, 2, 3]))
      if len(legs) < 2:
        return "skip"
      cut = rng.randrange(1, len(legs))
      order = [list(range(cut)), list(range(cut, len(legs)))]
      a = self.values([l.dim for l in legs], np.float64, rng)
      t = self.bs.ChargeArray(a.ravel(), [self.charge_obj(l, mods, rng)
                                          for l in legs],
                              [l.flow for l in legs], order)
      sh = [int(np.prod([legs[i].dim for i in o])) for o in order]
      self.accept(t.T, np.moveaxis(a, range(cut), range(-cut, 0)),
                  legs[cut:] + legs[:cut], mods, "T", shape=sh[::-1],
                  charge_array=True)
      return
    if how == "same":
      # one axis, the same of both tensors
      m = self.pick(rng, lambda m: not m.ca and m.ndim >= 1 and m.legs)
      if m is None:
        return "skip"
      k = rng.randrange(m.ndim)
      g = m.groups[k]
      rest = [x for j in range(m.ndim) if j != k for x in m.groups[j]]
      legs = [m.legs[x] for x in rest]
      if np.prod([l.dim for l in legs])**2 > 3000 or not legs:
        return "skip"
      sh = [m.shape[j] for j in range(m.ndim) if j != k]
      ax = rng.choice([[k], (k,), ([k], [k])])
      t = rng.choice([self.bs, self.be]).tensordot(m.t, m.t.conj(), ax)
      self.accept(t, np.tensordot(m.arr, m.arr.conj(), (g, g)),
                  legs + [l.dual() for l in legs], m.mods,
                  "tensordot %s" % (ax,), shape=sh + sh, dtype=m.arr.dtype)
      return
    if how == "bad":
      m = self.pick(rng, lambda m: not m.ca and m.ndim >= 2)
      if m is None:
        return "skip"
      perm = list(range(m.ndim))
      rng.shuffle(perm)
      perm[0] = perm[1] - rng.choice([0, m.ndim])
      what, n = rng.randrange(4), len(m.t.data)
      if what < 2:
        f = lambda: self.bs.transpose(m.t, tuple(perm))
      elif what == 2:
        # numbers that do not fit the charges, axes that are no permutation
        order = [list(o) for o in m.t._order]
        if rng.random() < 0.5:
          data = np.ones(n + rng.choice([-1, 1]) if n else 1)
        else:
          data = np.ones(n)
          order[0] = order[0][:-1] + [rng.choice([len(m.legs),
                                                  order[1][0]])]
        f = lambda: self.bs.BlockSparseTensor(
            data, m.t._charges, m.t._flows, order=order, check_consistency=True)
      else:
        ax = [perm[0], perm[1]] if rng.random() < 0.5 else perm[:]
        c = self.bs.BlockSparseTensor.conj(m.t)
        f = lambda: self.bs.tensordot(m.t, c, (ax, ax))
      try:
        f()
      except (ValueError, IndexError):
        self.ctx.probe("refused")
        return
      raise Violation("not-refused", "axes or numbers that do not fit: %s %s" %
                      ((["transpose"] * 2 + ["constructor", "tensordot"])[what],
                       perm))
    self.ends = rng
    try:
      return {"tensordot": self.do_tensordot, "transpose": self.do_transpose,
              "trace": self.do_trace}[how](rng)
    finally:
      self.ends = None

  def do_node(self, rng):
    """The same contraction through nodes and edges."""
    tn = self.tn
    pairs = []
    for a in self.pool:
      for b in self.pool:
        if a.ca or b.ca or a is b or a.mods != b.mods:
          continue
        for i in range(a.ndim):
          for j in range(b.ndim):
            x, y = a.gleg(i), b.gleg(j)
            if len(x) == len(y) and all(
                mod_eq(p, q.dual()) for p, q in zip(x, y)):
              pairs.append((a, b, i, j))
    if not pairs:
      return "skip"
    a, b, i, j = rng.choice(pairs)
    na, nb = tn.Node(a.t, backend="symmetric"), tn.Node(b.t, backend="symmetric")
    e = na[i] ^ nb[j]
    left = [x for k, x in enumerate(na.edges) if k != i]
    right = [x for k, x in enumerate(nb.edges) if k != j]
    fa = [x for k in range(a.ndim) if k != i for x in a.groups[k]]
    fb = [x for k in range(b.ndim) if k != j for x in b.groups[k]]
    legs = [a.legs[x] for x in fa] + [b.legs[x] for x in fb]
    if np.prod([l.dim for l in legs]) > 3000 or np.prod(a.shape + b.shape) > 1e5:
      return "skip"
    arr = np.tensordot(a.arr, b.arr, (a.groups[i], b.groups[j]))
    shape = [a.shape[k] for k in range(a.ndim) if k != i] + \
        [b.shape[k] for k in range(b.ndim) if k != j]
    how = rng.randrange(3)
    if how == 0:
      c = tn.contract(e)
    elif how == 1:
      c = tn.contract_between(na, nb, output_edge_order=left + right)
    else:
      c = tn.contractors.greedy([na, nb], output_edge_order=left + right)
    if how == 0 and c.edges:
      c.reorder_edges(left + right)
    self.accept(c.tensor, arr, legs, a.mods, "node%d" % how, shape=shape)

  def do_trace(self, rng):
    cand = []
    for a in self.pool:
      if a.ca or a.ndim < 2:
        continue
      for i in range(a.ndim):
        for j in range(a.ndim):
          x, y = a.gleg(i), a.gleg(j)
          if i != j and len(x) == len(y) and all(
              mod_eq(p, q.dual()) for p, q in zip(x, y)):
            cand.append((a, i, j))
    if not cand:
      return "skip"
    last = [c for c in cand if sorted(c[1:]) == [c[0].ndim - 2, c[0].ndim - 1]]
    a, i, j = rng.choice(last if last and rng.random() < 0.4 else cand)
    arr = a.arr
    labels = list(range(len(a.legs)))
    for p, q in zip(a.groups[i], a.groups[j]):
      labels[q] = labels[p]
    out = [x for k in range(a.ndim) if k not in (i, j) for x in a.groups[k]]
    arr = np.einsum(arr, labels, out)
    legs = [a.legs[x] for x in out]
    shape = [a.shape[k] for k in range(a.ndim) if k not in (i, j)]
    i, j = self.from_end([i, j], a.ndim)
    fs = [lambda: self.bs.trace(a.t, (i, j)), lambda: self.bs.trace(a.t, [i, j])]
    if self.ends is not None:
      fs += [lambda: self.be.trace(a.t, axis1=i, axis2=j)]
    if sorted((i, j)) == [a.ndim - 2, a.ndim - 1]:
      fs += [lambda: self.bs.trace(a.t), lambda: self.be.trace(a.t)]
    try:
      t = rng.choice(fs)()
    except ValueError as e:
      raise Violation("valid-refused", "trace over matching legs: %s" % e)
    if not legs:
      if hasattr(t, "data") and hasattr(t, "_order"):
        t = np.asarray(t.data).reshape(())
      self.eq(np.asarray(t), arr, "trace")
      return
    self.accept(t, arr, legs, a.mods, "trace%s" % ((i, j),), shape=shape)

  def do_scalars(self, rng):
    m = self.pick(rng, lambda m: True)
    if m is None:
      return "skip"
    if not m.ca:
      x = rng.choice([self.bs.norm, self.be.norm])(m.t)
      self.eq(np.asarray(x), np.linalg.norm(m.arr.ravel()), "norm")
    if m.arr.size == 1:
      self.eq(np.asarray(m.t.item()), m.arr.reshape(()), "item")
    elif m.legs:
      try:
        m.t.item()
      except ValueError:
        pass
      else:
        raise Violation("mismatch-accepted", "item() of %s" % (m.shape,))
    if m.t.ndim != m.ndim or int(m.t.size if m.legs else 1) != m.arr.size:
      raise Violation("wrong-shape", "ndim %s size %s" % (m.t.ndim, m.t.size))
    if m.legs:
      self.close_result(m, "tensor")
      ss = m.t.sparse_shape
      for k in range(m.ndim):
        tot = [np.zeros((1, len(m.mods)), dtype=np.int64)]
        for l in m.gleg(k):
          q = -l.q if l.flow else l.q
          tot.append((tot[-1][:, None, :] + q[None, :, :]).reshape(
              -1, len(m.mods)))
        got = np.asarray(ss[k].charges.charges).reshape(-1, len(m.mods))
        for s, md in enumerate(m.mods):
          d = got[:, s].astype(np.int64) - tot[-1][:, s]
          if np.any(d % md if md else d):
            raise Violation("wrong-legs", "fused charges of axis %d" % k)
      repr(m.t)

  def do_elementwise(self, rng):
    m = self.pick(rng, lambda m: m.legs and m.arr.dtype.kind == "f")
    if m is None:
      return "skip"
    how = rng.randrange(4)
    if m.ca and how != 0:
      return "skip"
    vals = read(m.t, m.mods, m.ca)[0]   # exact: sign and sqrt near zero
    if how == 0:
      if np.any(vals < 0):
        return "skip"
      t, arr = rng.choice([self.bs.sqrt, self.be.sqrt])(m.t), np.sqrt(vals)
    elif how == 1:
      t, arr = rng.choice([self.bs.abs, self.be.abs])(m.t), np.abs(vals)
    elif how == 2:
      t, arr = rng.choice([self.bs.sign, self.be.sign])(m.t), np.sign(vals)
    else:
      k = rng.choice(["ones_like", "zeros_like"])
      t = getattr(self.bs, k)(m.t)
      arr = mask_of(m.legs, m.mods).astype(m.arr.dtype) * (k == "ones_like")
    self.accept(t, arr, m.legs, m.mods, "elementwise%d" % how, shape=m.shape,
                charge_array=m.ca)

  def do_like(self, rng):
    """Tensors made after the pattern of another one."""
    m = self.pick(rng, lambda m: m.legs and not m.ca and m.arr.size <= 4096)
    if m is None:
      return "skip"
    kind = rng.choice(["empty_like", "randn_like", "random_like", "random_like",
                       "zeros_like", "ones_like"])
    mask, kw = mask_of(m.legs, m.mods), {}
    if kind == "random_like" and rng.random() < 0.6:
      kw["boundaries"] = rng.choice([(-1.0, 0.0), (2.0, 3.0), (-0.5, 0.5)])
    t = getattr(self.bs, kind)(m.t, **kw)
    if np.shares_memory(t.data, m.t.data):
      raise Violation("shared-data", kind + " shares the numbers of its pattern")
    if kind == "empty_like":
      # same pattern, so the numbers of the one fit into the other
      t.data[...] = m.t.data
      arr = m.arr
    elif kind in ("zeros_like", "ones_like"):
      arr = mask.astype(m.arr.dtype) * (kind == "ones_like")
    else:
      arr = read(t, m.mods)[0]
      vals = np.asarray(t.data)
      parts = [vals.real, vals.imag] if vals.dtype.kind == "c" else [vals]
      lo, hi = kw.get("boundaries", (0, 1))
      for v in parts:
        if kind == "random_like" and v.size and not (
            v.min() >= lo - 1e-6 and v.max() <= hi + 1e-6):
          raise Violation("wrong-value", "random_like outside of (%s, %s): "
                          "%s .. %s" % (lo, hi, v.min(), v.max()))
        if v.size >= 4 and np.all(v == v.flat[0]):
          raise Violation("wrong-value", kind + " is constant")
      arr = np.where(mask, arr, 0).astype(m.arr.dtype)
    self.accept(t, arr, m.legs, m.mods, kind, shape=m.shape,
                dtype=np.asarray(m.arr).dtype)

  def do_eye(self, rng):
    mods = SYMMETRIES[rng.choice(self.syms)]
    legs = self.new_legs(rng, mods, rng.choice([1, 1, 2]))
    if not legs:
      return "skip"
    idx = self.indices(legs, [list(range(len(legs)))], mods, rng)[0]
    d = int(np.prod([l.dim for l in legs]))
    if d > 20:
      return "skip"
    dtype = self.rand_dtype(rng)
    arr = np.eye(d, dtype=dtype).reshape([l.dim for l in legs] * 2)
    fs = [lambda: self.bs.eye(idx, dtype=dtype),
          lambda: self.be.eye(idx, dtype=dtype),
          lambda: self.bs.eye(idx, idx.flip_flow(), dtype=dtype)]
    f = rng.choice(fs)
    if dtype == np.float64 and rng.random() < 0.3:
      f = lambda: self.bs.eye(idx)
    self.accept(f(), arr, legs + [l.dual() for l in legs], mods, "eye",
                shape=(d, d), dtype=dtype)

  # decompositions ----------------------------------------------------------
  def matrix(self, rng, m):
    """Group the legs of m into a matrix; returns (tensor, cut)."""
    cut = rng.randrange(1, len(m.legs))
    sh = [int(np.prod([l.dim for l in m.legs[:cut]])),
          int(np.prod([l.dim for l in m.legs[cut:]]))]
    # legs of dimension one can end up on either side
    t = m.t.reshape(sh)
    if tuple(t.shape) != tuple(sh):
      raise Violation("wrong-shape", "reshape to %s gave %s" % (sh, t.shape))
    return t, len(t._order[0]), sh

  def isometry(self, d, what, side):
    p = d.conj().T @ d if side == "cols" else d @ d.conj().T
    self.eq(p, np.eye(p.shape[0]), what + " is not an isometry")

  def bond(self, t, axis, mods):
    _, legs, groups = read(t, mods)
    g = groups[axis]
    if len(g) != 1:
      raise Violation("wrong-legs", "bond made of %d legs" % len(g))
    return legs[g[0]]

  def do_svd(self, rng):
    m = self.pick(rng, lambda m: not m.ca and len(m.legs) >= 2)
    if m is None:
      return "skip"
    mode = rng.choice(["bs", "bs", "be", "be", "vals"])
    full = rng.random() < 0.4
    if mode == "be":
      # rather one with many singular values
      o = self.pick(rng, lambda m: not m.ca and m.ndim >= 2)
      if o is not None and o.arr.size > m.arr.size:
        m = o
      return self.be_svd(rng, m)
    mat, cut, sh = self.matrix(rng, m)
    d = m.arr.reshape(sh)
    want = np.linalg.svd(d, compute_uv=False)
    if mode == "vals":
      s = self.bs.svd(mat, full_matrices=full, compute_uv=False)
      self.check_s(s, want, m.mods)
      return
    u, s, v = self.bs.svd(mat, full_matrices=full)
    sd = self.check_s(s, want, m.mods)
    ua, ul, _ = read(u, m.mods)
    va, vl, _ = read(v, m.mods)
    ud, vd = ua.reshape(sh[0], -1), va.reshape(-1, sh[1])
    if any(l.dim == 0 for l in ul + vl):
      self.ctx.probe("empty-decomposition")
      return
    self.isometry(ud, "u", "cols")
    self.isometry(vd, "v", "rows")
    self.same_legs(ul[:-1], m.legs[:cut], "svd u")
    self.same_legs(vl[1:], m.legs[cut:], "svd v")
    if not full:
      if not (mod_eq(ul[-1].dual(), vl[0])):
        raise Violation("wrong-legs", "svd bond legs do not match")
      self.eq((ud * sd) @ vd, d, "u*s*v")
      st = self.bs.diag(s)
      usv = self.bs.tensordot(self.bs.tensordot(u, st, ([1], [0])), v,
                              ([1], [0]))
      self.eq(read(usv, m.mods)[0].reshape(sh), d, "library u@diag(s)@v")
      self.put(Model(ua, ul, [list(range(cut)), [cut]], m.mods, u))
      self.put(Model(va, vl, [[0], list(range(1, len(vl)))], m.mods, v))
      self.put(Model(np.asarray(s.data), [self.bond_ca(s, m.mods)], [[0]],
                     m.mods, s, True))
      self.verify(self.pool[-1], "svd") if self.pool else None

  def bond_ca(self, s, mods):
    return read(s, mods, True)[1][0]

  def same_legs(self, a, b, what):
    if len(a) != len(b) or not all(mod_eq(x, y) for x, y in zip(a, b)):
      raise Violation("wrong-legs", what)

  def check_s(self, s, want, mods, disc=None):
    sd = np.asarray(s.data)
    if sd.size and (np.any(np.imag(sd)) or np.any(sd < -1e-12)):
      raise Violation("wrong-value", "singular values %s" % sd)
    allv = sd if disc is None else np.concatenate([sd, np.asarray(disc.data)])
    a = np.sort(allv)[::-1]
    n = max(len(a), len(want))
    pa, pw = np.zeros(n), np.zeros(n)
    pa[:len(a)] = a
    pw[:len(want)] = want
    self.eq(pa.astype(sd.dtype), pw, "singular values")
    return sd

  def be_svd(self, rng, m):
    cuts = list(range(1, m.ndim))
    if not cuts:
      return "skip"
    pivot = rng.choice(cuts)
    cut = sum(len(g) for g in m.groups[:pivot])
    sh = [int(np.prod(m.shape[:pivot])), int(np.prod(m.shape[pivot:]))]
    d = m.arr.reshape(sh)
    want = np.linalg.svd(d, compute_uv=False)
    kw = {}
    if rng.random() < 0.5:
      kw["max_singular_values"] = rng.randrange(1, 7)
    if rng.random() < 0.6:
      kw["max_truncation_error"] = rng.choice([0.0, 0.01, 0.3, 1.0])
      kw["relative"] = rng.random() < 0.5
      tails = np.sqrt(np.cumsum(want[::-1]**2))
      cut_at = rng.randrange(max(1, len(want) - 1))
      if len(want) > 1 and want[0] > 1e-3 and rng.random() < 0.8 and \
          tails[cut_at + 1] - tails[cut_at] > 1e-3 * want[0]:
        # between two possible truncations
        e = float(tails[cut_at] + tails[cut_at + 1]) / 2
        kw["max_truncation_error"] = e / float(want[0]) if kw["relative"] else e
    u, s, v, disc = self.be.svd(m.t, pivot, **kw)
    sd = self.check_s(s, want, m.mods, disc)
    dd = np.asarray(disc.data)
    if not kw and dd.size:
      raise Violation("truncation", "svd without truncation discarded %s" % dd)
    if "max_singular_values" in kw and sd.size > kw["max_singular_values"]:
      raise Violation("truncation", "%d values kept, at most %d allowed" %
                      (sd.size, kw["max_singular_values"]))
    tol = 1e-3 if self.lowp else 1e-9
    if sd.size and dd.size and dd.max() > sd.min() + tol * max(1, want[0]):
      raise Violation("truncation", "kept %s although %s was discarded" %
                      (sd.min(), dd.max()))
    if "max_truncation_error" in kw and want.size:
      lim = kw["max_truncation_error"] * (want[0] if kw["relative"] else 1)
      if "max_singular_values" not in kw:
        if np.linalg.norm(dd) > lim + tol * max(1, want[0]):
          raise Violation("truncation", "discarded norm %s > %s" %
                          (np.linalg.norm(dd), lim))
      # as many values as possible are discarded
      if sd.size:
        more = np.sqrt((dd**2).sum() + sd.min()**2)
        if more < lim - tol * max(1, want[0]) and sd.min() > tol:
          raise Violation("truncation", "%s could be discarded as well" %
                          sd.min())
    if "max_singular_values" in kw and "max_truncation_error" not in kw:
      nz = int((want > tol * max(1, want[0] if want.size else 1)).sum())
      if sd.size < min(kw["max_singular_values"], nz):
        raise Violation("truncation", "only %d values kept" % sd.size)
    ua, ul, ug = read(u, m.mods)
    va, vl, vg = read(v, m.mods)
    if any(l.dim == 0 for l in ul + vl):
      self.ctx.probe("empty-decomposition")
      return
    ud, vd = ua.reshape(sh[0], -1), va.reshape(-1, sh[1])
    self.isometry(ud, "u", "cols")
    self.isometry(vd, "v", "rows")
    self.same_legs(ul[:-1], m.legs[:cut], "svd u")
    self.same_legs(vl[1:], m.legs[cut:], "svd v")
    if not mod_eq(ul[-1].dual(), vl[0]):
      raise Violation("wrong-legs", "svd bond legs do not match")
    err = np.linalg.norm((ud * sd) @ vd - d)
    size = max(1.0, float(np.linalg.norm(d)))
    self.eq(np.asarray(err / size), np.asarray(np.linalg.norm(dd) / size),
            "truncation error")
    if tuple(u.shape) != m.shape[:pivot] + (sd.size,) or \
        tuple(v.shape) != (sd.size,) + m.shape[pivot:]:
      raise Violation("wrong-shape", "svd parts %s %s" % (u.shape, v.shape))
    how = rng.randrange(2)
    if how:
      us = self.be.broadcast_right_multiplication(u, s)
      self.eq(read(us, m.mods)[0].reshape(sh[0], -1), ud * sd, "u*s")
    else:
      sv = self.be.broadcast_left_multiplication(s, v)
      self.eq(read(sv, m.mods)[0].reshape(-1, sh[1]), sd[:, None] * vd, "s*v")
    self.put(Model(ua, ul, ug, m.mods, u))
    self.put(Model(va, vl, vg, m.mods, v))

  def do_qr(self, rng):
    m = self.pick(rng, lambda m: not m.ca and len(m.legs) >= 2)
    if m is None:
      return "skip"
    how = rng.choice(["reduced", "complete", "r", "be-qr", "be-rq"])
    if how.startswith("be"):
      if m.ndim < 2:
        return "skip"
      pivot = rng.randrange(1, m.ndim)
      cut = sum(len(g) for g in m.groups[:pivot])
      sh = [int(np.prod(m.shape[:pivot])), int(np.prod(m.shape[pivot:]))]
      d = m.arr.reshape(sh)
      a, b = (self.be.qr if how == "be-qr" else self.be.rq)(m.t, pivot)
    else:
      mat, cut, sh = self.matrix(rng, m)
      d = m.arr.reshape(sh)
      if how == "r":
        r = self.bs.qr(mat, mode="r")
        rd = read(r, m.mods)[0].reshape(-1, sh[1])
        self.eq(rd.conj().T @ rd, d.conj().T @ d, "r of qr")
        return
      a, b = self.bs.qr(mat, mode=how) if rng.random() < 0.7 or \
          how != "reduced" else self.bs.qr(mat)
    aa, al, ag = read(a, m.mods)
    ba, bl, bg = read(b, m.mods)
    if any(l.dim == 0 for l in al + bl):
      self.ctx.probe("empty-decomposition")
      return
    ad, bd = aa.reshape(sh[0], -1), ba.reshape(-1, sh[1])
    self.same_legs(al[:-1], m.legs[:cut], "left part")
    self.same_legs(bl[1:], m.legs[cut:], "right part")
    if how == "be-rq":
      self.isometry(bd, "q", "rows")
    else:
      self.isometry(ad, "q", "cols")
    self.eq(ad @ bd, d, how)
    if not mod_eq(al[-1].dual(), bl[0]):
      raise Violation("wrong-legs", "qr bond legs do not match")
    ma = Model(aa, al, ag, m.mods, a)
    mb = Model(ba, bl, bg, m.mods, b)
    self.put(ma)
    self.put(mb)
    if rng.random() < 0.5:
      try:
        p = self.bs.tensordot(a, b, ([a.ndim - 1], [0]))
      except ValueError as e:
        raise Violation("valid-refused", "recombining a decomposition: %s" % e)
      self.eq(read(p, m.mods)[0].reshape(sh), d, "library product of " + how)

  def square(self, rng, hermitian):
    """A square matrix whose column leg is dual to its row leg."""
    m = self.pick(rng, lambda m: not m.ca and len(m.legs) >= 2 and
                  np.prod(m.shape) <= 250)
    if m is None:
      return None
    mat, cut, sh = self.matrix(rng, m)
    d = m.arr.reshape(sh)
    p = self.bs.tensordot(mat, mat.conj(), ([1], [1]))
    pd = d @ d.conj().T
    n = sh[0]
    if n > 24:
      return None
    e = self.bs.eye(p.sparse_shape[0], p.sparse_shape[1])
    c = rng.choice([1.0, 2.5])
    p, pd = p + e * c, pd + c * np.eye(n)
    if not hermitian:
      # a generic matrix with the same legs
      legs = m.legs[:cut] + [l.dual() for l in m.legs[:cut]]
      x = self.values([l.dim for l in legs], np.float64, rng)
      x = np.where(mask_of(legs, m.mods), x, 0)
      g = self.bs.BlockSparseTensor.fromdense(list(p.sparse_shape),
                                              x.reshape(n, n))
      p, pd = p + g * 0.3, pd + 0.3 * x.reshape(n, n)
    legs = m.legs[:cut] + [l.dual() for l in m.legs[:cut]]
    if rng.random() < 0.5:
      p = p.contiguous()
    elif rng.random() < 0.5:
      # stored transposed
      q = self.bs.BlockSparseTensor.fromdense(
          [p.sparse_shape[1], p.sparse_shape[0]], np.ascontiguousarray(pd.T))
      p = q.transpose((1, 0))
    self.accept(p, pd.reshape([l.dim for l in legs]), legs, m.mods, "square",
                shape=(n, n))
    return p, pd, legs, m.mods

  def do_eigh(self, rng):
    sq = self.square(rng, True)
    if sq is None:
      return "skip"
    p, pd, legs, mods = sq
    e, v = (self.be.eigh(p) if rng.random() < 0.5 else self.bs.eigh(p))
    self.eq(np.sort(np.asarray(e.data)), np.linalg.eigvalsh(pd), "eigh values")
    vd = read(v, mods)[0].reshape(pd.shape)
    self.isometry(vd, "eigenvectors", "cols")
    self.eq(pd @ vd, vd * np.asarray(e.data), "eigh")
    self.same_legs(read(v, mods)[1][:-1], legs[:len(legs) // 2], "eigh")

  def do_eig(self, rng):
    sq = self.square(rng, rng.random() < 0.5)
    if sq is None:
      return "skip"
    p, pd, _, mods = sq
    e, v = self.bs.eig(p)
    ev = np.asarray(e.data)
    vd = read(v, mods)[0].reshape(pd.shape)
    self.eq(pd @ vd, vd * ev, "eig")
    if np.linalg.matrix_rank(vd, tol=1e-6) == 0 and vd.size:
      raise Violation("wrong-value", "eig vectors vanish")
    self.eq(np.asarray(ev.sum()), np.trace(pd).astype(pd.dtype), "sum of eig")

  def do_inv(self, rng):
    if rng.random() < 0.5:
      sq = self.square(rng, rng.random() < 0.6)
      if sq is None:
        return "skip"
      p, pd, legs, mods = sq
      if np.linalg.cond(pd) > 1e4:
        return "skip"
      h = len(legs) // 2
      how = rng.randrange(3)
      q = [self.bs.inv, self.be.inv, self.bs.pinv][how](p)
      self.accept(q, np.linalg.inv(pd).reshape(
          [l.dim for l in legs[h:] + legs[:h]]),
                  [l.dual() for l in legs[h:]] + [l.dual() for l in legs[:h]],
                  mods, "inv%d" % how, shape=pd.shape)
      return
    m = self.pick(rng, lambda m: not m.ca and len(m.legs) >= 2)
    if m is None:
      return "skip"
    mat, cut, sh = self.matrix(rng, m)
    d = m.arr.reshape(sh)
    s = np.linalg.svd(d, compute_uv=False)
    if np.any((s > 1e-13) & (s < 1e-3)) or self.lowp or \
        (s.size and 0 < s.max() < 1e-3):
      return "skip"
    q = self.bs.pinv(mat, rcond=1e-10)
    a, b = m.legs[:cut], m.legs[cut:]
    self.accept(q, np.linalg.pinv(d, rcond=1e-10).reshape(
        [l.dim for l in b + a]), [l.dual() for l in b + a], m.mods, "pinv",
                shape=(sh[1], sh[0]))

  def do_diag(self, rng):
    m = self.pick(rng, lambda m: m.ca and m.ndim == 1)
    if m is not None and rng.random() < 0.6:
      if m.shape[0] > 40:
        return "skip"
      t = rng.choice([self.bs.diag, self.be.diagflat])(m.t)
      n = m.shape[0]
      self.accept(t, np.diag(m.arr.ravel()).reshape(
          [l.dim for l in m.legs] * 2), m.legs + [l.dual() for l in m.legs],
                  m.mods, "diag", shape=(n, n))
      return
    sq = self.square(rng, True)
    if sq is None:
      return "skip"
    p, pd, _, mods = sq
    ca = rng.choice([self.bs.diag, self.be.diagonal])(p)
    if np.asarray(ca.data).size != pd.shape[0]:
      raise Violation("wrong-shape", "diag of a %s matrix has %d numbers" %
                      (pd.shape, np.asarray(ca.data).size))
    self.eq(np.sort_complex(np.asarray(ca.data)).astype(complex),
            np.sort_complex(np.diag(pd)).astype(complex), "diag values")
    read(ca, mods, True)

  def do_graded(self, rng):
    """Pseudo inverse of a matrix whose blocks differ by orders of magnitude."""
    mods = SYMMETRIES[rng.choice(self.syms)]
    legs = self.new_legs(rng, mods, rng.choice([2, 2, 3, 4]))
    if len(legs) < 2 or self.lowp:
      return "skip"
    cut = rng.randrange(1, len(legs))
    groups = [list(range(cut)), list(range(cut, len(legs)))]
    sh = [int(np.prod([legs[i].dim for i in g])) for g in groups]
    dtype = self.rand_dtype(rng)
    if np.dtype(dtype).kind not in "fc" or np.dtype(dtype).itemsize < 8 or \
        max(sh) > 60 or dtype == np.complex64:
      return "skip"
    tot = [np.zeros(1, dtype=np.int64) for _ in mods]
    for s, md in enumerate(mods):
      for l in legs[:cut]:
        q = l.q[:, s].astype(np.int64)
        tot[s] = (tot[s][:, None] + (-q if l.flow else q)).ravel()
      if md:
        tot[s] = tot[s] % md
    d = np.where(mask_of(legs, mods), self.values(
        tuple(l.dim for l in legs), dtype, rng), 0).reshape(sh)
    kinds, inv = np.unique(np.stack(tot), axis=1, return_inverse=True)
    scales = np.array([rng.choice([1.0, 1.0, 1e-4, 1e-9, 1e-17, 1e4])
                       for _ in range(kinds.shape[1])])
    d = (d * scales[np.ravel(inv)][:, None]).astype(dtype)
    rcond = rng.choice([1e-2, 1e-6, 1e-12])
    s = np.linalg.svd(d, compute_uv=False)
    if not s.size or s.max() == 0:
      return "skip"
    ratio = s / (rcond * s.max())
    kept = s[ratio > 1]
    # no singular value near the cutoff, and those kept are well determined
    if np.any((ratio > 0.1) & (ratio < 10)) or kept.min() < 1e-10 * s.max() or \
        (np.dtype(dtype).itemsize // (2 if np.dtype(dtype).kind == "c" else 1)
         < 8):
      return "skip"
    t = self.bs.BlockSparseTensor.fromdense(
        self.indices(legs, groups, mods, rng), d)
    want = np.linalg.pinv(d, rcond=rcond)
    q = rng.choice([self.bs.pinv, self.be.pinv] if hasattr(self.be, "pinv")
                   else [self.bs.pinv])(t, rcond=rcond)
    got = read(q, mods)[0].reshape(want.shape)
    # relative to the size each part of the result has
    lim = np.abs(want).max() * 1e-6 + 1e-12
    if not np.all(np.isfinite(got)) or np.abs(got - want).max() > lim:
      raise Violation("wrong-value", "pinv with blocks of sizes %s, rcond=%s: "
                      "deviation %s" % (scales.tolist(), rcond,
                                        np.abs(got - want).max()))
    self.ctx.probe("graded")

  def do_wide(self, rng):
    """A tensor with tens of thousands of elements in its dense form."""
    mods = SYMMETRIES[rng.choice(self.syms)]
    legs = []
    goal = rng.choice([20000, 40000])
    size = lambda: int(np.prod([l.dim for l in legs]))
    while size() < goal and len(legs) < 40:
      l = self.rand_leg(rng, mods)
      if rng.random() < 0.5 and legs:
        l = rng.choice(legs).dual()
      if l.dim >= 2 and size() * l.dim <= 3 * goal:
        legs.append(l)
    if size() < 20000 or len(legs) > 20:
      return "skip"
    mask = mask_of(legs, mods)
    nnz = int(mask.sum())
    if nnz > 40000:
      return "skip"
    idx = self.indices(legs, [[i] for i in range(len(legs))], mods, rng)
    f = rng.choice([self.bs.ones, self.bs.randn, self.bs.random,
                    self.bs.BlockSparseTensor.randn])
    t = f(idx, dtype=np.float64)
    if np.asarray(t.data).size != nnz:
      raise Violation("wrong-size", "%d numbers for %d elements" %
                      (np.asarray(t.data).size, nnz))
    arr = np.zeros(mask.shape)
    arr[mask] = np.asarray(t.data)
    n = rng.choice([1, 1, 2, 3])
    keep = sorted(rng.sample(range(len(legs)), n))
    rest = [i for i in range(len(legs)) if i not in keep]
    if np.prod([legs[i].dim for i in keep]) > 60:
      return "skip"
    if rng.random() < 0.7:
      c = self.bs.tensordot(t, t.conj(), (rest, rest))
      out = [legs[i] for i in keep]
      m = self.accept(c, np.tensordot(arr, arr, (rest, rest)),
                      out + [l.dual() for l in out], mods, "wide",
                      tol=1e-9, dtype=np.float64)
    else:
      sh = [int(np.prod([legs[i].dim for i in g])) for g in (keep, rest)]
      mat = t.transpose(keep + rest).reshape(sh)
      d = arr.transpose(keep + rest).reshape(sh)
      if tuple(mat.shape) != tuple(sh):
        raise Violation("wrong-shape", "%s, expected %s" % (mat.shape, sh))
      q, r = self.bs.qr(mat, mode="reduced")
      self.eq((q @ r).todense(), d, "wide qr")
    self.ctx.probe("wide")

  def do_new_ca(self, rng):
    mods = SYMMETRIES[rng.choice(self.syms)]
    legs = self.new_legs(rng, mods, rng.choice([1, 1, 2, 3]))
    groups = self.group(len(legs), rng)
    a = np.abs(self.values([l.dim for l in legs], np.float64, rng))
    cs = [self.charge_obj(l, mods, rng) for l in legs]
    t = self.bs.ChargeArray(a.ravel(), cs, [l.flow for l in legs], groups)
    m = self.accept(t, a, legs, mods, "ChargeArray", charge_array=True)
    self.close_result(m, "ChargeArray")

  # -- caching --------------------------------------------------------------
  def do_cache_on(self, rng):
    self.bs.enable_caching()

  def do_cache_off(self, rng):
    self.bs.disable_caching()

  def do_cache_clear(self, rng):
    self.bs.clear_cache()

  def do_cache_set(self, rng):
    s = rng.random() < 0.7
    self.bs.set_caching_status(s)
    if bool(self.bs.get_caching_status()) != s:
      raise Violation("caching-status", "set_caching_status had no effect")


OPS = [("new", 5), ("reshape", 4), ("transpose", 4), ("contiguous", 3),
       ("conj", 2), ("copy", 1), ("scale", 1), ("add", 3), ("iadd", 1),
       ("bad", 1), ("tensordot", 8), ("node", 2), ("trace", 3), ("ends", 2), ("scalars", 2),
       ("elementwise", 1), ("like", 1), ("eye", 1), ("svd", 5), ("qr", 2), ("eigh", 1),
       ("eig", 1), ("inv", 1), ("graded", 1), ("wide", 1), ("diag", 1), ("new_ca", 1)]
CACHE_OPS = [("cache_on", 3), ("cache_off", 1), ("cache_clear", 1),
             ("cache_set", 1)]


def gen_block_ops(rng, n, ops=OPS, faults=0.0, first=3, lines=0.0):
  names = [x for x, w in ops for _ in range(w)]
  res = []
  for i in range(n):
    name = "new" if i < first else rng.choice(names)
    op = {"op": name, "r": rng.getrandbits(32)}
    if faults and rng.random() < faults:
      op["fault"] = rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 80])
      op["retry"] = rng.random() < 0.7
    elif lines and rng.random() < lines:
      op["line"] = int(2**rng.uniform(0, 9.5))
      if rng.random() < 0.6:
        # lines of the block search only
        op["only"], op["line"] = 0, int(2**rng.uniform(0, 7.5))
      op["retry"] = rng.random() < 0.8
    res.append(op)
  return res
