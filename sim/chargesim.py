"""Histories over charges and indexes of symmetric tensors.

A charge is modelled as a list of tuples of Python integers (one number per
symmetry), an index as a list of (charge, flow).  The library keeps a charge in
one of two representations and switches lazily; no result may depend on it.
"""
import random

import numpy as np

from sim.core import SkipOp, Violation
from sim.seams import SimLinAlgError, SimOOM

OPS = (["new"] * 4 + ["labels", "random", "matmul", "matmul"] + ["add"] * 5 +
       ["dual"] * 3 + ["getitem"] * 4 + ["unique"] * 4 + ["reduce"] * 4 +
       ["intersect"] * 4 + ["eq"] * 2 + ["identity", "copy", "copy", "iterate"] +
       ["touch"] * 3 + ["equal"] * 4 + ["index"] * 4 + ["fuse"] * 3 +
       ["flip"] * 2 + ["index_eq"] * 3 + ["refuse", "wide"])
MAXC, MAXI, DIM = 8, 5, 2500


def gen_ops(rng, n, faults):
  ops = []
  for _ in range(n):
    op = {"op": rng.choice(OPS), "r": rng.getrandbits(32)}
    if op["op"] == "wide" and rng.random() < 0.8:
      op["op"] = "add"
    if rng.random() < faults:
      op["fault"] = 1 + int(rng.expovariate(1 / rng.choice([2, 5, 12])))
    ops.append(op)
  return ops


class C:
  """A library charge with its model."""

  def __init__(self, obj, rows, kinds, dtype):
    self.obj, self.rows, self.kinds, self.dtype = obj, rows, kinds, dtype


class ChargeSim:

  def __init__(self, plan, ctx, faults=None):
    from tensornetwork.block_sparse import charge, index
    self.ch, self.ix = charge, index
    self.plan, self.ctx, self.faults = plan, ctx, faults
    self.cs, self.is_ = [], []

  # ---- the groups ---------------------------------------------------------
  def cls(self, kind):
    if kind == 0:
      return self.ch.U1Charge
    if kind == 2 and not self.plan["z2_as_zn"]:
      return self.ch.Z2Charge
    # (asking twice for the same group gives the same group)
    return self.ch.ZNCharge(kind)

  def fuse(self, kinds, a, b):
    return tuple((x + y) % k if k else x + y for k, x, y in zip(kinds, a, b))

  def inv(self, kinds, a):
    return tuple((-x) % k if k else -x for k, x in zip(kinds, a))

  def value(self, rng, kind):
    if kind:
      return rng.randrange(kind)
    if self.plan["dtype"] in ("int32", "int64") and rng.random() < 0.3:
      return rng.choice([-1, 1]) * rng.randrange(30000, 70000)
    return rng.randint(-self.plan["spread"], self.plan["spread"])

  # ---- checks -------------------------------------------------------------
  def rows_of(self, arr, k):
    arr = np.asarray(arr)
    if arr.ndim != 2 or arr.shape[1] != k:
      raise Violation("bad-shape", "%s for %d symmetries" % (arr.shape, k))
    return [tuple(int(x) for x in r) for r in arr]

  def check(self, c, what):
    o = c.obj
    got = self.rows_of(o.charges, len(c.kinds))
    if got != c.rows:
      i = next((i for i, (a, b) in enumerate(zip(got, c.rows)) if a != b), None)
      raise Violation("wrong-charges", "%s: %d rows, want %d; first difference "
                      "%s: %s, want %s" % (
                          what, len(got), len(c.rows), i,
                          None if i is None else got[i],
                          None if i is None else c.rows[i]))
    if o.dim != len(c.rows) or len(o) != len(c.rows):
      raise Violation("wrong-dim", "%s: %s, %s" % (what, o.dim, len(o)))
    if o.num_symmetries != len(c.kinds) or \
        o.dtype != np.dtype(c.dtype) or list(o.charge_types) != [self.cls(k) for k in c.kinds]:
      raise Violation("wrong-types", "%s: %s" % (what, o.names))

  def check_labels(self, c, what):
    """Both representations agree (this switches the representation)."""
    o = c.obj
    u = self.rows_of(o.unique_charges, len(c.kinds))
    lab = np.asarray(o.charge_labels)
    if len(set(u)) != len(u) or set(u) != set(c.rows):
      raise Violation("wrong-unique-charges", "%s: %d, want %d" %
                      (what, len(u), len(set(c.rows))))
    if o.num_unique != len(u) or [u[i] for i in lab] != c.rows:
      raise Violation("wrong-labels", what)

  def check_all(self, what):
    for c in self.cs:
      self.check(c, what)
    for obj, parts in self.is_:
      self.check_index(obj, parts, what)

  def index_rows(self, parts):
    rows = None
    for c, f in parts:
      mine = [self.inv(c.kinds, r) if f else r for r in c.rows]
      rows = mine if rows is None else [self.fuse(c.kinds, a, b)
                                        for a in rows for b in mine]
    return rows

  def check_index(self, obj, parts, what):
    if [bool(f) for f in obj.flat_flows] != [f for _, f in parts] or \
        len(obj.flat_charges) != len(parts):
      raise Violation("wrong-index", "%s: flows %s" % (what, obj.flat_flows))
    for o, (c, _) in zip(obj.flat_charges, parts):
      self.check(C(o, c.rows, c.kinds, c.dtype), "index " + what)
    n = 1
    for c, _ in parts:
      n *= len(c.rows)
    if int(obj.dim) != n or len(obj) != n:
      raise Violation("wrong-dim", "index %s: %s" % (what, obj.dim))

  # ---- running ------------------------------------------------------------
  def step(self, op):
    if self.step1(op) == "fault":
      self.ctx.probe("repeated")
      self.step1({k: op[k] for k in ("op", "r")})

  def step1(self, op):
    rng = random.Random(op["r"])
    name = op["op"]
    self.ctx.ticks += 1
    before = list(self.cs), list(self.is_)
    if op.get("fault") is not None and self.faults is not None:
      self.faults.arm(op["fault"])
    try:
      res = getattr(self, "do_" + name)(rng)
    except SkipOp:
      self.ctx.log(name, "skip")
      return "skip"
    except (SimOOM, SimLinAlgError):
      if self.faults is None or self.faults.disarm() is None:
        raise
      self.ctx.fault("alloc")
      self.ctx.nontrivial = True
      self.cs, self.is_ = before
      self.check_all("after a failed " + name)
      self.ctx.log(name, "failed")
      return "fault"
    finally:
      if self.faults is not None:
        self.faults.disarm()
    self.ctx.op(name)
    self.ctx.nontrivial = True
    self.check_all("after " + name)
    self.ctx.log(name, res, [len(c.rows) for c in self.cs])
    self.ctx.state([name, [(len(c.rows), c.kinds, c.obj._charges is None)
                           for c in self.cs], len(self.is_)])
    return "ok"

  def pick(self, rng, like=None):
    cs = [c for c in self.cs if like is None or c.kinds == like.kinds]
    if not cs:
      raise SkipOp()
    c = rng.choice(cs)
    if rng.random() < 0.3:
      c.obj.unique_charges          # the other representation
    return c

  def put(self, obj, rows, kinds, dtype):
    c = C(obj, rows, list(kinds), dtype)
    self.check(c, "result")
    self.cs.append(c)
    if len(self.cs) > MAXC:
      self.cs.pop(0)
    return c

  def kinds(self, rng):
    for c in self.cs:
      if rng.random() < 0.5:
        return c.kinds
    return [rng.choice(self.plan["groups"])]

  def do_new(self, rng):
    kinds = self.kinds(rng)
    n = rng.choice([1, 2, 3, 5, 8, 20, 40])
    rows = [tuple(self.value(rng, k) for k in kinds) for _ in range(n)]
    obj = None
    for j, k in enumerate(kinds):
      vals = [r[j] for r in rows]
      if rng.random() < 0.3:
        vals = np.asarray(vals, dtype=np.int64)
      elif rng.random() < 0.3:
        vals = np.asarray(vals)[:, None]
      o = self.cls(k)(vals, charge_dtype=np.dtype(self.plan["dtype"]).type) \
          if self.plan["dtype"] != "int16" else self.cls(k)(vals)
      obj = o if obj is None else obj @ o
    self.put(obj, rows, kinds, self.plan["dtype"])
    return n

  def do_labels(self, rng):
    """Charges given by distinct values and labels, every value used."""
    kind = rng.choice(self.plan["groups"])
    vals = sorted({self.value(rng, kind) for _ in range(rng.randint(1, 6))})
    rng.shuffle(vals)
    labels = list(range(len(vals))) + [rng.randrange(len(vals))
                                       for _ in range(rng.randint(0, 9))]
    rng.shuffle(labels)
    obj = self.cls(kind)(np.asarray(vals), np.asarray(labels),
                         charge_dtype=np.dtype(self.plan["dtype"]).type)
    self.put(obj, [(vals[l],) for l in labels], [kind], self.plan["dtype"])
    return len(labels)

  def do_random(self, rng):
    kind = rng.choice(self.plan["groups"])
    n = rng.randint(1, 30)
    lo, hi = (-3, 4) if kind == 0 else (0, kind - 1)
    if kind and kind <= 8 and rng.random() < 0.3:
      lo = rng.randrange(kind)
      hi = rng.randrange(lo, kind)
    if kind == 2 and self.plan["z2_as_zn"] is False:
      lo, hi = 0, 1     # this class allows nothing else
    obj = self.cls(kind).random(n, lo, hi) if kind == 0 or rng.random() < 0.5 \
        or (lo, hi) != (0, kind - 1) else self.cls(kind).random(n)
    rows = self.rows_of(obj.charges, 1)
    if hi - lo < 10:
      many = self.cls(kind).random(400, lo, hi)
      if {int(x) for x in many.charges[:, 0]} != set(range(lo, hi + 1)):
        raise Violation("bad-random", "not all of [%d, %d]" % (lo, hi))
    if len(rows) != n or not all(lo <= r[0] <= hi for r in rows):
      raise Violation("bad-random", "%d in [%d, %d]: %s" % (n, lo, hi, rows))
    self.put(obj, rows, [kind], "int16")
    return n

  def do_matmul(self, rng):
    a = self.pick(rng)
    bs = [c for c in self.cs if len(c.rows) == len(a.rows)]
    b = rng.choice(bs)
    if len(a.kinds) + len(b.kinds) > (9 if self.plan["dtype"] == "int8"
                                      else 5):
      raise SkipOp()
    obj = a.obj @ b.obj
    self.put(obj, [x + y for x, y in zip(a.rows, b.rows)], a.kinds + b.kinds,
             str(np.result_type(a.dtype, b.dtype)))
    return len(a.kinds) + len(b.kinds)

  def small(self, rows, dtype):
    m = min(10**9, np.iinfo(dtype).max)
    if any(abs(x) > m for r in rows for x in r):
      raise SkipOp()
    return rows

  def do_add(self, rng):
    a = self.pick(rng)
    b = self.pick(rng, like=a)
    if len(a.rows) * len(b.rows) > DIM or not a.rows or not b.rows:
      raise SkipOp()
    dtype = str(np.result_type(a.dtype, b.dtype))
    rows = self.small([self.fuse(a.kinds, x, y) for x in a.rows
                       for y in b.rows], dtype)
    self.put(a.obj + b.obj, rows, a.kinds, dtype)
    return len(rows)

  def do_wide(self, rng):
    """More sectors than a short label can count."""
    if self.plan["dtype"] == "int8":
      raise SkipOp()
    k = rng.choice([0, 0, 401])
    n, m = 190 + rng.randrange(20), 185 + rng.randrange(20)
    a = [(i, 0) for i in range(n)]
    b = [(0, j) for j in range(m)]
    rng.shuffle(a)
    obj = []
    for rows in (a, b):
      o = [self.cls(k)([r[j] for r in rows]) for j in range(2)]
      obj.append(o[0] @ o[1])
    o = obj[0] + obj[1]
    rows = [(x[0], y[1]) for x in a for y in b]
    c = C(o, rows, [k, k], "int16")
    self.check(c, "wide")
    self.check_labels(c, "wide")
    self.check(c, "wide, by labels")
    pos = [rng.randrange(len(rows)) for _ in range(20)]
    self.put(o[pos], [rows[p] for p in pos], [k, k], "int16")
    want = rows[rng.randrange(len(rows))]
    got, where = o.reduce(np.asarray([want], dtype=o.dtype),
                          return_locations=True)
    if self.rows_of(got.charges, 2) != [want] or \
        [int(x) for x in where] != [rows.index(want)]:
      raise Violation("wrong-reduction", "wide")
    return len(rows)

  def do_dual(self, rng):
    a = self.pick(rng)
    flag = rng.random() < 0.7
    obj = rng.choice([lambda: a.obj.dual(flag), lambda: a.obj * flag,
                      lambda: a.obj * np.bool_(flag)])()
    rows = [self.inv(a.kinds, r) for r in a.rows] if flag else a.rows
    self.put(obj, list(rows), a.kinds, a.dtype)
    return flag

  def do_getitem(self, rng):
    a = self.pick(rng)
    if not a.rows:
      raise SkipOp()
    n = len(a.rows)
    kind = rng.choice(["int", "list", "array", "negative", "mask", "empty"])
    if kind == "int":
      i = rng.randrange(n)
      pos = [i]
      obj = a.obj[rng.choice([int, np.int64, np.int32])(i)]
    elif kind == "mask":
      m = np.asarray([rng.random() < 0.5 for _ in range(n)])
      pos = [int(i) for i in np.flatnonzero(m)]
      obj = a.obj[m]
    elif kind == "empty":
      pos = []
      obj = a.obj[np.empty(0, dtype=np.int64)]
    else:
      pos = [rng.randrange(n) for _ in range(rng.randint(1, 2 * n))][:60]
      if kind == "negative":
        pos = [p - n if rng.random() < 0.5 else p for p in pos]
      obj = a.obj[pos if kind == "list" else np.asarray(pos)]
    self.put(obj, [a.rows[p] for p in pos], a.kinds, a.dtype)
    return [kind, len(pos)]

  def do_unique(self, rng):
    a = self.pick(rng)
    if not a.rows:
      raise SkipOp()
    flags = {k: rng.random() < 0.5 for k in ("return_index", "return_inverse",
                                             "return_counts")}
    out = a.obj.unique(**flags)
    n = sum(flags.values())
    out = list(out) if n else [out]
    if len(out) != n + 1:
      raise Violation("bad-unique", "%d results for %s" % (len(out), flags))
    u = self.rows_of(out[0].charges, len(a.kinds))
    if len(set(u)) != len(u) or set(u) != set(a.rows):
      raise Violation("bad-unique", "values %s" % flags)
    rest = out[1:]
    if flags["return_index"]:
      if [int(i) for i in rest.pop(0)] != [a.rows.index(x) for x in u]:
        raise Violation("bad-unique", "index")
    if flags["return_inverse"]:
      if [u[i] for i in rest.pop(0)] != a.rows:
        raise Violation("bad-unique", "inverse")
    if flags["return_counts"]:
      if [int(i) for i in rest.pop(0)] != [a.rows.count(x) for x in u]:
        raise Violation("bad-unique", "counts")
    self.put(out[0], u, a.kinds, a.dtype)
    return len(u)

  def some(self, rng, a):
    """Targets: some present, some absent, possibly repeated."""
    t = [rng.choice(a.rows) for _ in range(rng.randint(0, 4))] if a.rows else []
    t += [tuple(self.value(rng, k) for k in a.kinds)
          for _ in range(rng.randint(0, 3))]
    rng.shuffle(t)
    top = np.iinfo(a.dtype).max
    if any(abs(x) > top for r in t for x in r):
      raise SkipOp()
    return t

  def arr(self, a, rows, dtype=None):
    return np.asarray(rows, dtype=dtype or a.dtype).reshape(
        len(rows), len(a.kinds))

  def do_reduce(self, rng):
    a = self.pick(rng)
    if not a.rows:
      raise SkipOp()
    t = self.some(rng, a)
    if not t:
      raise SkipOp()
    if len(a.kinds) == 1 and len(t) == 1:
      arg = int(t[0][0])
    elif len(a.kinds) == 1 and rng.random() < 0.5:
      arg = self.arr(a, t, np.int64)[:, 0]
    else:
      arg = self.arr(a, t)
    kw = {}
    if rng.random() < 0.5:
      kw["strides"] = rng.choice([1, 3, 7])
    locs = rng.random() < 0.6
    pos = [i for i, r in enumerate(a.rows) if r in set(t)]
    out = a.obj.reduce(arg, return_locations=locs, **kw)
    if locs:
      out, where = out
      if [int(x) for x in where] != [i * kw.get("strides", 1) for i in pos]:
        raise Violation("wrong-reduction", "locations %s" % where)
    self.put(out, [a.rows[i] for i in pos], a.kinds, a.dtype)
    return len(pos)

  def do_intersect(self, rng):
    a = self.pick(rng)
    if not a.rows:
      raise SkipOp()
    mode = rng.choice(["charge", "charge", "array"])
    kw = {}
    if mode == "charge":
      b = self.pick(rng, like=a)
      if not b.rows or b.dtype != a.dtype:
        raise SkipOp()
      other, t = b.obj, b.rows
    else:
      t = self.some(rng, a)
      if not t:
        raise SkipOp()
      other = self.arr(a, t)
      if len(a.kinds) == 1 and rng.random() < 0.5:
        other = other[:, 0]
    if len(set(t)) == len(t) and len(set(a.rows)) == len(a.rows) and \
        rng.random() < 0.5:
      kw["assume_unique"] = True
    ind = rng.random() < 0.6
    out = a.obj.intersect(other, return_indices=ind, **kw)
    common = set(a.rows) & set(t)
    if ind:
      out, ia, ib = out
    got = self.rows_of(out.charges, len(a.kinds))
    if len(got) != len(common) or set(got) != common:
      raise Violation("wrong-intersection", "%s, want %s" % (got, common))
    if ind and ([a.rows.index(x) for x in got] != [int(i) for i in ia] or
                [t.index(x) for x in got] != [int(i) for i in ib]):
      raise Violation("wrong-intersection", "indices %s %s" % (ia, ib))
    self.put(out, got, a.kinds, a.dtype)
    return len(got)

  def do_eq(self, rng):
    a = self.pick(rng)
    if not a.rows:
      raise SkipOp()
    if rng.random() < 0.5:
      b = self.pick(rng, like=a)
      if not isinstance(b.obj, type(a.obj)) or not b.rows:
        raise SkipOp()
      t, other = b.rows, b.obj
    else:
      t = self.some(rng, a)
      if not t:
        raise SkipOp()
      other = self.arr(a, t)
      if len(a.kinds) == 1 and rng.random() < 0.5:
        other = other[:, 0]
    got = np.asarray(a.obj == other)
    want = np.asarray([[x == y for y in t] for x in a.rows])
    if got.shape != want.shape or not np.array_equal(got, want):
      raise Violation("wrong-comparison", "%s" % (got.shape,))
    return list(want.shape)

  def do_identity(self, rng):
    a = self.pick(rng)
    n = rng.randint(1, 4)
    obj = a.obj.identity_charges(n) if n > 1 or rng.random() < 0.5 else \
        a.obj.identity_charges()
    self.put(obj, [tuple(0 for _ in a.kinds)] * n, a.kinds, a.dtype)
    return n

  def do_copy(self, rng):
    """A copy owns its data."""
    a = self.pick(rng)
    obj = a.obj.copy()
    for t in (obj._charges, obj._unique_charges, obj._charge_labels):
      if t is not None and t.flags.owndata is False and t.base is not None:
        pass
    c = self.put(obj, list(a.rows), a.kinds, a.dtype)
    if rng.random() < 0.5:
      self.check_labels(C(a.obj.copy(), a.rows, a.kinds, a.dtype), "a copy")
      # scribble over a second copy: neither of the others may notice
      d = a.obj.copy()
      for t in (d._charges, d._unique_charges, d._charge_labels):
        if t is not None:
          t[...] = 0
    return len(c.rows)

  def do_iterate(self, rng):
    a = self.pick(rng)
    it = iter(a.obj)
    got = []
    while True:
      try:
        got.append(tuple(int(x) for x in next(it)))
      except StopIteration:
        break
      if len(got) > len(a.rows):
        break
    if got != a.rows:
      raise Violation("wrong-iteration", "%d rows" % len(got))
    repr(a.obj)
    return len(got)

  def do_touch(self, rng):
    c = self.pick(rng)
    if not c.rows:
      raise SkipOp()
    self.check_labels(c, "touch")
    return len(c.rows)

  def foreign(self, rng, a):
    """The same numbers, but elements of another group."""
    if not a.rows or a.dtype != self.plan["dtype"]:
      raise SkipOp()
    j = rng.randrange(len(a.kinds))
    top = max(r[j] for r in a.rows)
    ks = [k for k in (0, 2, 3, 4, 101) if k != a.kinds[j] and
          (not k or (top < k and min(r[j] for r in a.rows) >= 0))]
    if not ks or rng.random() < 0.2:
      # one more symmetry, all charges doubled
      if len(a.kinds) > 1:
        raise SkipOp()
      return C(a.obj @ a.obj, [r + r for r in a.rows], a.kinds * 2, a.dtype)
    kinds = list(a.kinds)
    kinds[j] = rng.choice(ks)
    obj = None
    for i, k in enumerate(kinds):
      o = self.cls(k)([r[i] for r in a.rows],
                      charge_dtype=np.dtype(a.dtype).type)
      obj = o if obj is None else obj @ o
    if rng.random() < 0.5:
      obj.unique_charges
    return C(obj, list(a.rows), kinds, a.dtype)

  def do_equal(self, rng):
    a, b = self.pick(rng), self.pick(rng)
    if rng.random() < 0.5:
      # the same values by another route
      other = [c for c in self.cs if c.rows == a.rows and c.kinds == a.kinds]
      b = rng.choice(other)
      if rng.random() < 0.5:
        b.obj.unique_charges
    elif rng.random() < 0.5 and len(a.rows) > 1:
      # the same values in another order
      p = list(range(len(a.rows)))
      rng.shuffle(p)
      b = C(a.obj[p], [a.rows[i] for i in p], a.kinds, a.dtype)
      if rng.random() < 0.5:
        b.obj.unique_charges
    elif rng.random() < 0.5:
      b = self.foreign(rng, a)
    if not a.rows or not b.rows:
      raise SkipOp()
    got = bool(self.ch.charge_equal(a.obj, b.obj))
    if got != (a.rows == b.rows and a.kinds == b.kinds):
      raise Violation("wrong-equality", "%s for %s and %s" %
                      (got, a.rows[:8], b.rows[:8]))
    return got

  # ---- indexes ------------------------------------------------------------
  def put_index(self, obj, parts):
    self.check_index(obj, parts, "result")
    self.is_.append((obj, parts))
    if len(self.is_) > MAXI:
      self.is_.pop(0)

  def pick_index(self, rng):
    if not self.is_:
      raise SkipOp()
    return rng.choice(self.is_)

  def do_index(self, rng):
    a = self.pick(rng)
    parts = [(a, rng.random() < 0.5)]
    while rng.random() < 0.4 and len(parts) < 3:
      parts.append((self.pick(rng, like=a), rng.random() < 0.5))
    if len(parts) == 1 and rng.random() < 0.7:
      obj = self.ix.Index(a.obj, rng.choice([bool, np.bool_])(parts[0][1]))
    else:
      obj = self.ix.Index([c.obj for c, _ in parts], [f for _, f in parts])
    self.put_index(obj, parts)
    return len(parts)

  def fits(self, parts):
    n = 1
    for c, _ in parts:
      n *= len(c.rows)
    return 0 < n <= DIM

  def wide(self, parts):
    return str(np.result_type(*[c.dtype for c, _ in parts]))

  def do_fuse(self, rng):
    how = rng.choice(["mul", "indices", "charges", "index"])
    if how in ("mul", "indices"):
      x = self.pick_index(rng)
      ys = [i for i in self.is_ if i[1][0][0].kinds == x[1][0][0].kinds]
      y, z = rng.choice(ys), rng.choice(ys)
      if how == "mul":
        obj, parts = x[0] * y[0], x[1] + y[1]
      else:
        obj = self.ix.fuse_indices([x[0], y[0], z[0]])
        parts = x[1] + y[1] + z[1]
      n = 1
      for c, _ in parts:
        n *= len(c.rows)
      if len(parts) > 6 or n >= 2**62:
        raise SkipOp()   # (no tensor has such a leg)
      self.put_index(obj, parts)
      return [how, len(parts)]
    if how == "index":
      obj, parts = self.pick_index(rng)
      if not self.fits(parts):
        raise SkipOp()
      dtype = self.wide(parts)
      rows = self.small(self.index_rows(parts), dtype)
      c = self.put(obj.charges, rows, parts[0][0].kinds, dtype)
      return [how, len(c.rows)]
    a = self.pick(rng)
    parts = [(a, rng.random() < 0.5)]
    while len(parts) < 4 and rng.random() < 0.6:
      parts.append((self.pick(rng, like=a), rng.random() < 0.5))
    if not self.fits(parts):
      raise SkipOp()
    dtype = self.wide(parts)
    rows = self.small(self.index_rows(parts), dtype)
    got = self.ch.fuse_charges([c.obj for c, _ in parts],
                               [f for _, f in parts])
    self.put(got, rows, a.kinds, dtype)
    return [how, len(rows)]

  def do_flip(self, rng):
    obj, parts = self.pick_index(rng)
    if rng.random() < 0.5:
      self.put_index(obj.flip_flow(), [(c, not f) for c, f in parts])
      return "flip"
    self.put_index(obj.copy(), list(parts))
    repr(obj)
    return "copy"

  def do_index_eq(self, rng):
    x, px = self.pick_index(rng)
    y, py = self.pick_index(rng)
    if rng.random() < 0.6:
      mode = rng.choice(["copy", "flip", "flip twice"])
      y, py = x.copy(), px
      if mode != "copy":
        y, py = y.flip_flow(), [(c, not f) for c, f in py]
      if mode == "flip twice":
        y, py = y.flip_flow(), px
    elif rng.random() < 0.7:
      # one leg with other charges
      i = rng.randrange(len(px))
      a = px[i][0]
      if not a.rows:
        raise SkipOp()
      if rng.random() < 0.4:
        b = self.foreign(rng, a)
      else:
        pos = [rng.randrange(len(a.rows)) for _ in a.rows]
        b = C(a.obj[pos], [a.rows[p] for p in pos], a.kinds, a.dtype)
      py = list(px)
      py[i] = (b, px[i][1])
      y = self.ix.Index([c.obj for c, _ in py], [f for _, f in py])
    for c, _ in px + py:
      if not c.rows:
        raise SkipOp()
    want = len(px) == len(py) and all(
        a.rows == b.rows and a.kinds == b.kinds and f == g
        for (a, f), (b, g) in zip(px, py))
    if bool(x == y) != want:
      raise Violation("wrong-equality", "indexes: %s" % (not want))
    if bool(x != y) == want:
      raise Violation("wrong-equality", "indexes differ: %s" % want)
    return want

  def do_refuse(self, rng):
    """Charges outside the group, bad flags and lengths are refused."""
    kind = rng.choice(["range", "range", "mul", "len", "flow", "order"])
    err = ValueError
    if kind == "range":
      k = rng.choice([2, 3, 4])
      call = lambda: self.cls(k)([0, rng.choice([-1, k, k + 1])])
    elif kind == "mul":
      a = self.pick(rng)
      call = lambda: a.obj * rng.choice([1, 0, 1.0])
    elif kind == "len":
      a, b = self.pick(rng), self.pick(rng)
      if len(a.rows) == len(b.rows):
        raise SkipOp()
      call = lambda: a.obj @ b.obj
    elif kind == "flow":
      a = self.pick(rng)
      err = TypeError
      call = lambda: self.ix.Index(a.obj, rng.choice([1, 0, -1]))
    else:
      a = self.pick(rng)
      call = lambda: self.ch.fuse_charges([a.obj, a.obj], [True])
    try:
      call()
    except err:
      return kind
    raise Violation("not-refused", kind)
