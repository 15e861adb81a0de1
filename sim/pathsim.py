"""Histories of a changing network with contraction-order queries.

The user's network (arrays and ncon labels) grows, shrinks and is rewired; in
between the order solver, the cost checker and the contractors are asked.  What
an order costs is metered: the pairwise products that the real ncon or the real
contractor hands to the backend are recorded.  What is optimal is computed by
dynamic programming over subsets of the tensors.
"""
import itertools
import math

import numpy as np

from sim import core
from sim.core import SkipOp, Violation
from sim.seams import SimLinAlgError, SimOOM

OPS = ["grow", "grow", "bond", "bond", "open", "trace", "resize", "merge",
       "cut", "drop", "solve", "solve", "solve", "cost", "cost", "contractor",
       "path"]
ABC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def gen(rng, tier, rate):
  ops = []
  first = rng.choice([1, 2, 2])
  for i in range(rng.randrange(8, 24 if tier == "quick" else 50)):
    o = "grow" if i < first else rng.choice(OPS)
    op = {"op": o, "r": [rng.randrange(1 << 16) for _ in range(5)]}
    if rate and o in ("solve", "cost", "contractor") and rng.random() < rate:
      op["fault"] = 1 + rng.randrange(60)
    ops.append(op)
  return {"ops": ops, "mindim": rng.choice([1, 1, 2]),
          "maxdim": rng.choice([2, 4, 6])}


class Meter:
  """Records every pairwise product of the numpy backend."""

  def __init__(self):
    from tensornetwork.backends.numpy.numpy_backend import NumPyBackend
    self.cls = NumPyBackend
    self.calls = []

  def __enter__(self):
    calls = self.calls
    self.saved = td, op = self.cls.tensordot, self.cls.outer_product

    def tensordot(backend, a, b, axes):
      ax = axes if isinstance(axes, int) else axes[0]
      inner = a.shape[len(a.shape) - ax:] if isinstance(ax, int) else [
          a.shape[i] for i in ([ax] if isinstance(ax, int) else ax)]
      calls.append((a.size * b.size // max(1, math.prod(inner)),
                    len(inner) > 0))
      return td(backend, a, b, axes)

    def outer_product(backend, a, b):
      calls.append((a.size * b.size, False))
      return op(backend, a, b)

    self.cls.tensordot, self.cls.outer_product = tensordot, outer_product
    return self

  def __exit__(self, *exc):
    self.cls.tensordot, self.cls.outer_product = self.saved
    return False


class PathSim:

  def __init__(self, plan, ctx, faults=None):
    import tensornetwork as tn
    from tensornetwork.contractors.custom_path_solvers import nconinterface
    self.tn, self.api = tn, nconinterface
    self.plan, self.ctx, self.faults = plan, ctx, faults
    self.npr = np.random.RandomState(plan["data_seed"] % 2**32)
    self.dims = {}
    self.labels = []
    self.next = 0

  # -- the network -----------------------------------------------------------
  def dim(self, r):
    lo, hi = self.plan["mindim"], self.plan["maxdim"]
    return lo + r % (hi - lo + 1)

  def fresh(self, r, positive=True):
    for k in itertools.count(1 + r % 7):
      k = k if positive else -k
      if k not in self.dims:
        return k

  def volume(self):
    return math.prod(self.dims.values())

  def fits(self, d):
    if self.volume() * d > 60000 or len(self.dims) > 14:
      raise SkipOp()

  def arrays(self):
    return [self.npr.standard_normal([self.dims[x] for x in l])
            for l in self.labels]

  def put(self, i, x, r):
    self.labels[i].insert(r % (len(self.labels[i]) + 1), x)

  def connected(self, labels=None):
    labels = self.labels if labels is None else labels
    if not labels:
      return False
    seen, todo = {0}, [0]
    while todo:
      i = todo.pop()
      for j in range(len(labels)):
        if j not in seen and any(x > 0 and x in labels[j] for x in labels[i]):
          seen.add(j)
          todo.append(j)
    return len(seen) == len(labels)

  def traced(self):
    """Labels of every tensor without its partial traces."""
    return [[x for x in l if l.count(x) == 1] for l in self.labels]

  def best(self):
    """Fewest multiplications over all trees of connected contractions."""
    labs = [frozenset(l) for l in self.traced()]
    n = len(labs)
    full = (1 << n) - 1
    opened = {}
    for m in range(1, full + 1):
      cnt = {}
      for i in range(n):
        if m >> i & 1:
          for x in labs[i]:
            cnt[x] = cnt.get(x, 0) + 1
      opened[m] = frozenset(x for x, c in cnt.items() if c == 1)
    cost = {1 << i: 0 for i in range(n)}
    for m in sorted(range(1, full + 1), key=lambda m: bin(m).count("1")):
      if m in cost:
        continue
      low = m & -m
      best = None
      a = (m - 1) & m
      while a:
        if a & low and a in cost and (m ^ a) in cost:
          shared = opened[a] & opened[m ^ a]
          if shared:
            step = math.prod(self.dims[x] for x in opened[a] | opened[m ^ a])
            c = cost[a] + cost[m ^ a] + step
            if best is None or c < best:
              best = c
        a = (a - 1) & m
      if best is not None:
        cost[m] = best
    return cost.get(full)

  def value(self, arrs):
    """The contracted network, axes -1, -2, ..."""
    names = {x: ABC[k] for k, x in enumerate(self.dims)}
    out = sorted([x for x in self.dims if x < 0], reverse=True)
    return np.einsum(",".join("".join(names[x] for x in l)
                              for l in self.labels) + "->" +
                     "".join(names[x] for x in out), *arrs, optimize=True)

  # -- steps -----------------------------------------------------------------
  def step(self, op):
    self.ctx.op(op["op"])
    self.ctx.ticks += 1
    try:
      res = getattr(self, "op_" + op["op"])(op, op["r"])
    except SkipOp:
      return "skip"
    self.ctx.log("ok", op["op"], len(self.labels))
    self.ctx.state([sorted(map(len, self.labels)), self.connected(),
                    op["op"]])
    return res

  def call(self, op, fn, tensors, labels):
    """A library call with copies of its arguments compared afterwards."""
    before = [t.copy() for t in tensors], [list(l) for l in labels]
    try:
      if "fault" in op and self.faults is not None:
        self.faults.arm(op["fault"])
        try:
          return fn()
        except (SimOOM, SimLinAlgError):
          self.ctx.fault("oom")
          self.faults.disarm()
          return fn()             # the same call works when repeated
        finally:
          self.faults.disarm()
      return fn()
    finally:
      if [list(l) for l in labels] != before[1] or any(
          not np.array_equal(a, b) for a, b in zip(tensors, before[0])):
        raise Violation("arguments-changed", op["op"])

  def op_grow(self, op, r):
    if len(self.labels) >= 7:
      raise SkipOp()
    self.labels.append([])
    new = len(self.labels) - 1
    if new and r[0] % 8:
      d = self.dim(r[1])
      if self.volume() * d <= 60000:
        x = self.fresh(r[2])
        self.dims[x] = d
        self.put(new, x, 0)
        self.put(r[3] % new, x, r[4])
    elif r[1] % 4:
      d = self.dim(r[1])
      if self.volume() * d <= 60000:
        x = self.fresh(r[2], False)
        self.dims[x] = d
        self.put(new, x, 0)
    self.renumber()
    return "ok"

  def op_bond(self, op, r):
    n = len(self.labels)
    if n < 2:
      raise SkipOp()
    i = r[0] % n
    j = (i + 1 + r[1] % (n - 1)) % n
    d = self.dim(r[2])
    self.fits(d)
    x = self.fresh(r[3])
    self.dims[x] = d
    self.put(i, x, r[4])
    self.put(j, x, r[4] // 7)
    return "ok"

  def op_open(self, op, r):
    d = self.dim(r[1])
    self.fits(d)
    x = self.fresh(r[2], False)
    self.dims[x] = d
    self.put(r[0] % len(self.labels), x, r[3])
    self.renumber()
    return "ok"

  def op_trace(self, op, r):
    d = self.dim(r[1])
    self.fits(d)
    x = self.fresh(r[2])
    self.dims[x] = d
    self.put(r[0] % len(self.labels), x, r[3])
    self.put(r[0] % len(self.labels), x, r[4])
    return "ok"

  def op_resize(self, op, r):
    if not self.dims:
      raise SkipOp()
    x = sorted(self.dims)[r[0] % len(self.dims)]
    old = self.dims[x]
    d = self.dim(r[1])
    if self.volume() // old * d > 60000:
      raise SkipOp()
    self.dims[x] = d
    return "ok"

  def op_merge(self, op, r):
    """The user contracts two tensors."""
    n = len(self.labels)
    if n < 2:
      raise SkipOp()
    i = r[0] % n
    j = (i + 1 + r[1] % (n - 1)) % n
    a, b = self.labels[i], self.labels[j]
    common = [x for x in a if x in b]
    for x in common:
      del self.dims[x]
    new = [x for x in a + b if x not in common]
    self.labels = [l for k, l in enumerate(self.labels) if k not in (i, j)]
    self.labels.append(new)
    return "ok"

  def op_cut(self, op, r):
    bonds = [x for x in sorted(self.dims) if x > 0]
    if not bonds:
      raise SkipOp()
    x = bonds[r[0] % len(bonds)]
    d = self.dims.pop(x)
    for l in self.labels:
      while x in l:
        y = self.fresh(r[1], False)
        self.dims[y] = d
        l[l.index(x)] = y
    self.renumber()
    if self.volume() > 60000:
      for y in [y for y in self.dims if y < 0]:
        self.dims[y] = 1
    return "ok"

  def op_drop(self, op, r):
    if len(self.labels) < 2:
      raise SkipOp()
    gone = self.labels.pop(r[0] % len(self.labels))
    for x in gone:
      other = [l for l in self.labels if x in l]
      d = self.dims.pop(x, None)
      if other and d is not None:
        y = self.fresh(0, False)
        self.dims[y] = d
        other[0][other[0].index(x)] = y
    self.renumber()
    return "ok"

  def renumber(self):
    """Open legs are -1, -2, ... without gaps."""
    opens = sorted([x for x in self.dims if x < 0], reverse=True)
    m = {x: -1 - k for k, x in enumerate(opens)}
    self.labels = [[m.get(x, x) for x in l] for l in self.labels]
    self.dims = {m.get(x, x): d for x, d in self.dims.items()}

  # -- queries ---------------------------------------------------------------
  def metered_ncon(self, arrs, order):
    with Meter() as meter:
      res = self.tn.ncon(arrs, [list(l) for l in self.labels],
                         con_order=order, backend="numpy")
    want = self.value(arrs)
    if np.shape(res) != want.shape or not np.allclose(
        res, want, rtol=1e-8, atol=1e-8 * max(1.0, np.abs(want).max())):
      raise Violation("wrong-value", "ncon %s order %s" % (self.labels, order))
    return sum(c for c, _ in meter.calls)

  def given(self, r):
    if r % 3 == 0:
      return [tuple(l) for l in self.labels]
    return [list(l) for l in self.labels]

  def same_cost(self, what, log_cost, metered, detail):
    if metered == 0:
      if log_cost != -math.inf:
        raise Violation("wrong-cost:" + what, "%s for nothing to multiply, %s"
                        % (log_cost, detail))
      return
    if not abs(float(log_cost) - math.log10(metered)) < 1e-6:
      raise Violation("wrong-cost:" + what, "log10 cost %s, performed %s "
                      "multiplications (%s); %s" % (
                          log_cost, metered, math.log10(metered), detail))

  def op_solve(self, op, r):
    arrs = self.arrays()
    labels = self.given(r[1])
    mb = [None, None, None, 1, 2, 3, 5, 12, 40][r[0] % 9]
    if any(not l for l in labels) or not self.labels:
      raise SkipOp()
    res = self.call(op, lambda: self.api.ncon_solver(arrs, labels, mb), arrs,
                    labels)
    order, cost, optimal = res
    order = [int(x) for x in order]
    detail = "labels %s dims %s max_branch %s order %s" % (
        self.labels, self.dims, mb, order)
    bonds = sorted(x for x in self.dims if x > 0)
    if sorted(order) != bonds:
      raise Violation("not-an-order", detail)
    metered = self.metered_ncon(arrs, order)
    if not self.connected():
      self.ctx.probe("disconnected solved")
      return "ok"
    self.same_cost("solver", cost, metered, detail)
    best = self.best()
    if len(self.labels) > 1:
      if optimal and metered > best:
        raise Violation("not-optimal", "%s multiplications, possible %s; %s" %
                        (metered, best, detail))
      if mb is None and not optimal:
        raise Violation("unlimited-not-optimal", detail)
      if metered < best:
        raise Violation("model", "the reference optimum is not one: " + detail)
      if mb is not None and mb > 1:
        greedy = self.api.ncon_solver(arrs, labels, 1)[1]
        if cost > greedy + 1e-5:
          raise Violation("worse-than-greedy", "%s, greedy %s; %s" % (
              cost, greedy, detail))
      self.ctx.probe("optimal" if optimal else "limited")
    return "ok"

  def op_cost(self, op, r):
    if not self.connected() or any(not l for l in self.labels):
      raise SkipOp()
    arrs = self.arrays()
    labels = self.given(r[1])
    order = None
    if r[0] % 4:
      order = sorted(x for x in self.dims if x > 0)
      core.prng(r[2]).shuffle(order)
      if not order:
        order = None
    cost = self.call(op, lambda: self.api.ncon_cost_check(arrs, labels, order),
                     arrs, labels)
    metered = self.metered_ncon(arrs, order)
    self.same_cost("checker", cost, metered, "labels %s dims %s order %s" % (
        self.labels, self.dims, order))
    return "ok"

  def nodes(self, arrs):
    nodes = [self.tn.Node(a, backend="numpy") for a in arrs]
    ends = {}
    for n, l in zip(nodes, self.labels):
      for k, x in enumerate(l):
        ends.setdefault(x, []).append(n[k])
    for x, es in sorted(ends.items()):
      if len(es) == 2:
        self.tn.connect(*es)
    return nodes, [ends[x][0] for x in sorted(
        (x for x in ends if x < 0), reverse=True)]

  def op_contractor(self, op, r):
    """The optimal contractor performs a cheapest contraction."""
    arrs = self.arrays()
    nodes, out = self.nodes(arrs)
    if not nodes:
      raise SkipOp()
    how = r[0] % 3
    copy = [a.copy() for a in arrs]

    def run():
      if how == 0:
        return self.tn.contractors.optimal(nodes, out)
      if how == 1:
        return self.tn.contractors.optimal(set(nodes), out)
      path, given = self.tn.contractors.path_solver("optimal", nodes), nodes
      return self.tn.contractors.contract_path(path, given, out)

    with Meter() as meter:
      if "fault" in op and self.faults is not None:
        self.faults.arm(op["fault"])
        try:
          res = run()
        except (SimOOM, SimLinAlgError):
          self.ctx.fault("oom")
          self.faults.disarm()
          nodes, out = self.nodes(arrs)
          del meter.calls[:]
          res = run()
        finally:
          self.faults.disarm()
      else:
        res = run()
    want = self.value(copy)
    if res.tensor.shape != want.shape or not np.allclose(
        res.tensor, want, rtol=1e-8, atol=1e-8 * max(1, np.abs(want).max())):
      raise Violation("wrong-value", "optimal %s" % self.labels)
    got = sum(c for c, _ in meter.calls)
    best = self.best()
    if self.connected() and len(nodes) > 1 and got != best:
      raise Violation("not-optimal:contractor", "cost %s, possible %s; %s %s" %
                      (got, best, self.labels, self.dims))
    return "ok"

  def op_path(self, op, r):
    """Paths of the solvers are paths, and the network stays untouched."""
    arrs = self.arrays()
    nodes, out = self.nodes(arrs)
    if not nodes:
      raise SkipOp()
    alg = ["optimal", "greedy", "branch", "auto"][r[0] % 4]
    kw = {"nbranch": 1 + r[1] % 3} if alg == "branch" and r[2] % 2 else {}
    wiring = [list(n.edges) for n in nodes]
    path = self.tn.contractors.path_solver(alg, nodes, **kw)
    if [list(n.edges) for n in nodes] != wiring:
      raise Violation("network-changed", "path_solver")
    left = len(nodes)
    for p in path:
      if any(not 0 <= i < left for i in p) or len(set(p)) != len(p):
        raise Violation("not-a-path", "%s for %d nodes" % (path, len(nodes)))
      left -= len(p) - 1
    if left != 1:
      raise Violation("not-a-path", "%s for %d nodes" % (path, len(nodes)))
    res = self.tn.contractors.contract_path(path, nodes, out)
    want = self.value(arrs)
    if res.tensor.shape != want.shape or not np.allclose(
        res.tensor, want, rtol=1e-8, atol=1e-8 * max(1, np.abs(want).max())):
      raise Violation("wrong-value", "%s %s" % (alg, self.labels))
    return "ok"
