"""Histories of quantum operators given by tensor networks.

The model of an operator is a numpy array with axes (ignored, out, in).
"""
import random

import numpy as np

from sim.core import Violation

KINDS = ("QuOperator", "QuVector", "QuAdjointVector", "QuScalar")
OPS = (["new"] * 3 + ["matmul"] * 6 + ["mul"] * 3 + ["product"] * 3 +
       ["adjoint"] * 3 + ["trace"] * 2 + ["ptrace"] * 4 + ["norm"] * 2 +
       ["identity"] * 3 + ["projector"] * 2 + ["reduced"] * 2 +
       ["contract"] * 3 + ["eval"] * 4 + ["misuse"] * 2 + ["drop"])
MAX_SIZE = 1024
MAX_OPS = 7
MAX_NODES = 14


def gen_ops(rng, n, faults=0.0):
  ops = [{"op": rng.choice(["new", "new", "identity"]),
          "r": rng.getrandbits(32)} for _ in range(2)]
  for _ in range(n):
    op = {"op": rng.choice(OPS), "r": rng.getrandbits(32)}
    if rng.random() < faults:
      op["fault"] = 1 + int(rng.expovariate(1 / rng.choice([2, 6, 20])))
      op["kind"] = "oom"
    ops.append(op)
  return ops


class Item:

  def __init__(self, op, arr, nout, nin, names=()):
    self.op = op
    self.arr = arr          # axes: ignored..., out..., in...
    self.nout = nout
    self.nin = nin
    self.names = tuple(names)

  @property
  def nign(self):
    return len(self.names)

  def out_dims(self):
    return self.arr.shape[self.nign:self.nign + self.nout]

  def in_dims(self):
    return self.arr.shape[self.nign + self.nout:]


def dense(op, names):
  """Evaluate the network of an operator without using the library."""
  nodes = list(op.nodes)
  seen, labels = {}, 0
  args = []
  for n in nodes:
    sub = []
    if len(n.edges) != len(np.shape(n.tensor)):
      raise Violation("edges", "rank %d tensor with %d edges" % (
          len(np.shape(n.tensor)), len(n.edges)))
    for i, e in enumerate(n.edges):
      ends = [(e.node1, e.axis1)]
      if e.node2 is not None:
        ends.append((e.node2, e.axis2))
      if not any(x is n and a == i for x, a in ends):
        raise Violation("edges", "an axis holds an edge of another axis")
      for x, a in ends:
        if not any(x is m for m in nodes):
          raise Violation("edges", "edge to a node outside the network")
        if x.edges[a] is not e:
          raise Violation("edges", "edge not shared by both of its nodes")
      if id(e) not in seen:
        seen[id(e)] = labels
        labels += 1
      sub.append(seen[id(e)])
    args += [np.asarray(n.tensor), sub]
  if labels > 50:
    return None
  ign = {}
  for e in op.ignore_edges:
    ign[e.name] = e
  if sorted(ign) != sorted(names) or len(ign) != len(op.ignore_edges):
    raise Violation("ignored-edges", "%s, expected %s" % (sorted(ign),
                                                          sorted(names)))
  out = [seen[id(e)] for e in [ign[x] for x in names] + list(op.out_edges) +
         list(op.in_edges)]
  return np.einsum(*args, out, optimize="greedy")


def snapshot(op):
  """Everything about the network an operation must not change."""
  nodes = sorted(op.nodes, key=id)
  return (type(op), [id(e) for e in op.out_edges], [id(e) for e in op.in_edges],
          sorted(id(e) for e in op.ignore_edges),
          [(id(n), [(id(e), id(e.node1), e.axis1, id(e.node2), e.axis2)
                    for e in n.edges], np.array(n.tensor)) for n in nodes],
          nodes)


def same_snapshot(a, b):
  if a[:4] != b[:4] or len(a[4]) != len(b[4]):
    return False
  return all(x[0] == y[0] and x[1] == y[1] and np.array_equal(x[2], y[2])
             for x, y in zip(a[4], b[4]))


class QuSim:

  def __init__(self, plan, ctx, faults=None):
    import tensornetwork as tn
    from tensornetwork.quantum import quantum as qu
    self.tn, self.qu = tn, qu
    self.plan, self.ctx, self.faults = plan, ctx, faults
    self.dtype = np.dtype(plan["dtype"])
    self.dims = plan["dims"]
    self.backend = plan.get("backend", "numpy")
    self.items = []
    self.fresh = 0

  # -- construction ----------------------------------------------------
  def rand(self, rng, shape):
    g = np.random.RandomState(rng.getrandbits(32))
    a = g.standard_normal(shape)
    if self.dtype.kind == "c":
      a = a + 1j * g.standard_normal(shape)
    return np.asarray(a / max(1.0, np.sqrt(np.size(a)))).astype(self.dtype)

  def space(self, rng, lo=0, hi=3):
    return [rng.choice(self.dims) for _ in range(rng.randrange(lo, hi))]

  def name(self):
    self.fresh += 1
    return "ign%d" % self.fresh

  def build(self, rng, out, inn):
    """A network with the given spaces; returns an Item."""
    qu, tn = self.qu, self.tn
    how = rng.choice(["tensor", "tensor", "network", "network", "ctor", "copy"])
    if how == "copy" and len(set(out + inn)) == 1 and len(out + inn) >= 2:
      dim, rank = (out + inn)[0], len(out + inn)
      n = tn.CopyNode(rank, dim, backend=self.backend, dtype=self.dtype.type)
      arr = np.zeros((dim,) * rank, self.dtype)
      arr[(np.arange(dim),) * rank] = 1
      op = qu.quantum_constructor([n[i] for i in range(len(out))],
                                  [n[i] for i in range(len(out), rank)])
      return Item(op, arr, len(out), len(inn))
    if how == "network":
      return self.build_network(rng, out, inn)
    k = len(out) + len(inn)
    axes = list(range(k))
    rng.shuffle(axes)               # axes[i] = tensor axis of subsystem i
    t = self.rand(rng, tuple(out + inn))
    data = np.transpose(t, [axes.index(i) for i in range(k)]) if k else t
    data = np.array(data, order="C")
    kw = {"backend": self.backend}
    if how == "ctor":
      n = tn.Node(data, backend=self.backend)
      oe = [n[i] for i in axes[:len(out)]]
      ie = [n[i] for i in axes[len(out):]]
      if out and inn:
        op = qu.QuOperator(oe, ie)
      elif out:
        op = qu.QuVector(oe)
      elif inn:
        op = qu.QuAdjointVector(ie)
      else:
        op = qu.QuScalar([n])
    elif out and inn:
      op = qu.QuOperator.from_tensor(data, axes[:len(out)], axes[len(out):],
                                     **kw)
    elif out or inn:
      cls = qu.QuVector if out else qu.QuAdjointVector
      if axes == sorted(axes) and rng.random() < 0.5:
        op = cls.from_tensor(data, **kw)
      else:
        op = cls.from_tensor(data, axes, **kw)
    else:
      op = qu.QuScalar.from_tensor(data, **kw)
    return Item(op, t, len(out), len(inn))

  def build_network(self, rng, out, inn):
    """Several nodes: chains, parallel edges, traces, scalars, ignored edges."""
    tn, qu = self.tn, self.qu
    legs = [("o", i, d) for i, d in enumerate(out)]
    legs += [("i", i, d) for i, d in enumerate(inn)]
    names = []
    if rng.random() < 0.15:
      names = [self.name()]
      legs.append(("g", 0, rng.choice(self.dims)))
    rng.shuffle(legs)
    m = rng.randrange(1, 4)
    spec = [[] for _ in range(m)]
    for leg in legs:
      spec[rng.randrange(m)].append(leg)
    conn = []
    for j in range(1, m):
      if rng.random() < 0.85:
        conn.append((rng.randrange(j), j, rng.choice([1, 2, 3])))
    if rng.random() < 0.3:
      conn.append((rng.randrange(m), rng.randrange(m), 2))
    for c, (a, b, d) in enumerate(conn):
      spec[a].append(("b", (c, 0), d))
      spec[b].append(("b", (c, 1), d))
    nodes, where, args, label = [], {}, [], {}
    for s in spec:
      rng.shuffle(s)
      t = self.rand(rng, tuple(x[2] for x in s))
      n = tn.Node(t, backend=self.backend)
      nodes.append(n)
      sub = []
      for ax, (k, i, d) in enumerate(s):
        where[(k, i)] = n[ax]
        key = (k, i if k != "b" else i[0])
        sub.append(label.setdefault(key, len(label)))
      args += [t, sub]
    for c in range(len(conn)):
      where[("b", (c, 0))] ^ where[("b", (c, 1))]
    oe = [where[("o", i)] for i in range(len(out))]
    ie = [where[("i", i)] for i in range(len(inn))]
    ge = []
    if names:
      where[("g", 0)].set_name(names[0])
      ge = [where[("g", 0)]]
    arr = np.einsum(*args, ([label[("g", 0)]] if names else []) +
                    [label[("o", i)] for i in range(len(out))] +
                    [label[("i", i)] for i in range(len(inn))])
    rng.shuffle(nodes)
    op = qu.quantum_constructor(
        oe, ie, rng.choice([set, list, tuple])(nodes), ge or None)
    return Item(op, np.asarray(arr), len(out), len(inn), names)

  # -- bookkeeping -----------------------------------------------------
  def add(self, item):
    self.check(item)
    if len(item.op.nodes) > MAX_NODES:
      return
    self.items.append(item)
    while len(self.items) > MAX_OPS:
      self.items.pop(0)

  def check(self, item, full=True):
    op = item.op
    want = ("QuScalar" if not item.nout and not item.nin else
            "QuAdjointVector" if not item.nout else
            "QuVector" if not item.nin else "QuOperator")
    if type(op).__name__ != want:
      raise Violation("wrong-type", "%s instead of %s" % (type(op).__name__,
                                                          want))
    if (op.is_scalar(), op.is_vector(), op.is_adjoint_vector()) != (
        want == "QuScalar", want == "QuVector", want == "QuAdjointVector"):
      raise Violation("wrong-type", "predicates of %s" % want)
    if tuple(op.out_space) != item.out_dims() or \
        tuple(op.in_space) != item.in_dims():
      raise Violation("wrong-space", "%s x %s, expected %s x %s" % (
          op.out_space, op.in_space, item.out_dims(), item.in_dims()))
    if full:
      op.check_network()
      got = dense(op, item.names)
      if got is not None:
        self.same(got, item.arr, "wrong-value")
    self.ctx.state((want, item.arr.shape, len(op.nodes)))

  def same(self, got, want, sig):
    got = np.asarray(got)
    if got.shape != want.shape:
      raise Violation(sig + "-shape", "%s, expected %s" % (got.shape,
                                                           want.shape))
    scale = max(1e-3, float(np.max(np.abs(want))) if want.size else 0.0)
    if not np.allclose(got, want, rtol=1e-8, atol=1e-9 * scale):
      raise Violation(sig, "largest deviation %g of %g" % (
          float(np.max(np.abs(got - want))), scale))

  def pick(self, rng, cond=lambda x: True):
    c = [x for x in self.items if cond(x)]
    return rng.choice(c) if c else None

  # -- one step ----------------------------------------------------------
  def step(self, op):
    rng = random.Random(op["r"])
    before = [(x, snapshot(x.op)) for x in self.items]
    self.mutated = None
    armed = self.faults is not None and "fault" in op
    self.arm = (lambda: self.faults.arm(op["fault"], op["kind"])) if armed \
        else (lambda: None)
    try:
      res = getattr(self, "op_" + op["op"])(rng)
    except Exception as e:
      fired = self.faults.disarm() if self.faults is not None else None
      if fired is None or not isinstance(e, MemoryError):
        raise
      res = "fault"
      self.ctx.fault("backend:" + op["op"])
      self.ctx.nontrivial = True
    finally:
      if self.faults is not None:
        self.faults.disarm()
    self.ctx.op(op["op"])
    self.ctx.log(op["op"], res)
    for x, snap in before:
      if self.mutated is not None and x is self.mutated:
        continue
      if not same_snapshot(snap, snapshot(x.op)):
        raise Violation("operand-modified:" + op["op"],
                        "an operator that was not contracted changed")
    if res == "fault" and self.mutated is not None:
      # an interrupted in-place contraction leaves a spoiled operator
      self.items = [x for x in self.items if x is not self.mutated]
    if res is not None and res not in ("skip", "fault"):
      self.ctx.nontrivial = True

  def op_new(self, rng):
    out, inn = self.space(rng), self.space(rng)
    if rng.random() < 0.4:
      inn = list(out)
    self.add(self.build(rng, out, inn))
    return "new"

  def op_identity(self, rng):
    dims = self.space(rng, 1, 4)
    x = self.pick(rng, lambda x: x.nout or x.nin)
    if x is not None and rng.random() < 0.7:
      dims = list(x.out_dims() if x.nout and rng.random() < 0.6 else
                  x.in_dims()) or dims
    n = len(dims)
    if np.prod(dims)**2 > MAX_SIZE:
      return "skip"
    op = self.qu.identity(dims, backend=self.backend, dtype=self.dtype.type)
    size = int(np.prod(dims))
    arr = np.eye(size, dtype=self.dtype).reshape(dims + dims)
    self.add(Item(op, arr, n, n))
    return "identity"

  def op_matmul(self, rng):
    a = self.pick(rng)
    if a is None:
      return "skip"
    b = self.pick(rng, lambda x: x.out_dims() == a.in_dims())
    if b is None or rng.random() < 0.3:
      b = self.build(rng, list(a.in_dims()), self.space(rng, 0, 2))
      self.items.append(b)
      self.tmp_guard(b)
    if self.too_big(a, b, np.prod(a.in_dims())**2) or \
        set(a.names) & set(b.names):
      return "skip"
    self.arm()
    op = a.op @ b.op
    self.disarm()
    ni, nb = a.nign, b.nign
    m = np.tensordot(a.arr, b.arr, (list(range(ni + a.nout, a.arr.ndim)),
                                    list(range(nb, nb + b.nout))))
    # axes: ign_a, out_a, ign_b, in_b
    m = np.moveaxis(m, range(ni + a.nout, ni + a.nout + nb),
                    range(ni, ni + nb))
    self.add(Item(op, m, a.nout, b.nin, a.names + b.names))
    return "matmul"

  def tmp_guard(self, b):
    """A fresh operand counts as an operand too."""

  def too_big(self, a, b, shrink=1):
    return a.arr.size * b.arr.size / max(shrink, 1) > MAX_SIZE or \
        len(a.op.nodes) + len(b.op.nodes) > MAX_NODES

  def disarm(self):
    if self.faults is not None:
      self.faults.disarm()

  def tensor(self, a, b):
    m = np.multiply.outer(a.arr, b.arr)
    na, nb = a.arr.ndim, b.arr.ndim
    axes = (list(range(a.nign)) + [na + i for i in range(b.nign)] +
            list(range(a.nign, a.nign + a.nout)) +
            [na + i for i in range(b.nign, b.nign + b.nout)] +
            list(range(a.nign + a.nout, na)) +
            [na + i for i in range(b.nign + b.nout, nb)])
    return Item(None, np.transpose(m, axes), a.nout + b.nout, a.nin + b.nin,
                a.names + b.names)

  def op_product(self, rng):
    a, b = self.pick(rng), self.pick(rng)
    if a is None or self.too_big(a, b) or set(a.names) & set(b.names):
      return "skip"
    res = self.tensor(a, b)
    self.arm()
    res.op = a.op.tensor_product(b.op)
    self.disarm()
    self.add(res)
    return "product"

  def op_mul(self, rng):
    a = self.pick(rng)
    if a is None:
      return "skip"
    how = rng.choice(["scalar", "number", "array", "node", "rmul", "nprmul"])
    if how == "scalar":
      b = self.pick(rng, lambda x: not x.nout and not x.nin)
      if b is None or rng.random() < 0.4:
        b = self.build(rng, [], [])
        self.items.append(b)
      if self.too_big(a, b) or set(a.names) & set(b.names):
        return "skip"
      if rng.random() < 0.5:
        a, b = b, a
      res = self.tensor(a, b)
      self.arm()
      res.op = a.op * b.op
    else:
      if len(a.op.nodes) > MAX_NODES - 2:
        return "skip"
      c = self.rand(rng, ())
      v = c.item()
      if how == "array":
        v = c
      elif how == "node":
        v = self.tn.Node(c, backend=self.backend)
      res = Item(None, a.arr * c, a.nout, a.nin, a.names)
      self.arm()
      if how == "rmul":
        res.op = v * a.op
      elif how == "nprmul":
        res.op = self.dtype.type(v) * a.op
      else:
        res.op = a.op * v
      if how == "node" and (v.edges or not np.array_equal(v.tensor, c)):
        raise Violation("operand-modified:mul", "the scalar node changed")
    self.disarm()
    self.add(res)
    return "mul " + how

  def adj(self, a):
    n = a.nign
    axes = (list(range(n)) + list(range(n + a.nout, a.arr.ndim)) +
            list(range(n, n + a.nout)))
    return Item(None, np.transpose(a.arr.conj(), axes), a.nin, a.nout, a.names)

  def op_adjoint(self, rng):
    a = self.pick(rng)
    if a is None:
      return "skip"
    res = self.adj(a)
    self.arm()
    res.op = a.op.adjoint()
    self.disarm()
    self.add(res)
    return "adjoint"

  def traced(self, a, which):
    arr, out, inn = a.arr, list(range(a.nout)), list(range(a.nin))
    for i in sorted(which, reverse=True):
      po = a.nign + out.index(i)
      pi = a.nign + len(out) + inn.index(i)
      arr = np.trace(arr, axis1=po, axis2=pi)
      out.remove(i)
      inn.remove(i)
    return Item(None, np.asarray(arr), len(out), len(inn), a.names)

  def op_ptrace(self, rng, everything=False):
    a = self.pick(rng, lambda x: not everything or
                  x.out_dims() == x.in_dims())
    if a is None:
      return "skip"
    ok = [i for i in range(min(a.nout, a.nin))
          if a.out_dims()[i] == a.in_dims()[i]]
    if everything:
      which = list(range(a.nin))
    else:
      which = [i for i in ok if rng.random() < 0.6]
      rng.shuffle(which)
    res = self.traced(a, which)
    self.arm()
    if everything:
      res.op = a.op.trace()
    else:
      res.op = a.op.partial_trace(rng.choice([list, tuple, set])(which))
    self.disarm()
    self.add(res)
    return "trace %s" % sorted(which)

  def op_trace(self, rng):
    return self.op_ptrace(rng, True)

  def op_norm(self, rng):
    a = self.pick(rng, lambda x: not x.nign)
    if a is None or len(a.op.nodes) > MAX_NODES // 2:
      return "skip"
    res = Item(None, np.asarray(np.vdot(a.arr, a.arr)), 0, 0)
    self.arm()
    res.op = a.op.norm()
    self.disarm()
    self.add(res)
    return "norm"

  def op_projector(self, rng, reduced=False):
    a = self.pick(rng, lambda x: bool(x.nout) != bool(x.nin) and not x.nign)
    if a is None or a.arr.size**2 > MAX_SIZE or \
        len(a.op.nodes) > MAX_NODES // 2:
      return "skip"
    v = a.arr if a.nout else a.arr.conj()
    k = v.ndim
    res = Item(None, np.multiply.outer(v, v.conj()), k, k)
    self.arm()
    if reduced:
      which = [i for i in range(k) if rng.random() < 0.5]
      res = self.traced(res, which)
      res.op = a.op.reduced_density(which)
    else:
      res.op = a.op.projector()
    self.disarm()
    self.add(res)
    return "projector"

  def op_reduced(self, rng):
    return self.op_projector(rng, True)

  def contractor(self, rng):
    c = self.tn.contractors
    return rng.choice([None, c.greedy, c.auto, c.optimal, c.branch])

  def op_contract(self, rng):
    a = self.pick(rng)
    if a is None:
      return "skip"
    con, kw = self.contractor(rng), {}
    if len(a.op.nodes) > 5 and con in (self.tn.contractors.optimal,
                                       self.tn.contractors.branch):
      con = None
    if con is not None:
      kw["contractor"] = con
    order = None
    if rng.random() < 0.5:
      order = list(a.op.out_edges) + list(a.op.in_edges)
      order += [e for x in a.names for e in a.op.ignore_edges if e.name == x]
      perm = list(range(len(order)))
      rng.shuffle(perm)
      kw["final_edge_order"] = [order[i] for i in perm]
    self.mutated = a
    self.arm()
    res = a.op.contract(**kw)
    self.disarm()
    if res is not a.op:
      raise Violation("contract-result", "contract returned another object")
    self.check(a)
    nodes = list(a.op.nodes)
    if len(nodes) != 1:
      raise Violation("not-contracted", "%d nodes after contract" % len(nodes))
    if order:
      n = a.nign
      axes = list(range(n, a.arr.ndim)) + list(range(n))
      self.same(nodes[0].tensor, np.transpose(a.arr, [axes[i] for i in perm]),
                "wrong-contract")
    return "contract"

  def op_eval(self, rng):
    a = self.pick(rng)
    if a is None:
      return "skip"
    con, kw = self.contractor(rng), {}
    if len(a.op.nodes) > 5 and con in (self.tn.contractors.optimal,
                                       self.tn.contractors.branch):
      con = None
    if con is not None:
      kw["contractor"] = con
    if a.nign > 1 or rng.random() < 0.3:
      order = [e for x in a.names for e in a.op.ignore_edges if e.name == x]
      order += list(a.op.out_edges) + list(a.op.in_edges)
      perm = list(range(len(order)))
      rng.shuffle(perm)
      if order:
        kw["final_edge_order"] = [order[i] for i in perm]
      want = np.transpose(a.arr, perm)
    else:
      want = a.arr
    self.mutated = a
    self.arm()
    got = a.op.eval(**kw)
    self.disarm()
    self.same(got, want, "wrong-eval")
    self.check(a)
    return "eval"

  def op_misuse(self, rng):
    """Rejected calls leave everything as it was."""
    how = rng.choice(["matmul", "mul", "ptrace", "missing", "connected",
                      "scalar", "mulshape"])
    a = self.pick(rng)
    if a is None:
      return "skip"

    def rejected(fn):
      try:
        fn()
      except ValueError:
        return
      raise Violation("not-rejected:" + how, "no ValueError")

    if how == "matmul":
      b = self.pick(rng, lambda x: x.out_dims() != a.in_dims())
      if b is None:
        return "skip"
      rejected(lambda: a.op @ b.op)
    elif how == "mul":
      c = self.pick(rng, lambda x: x.nout or x.nin)
      if c is None or not (a.nout or a.nin):
        return "skip"
      rejected(lambda: a.op * c.op)
    elif how == "mulshape":
      rejected(lambda: a.op * np.ones((2,)))
    elif how == "ptrace":
      bad = [i for i in range(min(a.nout, a.nin))
             if a.out_dims()[i] != a.in_dims()[i]]
      if not bad:
        return "skip"
      rejected(lambda: a.op.partial_trace(bad))
    elif how == "missing":
      n = self.tn.Node(np.zeros((2, 2, 2)), backend=self.backend)
      rejected(lambda: self.qu.QuOperator([n[0]], [n[1]]))
    elif how == "connected":
      n = self.tn.Node(np.zeros((2, 2)), backend=self.backend)
      m = self.tn.Node(np.zeros((2, 2)), backend=self.backend)
      n[1] ^ m[0]
      rejected(lambda: self.qu.QuOperator([n[0]], [n[1], m[1]]))
    else:
      rejected(lambda: self.qu.QuScalar([]))
    return "misuse " + how

  def op_drop(self, rng):
    a = self.pick(rng)
    if a is None or len(self.items) < 4:
      return "skip"
    self.items = [x for x in self.items if x is not a]
    return "drop"

  def finish(self):
    for x in self.items:
      self.check(x)
