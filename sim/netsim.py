"""A simulated tensor network: the real library next to a reference model.

The reference model of a node is a numpy array plus one integer label per axis;
a label that occurs twice is a summed (connected) index, a label that occurs
once is free.  Labels follow the library's Edge objects, which the user holds
and which survive rewiring.  Every operation is executed on the library through
its public API and on the model by plain numpy/einsum.
"""
import itertools
import random

import numpy as np

from sim import core
from sim.core import SkipOp, Violation
from sim.seams import SimLinAlgError, SimOOM


class FaultFired(Exception):
  pass


def is_refusal(e):
  """An exception that reports bad arguments (TensorFlow uses its own)."""
  return isinstance(e, (ValueError, TypeError, AttributeError,
                        NotImplementedError)) or \
      type(e).__name__ in ("InvalidArgumentError", "UnimplementedError") and \
      type(e).__module__.startswith("tensorflow")


class MNode:
  __slots__ = ("arr", "labels", "mag")

  def __init__(self, arr, labels):
    self.arr = arr
    self.labels = list(labels)
    self.mag = 0.0       # size of the terms of the sum the numbers came from


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def einsum(operands, out):
  """np.einsum with integer labels (pairwise, so any number of labels)."""
  ops = [(np.asarray(a), list(l)) for a, l in operands]
  if not ops:
    return np.array(1.0)
  cnt = {}
  for _, l in ops:
    for x in l:
      cnt[x] = cnt.get(x, 0) + 1
  out = list(out)

  def fin(a, l, keep):
    # sum repeated labels not kept
    u = list(dict.fromkeys(l))
    m = {x: LETTERS[i] for i, x in enumerate(u)}
    k = [x for x in u if x in keep]
    return np.einsum("".join(m[x] for x in l) + "->" +
                     "".join(m[x] for x in k), a), k

  cur, cl = None, None
  rest = list(ops)
  for i, (a, l) in enumerate(rest):
    later = set(out)
    for _, l2 in rest[i + 1:]:
      later |= set(l2)
    if cur is None:
      cur, cl = fin(a, l, later)
    else:
      a, l = fin(a, l, later | set(cl))
      u = list(dict.fromkeys(cl + l))
      m = {x: LETTERS[j] for j, x in enumerate(u)}
      k = [x for x in u if x in later]
      cur = np.einsum("".join(m[x] for x in cl) + "," +
                      "".join(m[x] for x in l) + "->" +
                      "".join(m[x] for x in k), cur, a)
      cl = k
  if sorted(cl) != sorted(out):
    raise ValueError("bad output labels %s vs %s" % (cl, out))
  return np.transpose(cur, [cl.index(x) for x in out])


def denote(operands, out, seed=0):
  """What the network denotes, as a function of its free legs `out`.

  Exact when small; otherwise its values on three fixed random product vectors
  (one vector per free leg), which keeps every intermediate small.
  """
  ops = [(np.asarray(a), list(l)) for a, l in operands]
  cnt = {}
  dims = {}
  for a, l in ops:
    for x, d in zip(l, a.shape):
      cnt[x] = cnt.get(x, 0) + 1
      dims[x] = d
  free = sorted(x for x in cnt if cnt[x] == 1)
  if free != sorted(out):
    raise ValueError("free labels %s, expected %s" % (free, sorted(out)))
  size = 1
  for x in free:
    size *= dims[x]
  if size <= 2048:
    return einsum(_chain(ops), out)
  res = []
  for k in range(3):
    vecs = {x: np.random.RandomState(core.seed_int("probe", seed, k, x) %
                                     (2**32)).standard_normal(dims[x])
            for x in free}
    closed = []
    for a, l in ops:
      mine = [x for x in l if x in vecs]
      keep = [x for x in l if x not in vecs]
      u = list(dict.fromkeys(l))
      m = {x: LETTERS[i] for i, x in enumerate(u)}
      if len(mine) > 20:
        raise ValueError("rank")
      spec = ",".join(["".join(m[x] for x in l)] + [m[x] for x in mine])
      kept = list(dict.fromkeys(x for x in keep if l.count(x) == 1))
      a2 = np.einsum(spec + "->" + "".join(m[x] for x in kept), a,
                     *[vecs[x] for x in mine], optimize="greedy")
      closed.append((a2, kept))
    res.append(einsum(_chain(closed), []))
  return np.array(res)


def _chain(ops):
  """Order operands so that each one shares labels with the earlier ones."""
  rest = list(ops)
  res = []
  have = set()
  while rest:
    best = max(range(len(rest)), key=lambda i: (
        len(set(rest[i][1]) & have) - 0.1 * len(set(rest[i][1]) - have), -i))
    a, l = rest.pop(best)
    have ^= {x for x in l if l.count(x) == 1}
    res.append((a, l))
  return res


def free_labels(labels):
  return sorted(x for x in set(labels) if labels.count(x) == 1)


def close(a, b, tol=1e-8):
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.size == 0:
    return True
  scale = max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-2)
  if not np.all(np.isfinite(b)):
    return bool(np.all(np.isfinite(a) == np.isfinite(b)))
  return bool(np.max(np.abs(a - b)) <= tol * scale)


class NetSim:
  """One simulated history of network operations."""

  MAX_NODES = 7
  MAX_SIZE = 4096

  def __init__(self, plan, ctx, faults=None, backend="numpy"):
    import tensornetwork as tn
    self.tn = tn
    self.plan = plan
    self.ctx = ctx
    self.faults = faults
    self.backend = backend
    self.tol = 1e-8
    self.rng = core.prng("net", plan["data_seed"])
    self.nprng = np.random.RandomState(
        core.seed_int("netdata", plan["data_seed"]) % (2**32))
    self.next_label = 0
    self.next_nid = 0
    self.m = {}          # nid -> MNode
    self.lib = {}        # nid -> library node
    self.elab = {}       # id(edge) -> (edge, label)
    self.cur_fault = None
    self.consumed = []   # (libnode, array) of nodes consumed by contractions
    self.values_set = None
    self.dead_edges = []
    self.spent = []
    self.last_op = None
    self.dtype = np.dtype(plan.get("dtype", "float64"))

  # -- helpers -------------------------------------------------------------
  def to_np(self, t):
    return np.asarray(t)

  def new_label(self):
    self.next_label += 1
    return self.next_label

  def bind(self, edge, label):
    self.elab[id(edge)] = (edge, label)

  def label_of(self, edge):
    got = self.elab.get(id(edge))
    if got is None:
      return None
    return got[1]

  def edge_of(self, label):
    """The edge object the user holds for a label (from the owning node)."""
    for nid, mn in sorted(self.m.items()):
      node = self.lib[nid]
      for e in node.edges:
        if self.label_of(e) == label:
          return e
    raise Violation("edge-lost", "no node has the edge of label %s" % label)

  def add_node(self, libnode, arr, labels):
    nid = self.next_nid
    self.next_nid += 1
    self.m[nid] = MNode(np.asarray(arr), labels)
    self.lib[nid] = libnode
    return nid

  def drop(self, nid, consumed=True):
    node = self.lib.pop(nid)
    self.m.pop(nid)
    if consumed:
      self.spent.append(node)
    if consumed and nid in self._before:
      self.consumed.append((node, self._before[nid]))
      self.consumed = self.consumed[-3:]

  def owners(self, label):
    return [nid for nid, mn in sorted(self.m.items())
            for x in mn.labels if x == label]

  def dims(self):
    d = {}
    for mn in self.m.values():
      for x, s in zip(mn.labels, mn.arr.shape):
        d[x] = s
    return d

  def call(self, name, fn):
    """Run one library call inside the fault window."""
    self.ctx.op(name)
    self.ctx.ticks += 1
    f = self.cur_fault
    if f is None or self.faults is None:
      return fn()
    self.faults.arm(f["k"], f["kind"])
    try:
      res = fn()
    except (SimOOM, SimLinAlgError) as e:
      site = self.faults.disarm()
      self.ctx.fault(f["kind"])
      self.ctx.probe("fault-in-" + name)
      self.ctx.log("fault", name, site, type(e).__name__)
      raise FaultFired() from e
    except Exception as e:
      site = self.faults.disarm()
      if site is not None:
        raise Violation(
            "fault-changed-exception:" + name,
            "a failing backend call surfaced as %r" % (e,)) from e
      raise
    if self.faults.disarm() is not None:
      self.ctx.probe("fault-absorbed-" + name)
    return res

  # -- the oracle ------------------------------------------------------------
  def structure_check(self, nodes):
    """Edges and nodes agree about who is attached where."""
    for node in nodes:
      edges = node.edges
      shape = tuple(int(s) for s in node.shape)
      tshape = tuple(int(s) for s in np.shape(self.to_np(node.tensor)))
      if shape != tshape or len(edges) != len(shape):
        raise Violation("structure", "node shape %s, tensor %s, %d edges" % (
            shape, tshape, len(edges)))
      for i, e in enumerate(edges):
        ok = ((e.node1 is node and e.axis1 == i) or
              (e.node2 is node and e.axis2 == i))
        if not ok:
          raise Violation("structure", "edge at axis %d of %s points to axes "
                          "%s/%s of other nodes" % (i, node.name, e.axis1,
                                                    e.axis2))
        if e.is_dangling():
          if e.node2 is not None:
            raise Violation("structure", "dangling edge with a second node")
        else:
          for n2, a2 in ((e.node1, e.axis1), (e.node2, e.axis2)):
            if a2 >= len(n2.edges) or n2.edges[a2] is not e:
              raise Violation("structure", "the other end of an edge does not "
                              "hold it")
          if int(e.node1.shape[e.axis1]) != int(e.node2.shape[e.axis2]):
            raise Violation("structure", "edge joins axes of unequal "
                            "dimensions %s %s" % (e.node1.shape,
                                                  e.node2.shape))
        if int(e.dimension) != shape[i]:
          raise Violation("structure", "edge dimension %s, axis %s" % (
              e.dimension, shape[i]))
      names = node.axis_names
      if len(names) != len(shape):
        raise Violation("axis-names", "%d names for %d axes" % (
            len(names), len(shape)))
      for i, nm in enumerate(names):
        if names.count(nm) == 1 and node[nm] is not edges[i]:
          raise Violation("axis-names", "node[%r] is not the edge of axis %d"
                          % (nm, i))

  def dtype_of(self, node):
    return self.to_np(node.tensor).dtype

  def full_check(self):
    self.structure_check([self.lib[n] for n in sorted(self.lib)])
    for nid in sorted(self.m):
      mn, node = self.m[nid], self.lib[nid]
      labs = [self.label_of(e) for e in node.edges]
      if None in labs:
        raise Violation("edge-replaced", "node holds an edge the history did "
                        "not create")
      if sorted(labs) != sorted(mn.labels):
        raise Violation("wiring", "node has labels %s, expected %s" % (
            labs, mn.labels))
      out = free_labels(mn.labels)
      got = einsum([(self.to_np(node.tensor), labs)], out)
      exp = einsum([(mn.arr, mn.labels)], out)
      if self.dtype_of(node) != mn.arr.dtype:
        raise Violation("dtype", "node has %s, expected %s" % (
            self.dtype_of(node), mn.arr.dtype))
      if node.backend.name != self.backend:
        raise Violation("backend", "node of backend %s in a %s network" % (
            node.backend.name, self.backend))
      if got.shape == exp.shape and got.size and \
          not close(got, exp, self.tol) and np.max(np.abs(got - exp)) <= max(
              1e-4 * self.tol * mn.mag, self.tol * np.max(np.abs(mn.arr))
              if len(out) < len(labs) else 0):
        # terms that nearly cancel: go on with the rounding the library has
        self.ctx.probe("cancellation")
        mn.arr = np.array(self.to_np(node.tensor))
        mn.labels = list(labs)
        mn.mag = 0.0
        continue
      if not close(got, exp, self.tol):
        raise Violation("value", "node tensor differs from the defining sum "
                        "(labels %s): max diff %s" %
                        (mn.labels, np.max(np.abs(got - exp))
                         if got.shape == exp.shape else "shape"))
    if self.last_op in ("contract", "contract_between", "outer",
                        "split_node"):
      spent = [n for n in self.spent if not isinstance(n, self.tn.CopyNode)]
    else:
      spent = []
    for node in spent:
      self.structure_check([node])
      if any(not e.is_dangling() for e in node.edges):
        raise Violation("consumed-node-wired", "a contracted node is still "
                        "connected")
    for node, arr in self.consumed:
      if not close(self.to_np(node.tensor), arr, self.tol):
        raise Violation("consumed-node-changed",
                        "the tensor of a contracted node was overwritten")

  def weak_check(self):
    """After a failed operation: same denotation, well formed, still usable."""
    out = sorted(x for x in self.dims() if len(self.owners(x)) == 1)
    try:
      exp = denote([(mn.arr, mn.labels) for _, mn in sorted(self.m.items())],
                   out)
    except ValueError:
      raise
    live = []
    before = list(self.lib.values())

    def add(n):
      if n is not None and all(n is not x for x in live):
        live.append(n)

    for nid in sorted(self.lib):
      node = self.lib[nid]
      mine = [self._edge_by_label.get(x) for x in self.m[nid].labels]
      mine = [e for e in mine if e is not None]
      enabled = [e for e in mine if not e.is_disabled and
                 not self.in_finished_bucket(e)]
      if not enabled:
        if not mine or any(not e.is_dangling() for e in node.edges):
          add(node)
        continue  # else: every edge was contracted, the node is consumed
      if all(any(e is f for f in node.edges) for e in enabled) and not any(
          self.in_finished_bucket(e) for e in mine):
        add(node)
      for e in enabled:
        for n in e.get_nodes():
          add(n)
    i = 0
    while i < len(live):
      for e in live[i].edges:
        for n in e.get_nodes():
          add(n)
      i += 1
    self.structure_check(live)
    operands = []
    newlabs = []
    for n in live:
      labs = []
      for e in n.edges:
        x = self.label_of(e)
        if x is None:
          x = self.new_label()
          self.bind(e, x)
        labs.append(x)
      operands.append((self.to_np(n.tensor), labs))
      newlabs.append(labs)
    flat = [x for l in newlabs for x in l]
    got_out = sorted(x for x in set(flat) if flat.count(x) == 1)
    if got_out != out:
      raise Violation("failed-op-changed-network",
                      "free edges before %s, after %s" % (out, got_out))
    # A scalar has no edge that shows whether it was absorbed into another node
    # before the failure; either is a consistent state.
    scal = [i for i, n in enumerate(live) if not n.edges and
            any(n is old for old in before)]
    for gone in itertools.product((0, 1), repeat=len(scal)):
      dead = {i for i, g in zip(scal, gone) if g}
      kept = [o for i, o in enumerate(operands) if i not in dead]
      if close(denote(kept, out), exp, self.tol):
        live = [n for i, n in enumerate(live) if i not in dead]
        operands = kept
        break
    else:
      raise Violation("failed-op-changed-value",
                      "the network denotes a different tensor after a failed "
                      "operation")
    # resynchronise the model with what is left
    self.m, self.lib = {}, {}
    for n, (arr, labs) in zip(live, operands):
      self.add_node(n, arr, labs)

  def in_finished_bucket(self, e):
    """True for a bond to a copy node that `bucket` contracted before it failed;
    such copy nodes are left with new edges."""
    return self.last_op == "bucket" and any(
        n is not None and isinstance(n, self.tn.CopyNode) and
        all(f.is_dangling() and self.label_of(f) is None for f in n.edges)
        for n in (e.node1, None if e.is_dangling() else e.node2))

  def abstract_state(self):
    ren = {}
    out = []
    for nid in sorted(self.m):
      mn = self.m[nid]
      out.append([(ren.setdefault(x, len(ren)), s)
                  for x, s in zip(mn.labels, mn.arr.shape)])
    return out

  # -- driver ----------------------------------------------------------------
  def step(self, op):
    name, r = op["op"], op["r"]
    self.spent = []
    self.last_op = name
    self.cur_fault = op.get("fault")
    self._edge_by_label = {}
    self._before = {}
    for nid in sorted(self.lib):
      self._before[nid] = np.array(self.to_np(self.lib[nid].tensor))
      for e in self.lib[nid].edges:
        x = self.label_of(e)
        if x is not None:
          self._edge_by_label.setdefault(x, e)
    fn = getattr(self, "op_" + name)
    try:
      fn(r)
    except SkipOp:
      self.ctx.log("skip", name)
      return "skip"
    except FaultFired:
      self.cur_fault = None
      self.weak_check()
      self.ctx.log("after-fault ok", len(self.m))
      return "fault"
    self.cur_fault = None
    self.full_check()
    self.ctx.log("ok", name, len(self.m), core.short_hash(
        self.abstract_state()))
    self.ctx.state(self.abstract_state())
    return "ok"

  # -- selection -------------------------------------------------------------
  def pick(self, lst, r):
    if not lst:
      raise SkipOp()
    return lst[r % len(lst)]

  def nids(self):
    return sorted(self.m)

  def labels_all(self):
    return sorted(self.dims())

  def bonds(self):
    return [x for x in self.labels_all() if len(self.owners(x)) == 2]

  def dangling(self):
    return [x for x in self.labels_all() if len(self.owners(x)) == 1]

  def is_trace(self, x):
    o = self.owners(x)
    return len(o) == 2 and o[0] == o[1]

  def rand_array(self, shape, r=0):
    a = self.nprng.standard_normal(shape)
    if self.dtype.kind == "c":
      a = a + 1j * self.nprng.standard_normal(shape)
    return np.asarray(a, dtype=self.dtype)

  def is_copy_node(self, nid):
    return isinstance(self.lib[nid], self.tn.CopyNode)

  # -- operations ------------------------------------------------------------
  def op_new(self, r):
    if len(self.m) >= self.MAX_NODES:
      raise SkipOp()
    rank = r[0] % 5
    shape = tuple((1, 2, 2, 3)[(r[1] >> (2 * i)) % 4] for i in range(rank))
    if r[2] % 3 == 0 and rank >= 2:
      shape = shape[:-1] + (shape[0],)
    arr = self.rand_array(shape)
    kw = {}
    if r[3] % 3 == 0:
      kw["name"] = "n%d" % self.next_nid
    if r[3] % 5 == 0:
      kw["axis_names"] = ["ax%d_%d" % (self.next_nid, i) for i in range(rank)]
    node = self.call("Node", lambda: self.tn.Node(
        arr.copy(), backend=self.backend, **kw))
    if "name" in kw and node.name != kw["name"]:
      raise Violation("names", "node name lost")
    if "axis_names" in kw and list(node.axis_names) != kw["axis_names"]:
      raise Violation("names", "axis names lost")
    labels = []
    for e in node.edges:
      x = self.new_label()
      self.bind(e, x)
      labels.append(x)
    self.add_node(node, arr, labels)

  def op_newcopy(self, r):
    if len(self.m) >= self.MAX_NODES:
      raise SkipOp()
    rank = 2 + r[0] % 3
    d = 1 + r[1] % 3
    node = self.call("CopyNode", lambda: self.tn.CopyNode(
        rank, d, backend=self.backend, dtype=self.dtype.type))
    arr = np.zeros((d,) * rank, dtype=self.dtype)
    for i in range(d):
      arr[(i,) * rank] = 1
    labels = []
    for e in node.edges:
      x = self.new_label()
      self.bind(e, x)
      labels.append(x)
    self.add_node(node, arr, labels)

  def op_copy_star(self, r):
    """A copy node whose partners share one or several of its axes."""
    rng = random.Random(r[0] << 48 | r[1] << 32 | r[2] << 16 | r[3])
    k = rng.randrange(1, 6)
    shares = [rng.choice([1, 1, 2, 2, 3]) for _ in range(k)]
    while sum(shares) > 8:
      shares.pop()
    if sum(shares) < 2:
      shares.append(1)
    if len(self.m) + len(shares) + 1 > self.MAX_NODES + 1:
      raise SkipOp()
    rank = sum(shares)
    d = rng.choice([1, 2, 2, 3]) if rank < 6 else 2
    own = rng.random() < 0.15        # two axes of the copy node itself
    node = self.call("CopyNode", lambda: self.tn.CopyNode(
        rank + 2 * own, d, backend=self.backend, dtype=self.dtype.type))
    arr = np.zeros((d,) * (rank + 2 * own), dtype=self.dtype)
    for i in range(d):
      arr[(i,) * arr.ndim] = 1
    labels = [self.new_label() for _ in node.edges]
    for e, x in zip(node.edges, labels):
      self.bind(e, x)
    self.add_node(node, arr, labels)
    pairs = []
    free = list(labels)
    rng.shuffle(free)
    for n in shares:
      extra = rng.choice([0, 1, 1])
      shape = [d] * n + [rng.choice([2, 3])] * extra
      perm = list(range(len(shape)))
      rng.shuffle(perm)
      parr = self.rand_array(tuple(shape[p] for p in perm))
      pnode = self.call("Node", lambda: self.tn.Node(  # pylint: disable=cell-var-from-loop
          parr.copy(), backend=self.backend))
      plabs = [self.new_label() for _ in pnode.edges]
      for e, x in zip(pnode.edges, plabs):
        self.bind(e, x)
      self.add_node(pnode, parr, plabs)
      pairs += [(plabs[j], free.pop()) for j, p in enumerate(perm) if p < n]
    if own:
      pairs.append((free.pop(), free.pop()))
    rng.shuffle(pairs)
    for x, y in pairs:
      if rng.random() < 0.5:
        x, y = y, x
      new = self.call("connect",
                      lambda: self.edge_of(x) ^ self.edge_of(y))  # pylint: disable=cell-var-from-loop
      z = self.new_label()
      self.merge_labels(x, y, z)
      self.bind(new, z)

  def merge_labels(self, x, y, new):
    for mn in self.m.values():
      mn.labels = [new if z in (x, y) else z for z in mn.labels]

  def pairable(self, x, y):
    return True

  def op_connect(self, r):
    dang = self.dangling()
    dims = self.dims()
    x = self.pick(dang, r[0])
    cands = [y for y in dang if y != x and dims[y] == dims[x] and
             self.pairable(x, y)]
    if r[2] % 4:
      # prefer another node
      o = self.owners(x)[0]
      c2 = [y for y in cands if self.owners(y)[0] != o]
      cands = c2 or cands
    y = self.pick(cands, r[1])
    e1, e2 = self.edge_of(x), self.edge_of(y)
    if r[2] % 2:
      new = self.call("connect", lambda: self.tn.connect(e1, e2, "bond"))
      if new.name != "bond":
        raise Violation("names", "edge name lost")
    else:
      new = self.call("connect", lambda: e1 ^ e2)
    z = self.new_label()
    self.merge_labels(x, y, z)
    self.bind(new, z)

  def op_disconnect(self, r):
    x = self.pick(self.bonds(), r[0])
    e = self.edge_of(x)
    n1 = [nid for nid in self.nids() if self.lib[nid] is e.node1][0]
    n2 = [nid for nid in self.nids() if self.lib[nid] is e.node2][0]
    a1, a2 = e.axis1, e.axis2
    if r[1] % 2:
      e1, e2 = self.call("disconnect", lambda: self.tn.disconnect(e))
    else:
      e1, e2 = self.call("disconnect", lambda: e | e)
    y1, y2 = self.new_label(), self.new_label()
    # relabel by library axis: the model arrays follow the axis the edge
    # pointed to, located through the label order of the library node
    self._relabel_axis(n1, x, a1, y1)
    self._relabel_axis(n2, x, a2, y2)
    self.bind(e1, y1)
    self.bind(e2, y2)
    if e1.node1 is not self.lib[n1] or e2.node1 is not self.lib[n2]:
      raise Violation("wiring", "disconnect returned edges of other nodes")

  def _relabel_axis(self, nid, x, libaxis, y):
    """Give model axis corresponding to library axis `libaxis` the label y."""
    mn = self.m[nid]
    if mn.labels.count(x) == 1:
      mn.labels[mn.labels.index(x)] = y
      return
    # trace edge: adopt the library's axis order for this node (the two axes
    # of a trace edge are interchangeable in value, not once cut)
    self._adopt_order(nid, x)
    mn.labels[libaxis] = y

  def _adopt_order(self, nid, x):
    """Re-express the model node in the library's axis order.

    Traced axis pairs are ambiguous from labels alone; the library tensor is
    used to resolve the order after its (traced) value was checked.
    """
    mn, node = self.m[nid], self.lib[nid]
    # edges just made by the operation in progress are the cut label
    labs = [x if self.label_of(e) is None else self.label_of(e)
            for e in node.edges]
    arr = self.to_np(node.tensor)
    perm = self._find_perm(mn, arr, labs)
    if perm is None:
      raise Violation("value", "no axis order reproduces the node tensor")
    mn.arr = np.transpose(mn.arr, perm)
    mn.labels = [mn.labels[p] for p in perm]

  def _find_perm(self, mn, arr, labs):
    if sorted(labs) != sorted(mn.labels):
      raise Violation("wiring", "labels %s, expected %s" % (labs, mn.labels))
    pos = {}
    for p, y in enumerate(mn.labels):
      pos.setdefault(y, []).append(p)
    twice = sorted(y for y in pos if len(pos[y]) == 2)
    for flips in itertools.product((0, 1), repeat=len(twice)):
      use = {y: (pos[y][::-1] if y in twice and flips[twice.index(y)] else
                 list(pos[y])) for y in pos}
      perm = tuple(use[y].pop(0) for y in labs)
      if tuple(mn.arr.shape[p] for p in perm) != arr.shape:
        continue
      if close(np.transpose(mn.arr, perm), arr, self.tol):
        return perm
    return None

  def contracted(self, ids, out_labels):
    ops = [(self.m[i].arr, self.m[i].labels) for i in ids]
    return einsum(ops, out_labels)

  def size_ok(self, ids, contracted):
    d = self.dims()
    size = 1
    for i in ids:
      for x in self.m[i].labels:
        if x not in contracted:
          size *= d[x]
    return size <= self.MAX_SIZE

  def finish_contract(self, ids, node, contracted, name=None, order=None):
    """Model side of a contraction of `ids` over labels `contracted`."""
    out = []
    for i in ids:
      out += [x for x in self.m[i].labels if x not in contracted]
    # an edge between the two nodes that was not contracted becomes a trace
    single = list(out)
    ops = []
    ren = {}
    for i in ids:
      labs = []
      for x in self.m[i].labels:
        if x not in contracted and out.count(x) == 2:
          key = (x, ren.setdefault(x, 0))
          ren[x] += 1
          labs.append(key)
        else:
          labs.append((x, 0))
      ops.append((self.m[i].arr, labs))
    outk = []
    seen = {}
    for x in single:
      outk.append((x, seen.get(x, 0)))
      seen[x] = seen.get(x, 0) + 1
    arr = einsum(ops, outk)
    mag = einsum([(np.abs(a), l) for a, l in ops], outk)
    for i in ids:
      self.drop(i)
    if name is not None and node.name != name:
      raise Violation("names", "contraction lost the requested name")
    if order is not None:
      got = [self.label_of(e) for e in node.edges]
      if got != order:
        raise Violation("axis-order", "asked for edge order %s, got %s" % (
            order, got))
    nid = self.add_node(node, arr, single)
    if mag.size and np.all(np.isfinite(mag)):
      self.m[nid].mag = float(np.max(mag))
    return nid

  def op_contract(self, r):
    x = self.pick(self.bonds(), r[0])
    ids = sorted(set(self.owners(x)))
    if not self.size_ok(ids, {x}):
      raise SkipOp()
    e = self.edge_of(x)
    kw = {"name": "c%d" % r[1]} if r[1] % 3 == 0 else {}
    if r[2] % 3 == 0:
      rank = sum(len(self.m[i].labels) for i in ids) - 2
      kw["axis_names"] = ["t%d" % a for a in range(rank)]
    node = self.call("contract", lambda: self.tn.contract(e, **kw))
    if "axis_names" in kw and list(node.axis_names) != kw["axis_names"]:
      raise Violation("names", "contract lost the axis names")
    self.finish_contract(ids, node, {x}, kw.get("name"))
    if not e.is_disabled:
      raise Violation("edge-not-consumed", "contracted edge still enabled")
    self.dead_edges = (self.dead_edges + [e])[-4:]

  def op_contract_between(self, r):
    ids = self.nids()
    a = self.pick(ids, r[0])
    la = self.m[a].labels
    nb = [b for b in ids if b != a and set(la) & set(self.m[b].labels)]
    if r[4] % 5 == 0 or not nb:
      b = self.pick([b for b in ids if b != a], r[1])
    else:
      b = self.pick(nb, r[1])
    shared = {x for x in la if x in self.m[b].labels}
    outer = not shared
    if not self.size_ok([a, b], shared):
      raise SkipOp()
    if len(self.m[a].labels) + len(self.m[b].labels) > 12:
      raise SkipOp()
    kw = {}
    if r[2] % 3 == 0:
      kw["name"] = "cb"
    out = [x for i in (a, b) for x in self.m[i].labels if x not in shared]
    order = None
    if r[3] % 2 == 0 and len(set(out)) == len(out) and out:
      order = sorted(out)
      core.prng(r[3]).shuffle(order)
      kw["output_edge_order"] = [self.edge_of(x) for x in order]
    if r[2] % 4 == 0 and len(out):
      kw["axis_names"] = ["o%d" % i for i in range(len(out))]
    na, nb_ = self.lib[a], self.lib[b]
    if r[4] % 7 == 0 and not kw and shared:
      node = self.call("matmul", lambda: na @ nb_)
    else:
      node = self.call("contract_between", lambda: self.tn.contract_between(
          na, nb_, allow_outer_product=outer, **kw))
    if "axis_names" in kw and list(node.axis_names) != kw["axis_names"]:
      raise Violation("names", "contraction lost the requested axis names")
    self.finish_contract([a, b], node, shared, kw.get("name"), order)

  def no_fault_on_flat_copy(self, ids, shared):
    """Several trace edges of one node are contracted by flattening it first;
    a flattened CopyNode is not a CopyNode any more (its shape is fixed), so a
    failure right after that step is outside the property."""
    if len(ids) == 1 and len(shared) > 1 and self.is_copy_node(ids[0]):
      self.cur_fault = None

  def op_contract_parallel(self, r):
    x = self.pick(self.bonds(), r[0])
    ids = sorted(set(self.owners(x)))
    e = self.edge_of(x)
    if len(ids) == 1:
      shared = {y for y in self.m[ids[0]].labels if self.is_trace(y)}
    else:
      shared = set(self.m[ids[0]].labels) & set(self.m[ids[1]].labels)
    if not self.size_ok(ids, shared):
      raise SkipOp()
    self.no_fault_on_flat_copy(ids, shared)
    node = self.call("contract_parallel",
                     lambda: self.tn.contract_parallel(e))
    if len(ids) == 1 and len(shared) > 1:
      # flattening rewrites the consumed node in place (documented)
      self.finish_contract(ids, node, shared)
      self.consumed = self.consumed[:-1]
    else:
      self.finish_contract(ids, node, shared)

  def op_contract_trace_edges(self, r):
    ids = [i for i in self.nids() if any(self.is_trace(x)
                                         for x in self.m[i].labels)]
    i = self.pick(ids, r[0])
    shared = {y for y in self.m[i].labels if self.is_trace(y)}
    n = self.lib[i]
    self.no_fault_on_flat_copy([i], shared)
    if r[1] % 2:
      node = self.call("contract_trace_edges",
                       lambda: self.tn.contract_trace_edges(n))
    else:
      node = self.call("contract_between_self",
                       lambda: self.tn.contract_between(n, n))
    self.finish_contract([i], node, shared)
    self.consumed = self.consumed[:-1]

  def op_outer(self, r):
    ids = self.nids()
    a = self.pick(ids, r[0])
    b = self.pick([b for b in ids if b != a], r[1])
    if not self.size_ok([a, b], set()):
      raise SkipOp()
    if len(self.m[a].labels) + len(self.m[b].labels) > 10:
      raise SkipOp()
    na, nb = self.lib[a], self.lib[b]
    kw = {"name": "op"} if r[2] % 2 else {}
    if r[2] % 3 == 0:
      n = len(self.m[a].labels) + len(self.m[b].labels)
      kw["axis_names"] = ["q%d" % i for i in range(n)]
    node = self.call("outer_product",
                     lambda: self.tn.outer_product(na, nb, **kw))
    if "axis_names" in kw and list(node.axis_names) != kw["axis_names"]:
      raise Violation("names", "outer_product lost the axis names")
    self.finish_contract([a, b], node, set(), kw.get("name"))

  def op_outer_final(self, r):
    ids = [i for i in self.nids()
           if all(len(self.owners(x)) == 1 for x in self.m[i].labels)]
    if len(ids) < 2:
      raise SkipOp()
    ids = core.prng(r[0]).sample(ids, min(len(ids), 2 + r[1] % 2))
    if not self.size_ok(ids, set()):
      raise SkipOp()
    out = [x for i in ids for x in self.m[i].labels]
    if len(out) > 10:
      raise SkipOp()
    core.prng(r[2]).shuffle(out)
    edges = [self.edge_of(x) for x in out]
    nodes = [self.lib[i] for i in ids]
    node = self.call("outer_product_final_nodes",
                     lambda: self.tn.outer_product_final_nodes(nodes, edges))
    self.finish_contract(ids, node, set(), None, out)

  def op_reorder_axes(self, r):
    i = self.pick(self.nids(), r[0])
    n = self.lib[i]
    perm = list(range(len(self.m[i].labels)))
    core.prng(r[1]).shuffle(perm)
    before = [self.label_of(e) for e in n.edges]
    names = list(n.axis_names)
    res = self.call("reorder_axes", lambda: n.reorder_axes(perm))
    if res is not n:
      raise Violation("identity", "reorder_axes did not return the node")
    after = [self.label_of(e) for e in n.edges]
    if after != [before[p] for p in perm]:
      raise Violation("axis-order", "reorder_axes(%s): %s -> %s" % (
          perm, before, after))
    if list(n.axis_names) != [names[p] for p in perm]:
      raise Violation("axis-names", "names did not follow the axes")

  def op_reorder_edges(self, r):
    ids = [i for i in self.nids()
           if not any(self.is_trace(x) for x in self.m[i].labels)]
    i = self.pick(ids, r[0])
    n = self.lib[i]
    order = list(self.m[i].labels)
    core.prng(r[1]).shuffle(order)
    by = {self.label_of(e): nm for e, nm in zip(n.edges, n.axis_names)}
    edges = [self.edge_of(x) for x in order]
    self.call("reorder_edges", lambda: n.reorder_edges(edges))
    if [self.label_of(e) for e in n.edges] != order:
      raise Violation("axis-order", "reorder_edges did not give that order")
    if list(n.axis_names) != [by[x] for x in order]:
      raise Violation("axis-names", "names did not follow the edges")

  def op_tensor_from_edge_order(self, r):
    ids = [i for i in self.nids()
           if not any(self.is_trace(x) for x in self.m[i].labels)]
    i = self.pick(ids, r[0])
    n = self.lib[i]
    order = list(self.m[i].labels)
    core.prng(r[1]).shuffle(order)
    edges = [self.edge_of(x) for x in order]
    t = self.call("tensor_from_edge_order",
                  lambda: n.tensor_from_edge_order(edges))
    exp = einsum([(self.m[i].arr, self.m[i].labels)], order)
    if not close(self.to_np(t), exp, self.tol):
      raise Violation("value", "tensor_from_edge_order")

  def parallel_groups(self):
    """Groups of >= 2 labels that can be flattened together."""
    groups = {}
    for x in self.labels_all():
      if any(self.is_copy_node(i) for i in self.owners(x)):
        continue  # the shape of a copy node is fixed
      groups.setdefault(tuple(sorted(self.owners(x))), []).append(x)
    return [g for k, g in sorted(groups.items()) if len(g) >= 2]

  def flatten_model(self, labels, new):
    for i in self.nids():
      mn = self.m[i]
      if not any(x in mn.labels for x in labels):
        continue
      pos = [mn.labels.index(x) for x in labels]
      rest = [p for p in range(len(mn.labels)) if p not in pos]
      arr = np.transpose(mn.arr, rest + pos)
      d = int(np.prod([mn.arr.shape[p] for p in pos]))
      mn.arr = arr.reshape([mn.arr.shape[p] for p in rest] + [d])
      mn.labels = [mn.labels[p] for p in rest] + [new]

  def op_flatten(self, r):
    g = list(self.pick(self.parallel_groups(), r[0]))
    core.prng(r[1]).shuffle(g)
    k = 2 + r[2] % (len(g) - 1)
    labels = g[:k]
    edges = [self.edge_of(x) for x in labels]
    kw = {"new_edge_name": "flat"} if r[3] % 2 else {}
    new = self.call("flatten_edges",
                    lambda: self.tn.flatten_edges(edges, **kw))
    if kw and new.name != "flat":
      raise Violation("names", "flatten_edges lost the name")
    trace = self.is_trace(labels[0])
    if trace:
      # which end of each trace edge goes to which new axis is not specified
      self.adopt_flatten([([self.owners(labels[0])[0]], labels)], [new])
    else:
      z = self.new_label()
      self.flatten_model(labels, z)
      self.bind(new, z)
    for e in edges:
      if not e.is_disabled:
        raise Violation("edge-not-consumed", "flattened edge still enabled")

  def op_flatten_between(self, r):
    x = self.pick(self.bonds(), r[0])
    ids = sorted(set(self.owners(x)))
    n1 = self.lib[ids[0]]
    n2 = self.lib[ids[-1]]
    if len(ids) == 1:
      shared = sorted({y for y in self.m[ids[0]].labels if self.is_trace(y)})
    else:
      shared = sorted(set(self.m[ids[0]].labels) & set(self.m[ids[1]].labels))
    if len(shared) > 1 and any(self.is_copy_node(i) for i in ids):
      raise SkipOp()
    new = self.call("flatten_edges_between",
                    lambda: self.tn.flatten_edges_between(n1, n2))
    if len(shared) == 1:
      if self.label_of(new) != shared[0]:
        raise Violation("wiring", "flatten_edges_between of one edge")
      return
    # the order in which a set of edges is merged is not specified
    self.adopt_flatten([(ids, shared)], [new])

  def adopt_flatten(self, groups, news):
    """Flattening a *set* of edges: any merge order is allowed, but the same
    one on both ends; check the summed value, then adopt the new axes."""
    for (ids, shared), new in zip(groups, news):
      z = self.new_label()
      self.bind(new, z)
      ops_m, ops_l, out = [], [], []
      for i in ids:
        ops_m.append((self.m[i].arr, self.m[i].labels))
        labs = [self.label_of(e) for e in self.lib[i].edges]
        ops_l.append((self.to_np(self.lib[i].tensor), labs))
        out += [x for x in self.m[i].labels if x not in shared]
      outs = sorted(x for x in set(out) if out.count(x) == 1)
      try:
        gl = denote(ops_l, outs)
      except ValueError as e:
        raise Violation("wiring", "flatten: %s" % e) from e
      gm = denote(ops_m, outs)
      if not close(gl, gm, self.tol):
        raise Violation("value", "flattening changed the contracted value")
      for i in ids:
        n = self.lib[i]
        self.m[i] = MNode(np.array(self.to_np(n.tensor)),
                          [self.label_of(e) for e in n.edges])

  def op_flatten_all(self, r):
    ids = self.nids()
    k = 1 + r[1] % len(ids) if ids else 0
    if not ids:
      raise SkipOp()
    ids = core.prng(r[0]).sample(ids, k)
    groups = {}
    for i in ids:
      for x in self.m[i].labels:
        o = tuple(sorted(set(self.owners(x))))
        if len(self.owners(x)) == 2:
          groups.setdefault(o, set()).add(x)
    if any(len(labs) > 1 and any(self.is_copy_node(i) for i in o)
           for o, labs in groups.items()):
      raise SkipOp()
    nodes = [self.lib[i] for i in ids]
    arg = set(nodes) if r[2] % 2 else nodes
    self.call("flatten_all_edges", lambda: self.tn.flatten_all_edges(arg))
    for o, labs in sorted(groups.items()):
      if len(labs) == 1:
        continue
      n1, n2 = self.lib[o[0]], self.lib[o[-1]]
      new = [e for e in n1.edges if not e.is_dangling() and
             {id(e.node1), id(e.node2)} == {id(n1), id(n2)}]
      if len(set(map(id, new))) != 1:
        raise Violation("wiring", "flatten_all_edges left %d parallel edges" %
                        len(new))
      z = self.new_label()
      self.bind(new[0], z)
    # adopt: check the value of the whole network, then take the new axes
    out = sorted(x for x in self.dims() if len(self.owners(x)) == 1)
    gm = denote([(m.arr, m.labels) for _, m in sorted(self.m.items())], out)
    ops = []
    for i in self.nids():
      labs = [self.label_of(e) for e in self.lib[i].edges]
      if None in labs:
        raise Violation("edge-replaced", "flatten_all_edges")
      ops.append((self.to_np(self.lib[i].tensor), labs))
    try:
      gl = denote(ops, out)
    except ValueError as e:
      raise Violation("wiring", "flatten_all_edges: %s" % e) from e
    if not close(gl, gm, self.tol):
      raise Violation("value", "flatten_all_edges changed the value")
    for i, (arr, labs) in zip(self.nids(), ops):
      self.m[i] = MNode(np.array(arr), labs)

  def op_split_edge(self, r):
    dims = self.dims()
    cands = [x for x in self.labels_all() if dims[x] in (4, 6, 8, 9, 12)]
    if not cands:
      cands = self.labels_all()
    x = self.pick(cands, r[0])
    d = dims[x]
    divs = [a for a in range(1, d + 1) if d % a == 0]
    a = divs[r[1] % len(divs)]
    shape = (a, d // a)
    if r[2] % 5 == 0:
      shape = (1,) + shape
    if any(len(self.m[i].labels) > 7 or self.is_copy_node(i)
           for i in self.owners(x)):
      raise SkipOp()
    e = self.edge_of(x)
    kw = {}
    if r[3] % 3 == 0:
      kw["new_edge_names"] = ["s%d" % i for i in range(len(shape))]
    owners = self.owners(x)
    new = self.call("split_edge", lambda: self.tn.split_edge(e, shape, **kw))
    if len(new) != len(shape):
      raise Violation("wiring", "split_edge returned %d edges" % len(new))
    if kw and [f.name for f in new] != kw["new_edge_names"]:
      raise Violation("names", "split_edge lost the edge names")
    zs = [self.new_label() for _ in new]
    for f, z, s in zip(new, zs, shape):
      if int(f.dimension) != s:
        raise Violation("structure", "split_edge dims")
      self.bind(f, z)
    for i in sorted(set(owners)):
      mn = self.m[i]
      while x in mn.labels:
        p = mn.labels.index(x)
        mn.arr = mn.arr.reshape(mn.arr.shape[:p] + tuple(shape) +
                                mn.arr.shape[p + 1:])
        mn.labels = mn.labels[:p] + zs + mn.labels[p + 1:]

  def op_slice_edge(self, r):
    dims = self.dims()
    x = self.pick([y for y in self.labels_all() if dims[y] > 1], r[0])
    if any(self.is_copy_node(i) for i in self.owners(x)):
      raise SkipOp()
    if self.backend == "tensorflow" and any(
        self.m[i].arr.ndim > 7 for i in self.owners(x)):
      raise SkipOp()   # TensorFlow has no slices of more dimensions
    d = dims[x]
    length = 1 + r[1] % d
    start = r[2] % (d - length + 1)
    arg = start - d if r[3] % 4 == 0 else start
    e = self.edge_of(x)
    res = self.call("slice_edge",
                    lambda: self.tn.slice_edge(e, arg, length))
    if res is not e:
      raise Violation("identity", "slice_edge did not return the edge")
    for i in sorted(set(self.owners(x))):
      mn = self.m[i]
      for p, y in enumerate(mn.labels):
        if y == x:
          idx = [slice(None)] * mn.arr.ndim
          idx[p] = slice(start, start + length)
          mn.arr = mn.arr[tuple(idx)]

  def truncation(self, i, left, right, kind, r, kw):
    """Chooses truncation options; returns the values to be discarded."""
    if kind not in ("svd", "full") or (r[4] // 2) % 3:
      return np.zeros(0)
    mn = self.m[i]
    full = einsum([(mn.arr, mn.labels)], left + right)
    if not full.size or not np.all(np.isfinite(full)):
      return np.zeros(0)
    nl = int(np.prod(full.shape[:len(left)]))
    u, s, v = np.linalg.svd(full.reshape(nl, -1), full_matrices=False)
    rng = core.prng("trunc", r[4], r[1])
    keep = len(s)
    opts = {}
    if rng.random() < 0.6:
      opts["max_singular_values"] = rng.randrange(1, len(s) + 2)
      keep = min(keep, opts["max_singular_values"])
    if rng.random() < 0.6:
      # tails[c]: the norm of what is discarded when c values are kept
      tails = np.append(np.sqrt(np.cumsum(s[::-1]**2))[::-1], 0.0)
      c = rng.randrange(1, len(s) + 1)
      lo, hi = tails[c], tails[c - 1]
      if hi - lo > 1e-6 * max(tails[0], 1e-9):
        eps = (lo + hi) / 2
        opts["relative"] = rng.random() < 0.5
        opts["max_truncation_err"] = eps / s[0] if opts["relative"] else eps
        keep = min(keep, c)
    if keep < len(s) and s[keep - 1] - s[keep] < 1e-6 * s[0]:
      return np.zeros(0)      # a tie: either value may go
    kw.update(opts)
    self.exp_trunc = ((u[:, :keep] * s[:keep]) @ v[:keep]).reshape(full.shape)
    return s[keep:]

  def same_discard(self, got, want, full):
    return close(got, want, 1e-7)

  def op_split_node(self, r):
    ids = [i for i in self.nids()
           if len(self.m[i].labels) >= 2 and
           not any(self.is_trace(x) for x in self.m[i].labels)]
    if len(self.m) >= self.MAX_NODES:
      raise SkipOp()
    i = self.pick(ids, r[0])
    labels = list(self.m[i].labels)
    core.prng(r[1]).shuffle(labels)
    k = 1 + r[2] % (len(labels) - 1)
    left, right = labels[:k], labels[k:]
    le = [self.edge_of(x) for x in left]
    re = [self.edge_of(x) for x in right]
    n = self.lib[i]
    kind = ("svd", "qr", "rq", "full")[r[3] % 4]
    kw = {}
    if r[4] % 2:
      kw = {"left_name": "L", "right_name": "R"}
      if kind != "full":
        kw["edge_name"] = "mid%d" % self.next_label
      else:
        kw.update(middle_name="M", left_edge_name="ml%d" % self.next_label,
                  right_edge_name="mr%d" % self.next_label)
    mid = [kw[z] for z in ("edge_name", "left_edge_name", "right_edge_name")
           if z in kw]
    by = {self.label_of(e): z for e, z in zip(n.edges, n.axis_names)}
    discard = self.truncation(i, left, right, kind, r, kw)
    fn = {"svd": self.tn.split_node, "qr": self.tn.split_node_qr,
          "rq": self.tn.split_node_rq,
          "full": self.tn.split_node_full_svd}[kind]
    res = self.call("split_node_" + kind, lambda: fn(n, le, re, **kw))
    mn = self.m[i]
    exp = einsum([(mn.arr, mn.labels)], left + right)
    self.drop(i)
    if kind == "full":
      ln, sn, rn, trunc = res
      parts = [ln, sn, rn]
    elif kind == "svd":
      ln, rn, trunc = res
      parts = [ln, rn]
    else:
      ln, rn = res
      trunc = []
      parts = [ln, rn]
    if not self.same_discard(np.sort(np.abs(self.to_np(trunc))),
                             np.sort(discard), exp):
      raise Violation("truncation", "discarded %s, expected %s" % (
          trunc, discard))
    if mid and (ln.name, rn.name) != ("L", "R"):
      raise Violation("names", "split_node lost the node names")
    if mid and list(ln.axis_names) + list(rn.axis_names) != [
        by[x] for x in left] + mid[:1] + mid[-1:] + [by[x] for x in right]:
      raise Violation("names", "split_node axis names %s %s" % (
          ln.axis_names, rn.axis_names))
    if len(mid) == 2 and (sn.name, list(sn.axis_names)) != ("M", mid):
      raise Violation("names", "split_node_full_svd middle node %s %s" % (
          sn.name, sn.axis_names))
    if len(discard):
      exp = self.exp_trunc
      self.ctx.probe("split with truncation")
    for a, b in zip(parts[:-1], parts[1:]):
      bond = [e for e in a.edges if any(e is f for f in b.edges)]
      if len(bond) < 1:
        raise Violation("wiring", "split parts are not connected")
      new = [e for e in bond if self.label_of(e) is None]
      if len(new) != 1:
        raise Violation("wiring", "split made %d new bonds" % len(new))
      if mid and new[0].name != mid[0 if a is ln else -1]:
        raise Violation("names", "split_node lost the edge name")
      self.bind(new[0], self.new_label())
    ops = []
    for p in parts:
      labs = [self.label_of(e) for e in p.edges]
      arr = np.array(self.to_np(p.tensor))
      ops.append((arr, labs))
    got = einsum(ops, left + right)
    if not close(got, exp, 1e-7):
      raise Violation("value", "split (%s) does not recombine" % kind)
    if [self.label_of(e) for e in ln.edges[:-1]] != left or \
        [self.label_of(e) for e in rn.edges[1:]] != right:
      raise Violation("axis-order", "split parts do not keep the edge order")

    def iso(arr, side):
      m = arr.reshape(-1, arr.shape[-1]) if side == "l" else \
          arr.reshape(arr.shape[0], -1).conj().T
      if not close(m.conj().T @ m, np.eye(m.shape[1]), 1e-7):
        raise Violation("isometry", "split (%s) factor is not isometric" %
                        kind)

    if kind in ("qr", "full"):
      iso(ops[0][0], "l")
    if kind in ("rq", "full"):
      iso(ops[-1][0], "r")
    for p, (arr, labs) in zip(parts, ops):
      self.add_node(p, arr, labs)

  def subset(self, r, k):
    ids = self.nids()
    if not ids:
      raise SkipOp()
    return core.prng(r).sample(ids, 1 + k % len(ids))

  def op_copy(self, r):
    ids = self.subset(r[0], r[1])
    if len(self.m) + len(ids) > self.MAX_NODES + 2:
      raise SkipOp()
    conj = bool(r[2] % 2)
    nodes = [self.lib[i] for i in ids]
    arg = set(nodes) if r[3] % 2 else nodes
    nd, ed = self.call("copy", lambda: self.tn.copy(arg, conjugate=conj))
    if set(map(id, nd)) != set(map(id, nodes)):
      raise Violation("copy", "node map has the wrong keys")
    ren = {}
    for i in ids:
      n = self.lib[i]
      for e in n.edges:
        x = self.label_of(e)
        if x not in ren:
          ren[x] = self.new_label()
          if e not in ed:
            raise Violation("copy", "edge map misses an edge")
          self.bind(ed[e], ren[x])
    for i in ids:
      new = nd[self.lib[i]]
      if new is self.lib[i]:
        raise Violation("copy", "copy returned the same node")
      mn = self.m[i]
      arr = np.conj(mn.arr) if conj else mn.arr
      if new.name != self.lib[i].name:
        raise Violation("names", "copy changed the name")
      # labels in library order of the original are those of the copy
      if list(new.axis_names) != list(self.lib[i].axis_names):
        raise Violation("names", "copy changed axis names")
      self.add_node(new, arr, [ren[x] for x in mn.labels])

  def op_replicate(self, r):
    ids = self.subset(r[0], r[1])
    if len(self.m) + len(ids) > self.MAX_NODES + 2:
      raise SkipOp()
    nodes = [self.lib[i] for i in ids]
    conj = r[2] % 3 == 0
    kw = {"conjugate": True} if conj else {}
    new = self.call("replicate_nodes",
                    lambda: self.tn.replicate_nodes(nodes, **kw))
    if len(new) != len(nodes):
      raise Violation("copy", "replicate_nodes length")
    ren = {}
    for i, n in zip(ids, new):
      for e0, e1 in zip(self.lib[i].edges, n.edges):
        x = self.label_of(e0)
        if x not in ren:
          ren[x] = self.new_label()
        if self.label_of(e1) not in (None, ren[x]):
          raise Violation("wiring", "replicated edges are wired differently")
        self.bind(e1, ren[x])
    for i, n in zip(ids, new):
      arr = self.m[i].arr
      self.add_node(n, np.conj(arr) if conj else arr,
                    [ren[x] for x in self.m[i].labels])

  def op_node_copy(self, r):
    if len(self.m) >= self.MAX_NODES:
      raise SkipOp()
    i = self.pick(self.nids(), r[0])
    conj = bool(r[1] % 2)
    new = self.call("Node.copy", lambda: self.lib[i].copy(conjugate=conj))
    ren = {}
    for e0, e1 in zip(self.lib[i].edges, new.edges):
      x = self.label_of(e0)
      if x not in ren:
        ren[x] = self.new_label()
        self.bind(e1, ren[x])
    mn = self.m[i]
    self.add_node(new, np.conj(mn.arr) if conj else mn.arr,
                  [ren[x] for x in mn.labels])

  def op_remove_node(self, r):
    i = self.pick(self.nids(), r[0])
    n = self.lib[i]
    labs = [self.label_of(e) for e in n.edges]
    names = list(n.axis_names)
    if len(set(names)) != len(names):
      raise SkipOp()
    by_name, by_axis = self.call("remove_node",
                                 lambda: self.tn.remove_node(n))
    exp_axes = [a for a, x in enumerate(labs)
                if len(self.owners(x)) == 2 and not self.is_trace(x)]
    if sorted(by_axis) != exp_axes or \
        sorted(by_name) != sorted(names[a] for a in exp_axes):
      raise Violation("remove_node", "returned the wrong axes/names")
    for a in exp_axes:
      x = labs[a]
      other = [j for j in self.owners(x) if j != i][0]
      e = by_axis[a]
      if by_name[names[a]] is not e:
        raise Violation("remove_node", "by name and by axis disagree")
      if e.node1 is not self.lib[other] or not e.is_dangling():
        raise Violation("remove_node", "returned edge is not the dangling "
                        "edge of the partner")
      y1, y2 = self.new_label(), self.new_label()
      mn = self.m[other]
      mn.labels[mn.labels.index(x)] = y1
      self.bind(e, y1)
      mn = self.m[i]
      mn.labels[mn.labels.index(x)] = y2
      self.bind(n.edges[a], y2)

  def alike(self, i, j, axis):
    return True

  def op_redirect(self, r):
    """redirect_edge(edge, new_node, old_node): a bond, a trace or a leg moves
    to the same axes of another node, the old node gets new edges there."""
    x = self.pick(self.labels_all(), r[0])
    e = self.edge_of(x)
    own = self.owners(x)
    old = self.pick(own, r[1])
    axes = [a for a, f in enumerate(self.lib[old].edges) if f is e]
    d = self.dims()[x]
    # the new node needs dangling edges on the same axes, same dimension
    news = []
    for j in self.nids():
      if j in own:
        continue
      ne = self.lib[j].edges
      if all(a < len(ne) and ne[a].is_dangling() and
             int(self.lib[j].shape[a]) == d and self.alike(old, j, a)
             for a in axes):
        news.append(j)
    j = self.pick(news, r[2])
    if len(axes) == 2:
      self._adopt_order(old, x)
    xn = [self.label_of(self.lib[j].edges[a]) for a in axes]
    on, nn = self.lib[old], self.lib[j]
    self.call("redirect_edge", lambda: self.tn.redirect_edge(e, nn, on))
    mo = self.m[old]
    if len(axes) == 2:
      # the old node keeps a trace of its own
      f = on.edges[axes[0]]
      if on.edges[axes[1]] is not f or f is e:
        raise Violation("wiring", "redirect_edge of a trace edge")
      self.ctx.probe("redirected trace")
    y = self.new_label()
    mo.labels = [y if z == x else z for z in mo.labels]
    self.bind(on.edges[axes[0]], y)
    mj = self.m[j]
    mj.labels = [x if z in xn else z for z in mj.labels]

  def op_topology(self, r):
    """from_topology("ab,bc", tensors)"""
    k = 1 + r[0] % 3
    if len(self.m) + k > self.MAX_NODES:
      raise SkipOp()
    rnd = core.prng("topology", r[1])
    words = [[] for _ in range(k)]
    dims = {}
    for c in rnd.sample("abcxyzABC", 5):
      dims[c] = rnd.choice([1, 2, 2, 3])
      for w in rnd.sample(words, min(k, rnd.choice([1, 2, 2]))):
        w.append(c)
    for w in words:
      rnd.shuffle(w)
      del w[4:]
    arrs = [self.rand_array([dims[c] for c in w]) for w in words]
    text = ",".join("".join(w) for w in words)
    given = [a.copy() for a in arrs]
    bad = r[2] % 8
    if bad < 4:
      if bad == 0:
        given.append(given[0])
      elif bad == 1:
        given[r[3] % k] = given[r[3] % k][..., None]
      elif bad == 2:
        both = [c for c in dims if sum(c in w for w in words) == 2]
        t = [i for i, w in enumerate(words) if both and both[0] in w]
        if not t:
          raise SkipOp()
        p = words[t[0]].index(both[0])
        given[t[0]] = np.repeat(arrs[t[0]], 2, axis=p)
      else:
        c = self.pick(sorted({c for w in words for c in w}), r[3])
        text += ",%s,%s" % (c, c)
        given += [np.ones(dims[c]), np.ones(dims[c])]
      self.ctx.op("from_topology refused")
      try:
        self.tn.from_topology(text, given, backend=self.backend)
      except ValueError:
        return
      raise Violation("not-rejected:topology", "%s %s" % (
          text, [a.shape for a in given]))
    nodes = self.call("from_topology", lambda: self.tn.from_topology(
        text, given, backend=self.backend))
    if len(nodes) != k or [list(n.axis_names) for n in nodes] != words:
      raise Violation("names", "from_topology %s" % [
          n.axis_names for n in nodes])
    labs = {}
    for n, w, a in zip(nodes, words, arrs):
      for e, c in zip(n.edges, w):
        if c not in labs:
          labs[c] = self.new_label()
        self.bind(e, labs[c])
      self.add_node(n, a, [labs[c] for c in w])

  def component(self, i):
    seen = {i}
    todo = [i]
    while todo:
      a = todo.pop()
      for b in self.nids():
        if b not in seen and set(self.m[a].labels) & set(self.m[b].labels):
          seen.add(b)
          todo.append(b)
    return sorted(seen)

  def op_reduced_density(self, r):
    i = self.pick(self.nids(), r[0])
    comp = self.component(i)
    if len(self.m) + len(comp) > self.MAX_NODES + 2:
      raise SkipOp()
    dang = sorted({x for j in comp for x in self.m[j].labels
                   if len(self.owners(x)) == 1})
    if not dang:
      raise SkipOp()
    traced = core.prng(r[1]).sample(dang, 1 + r[2] % len(dang))
    # every component touched is copied; all traced edges are in one component
    edges = [self.edge_of(x) for x in traced]
    nd, ed = self.call("reduced_density",
                       lambda: self.tn.reduced_density(edges))
    ren = {}
    for x in traced:
      z = self.new_label()
      ren[x] = z
    for j in comp:
      for x in self.m[j].labels:
        if x not in ren:
          ren[x] = self.new_label()
    inv = {}
    for j in comp:
      for e in self.lib[j].edges:
        inv[id(e)] = e
    new_nodes = [(nd[self.lib[j]], np.conj(self.m[j].arr),
                  [ren[x] for x in self.m[j].labels]) for j in comp]
    for x, e in zip(traced, edges):
      if e not in ed:
        raise Violation("reduced_density", "edge map misses a traced edge")
      self.bind(ed[e], ren[x])
    # bind edges of the copies through the edge map
    for j in comp:
      for e in self.lib[j].edges:
        x = self.label_of(e)
        if x is not None and x in ren and x not in traced:
          if e not in ed:
            raise Violation("reduced_density", "edge map misses an edge")
          self.bind(ed[e], ren[x])
    for j in comp:
      self.m[j].labels = [ren[x] if x in traced else x
                          for x in self.m[j].labels]
    for n, arr, labs in new_nodes:
      self.add_node(n, arr, labs)

  def op_contract_copy_node(self, r):
    cands = []
    for i in self.nids():
      if not self.is_copy_node(i):
        continue
      labs = self.m[i].labels
      if any(len(self.owners(x)) == 1 for x in labs):
        continue
      if all(self.is_trace(x) for x in labs):
        continue
      cands.append(i)
    i = self.pick(cands, r[0])
    labs = self.m[i].labels
    partners = sorted({j for x in labs for j in self.owners(x) if j != i})
    ids = [i] + partners
    # edges between partners stay (they become traces of the result)
    contracted = set(labs)
    if not self.size_ok(ids, contracted):
      raise SkipOp()
    if sum(len(self.m[j].labels) for j in ids) > 26:
      raise SkipOp()
    n = self.lib[i]
    out = [x for j in partners for x in self.m[j].labels
           if x not in contracted]
    cnt = {x: out.count(x) for x in out}
    if any(v == 2 for v in cnt.values()):
      # keep partner-partner edges as traces
      pass
    node = self.call("contract_copy_node",
                     lambda: self.tn.contract_copy_node(n))
    self.finish_contract(ids, node, contracted)
    # the partners keep stale wiring but not stale values
    self.consumed = []

  CONTRACTORS = ("greedy", "optimal", "branch", "auto", "custom", "path",
                 "branch1")

  def op_contract_all(self, r):
    """Contract a connected set of nodes with one of the contractors."""
    tn = self.tn
    con = tn.contractors
    i = self.pick(self.nids(), r[0])
    comp = self.component(i)
    if r[1] % 3 == 0 and len(comp) > 1:
      # a connected part of the component
      part = [i]
      rnd = core.prng(r[1])
      want = 1 + r[1] // 3 % len(comp)
      while len(part) < want:
        nb = sorted({j for a in part for x in self.m[a].labels
                     for j in self.owners(x)} - set(part))
        if not nb:
          break
        part.append(rnd.choice(nb))
      ids = sorted(part)
    elif r[1] % 7 == 1:
      # several components (joined by outer products)
      ids = sorted(set(comp) | set(self.subset(r[4], 2)))
      ids = sorted({j for a in ids for j in self.component(a)})
    else:
      ids = comp
    own = {}
    for a in ids:
      for x in self.m[a].labels:
        own[x] = own.get(x, 0) + 1
    inner = {x for x in own if own[x] == 2}
    out = sorted(x for x in own if own[x] == 1)
    if not self.size_ok(ids, inner) or len(out) > 12:
      raise SkipOp()
    core.prng(r[2]).shuffle(out)
    kind = self.CONTRACTORS[r[3] % len(self.CONTRACTORS)]
    if kind == "custom":
      kind = ("custom_dp", "custom_rand")[r[3] // 7 % 2]
    for a in ids:
      comp_a = self.component(a)
      if set(comp_a) <= set(ids) and any(self.m[b].labels for b in comp_a) \
          and not any(x in out for b in comp_a for x in self.m[b].labels):
        # a part without open legs becomes a scalar, which no edge leads to:
        # a later failure loses it by construction
        self.cur_fault = None
    nodes = [self.lib[a] for a in ids]
    core.prng(r[4]).shuffle(nodes)
    form = r[4] % 4
    cont = nodes
    if kind != "path":
      cont = {0: list, 1: set, 2: tuple, 3: iter}[form](nodes)
    kw = {}
    ignore = r[2] % 5 == 0
    if ignore:
      kw["ignore_edge_order"] = True
    elif len(out) > 1 or r[2] % 3:
      kw["output_edge_order"] = [self.edge_of(x) for x in out]
    name = "contractor." + kind
    limit = None
    if r[3] // 16 % 5 == 0 and kind != "custom_rand" and not any(
        self.m[a].labels.count(x) == 2 for a in ids for x in self.m[a].labels):
      # with or without success, nothing but the order may depend on it
      limit = (1, 3, 8, 20, 60, 10**6)[r[3] // 80 % 6]
      kw["memory_limit"] = limit
    if kind == "path":
      ignore = False
      if not self.path_ok(ids, inner):
        raise SkipOp()
      alg = ("optimal", "branch", "greedy", "auto")[r[4] // 4 % 4]
      order = [self.edge_of(x) for x in out]
      keep = list(nodes)

      def fn():
        path = con.path_solver(alg, nodes, memory_limit=limit)
        return con.contract_path(path, nodes, order)
    elif kind == "branch1":
      fn = lambda: con.branch(cont, nbranch=1 + r[4] % 2, **kw)
    elif kind == "custom_dp":
      import opt_einsum
      fn = lambda: con.custom(cont, opt_einsum.paths.greedy, **kw)
    elif kind == "custom_rand":
      fn = lambda: con.custom(cont, self.random_path(r[4]), **kw)
    else:
      fn = lambda: getattr(con, kind)(cont, **kw)
    try:
      node = self.call(name, fn)
    except (ValueError, RuntimeError) as e:
      if limit is None or "memory_limit" not in str(e):
        raise
      self.ctx.probe("refused memory_limit")
      return
    if kind == "path" and (len(nodes) != len(keep) or
                           any(x is not y for x, y in zip(nodes, keep))):
      raise Violation("caller-list-changed", "contract_path changed the "
                      "caller's list of nodes")
    self.ctx.probe("contracted-%d" % min(len(ids), 6))
    self.finish_contract(ids, node, inner, None, None if ignore else out)
    self.consumed = []

  def path_ok(self, ids, inner):
    return True

  @staticmethod
  def random_path(seed):
    """A user-written path optimizer: any order is a valid order."""
    def optimizer(inputs, output, size_dict, memory_limit=None):
      del output, size_dict, memory_limit
      rnd = core.prng("path", seed)
      n = len(inputs)
      path = []
      while n > 1:
        a, b = rnd.sample(range(n), 2)
        path.append((a, b))
        n -= 1
      return path
    return optimizer

  def op_bucket(self, r):
    """bucket(): contract copy nodes one after the other."""
    i = self.pick(self.nids(), r[0])
    comp = self.component(i)
    order = []
    for j in comp:
      labs = self.m[j].labels
      if not self.is_copy_node(j) or any(len(self.owners(x)) == 1
                                         for x in labs):
        continue
      if any(self.is_trace(x) for x in labs):
        continue
      # not next to another copy node of the order
      if any(set(labs) & set(self.m[k].labels) for k in order):
        continue
      order.append(j)
    if not order:
      raise SkipOp()
    core.prng(r[1]).shuffle(order)
    inner = {x for j in order for x in self.m[j].labels}
    if not self.size_ok(comp, inner):
      raise SkipOp()
    if sum(len(self.m[j].labels) for j in comp) > 16:
      raise SkipOp()
    # merged groups
    group = {j: j for j in comp}

    def find(a):
      while group[a] != a:
        a = group[a]
      return a

    for j in order:
      for x in self.m[j].labels:
        for k in self.owners(x):
          group[find(k)] = find(j)
    nodes = [self.lib[j] for j in comp]
    arg = set(nodes) if r[2] % 2 else nodes
    res = self.call("bucket", lambda: self.tn.contractors.bucket(
        arg, [self.lib[j] for j in order]))
    res = list(res)
    groups = {}
    for j in comp:
      groups.setdefault(find(j), []).append(j)
    if len(res) != len(groups):
      raise Violation("bucket", "%d nodes left, expected %d" % (
          len(res), len(groups)))
    kept = {id(self.lib[j]) for g in groups.values() if len(g) == 1
            for j in g}
    for root, g in sorted(groups.items()):
      if len(g) == 1:
        if all(n is not self.lib[g[0]] for n in res):
          raise Violation("bucket", "an untouched node is missing")
        continue
      free = {x for j in g for x in self.m[j].labels if x not in inner}
      new = [n for n in res if id(n) not in kept and
             {self.label_of(e) for e in n.edges} == free]
      if not new:
        raise Violation("bucket", "no node holds the edges of a bucket")
      kept.add(id(new[0]))
      self.finish_contract(g, new[0], inner)
    self.consumed = []

  def op_arith(self, r):
    if len(self.m) >= self.MAX_NODES:
      raise SkipOp()
    i = self.pick(self.nids(), r[0])
    if self.is_copy_node(i):
      raise SkipOp()
    n = self.lib[i]
    arr = self.to_np(n.tensor)
    kind = ("+", "-", "*", "/")[r[1] % 4]
    if r[2] % 2:
      other, oarr = 2.5, 2.5
    else:
      js = [j for j in self.nids() if not self.is_copy_node(j) and
            tuple(self.lib[j].shape) == tuple(n.shape)]
      j = self.pick(js, r[3])
      other, oarr = self.lib[j], self.to_np(self.lib[j].tensor)
    if kind == "/" and np.any(np.abs(oarr) < 1e-2):
      raise SkipOp()
    f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
         "*": lambda a, b: a * b, "/": lambda a, b: a / b}[kind]
    exp = f(arr, oarr)
    if exp.size and np.max(np.abs(exp)) > 1e6:
      raise SkipOp()
    new = self.call("arith" + kind, lambda: f(n, other))
    labels = []
    for e in new.edges:
      x = self.new_label()
      self.bind(e, x)
      labels.append(x)
    self.add_node(new, np.array(exp), labels)

  def op_linalg(self, r):
    """New nodes and numbers from the tensors of nodes, whatever is wired."""
    from tensornetwork.linalg import node_linalg
    kind = ("conj", "transpose", "norm", "kron")[r[1] % 4]
    if kind == "kron":
      return self.linalg_kron(node_linalg, r)
    if len(self.m) >= self.MAX_NODES:
      raise SkipOp()
    i = self.pick([i for i in self.nids() if not self.is_copy_node(i)], r[0])
    n = self.lib[i]
    arr = self.to_np(n.tensor)
    if kind == "norm":
      got = self.call("node norm", lambda: node_linalg.norm(n))
      want = np.linalg.norm(arr.ravel())
      if not abs(self.to_np(got) - want) <= 1e-9 * max(1.0, want):
        raise Violation("wrong-value:node-norm", "%s instead of %s" % (
            got, want))
      return
    kw = {}
    if r[2] % 3 == 0:
      kw["name"] = "la"
    perm = list(range(arr.ndim))
    if kind == "transpose":
      core.prng(r[3]).shuffle(perm)
    names = [n.axis_names[p] for p in perm]
    if r[2] % 2:
      kw["axis_names"] = ["t%d" % k for k in range(arr.ndim)]
      names = kw["axis_names"] or names
    if kind == "conj":
      exp = np.conj(arr)
      new = self.call("node conj", lambda: node_linalg.conj(n, **kw))
    else:
      exp = arr.transpose(perm)
      arg = [n.axis_names[p] if (r[4] >> k) % 2 else p
             for k, p in enumerate(perm)]
      if len(set(n.axis_names)) != arr.ndim:
        arg = perm
      new = self.call("node transpose",
                      lambda: node_linalg.transpose(n, arg, **kw))
    if list(new.axis_names) != list(names):
      raise Violation("axis-names", "%s: %s, expected %s" % (
          kind, new.axis_names, names))
    if "name" in kw and new.name != kw["name"]:
      raise Violation("names", kind + " lost the requested name")
    labels = []
    for e in new.edges:
      x = self.new_label()
      self.bind(e, x)
      labels.append(x)
    self.add_node(new, np.array(exp), labels)

  def linalg_kron(self, node_linalg, r):
    """The operator of several operators; one of odd order is refused."""
    ids = [i for i in self.nids()
           if all(len(self.owners(x)) == 1 for x in self.m[i].labels)]
    even = [i for i in ids if len(self.m[i].labels) % 2 == 0]
    odd = [i for i in ids if len(self.m[i].labels) % 2]
    if odd and even and r[2] % 4 == 0:
      pair = [self.lib[self.pick(even, r[0])], self.lib[self.pick(odd, r[3])]]
      if r[4] % 2:
        pair.reverse()
      self.ctx.op("kron refused")
      try:
        node_linalg.kron(pair)
      except ValueError:
        return
      raise Violation("not-rejected:kron", "an operator of odd order")
    if len(even) < 2:
      raise SkipOp()
    ids = core.prng(r[0]).sample(even, min(len(even), 2 + r[3] % 2))
    if not self.size_ok(ids, set()):
      raise SkipOp()
    legs = [[self.label_of(e) for e in self.lib[i].edges] for i in ids]
    out = [x for l in legs for x in l[:len(l) // 2]] + [
        x for l in legs for x in l[len(l) // 2:]]
    if len(out) > 10:
      raise SkipOp()
    nodes = [self.lib[i] for i in ids]
    node = self.call("kron", lambda: node_linalg.kron(nodes))
    self.finish_contract(ids, node, set(), None, out)

  def op_queries(self, r):
    """Read-only views of the graph agree with the model."""
    tn = self.tn
    ids = self.subset(r[0], r[1])
    nodes = [self.lib[i] for i in ids]
    self.ctx.op("queries")

    def labs(es):
      return sorted(self.label_of(e) for e in es)

    mine = {x for i in ids for x in self.m[i].labels}
    if labs(tn.get_all_edges(nodes)) != sorted(mine):
      raise Violation("query", "get_all_edges")
    dang = sorted(x for x in mine if len(self.owners(x)) == 1)
    if labs(tn.get_all_dangling(nodes)) != dang:
      raise Violation("query", "get_all_dangling")
    if labs(tn.get_all_nondangling(nodes)) != sorted(mine - set(dang)):
      raise Violation("query", "get_all_nondangling")
    sub = sorted(x for x in mine if not (
        len(self.owners(x)) == 2 and set(self.owners(x)) <= set(ids)))
    if labs(tn.get_subgraph_dangling(nodes)) != sub:
      raise Violation("query", "get_subgraph_dangling")
    i = ids[0]
    reach = {self.lib[j] for j in self.component(i)}
    if set(tn.reachable(self.lib[i])) != reach:
      raise Violation("query", "reachable")
    nb = {self.lib[j] for j in self.nids() if j != i and
          set(self.m[i].labels) & set(self.m[j].labels)}
    got = tn.get_neighbors(self.lib[i])
    if set(got) != nb or len(got) != len(nb):
      raise Violation("query", "get_neighbors")
    if len(ids) >= 2:
      sh = sorted(set(self.m[ids[0]].labels) & set(self.m[ids[1]].labels))
      if labs(tn.get_shared_edges(nodes[0], nodes[1])) != sh:
        raise Violation("query", "get_shared_edges")
    tn.check_correct(nodes, check_connections=False)
    connected = set(ids) <= set(self.component(ids[0]))
    try:
      tn.check_connected(nodes)
      ok = True
    except ValueError:
      ok = False
    if ok != connected:
      raise Violation("query", "check_connected says %s" % ok)
    try:
      tn.check_correct(nodes)
      ok = True
    except ValueError:
      ok = False
    if ok != connected:
      raise Violation("query", "check_correct says %s" % ok)

  def op_node_queries(self, r):
    """Read-only views of one node and of one edge agree with the model."""
    tn = self.tn
    i = self.pick(self.nids(), r[0])
    n, labels = self.lib[i], self.m[i].labels
    self.ctx.op("node_queries")

    def need(ok, what):
      if not ok:
        raise Violation("query", what)

    labs = [self.label_of(e) for e in n.edges]
    dang = [x for x in labs if len(self.owners(x)) == 1]
    rank = len(labels)
    need(n.get_rank() == rank == len(n.shape), "get_rank")
    need(np.dtype(getattr(n.dtype, "as_numpy_dtype", n.dtype)) ==
         self.to_np(n.tensor).dtype, "dtype")
    need([self.label_of(e) for e in n.get_all_edges()] == labs,
         "Node.get_all_edges")
    need(n.get_all_edges() is not n.edges, "Node.get_all_edges is no copy")
    need([self.label_of(e) for e in n.get_all_dangling()] == dang,
         "Node.get_all_dangling")
    need({self.label_of(e) for e in n.get_all_nondangling()} ==
         set(labs) - set(dang), "Node.get_all_nondangling")
    need(n.has_dangling_edge() is bool(dang), "has_dangling_edge")
    need(n.has_nondangling_edge() is (len(dang) < rank),
         "has_nondangling_edge")
    lo, hi = r[1] % (rank + 1), r[2] % (rank + 2)
    need([self.label_of(e) for e in n[lo:hi]] == labs[lo:hi], "node[a:b]")
    need(n.get_tensor() is n.tensor or np.array_equal(
        self.to_np(n.get_tensor()), self.to_np(n.tensor)), "get_tensor")
    need(isinstance(str(n), str) and isinstance(repr(n), str), "str(node)")
    need(not n.is_disabled, "is_disabled")
    names = list(n.axis_names)
    for a in range(rank):
      need(int(n.get_dimension(a)) == int(n.shape[a]), "get_dimension")
      need(n.get_edge(a) is n.edges[a] and n[a] is n.edges[a], "get_edge")
      need(n.get_axis_number(a) == a, "get_axis_number")
      if names.count(names[a]) == 1:
        need(n.get_axis_number(names[a]) == a, "get_axis_number(name)")
        need(int(n.get_dimension(names[a])) == int(n.shape[a]),
             "get_dimension(name)")
        need(n.get_edge(names[a]) is n.edges[a], "get_edge(name)")
    if rank:
      a = r[3] % rank
      e, x = n.edges[a], labs[a]
      own = self.owners(x)
      trace, free = self.is_trace(x), len(own) == 1
      need(e.is_dangling() is free, "is_dangling")
      need(e.is_trace() is trace, "is_trace")
      need(e.is_being_used() is True, "is_being_used")
      need(isinstance(str(e), str) and isinstance(repr(e), str), "str(edge)")
      ends = e.get_nodes()
      exp = [self.lib[j] for j in own] + [None] * (2 - len(own))
      need(len(ends) == 2 and sorted(map(id, ends)) == sorted(map(id, exp)),
           "Edge.get_nodes")
      need(tn.get_all_nodes([e]) == {self.lib[j] for j in own},
           "get_all_nodes")
      if not free:
        par = {y for y in labs if sorted(self.owners(y)) == sorted(own)}
        need({self.label_of(f) for f in tn.get_parallel_edges(e)} == par,
             "get_parallel_edges")
    if self.is_copy_node(i) and not dang:
      exp = {}
      for a, (e, x) in enumerate(zip(n.edges, labs)):
        if self.is_trace(x):
          continue
        j = [k for k in self.owners(x) if k != i][0]
        b = [c for c, f in enumerate(self.lib[j].edges) if f is e][0]
        exp.setdefault(self.lib[j], set()).add(b)
      need(n.get_partners() == exp, "get_partners")
    comp = [self.lib[j] for j in self.component(i)]
    es = [e for m in comp for e in m.edges]
    tn.check_correct(comp)
    tn.check_correct(set(comp), True)
    if es:
      e = es[r[4] % len(es)]
      need(set(tn.reachable(e)) == set(comp), "reachable(edge)")
      need(set(tn.reachable([e, n])) == set(comp), "reachable(list)")
      need(tn.get_all_nodes(es) == set(comp), "get_all_nodes(all)")

  def op_draw(self, r):
    """The drawing has the shape of the network."""
    try:
      import graphviz
    except ImportError as e:
      raise SkipOp() from e
    from tensornetwork.visualization.graphviz import to_graphviz
    ids = set()
    for i in self.subset(r[0], r[1]):
      ids |= set(self.component(i))
    ids = sorted(ids)
    nodes = [self.lib[i] for i in ids]
    allnames = bool(r[2] % 2)
    self.ctx.op("draw")

    class Canvas(graphviz.Graph):
      """Records what is drawn."""

      def __init__(self):
        super().__init__("G")
        self.v, self.e = [], []

      def node(self, name, label=None, _attributes=None, **attrs):
        style = dict(_attributes or {}, **attrs).get("style")
        self.v.append((name, label, style == "invis"))
        super().node(name, label, _attributes, **attrs)

      def edge(self, tail_name, head_name, label=None, _attributes=None,
               **attrs):
        self.e.append((tail_name, head_name, label))
        super().edge(tail_name, head_name, label, _attributes, **attrs)

    canvas = Canvas()
    given = set(nodes) if r[3] % 3 == 0 else nodes
    res = to_graphviz(given, canvas, include_all_names=allnames)
    if res is not canvas:
      raise Violation("drawing", "not drawn on the given graph")
    if not isinstance(to_graphviz(given), graphviz.Graph):
      raise Violation("drawing", "no graph")
    if len({v[0] for v in canvas.v}) != len(canvas.v):
      raise Violation("drawing", "a vertex is drawn twice")

    def text(name):
      return "" if name.startswith("__") and not allnames else name

    deg = {v[0]: [] for v in canvas.v}
    label = {v[0]: (None if v[2] else v[1] or "") for v in canvas.v}
    for a, b, l in canvas.e:
      if a not in deg or b not in deg:
        raise Violation("drawing", "an edge to a vertex that is not drawn")
      deg[a].append((l or "", label[b]))
      deg[b].append((l or "", label[a]))
    got = sorted([repr((label[v], sorted(map(repr, d))))
                  for v, d in deg.items()])
    want = []
    for n in nodes:
      ends = []
      for e in n.edges:
        if e.is_dangling():
          ends.append((text(e.name), None))
          want.append(repr((None, [repr((text(e.name), text(n.name)))])))
        else:
          o = e.node2 if e.node1 is n else e.node1
          ends.append((text(e.name), text(o.name)))
      want.append(repr((text(n.name), sorted(map(repr, ends)))))
    if got != sorted(want):
      raise Violation("drawing", "drawn %s, network %s" % (got, sorted(want)))

  def op_names(self, r):
    """Renaming shows where it was done and nowhere else."""
    i = self.pick(self.nids(), r[0])
    n = self.lib[i]
    self.ctx.op("names")
    before = [(m, m.name, list(m.axis_names), [e.name for e in m.edges])
              for _, m in sorted(self.lib.items())]
    kind = r[1] % 5
    tag = "r%d_%d" % (len(self.lib), r[2])
    rank = len(n.edges)
    edge = None
    if kind == 0:
      n.set_name(tag)
    elif kind == 1:
      n.name = tag
    elif kind in (2, 3):
      names = ["%s_%d" % (tag, a) for a in range(rank)]
      if kind == 2:
        n.add_axis_names(names)
      else:
        n.axis_names = list(names)
      if list(n.axis_names) != names:
        raise Violation("names", "axis names %s, asked for %s" % (
            n.axis_names, names))
      mine = names[:]
      names[:] = ["spoilt"] * rank
      if kind == 2 and list(n.axis_names) != mine:
        raise Violation("names", "axis names follow the caller's list")
    else:
      if not rank:
        raise SkipOp()
      edge = n.edges[r[3] % rank]
      if r[4] % 2:
        edge.set_name(tag)
      else:
        edge.name = tag
    if kind < 2 and n.name != tag:
      raise Violation("names", "set_name")
    if kind == 4 and edge.name != tag:
      raise Violation("names", "Edge.set_name")
    for m, nm, ax, en in before:
      if m is not n or kind > 1:
        if m.name != nm:
          raise Violation("names", "another node's name changed")
      if (m is not n or kind not in (2, 3)) and list(m.axis_names) != ax:
        raise Violation("names", "axis names of another node changed")
      if [e.name for e in m.edges if e is not edge] != [
          x for e, x in zip(m.edges, en) if e is not edge]:
        raise Violation("names", "another edge's name changed")

  def op_fresh_edges(self, r):
    """A node without bonds gets new dangling edges, named as asked."""
    ids = [i for i in self.nids()
           if all(len(self.owners(x)) == 1 for x in self.m[i].labels)]
    i = self.pick(ids, r[0])
    n = self.lib[i]
    old = list(n.edges)
    labs = [self.label_of(e) for e in old]
    names = list(n.axis_names)
    arg = ["f%d" % a for a in range(len(old))] if r[1] % 2 else None
    self.call("fresh_edges", lambda: n.fresh_edges(arg))
    if any(e is f for e in n.edges for f in old):
      raise Violation("identity", "fresh_edges kept an edge")
    if [e.name for e in n.edges] != (arg if arg else names):
      raise Violation("names", "fresh_edges names %s" % [
          e.name for e in n.edges])
    ren = {}
    for e, x in zip(n.edges, labs):
      ren[x] = self.new_label()
      self.bind(e, ren[x])
    mn = self.m[i]
    mn.labels = [ren[x] for x in mn.labels]

  def op_set_tensor(self, r):
    i = self.pick(self.nids(), r[0])
    if self.is_copy_node(i):
      raise SkipOp()
    n = self.lib[i]
    fac = (2.0, -1.0, 0.5)[r[1] % 3]
    new = n.tensor * fac
    self.ctx.op("set_tensor")
    if r[2] % 2:
      n.set_tensor(new)
    else:
      n.tensor = new
    self.m[i].arr = self.m[i].arr * fac

  def op_switch_backend(self, r):
    """To the backend they have: nothing changes."""
    if self.backend != "numpy":
      raise SkipOp()
    nodes = [self.lib[i] for i in self.subset(r[0], r[1])
             if not self.is_copy_node(i)]
    self.call("switch_backend",
              lambda: self.tn.switch_backend(nodes, "numpy"))
    if any(n.backend.name != "numpy" for n in nodes):
      raise Violation("backend", "switch_backend")

  BAD = ("connect-dims", "connect-bond", "contract-dangling", "no-shared",
         "split-dims", "connect-self", "perm-short", "perm-twice",
         "edges-missing", "edges-foreign", "edges-trace", "names-twice",
         "names-short", "names-type", "axis-unknown", "dim-range",
         "flatten-mixed", "flatten-empty", "slice-zero", "slice-long",
         "slice-neg", "cut-dangling", "or-other", "name-type",
         "edge-name-type", "order-foreign", "parallel-dangling",
         "final-bonds", "out-shared", "out-foreign", "matmul-type",
         "add-edge-taken", "add-edge-range", "update-axis", "redirect-other",
         "density-bond", "partners-dangling", "node-name", "node-axis-names",
         "reach-nothing", "contractor-order", "contractor-empty",
         "self-no-trace", "symmetric-backend", "arith-type",
         "edge-consumed", "names-setter-short", "reach-type", "out-missing",
         "final-order", "split-node-edges", "out-trace", "contract-names",
         "between-names", "outer-names", "node-none")

  def op_bad_args(self, r):
    """Rejected calls leave the network as it was."""
    kind = self.BAD[r[0] % len(self.BAD)]
    self.ctx.op("rejected")
    fn = self.bad_call(kind, r)
    names = [(n, n.name, list(n.axis_names), [e.name for e in n.edges],
              [id(e) for e in n.edges])
             for _, n in sorted(self.lib.items())]
    try:
      fn()
    except Exception as e:  # pylint: disable=broad-except
      if not is_refusal(e):
        raise
      self.ctx.log("rejected", kind, type(e).__name__)
    else:
      raise Violation("not-rejected:" + kind,
                      "an invalid call (%s) was accepted" % kind)
    self.ctx.probe("rejected " + kind)
    for n, nm, ax, en, es in names:
      if n.name != nm or list(n.axis_names) != ax:
        raise Violation("rejected-call-renamed:" + kind, "%s -> %s" % (
            (nm, ax), (n.name, n.axis_names)))
      if [id(e) for e in n.edges] != es:
        raise Violation("rejected-call-rewired:" + kind,
                        "a node holds other edges than before")
      if [e.name for e in n.edges] != en:
        raise Violation("rejected-call-renamed:" + kind, "edges")

  def bad_call(self, kind, r):
    tn = self.tn
    dims = self.dims()
    any_label = lambda: self.pick(self.labels_all(), r[1])
    any_node = lambda: self.pick(self.nids(), r[1])
    dang = lambda k=1: self.pick(self.dangling(), r[k])
    edge = self.edge_of

    def no_trace(rank=1):
      return self.pick([i for i in self.nids() if
                        len(self.m[i].labels) >= rank and not any(
                            self.is_trace(x) for x in self.m[i].labels)], r[1])

    def foreign(i):
      return edge(self.pick([x for x in self.labels_all()
                             if x not in self.m[i].labels], r[2]))

    if kind == "connect-dims":
      x = dang()
      y = self.pick([y for y in self.dangling() if dims[y] != dims[x]], r[2])
      a, b = edge(x), edge(y)
      return lambda: tn.connect(a, b)
    if kind == "connect-bond":
      a, b = edge(self.pick(self.bonds(), r[1])), edge(dang(2))
      if r[3] % 2:
        a, b = b, a
      return lambda: a ^ b
    if kind == "contract-dangling":
      a = edge(dang())
      return lambda: tn.contract(a)
    if kind in ("no-shared", "final-bonds", "out-missing"):
      i = any_node()
      if kind == "final-bonds":
        i = self.pick([i for i in self.nids() if any(
            len(self.owners(x)) == 2 for x in self.m[i].labels)], r[1])
        j = self.pick([j for j in self.nids() if j != i], r[2])
        order = [edge(x) for k in (i, j) for x in self.m[k].labels
                 if len(self.owners(x)) == 1]
        a, b = self.lib[i], self.lib[j]
        if r[3] % 2:
          a, b = b, a
        return lambda: tn.outer_product_final_nodes([a, b], order)
      js = [j for j in self.nids() if j != i and bool(
          set(self.m[i].labels) & set(self.m[j].labels)) ==
            (kind == "out-missing")]
      j = self.pick(js, r[2])
      a, b = self.lib[i], self.lib[j]
      if kind == "no-shared":
        return lambda: tn.contract_between(a, b)
      shared = set(self.m[i].labels) & set(self.m[j].labels)
      out = [x for k in (i, j) for x in self.m[k].labels if x not in shared]
      if len(set(out)) != len(out) or len(out) < 2:
        raise SkipOp()
      order = [edge(x) for x in out[1:]]
      if r[3] % 3 == 0:
        order.append(order[0])
      return lambda: tn.contract_between(a, b, output_edge_order=order)
    if kind == "split-dims":
      x = any_label()
      a, d = edge(x), dims[x]
      return lambda: tn.split_edge(a, (d, 2))
    if kind == "connect-self":
      a = edge(dang())
      return lambda: tn.connect(a, a)
    if kind in ("perm-short", "perm-twice"):
      i = self.pick([i for i in self.nids() if len(self.m[i].labels)], r[1])
      n, rank = self.lib[i], len(self.m[i].labels)
      perm = list(range(rank))
      core.prng(r[2]).shuffle(perm)
      if kind == "perm-short":
        perm = perm[1:]
      elif rank > 1 and r[3] % 2:
        perm[0] = perm[1]
      else:
        perm = perm + perm[:1]
      return lambda: n.reorder_axes(perm)
    if kind in ("edges-missing", "edges-foreign"):
      i = no_trace(1)
      n = self.lib[i]
      order = list(n.edges)
      core.prng(r[3]).shuffle(order)
      if kind == "edges-missing":
        order = order[1:]
      else:
        order[0] = foreign(i)
        if r[3] % 2:
          order.append(n.edges[0])
      return lambda: n.reorder_edges(order)
    if kind == "edges-trace":
      i = self.pick([i for i in self.nids() if any(
          self.is_trace(x) for x in self.m[i].labels)], r[1])
      n = self.lib[i]
      order = list(dict.fromkeys(n.edges)) if r[2] % 2 else list(n.edges)
      return lambda: n.reorder_edges(order)
    if kind in ("names-twice", "names-short", "names-type",
                "names-setter-short"):
      i = self.pick([i for i in self.nids()
                     if len(self.m[i].labels) > (kind == "names-twice")],
                    r[1])
      n, rank = self.lib[i], len(self.m[i].labels)
      names = ["w%d" % a for a in range(rank)]
      if kind == "names-twice":
        names[0] = names[-1]
      elif kind == "names-type":
        names[r[2] % rank] = 3
      elif r[2] % 2:
        names.append("more")
      else:
        names.pop()
      if kind == "names-setter-short" or (kind == "names-type" and r[3] % 2):
        return lambda: setattr(n, "axis_names", names)
      return lambda: n.add_axis_names(names)
    if kind == "axis-unknown":
      n = self.lib[any_node()]
      f = (n.get_axis_number, n.get_edge, n.get_dimension,
           n.__getitem__)[r[2] % 4]
      return lambda: f("no such axis")
    if kind == "dim-range":
      n = self.lib[any_node()]
      rank = len(n.edges)
      a = (rank, rank + 1, -1, -rank - 1)[r[2] % 4]
      return lambda: n.get_dimension(a)
    if kind == "flatten-mixed":
      x = any_label()
      y = self.pick([y for y in self.labels_all() if
                     sorted(self.owners(y)) != sorted(self.owners(x))], r[2])
      es = [edge(x), edge(y)]
      return lambda: tn.flatten_edges(es)
    if kind == "flatten-empty":
      return lambda: tn.flatten_edges([])
    if kind in ("slice-zero", "slice-long", "slice-neg"):
      x = any_label()
      a, d = edge(x), dims[x]
      if kind == "slice-zero":
        args = (r[2] % d, -(r[3] % 2))
      elif kind == "slice-long":
        args = (1 + r[2] % d, d) if r[3] % 2 else (0, d + 1)
      else:
        args = (-1 - r[2] % 2, 3) if r[3] % 2 else (-d - 1, 1)
      return lambda: tn.slice_edge(a, *args)
    if kind == "cut-dangling":
      a = edge(dang())
      if r[2] % 2:
        return lambda: a | a
      return lambda: tn.disconnect(a)
    if kind == "or-other":
      x = self.pick(self.bonds(), r[1])
      y = self.pick([y for y in self.labels_all() if y != x], r[2])
      a, b = edge(x), edge(y)
      if r[3] % 2:
        a, b = b, a
      return lambda: a | b
    if kind == "name-type":
      n = self.lib[any_node()]
      if r[2] % 2:
        return lambda: n.set_name(5)
      return lambda: setattr(n, "name", 5)
    if kind == "edge-name-type":
      a = edge(any_label())
      if r[2] % 2:
        return lambda: a.set_name(5)
      return lambda: setattr(a, "name", 5)
    if kind == "order-foreign":
      i = no_trace(1)
      n = self.lib[i]
      order = list(n.edges)
      order[r[3] % len(order)] = foreign(i)
      return lambda: n.tensor_from_edge_order(order)
    if kind == "parallel-dangling":
      a = edge(dang())
      return lambda: tn.contract_parallel(a)
    if kind in ("out-shared", "out-foreign"):
      x = self.pick([x for x in self.bonds() if not self.is_trace(x)], r[1])
      i, j = self.owners(x)
      shared = set(self.m[i].labels) & set(self.m[j].labels)
      out = [y for k in (i, j) for y in self.m[k].labels if y not in shared]
      if len(set(out)) != len(out):
        raise SkipOp()
      order = [edge(y) for y in out]
      if kind == "out-shared":
        order.append(edge(x))
      else:
        order.append(edge(self.pick(
            [y for y in self.labels_all() if y not in self.m[i].labels and
             y not in self.m[j].labels], r[2])))
      core.prng(r[3]).shuffle(order)
      a, b = self.lib[i], self.lib[j]
      return lambda: tn.contract_between(a, b, output_edge_order=order)
    if kind == "matmul-type":
      n = self.lib[any_node()]
      return lambda: n @ n.tensor.__class__ if r[2] % 2 else n @ 5
    if kind == "add-edge-taken":
      i = self.pick([i for i in self.nids() if any(
          len(self.owners(x)) == 2 for x in self.m[i].labels)], r[1])
      n = self.lib[i]
      a = self.pick([a for a, e in enumerate(n.edges)
                     if not e.is_dangling()], r[2])
      new = tn.Edge(n, a)
      return lambda: n.add_edge(new, a)
    if kind == "add-edge-range":
      n = self.lib[any_node()]
      rank = len(n.edges)
      a = (rank, rank + 3, -1)[r[2] % 3]
      new = tn.Edge(n, 0)
      return lambda: n.add_edge(new, a, override=bool(r[3] % 2))
    if kind == "update-axis":
      i = self.pick([i for i in self.nids() if self.m[i].labels], r[1])
      n = self.lib[i]
      a = r[2] % len(n.edges)
      e = n.edges[a]
      if r[3] % 2:
        other = self.lib[self.pick([j for j in self.nids() if j not in
                                    self.owners(self.label_of(e))], r[4])]
        return lambda: e.update_axis(a, other, 0, n)
      return lambda: e.update_axis(len(n.edges), n, 0, n)
    if kind == "redirect-other":
      x = any_label()
      js = [j for j in self.nids() if j not in self.owners(x)]
      j = self.pick(js, r[2])
      a, n, m = edge(x), self.lib[self.pick(self.owners(x), r[3])], self.lib[j]
      return lambda: tn.redirect_edge(a, n, m)
    if kind == "density-bond":
      es = [edge(self.pick(self.bonds(), r[1]))]
      if self.dangling() and r[3] % 2:
        es.append(edge(dang(2)))
      return lambda: tn.reduced_density(es)
    if kind == "partners-dangling":
      i = self.pick([i for i in self.nids() if self.is_copy_node(i) and any(
          len(self.owners(x)) == 1 for x in self.m[i].labels)], r[1])
      n = self.lib[i]
      f = (n.get_partners, n.compute_contracted_tensor,
           lambda: tn.contract_copy_node(n))[r[2] % 3]
      return lambda: f()
    if kind == "node-name":
      return lambda: tn.Node(np.ones((2, 2)), name=7, backend=self.backend)
    if kind == "node-axis-names":
      names = (["a"], ["a", "a"], ["a", 1], ["a", "b", "c"])[r[1] % 4]
      return lambda: tn.Node(np.ones((2, 2)), axis_names=names,
                             backend=self.backend)
    if kind == "reach-nothing":
      return lambda: tn.reachable([])
    if kind == "reach-type":
      n = self.lib[any_node()]
      return lambda: tn.reachable([n, 4] if r[2] % 2 else 4)
    if kind == "contractor-order":
      i = any_node()
      comp = self.component(i)
      out = [x for k in comp for x in self.m[k].labels
             if len(self.owners(x)) == 1]
      inner = {x for k in comp for x in self.m[k].labels} - set(out)
      if len(comp) < 2 or len(out) < 2 or not self.size_ok(comp, inner):
        raise SkipOp()
      order = [edge(x) for x in out]
      nodes = [self.lib[k] for k in comp]
      core.prng(r[2]).shuffle(order)
      name = ("greedy", "optimal", "branch", "auto")[r[3] % 4]
      f = getattr(tn.contractors, name)
      v = r[4] % 3
      if v == 0:
        order = order[1:]
      elif v == 1:
        bonds = [e for n in nodes for e in n.edges if not e.is_dangling()]
        order = order + [self.pick(bonds, r[4])]
      else:
        order = None
      return lambda: f(nodes, output_edge_order=order)
    if kind == "contractor-empty":
      return lambda: tn.contractors.auto([])
    if kind == "self-no-trace":
      n = self.lib[no_trace(0)]
      return lambda: tn.contract_between(n, n)
    if kind == "symmetric-backend":
      n = self.lib[any_node()]
      return lambda: tn.switch_backend([n], "symmetric")
    if kind == "arith-type":
      i = self.pick([i for i in self.nids() if not self.is_copy_node(i)], r[1])
      n = self.lib[i]
      v = ("text", None, [1.0])[r[2] % 3]
      f = (lambda: n + v, lambda: n - v, lambda: n * v,
           lambda: n / v)[r[3] % 4]
      return f
    if kind == "edge-consumed":
      # a consumed edge can not be used again
      used = self.dead_edges
      e = self.pick(used, r[1])
      f = (lambda: e.node1, lambda: e.axis1, lambda: e.name,
           lambda: tn.contract(e), lambda: e | e, lambda: tn.split_edge(
               e, (1, 1)), lambda: setattr(e, "name", "q"),
           lambda: tn.slice_edge(e, 0, 1), lambda: e.set_name("q"),
           lambda: e.node2, lambda: e.axis2, lambda: e.dimension)[r[2] % 12]
      return f
    if kind == "final-order":
      ids = [i for i in self.nids() if self.m[i].labels and all(
          len(self.owners(x)) == 1 for x in self.m[i].labels)]
      if len(ids) < 2 or not self.size_ok(ids[:2], set()):
        raise SkipOp()
      nodes = [self.lib[i] for i in ids[:2]]
      order = [edge(x) for i in ids[:2] for x in self.m[i].labels][1:]
      return lambda: tn.outer_product_final_nodes(nodes, order)
    if kind == "split-node-edges":
      i = no_trace(2)
      n = self.lib[i]
      es = list(n.edges)
      core.prng(r[2]).shuffle(es)
      k = 1 + r[3] % (len(es) - 1)
      left, right = es[:k], es[k:]
      if r[4] % 2:
        right = right[1:] + [foreign(i)]
      else:
        right = right[1:]
      f = (tn.split_node, tn.split_node_qr, tn.split_node_rq,
           tn.split_node_full_svd)[r[4] // 2 % 4]
      return lambda: f(n, left, right)
    if kind == "out-trace":
      x = self.pick([x for x in self.bonds() if not self.is_trace(x)], r[1])
      i, j = self.owners(x)
      out = [y for k in (i, j) for y in self.m[k].labels
             if y not in self.m[i].labels or y not in self.m[j].labels]
      if len(set(out)) == len(out):
        raise SkipOp()
      order = [edge(y) for y in (set(out) if r[2] % 2 else out)]
      a, b = self.lib[i], self.lib[j]
      return lambda: tn.contract_between(a, b, output_edge_order=order)
    if kind in ("contract-names", "between-names", "outer-names"):
      i = any_node()
      if kind == "outer-names":
        j = self.pick([j for j in self.nids() if j != i], r[2])
        inner = set()
      else:
        x = self.pick(self.bonds(), r[1])
        i, j = self.owners(x)
        inner = {x}
        if kind == "between-names":
          inner = {y for y in self.m[i].labels if y in self.m[j].labels and
                   (i != j or self.is_trace(y))}
      if not self.size_ok([i, j], inner):
        raise SkipOp()
      rank = sum(y not in inner for k in {i, j} for y in self.m[k].labels)
      names = ["v%d" % a for a in range(rank + 1)]
      if rank > 1 and r[3] % 3:
        names.pop()
        names[0] = names[1] if r[3] % 3 == 1 else 3
      a, b = self.lib[i], self.lib[j]
      if kind == "outer-names":
        return lambda: tn.outer_product(a, b, axis_names=names)
      if kind == "contract-names":
        e = edge(x)
        return lambda: tn.contract(e, axis_names=names)
      return lambda: tn.contract_between(a, b, axis_names=names)
    if kind == "node-none":
      return lambda: tn.Node(None, backend=self.backend)
    raise KeyError(kind)


OPS = [("new", 6), ("newcopy", 2), ("connect", 9), ("disconnect", 2),
       ("contract", 3), ("contract_between", 5), ("contract_parallel", 2),
       ("contract_trace_edges", 2), ("outer", 1), ("outer_final", 1),
       ("reorder_axes", 2), ("reorder_edges", 2),
       ("tensor_from_edge_order", 1), ("flatten", 3), ("flatten_between", 2),
       ("flatten_all", 1), ("split_edge", 3), ("slice_edge", 2),
       ("split_node", 4), ("copy", 3), ("replicate", 1), ("node_copy", 1),
       ("remove_node", 1), ("redirect", 2), ("reduced_density", 2),
       ("contract_copy_node", 3), ("arith", 1), ("linalg", 1.5), ("queries", 2),
       ("bad_args", 2), ("node_queries", 1), ("names", 1),
       ("draw", 0.7),
       ("fresh_edges", 1), ("set_tensor", 1), ("topology", 1), ("switch_backend", 1), ("contract_all", 2), ("bucket", 1),
       ("copy_star", 1.5)]


def gen_ops(rng, n, faults=False, fault_rate=0.25, exclude=(), boost=None,
            always=(), extra=()):
  # swarm style: a random subset of the operations per run
  table = [(o, w) for o, w in OPS if o not in exclude]
  if "newcopy" in exclude:
    table = [(o, w) for o, w in table if o != "copy_star"]
  table += [(o, 1) for o in extra]
  keep = {"new", "connect"} | set(always)
  on = [(o, w) for o, w in table if o in keep or rng.random() < 0.65]
  if boost:
    on = [(o, w * boost.get(o, 1)) for o, w in on]
  total = sum(w for _, w in on)
  ops = []
  for i in range(n):
    x = rng.random() * total
    for o, w in on:
      x -= w
      if x < 0:
        break
    if i < 3:
      o = "new"
    elif i < 6 and rng.random() < 0.7:
      o = "connect"
    op = {"op": o, "r": [rng.randrange(1 << 16) for _ in range(5)]}
    if faults and i > 3 and rng.random() < fault_rate:
      op["fault"] = {"k": 1 + min(rng.randrange(6), rng.randrange(6)),
                     "kind": rng.choice(["oom", "oom", "linalg"])}
    ops.append(op)
  return ops
