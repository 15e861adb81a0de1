"""Network histories on symmetric (block-sparse) tensors.

The same operations and the same dense model as netsim; in addition every edge
carries the charges of its ends, and every tensor is read from its data,
charges, flows and order by definition (blocks.read).
"""
import numpy as np

from sim import core
from sim.blocks import SYMMETRIES, BlockSim, Leg, mask_of, mod_eq, read
from sim.core import SkipOp, Violation
from sim.netsim import NetSim, close, einsum, is_refusal

EXCLUDE = ("newcopy", "slice_edge", "contract_copy_node", "bucket",
           "bad_args", "topology", "switch_backend")
OWN = ("mismatch", "ncon", "transposed_query")


class SymNet(NetSim):
  """NetSim over the symmetric backend."""

  MAX_SIZE = 2000

  def __init__(self, plan, ctx, faults=None):
    super().__init__(plan, ctx, faults, backend="symmetric")
    self.mods = SYMMETRIES[plan["sym"]]
    self.mk = BlockSim({"syms": [plan["sym"]], "maxdim": 3,
                        "qdtype": plan.get("qdtype", "int16"),
                        "data_seed": plan["data_seed"],
                        "small_charges": plan.get("small_charges", False)},
                       ctx)
    self.eff = {}

  # -- reading ---------------------------------------------------------------
  def to_np(self, t):
    ca = self.tn.block_sparse.ChargeArray
    if not isinstance(t, ca):
      return np.asarray(t)
    arr, _, groups = read(t, self.mods,
                          not isinstance(t, self.tn.BlockSparseTensor))
    if not groups:
      return arr
    shape = [int(np.prod([arr.shape[i] for i in g])) for g in groups]
    return arr.reshape(shape)

  def axis_legs(self, node):
    """The elementary legs of every axis of a node."""
    t = node.tensor
    if not isinstance(t, self.tn.BlockSparseTensor):
      raise Violation("not-symmetric", "node tensor is a %s" % type(t))
    if not t._order:
      return []
    _, legs, groups = read(t, self.mods)
    return [[legs[i] for i in g] for g in groups]

  def charges(self, legs):
    """The signed charge of every position of an axis, row-major."""
    tot = np.zeros((1, len(self.mods)), dtype=np.int64)
    for l in legs:
      q = -l.q if l.flow else l.q
      tot = (tot[:, None, :] + q[None, :, :]).reshape(-1, len(self.mods))
    return self.norm(tot)

  def norm(self, q):
    q = np.array(q, dtype=np.int64)
    for s, m in enumerate(self.mods):
      if m:
        q[:, s] %= m
    return q

  def ends(self, x):
    res = []
    for i in sorted(set(self.owners(x))):
      legs = self.axis_legs(self.lib[i])
      for a, e in enumerate(self.lib[i].edges):
        if self.label_of(e) == x:
          res.append((i, legs[a]))
    return res

  def full_check(self):
    super().full_check()
    seen = {}
    for i in self.nids():
      node = self.lib[i]
      legs = self.axis_legs(node)
      for e, l in zip(node.edges, legs):
        seen.setdefault(self.label_of(e), []).append(self.charges(l))
    new = {}
    for x, qs in sorted(seen.items()):
      if len(qs) == 2 and not np.array_equal(qs[0], self.norm(-qs[1])):
        raise Violation("edge-charges", "the ends of an edge carry charges "
                        "%s and %s" % (qs[0].tolist(), qs[1].tolist()))
      old = self.eff.get(x)
      if old is not None:
        ok = np.array_equal(qs[0], old) or (
            len(qs) == 2 and np.array_equal(qs[1], old))
        if not ok:
          raise Violation("edge-charges", "an edge carried %s, now %s" % (
              old.tolist(), qs[0].tolist()))
        new[x] = old
      else:
        new[x] = qs[0]
    self.eff = new

  def weak_check(self):
    super().weak_check()
    self.full_check()

  # -- hooks -----------------------------------------------------------------
  def same_discard(self, got, want, full):
    # zeros that no block holds are not listed
    top = max(float(np.abs(full).max()) if full.size else 0.0, 1e-9)
    got, want = got[got > 1e-7 * top], want[want > 1e-7 * top]
    return close(got, want, 1e-7)

  def pairable(self, x, y):
    (_, a), (_, b) = self.ends(x)[0], self.ends(y)[0]
    return len(a) == len(b) and all(mod_eq(l, k.dual())
                                    for l, k in zip(a, b))

  def alike(self, i, j, axis):
    a = self.axis_legs(self.lib[i])[axis]
    b = self.axis_legs(self.lib[j])[axis]
    return len(a) == len(b) and all(mod_eq(l, k) for l, k in zip(a, b))

  # -- operations ------------------------------------------------------------
  def op_new(self, r):
    if len(self.m) >= self.MAX_NODES:
      raise SkipOp()
    rng = core.prng("symnew", *r)
    rank = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4])
    have = [self.ends(x)[0][1] for x in self.dangling()]
    for _ in range(12):
      axes, own = [], []
      while len(axes) < rank:
        p = rng.random()
        if have and p < 0.6:
          g = [l.dual() for l in rng.choice(have)]
          if rng.random() < 0.12:
            # the same charges at other positions: must not be contracted
            k = rng.randrange(len(g))
            g[k] = Leg(np.roll(g[k].q, 1, axis=0), g[k].flow)
          axes.append(g)
        elif own and p < 0.75:
          axes.append([l.dual() for l in rng.choice(own)])
        else:
          own.append([self.mk.rand_leg(rng, self.mods)
                      for _ in range(1 if rng.random() < 0.8 else 2)])
          axes.append(own[-1])
      rng.shuffle(axes)
      legs = [l for g in axes for l in g]
      if np.prod([l.dim for l in legs]) > 400 or len(legs) > 7:
        continue
      mask = mask_of(legs, self.mods)
      if mask.any() or rng.random() < 0.03:
        break
    else:
      raise SkipOp()
    arr = np.where(mask, self.rand_array(mask.shape), 0).astype(self.dtype)
    groups, k = [], 0
    for g in axes:
      groups.append(list(range(k, k + len(g))))
      k += len(g)
    # stored in any order
    perm = list(range(len(legs)))
    rng.shuffle(perm)
    inv = [perm.index(i) for i in range(len(legs))]
    st = np.transpose(arr, perm)
    bst = self.tn.BlockSparseTensor(
        st[np.transpose(mask, perm)],
        [self.mk.charge_obj(legs[p], self.mods, rng) for p in perm],
        [legs[p].flow for p in perm],
        order=[[inv[i] for i in g] for g in groups], check_consistency=True)
    kw = {}
    if rng.random() < 0.3:
      kw["name"] = "n%d" % self.next_nid
    if rng.random() < 0.3:
      kw["axis_names"] = ["ax%d_%d" % (self.next_nid, i) for i in range(rank)]
    node = self.call("Node", lambda: self.tn.Node(
        bst, backend="symmetric", **kw))
    labels = []
    for e, g in zip(node.edges, axes):
      x = self.new_label()
      self.bind(e, x)
      labels.append(x)
      self.eff[x] = self.charges(g)
    self.add_node(node, arr.reshape([int(np.prod([l.dim for l in g]))
                                     for g in axes]), labels)

  def merge_labels(self, x, y, new):
    super().merge_labels(x, y, new)
    if x in self.eff:
      self.eff[new] = self.eff[x]

  def copied(self, ids, conj, first):
    """The copies carry the charges of the originals (negated if conjugated)."""
    for i, j in zip(ids, range(first, first + len(ids))):
      old = [self.charges(l) for l in self.axis_legs(self.lib[i])]
      new = [self.charges(l) for l in self.axis_legs(self.lib[j])]
      for a, b in zip(old, new):
        if not np.array_equal(self.norm(-a) if conj else a, b):
          raise Violation("copy-charges", "copied axis of charges %s has %s" %
                          (a.tolist(), b.tolist()))

  def op_copy(self, r):
    first = self.next_nid
    ids = self.subset(r[0], r[1])
    super().op_copy(r)
    self.copied(ids, r[2] % 2, first)

  def op_replicate(self, r):
    first = self.next_nid
    ids = self.subset(r[0], r[1])
    super().op_replicate(r)
    self.copied(ids, r[2] % 3 == 0, first)

  def op_node_copy(self, r):
    first = self.next_nid
    ids = [self.pick(self.nids(), r[0])]
    super().op_node_copy(r)
    self.copied(ids, r[1] % 2, first)

  def op_split_node(self, r):
    ids = [i for i in self.nids()
           if len(self.m[i].labels) >= 2 and
           not any(self.is_trace(x) for x in self.m[i].labels)]
    i = self.pick(ids, r[0])
    if not self.lib[i].tensor.data.size:
      raise SkipOp()           # no block: the new bond would have dimension 0
    super().op_split_node(r)

  def op_split_edge(self, r):
    """Back into (groups of) the elementary legs the edge is made of."""
    cands = [x for x in self.labels_all() if len(self.ends(x)[0][1]) > 1]
    x = self.pick(cands or self.labels_all(), r[0])
    legs = self.ends(x)[0][1]
    dims = [l.dim for l in legs]
    if any(len(self.m[i].labels) > 7 for i in self.owners(x)):
      raise SkipOp()
    shape = dims
    if len(dims) > 2 and r[1] % 3 == 0:
      cut = 1 + r[1] // 3 % (len(dims) - 1)
      shape = [int(np.prod(dims[:cut])), int(np.prod(dims[cut:]))]
    e = self.edge_of(x)
    owners = self.owners(x)
    new = self.call("split_edge", lambda: self.tn.split_edge(e, tuple(shape)))
    if len(new) != len(shape):
      raise Violation("wiring", "split_edge returned %d edges" % len(new))
    zs = [self.new_label() for _ in new]
    for f, z, s in zip(new, zs, shape):
      if int(f.dimension) != s:
        raise Violation("structure", "split_edge dims")
      self.bind(f, z)
    for i in sorted(set(owners)):
      mn = self.m[i]
      while x in mn.labels:
        p = mn.labels.index(x)
        mn.arr = mn.arr.reshape(mn.arr.shape[:p] + tuple(shape) +
                                mn.arr.shape[p + 1:])
        mn.labels = mn.labels[:p] + zs + mn.labels[p + 1:]

  def op_arith(self, r):
    if len(self.m) >= self.MAX_NODES:
      raise SkipOp()
    i = self.pick(self.nids(), r[0])
    n = self.lib[i]
    arr = self.to_np(n.tensor)
    mine = self.axis_legs(n)
    if r[2] % 2:
      kind = "*/"[r[1] % 2]
      other, oarr = 2.5, 2.5
    else:
      kind = "+-"[r[1] % 2]
      js = []
      for j in self.nids():
        his = self.axis_legs(self.lib[j])
        if [len(g) for g in his] == [len(g) for g in mine] and all(
            mod_eq(a, b) for g, h in zip(mine, his) for a, b in zip(g, h)):
          js.append(j)
      j = self.pick([j for j in js if j != i] or js, r[3])
      other, oarr = self.lib[j], self.to_np(self.lib[j].tensor)
    f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
         "*": lambda a, b: a * b, "/": lambda a, b: a / b}[kind]
    exp = f(arr, oarr)
    if exp.size and np.max(np.abs(exp)) > 1e6:
      raise SkipOp()
    new = self.call("arith" + kind, lambda: f(n, other))
    labels = []
    for e in new.edges:
      x = self.new_label()
      self.bind(e, x)
      labels.append(x)
    self.add_node(new, np.array(exp), labels)

  def op_mismatch(self, r):
    """Legs whose charges do not match are not contracted."""
    dims = self.dims()
    pairs = []
    for x in self.dangling():
      for y in self.dangling():
        if x < y and dims[x] == dims[y]:
          i, j = self.owners(x)[0], self.owners(y)[0]
          a, b = self.ends(x)[0][1], self.ends(y)[0][1]
          if i != j and not set(self.m[i].labels) & set(self.m[j].labels) \
              and not np.array_equal(self.charges(a),
                                     self.norm(-self.charges(b))):
            pairs.append((x, y))
    near = [(x, y) for x, y in pairs if np.array_equal(
        np.sort(self.charges(self.ends(x)[0][1]), axis=0),
        np.sort(self.norm(-self.charges(self.ends(y)[0][1])), axis=0))]
    x, y = self.pick(near if near and r[2] % 4 else pairs, r[0])
    i, j = self.owners(x)[0], self.owners(y)[0]
    ni, nj = self.lib[i], self.lib[j]
    if any(self.is_trace(z) for z in self.m[i].labels + self.m[j].labels):
      r = [r[0], 0] + r[2:]     # contractors take the traces first
    e = self.tn.connect(self.edge_of(x), self.edge_of(y))
    self.ctx.op("mismatch")
    try:
      if r[1] % 3 == 0:
        self.tn.contract(e)
      elif r[1] % 3 == 1:
        ni @ nj  # pylint: disable=pointless-statement
      else:
        self.tn.contractors.greedy([ni, nj], ignore_edge_order=True)
    except Exception as err:  # pylint: disable=broad-except
      if not is_refusal(err):
        raise
    else:
      raise Violation("not-rejected:charges", "edges of charges %s and %s were "
                      "contracted" % (self.eff[x].tolist(),
                                      self.eff[y].tolist()))
    f, g = self.tn.disconnect(e)
    if f.node1 is nj:
      f, g = g, f
    self.bind(f, x)
    self.bind(g, y)

  def op_ncon(self, r):
    """ncon on the tensors of some of the nodes."""
    i = self.pick(self.nids(), r[0])
    rnd = core.prng("ncon", *r)
    ids = [i]
    for j in self.component(i):
      if j != i and rnd.random() < 0.7 and len(ids) < 4:
        ids.append(j)
    tensors = [self.lib[j].tensor for j in ids]
    labs = [[self.label_of(e) for e in self.lib[j].edges] for j in ids]
    flat = [x for l in labs for x in l]
    inner = sorted({x for x in flat if flat.count(x) == 2})
    out = sorted({x for x in flat if flat.count(x) == 1})
    if not self.size_ok(ids, inner) or len(out) > 10:
      raise SkipOp()
    rnd.shuffle(inner)
    rnd.shuffle(out)
    num = {x: k + 1 for k, x in enumerate(inner)}
    num.update({x: -k - 1 for k, x in enumerate(out)})
    net = [[num[x] for x in l] for l in labs]
    t = self.call("ncon", lambda: self.tn.ncon(tensors, net,
                                               backend="symmetric"))
    exp = einsum([(self.m[j].arr, self.m[j].labels) for j in ids], out)
    if not close(self.to_np(t), exp, self.tol):
      raise Violation("value", "ncon %s" % net)
    if out:
      _, legs, groups = read(t, self.mods)
      for x, g in zip(out, groups):
        got = self.charges([legs[k] for k in g])
        own = [self.charges(l[a]) for j, l in
               ((j, self.axis_legs(self.lib[j])) for j in ids)
               for a, e in enumerate(self.lib[j].edges)
               if self.label_of(e) == x]
        if not np.array_equal(got, own[0]):
          raise Violation("edge-charges", "ncon returned axis charges %s, "
                          "expected %s" % (got.tolist(), own[0].tolist()))

  def op_transposed_query(self, r):
    """The dense form of a node's tensor, as the library gives it."""
    i = self.pick(self.nids(), r[0])
    self.ctx.op("todense")
    got = np.asarray(self.lib[i].tensor.todense())
    if not self.m[i].labels:
      got = got.reshape(())
    if not close(got, self.to_np(self.lib[i].tensor), 1e-12):
      raise Violation("value", "todense of a node's tensor")
    for a, l in enumerate(self.axis_legs(self.lib[i])):
      idx = self.lib[i].sparse_shape[a]
      q = np.asarray(idx.charges.charges).reshape(
          idx.dim, -1).astype(np.int64)
      if not np.array_equal(self.norm(q), self.charges(l)):
        raise Violation("edge-charges", "sparse_shape of axis %d says %s" % (
            a, q.tolist()))

