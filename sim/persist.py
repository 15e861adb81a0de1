"""Networks that are written to and read back from a simulated disk."""
import io
import json
import os
import tempfile

import numpy as np

from sim import core
from sim.core import SkipOp, Violation
from sim.netsim import NetSim, gen_ops
from sim.seams import SimOOM

NAMES = ["a", "a", "node0", "node1", "node10", "edge0", "edge3", "", "x y",
         "p/q", "caf\u00e9", "\u03b1", "None", "0", "n" * 70, "__unnamed_node__"]


class DiskError(OSError):
  """An injected error of the simulated disk."""


# libhdf5 may keep a file it could not close, by address: failed disks stay.
_GRAVE = []


class SimDisk(io.BytesIO):
  """One file on a disk that records every write and can fail any of them."""

  def __init__(self, fail_at=None, sticky=True, limit=None, short=False):
    super().__init__()
    self.journal = []
    self.n = 0
    self.fail_at = fail_at
    self.sticky = sticky
    self.limit = limit      # bytes until the disk is full
    self.short = short
    self.fired = 0
    self.dead = False

  def write(self, b):
    if self.dead:
      return len(b)
    self.n += 1
    b = bytes(b)
    hit = self.fail_at is not None and (
        self.n == self.fail_at or (self.sticky and self.n > self.fail_at))
    full = self.limit is not None and self.tell() + len(b) > self.limit
    if hit or full:
      self.fired += 1
      if self.short and len(b) > 1:
        part = b[:len(b) // 2]
        self.journal.append(("w", self.tell(), part))
        super().write(part)
      raise DiskError(28 if full else 5,
                      "No space left on device" if full else "I/O error")
    self.journal.append(("w", self.tell(), b))
    return super().write(b)

  def bury(self):
    if self.fired:
      self.dead = True
      self.journal = []
      super().seek(0)
      super().truncate(0)
      _GRAVE.append(self)

  def truncate(self, size=None):
    if self.dead:
      return 0
    self.journal.append(("t", self.tell() if size is None else size, b""))
    return super().truncate(size)

  @staticmethod
  def image(journal, k, torn):
    """The file after a crash that persisted the first k writes."""
    buf = bytearray()
    for i, (kind, pos, data) in enumerate(journal[:k]):
      if kind == "t":
        if pos < len(buf):
          del buf[pos:]
        else:
          buf.extend(b"\0" * (pos - len(buf)))
        continue
      if torn is not None and i == k - 1:
        data = data[:torn % (len(data) + 1)]
      if pos > len(buf):
        buf.extend(b"\0" * (pos - len(buf)))
      buf[pos:pos + len(data)] = data
    return bytes(buf)


class H5Faults:
  """The k-th create_dataset/create_group of h5py fails (allocation)."""

  def __init__(self):
    self.left = None
    self.fired = False

  def __enter__(self):
    import h5py
    self.h5 = h5py
    self.saved = (h5py.Group.create_dataset, h5py.Group.create_group)
    me = self

    def wrap(orig):
      def f(obj, *a, **kw):
        if me.left is not None:
          me.left -= 1
          if me.left <= 0:
            me.left = None
            me.fired = True
            raise SimOOM("injected: h5py allocation")
        return orig(obj, *a, **kw)
      return f
    h5py.Group.create_dataset = wrap(self.saved[0])
    h5py.Group.create_group = wrap(self.saved[1])
    return self

  def arm(self, k):
    self.left, self.fired = k, False

  def disarm(self):
    self.left = None
    f, self.fired = self.fired, False
    return f

  def __exit__(self, *exc):
    self.h5.Group.create_dataset, self.h5.Group.create_group = self.saved
    return False


def snapshot(nodes):
  """Everything a user can see of a list of nodes, as plain data."""
  idx = {id(n): i for i, n in enumerate(nodes)}
  res = []
  for n in nodes:
    edges = []
    for i, e in enumerate(n.edges):
      def end(node, ax):
        if node is None:
          return None
        return (idx.get(id(node), -1), None if id(node) not in idx else ax)
      edges.append((e.name, end(e.node1, e.axis1),
                    None if e.node2 is None else end(e.node2, e.axis2)))
    t = np.asarray(n.tensor)
    res.append({"type": type(n).__name__, "name": n.name,
                "axis_names": [str(a) for a in n.axis_names],
                "backend": n.backend.name, "dtype": str(t.dtype),
                "shape": tuple(t.shape), "data": np.ascontiguousarray(
                    t).tobytes(), "edges": edges})
  return res


def snap_diff(a, b):
  if len(a) != len(b):
    return "%d nodes, expected %d" % (len(b), len(a))
  for i, (x, y) in enumerate(zip(a, b)):
    for k in ("type", "name", "axis_names", "backend", "dtype", "shape",
              "edges"):
      if x[k] != y[k]:
        return "node %d: %s is %r, expected %r" % (i, k, y[k], x[k])
    if x["data"] != y["data"]:
      return "node %d: tensor entries differ" % i
  return None


class PersistSim(NetSim):
  MAX_NODES = 14
  h5faults = None

  def __init__(self, *a, **kw):
    super().__init__(*a, **kw)
    self.old_files = []

  # -- preparing ------------------------------------------------------------
  def op_rename(self, r):
    """Give nodes, axes and edges awkward names."""
    rng = core.prng("rename", r)
    for nid in self.nids():
      n = self.lib[nid]
      if rng.random() < 0.6:
        nm = rng.choice(NAMES)
        if rng.random() < 0.5:
          n.set_name(nm)
        else:
          n.name = nm
      if rng.random() < 0.4 and n.edges:
        names = [rng.choice(NAMES) + str(i) if rng.random() < 0.5 else
                 "%d" % (len(n.edges) - 1 - i) for i in range(len(n.edges))]
        if len(set(names)) == len(names):
          n.add_axis_names(names)
      for e in n.edges:
        if rng.random() < 0.5:
          e.set_name(rng.choice(NAMES))
    self.ctx.op("rename")

  def closed_set(self, r):
    """A set of node ids with no edge leaving it (one or more components)."""
    ids = self.nids()
    if not ids:
      raise SkipOp()
    if r % 3 != 0:
      return ids
    want = {ids[(r >> 3) % len(ids)]}
    while True:
      labs = {x for i in want for x in self.m[i].labels}
      more = {i for i in ids if labs & set(self.m[i].labels)} | want
      if more == want:
        return sorted(want)
      want = more

  def exotic(self, rng):
    """Free-standing nodes with unusual tensors."""
    res = []
    for _ in range(rng.choice([0, 0, 1, 3, 12])):
      kind = rng.randrange(8)
      base = np.array([rng.random() - 0.5 for _ in range(12)])
      if kind == 0:
        t = np.array(base[0])
      elif kind == 1:
        t = base.reshape(3, 4).astype(np.float32)
      elif kind == 2:
        t = (base * 10).astype(np.int64).reshape(2, 6)
      elif kind == 3:
        t = np.asfortranarray(base.reshape(2, 2, 3))
      elif kind == 4:
        t = base.reshape(2, 6)[:, ::2]
      elif kind == 5:
        t = (base + 1j * base[::-1]).astype(np.complex64).reshape(4, 3)
      elif kind == 6:
        t = np.zeros((0, 2)) if rng.random() < 0.3 else base.reshape(1, 12, 1)
      else:
        t = np.array([np.inf, -np.inf, np.nan, -0.0, 5e-324])
      n = self.tn.Node(t, name=rng.choice(NAMES), backend="numpy")
      if t.ndim == 3 and rng.random() < 0.5 and t.shape[0] == t.shape[1]:
        if rng.random() < 0.5:
          n[1] ^ n[0]  # a trace edge whose ends are in reverse order
        else:
          n[0] ^ n[1]
      res.append(n)
    return res

  def adopt(self, ids, nodes, keep_model_free=False):
    """The process restarts: only what was loaded survives."""
    newm, newl = {}, {}
    elab = {}
    for i, n in zip(ids, nodes):
      newl[i] = n
    old_labels = {i: [self.label_of(e) for e in self.lib[i].edges]
                  for i in ids}
    for i, n in zip(ids, nodes):
      for x, e in zip(old_labels[i], n.edges):
        elab[id(e)] = (e, x)
      newm[i] = self.m[i]
    del keep_model_free
    self.m, self.lib, self.elab = newm, newl, elab
    self.consumed = []
    self.ctx.probe("restarted-from-file")

  # -- HDF5 -----------------------------------------------------------------
  def order_of(self, ids, extra, rng):
    nodes = [self.lib[i] for i in ids] + extra
    perm = list(range(len(nodes)))
    rng.shuffle(perm)
    return [nodes[p] for p in perm], perm

  def check_unchanged(self, nodes, before, what):
    d = snap_diff(before, snapshot(nodes))
    if d is not None:
      raise Violation(what, "the network in memory changed: " + d)

  def compare(self, before, loaded, what):
    got = snapshot(loaded)
    d = snap_diff(before, got)
    if d is not None:
      raise Violation(what, d)
    self.structure_check(loaded)
    for n in loaded:
      for nm in [a for a in n.axis_names if n.axis_names.count(a) == 1]:
        if n[nm] is not n.edges[n.axis_names.index(nm)]:
          raise Violation(what, "axis name %r of a loaded node" % nm)

  def op_save_load(self, r):
    rng = core.prng("save", r)
    ids = self.closed_set(r[0])
    extra = self.exotic(rng)
    nodes, perm = self.order_of(ids, extra, rng)
    before = snapshot(nodes)
    self.ctx.op("save_nodes")
    self.ctx.ticks += 1
    arg = iter(nodes) if r[1] % 5 == 0 else (
        tuple(nodes) if r[1] % 5 == 1 else list(nodes))
    if r[1] % 7 == 0:
      d = os.environ.get("TNSIM_SCRATCH") or tempfile.gettempdir()
      fd, path = tempfile.mkstemp(suffix=".h5", dir=d)
      os.write(fd, b"\x01old content of the file" * (r[2] % 400))
      os.close(fd)
      try:
        self.tn.save_nodes(arg, path)
        self.check_unchanged(nodes, before, "save-changed-network")
        loaded = self.tn.load_nodes(path)
      finally:
        os.unlink(path)
    else:
      disk = SimDisk()
      self.tn.save_nodes(arg, disk)
      self.check_unchanged(nodes, before, "save-changed-network")
      data = disk.getvalue()
      loaded = self.tn.load_nodes(io.BytesIO(data))
      if r[2] % 4 == 0:
        # saving what was loaded gives a file that loads to the same thing
        disk2 = SimDisk()
        self.tn.save_nodes(loaded, disk2)
        self.compare(before, loaded, "load-not-repeatable")
        loaded = self.tn.load_nodes(io.BytesIO(disk2.getvalue()))
      self.old_files = (self.old_files + [(data, before)])[-3:]
    self.compare(before, loaded, "round-trip")
    self.ctx.log("saved", len(nodes), core.short_hash(
        [{k: v for k, v in s.items() if k != "data"} for s in before]))
    self.ctx.nontrivial = True
    if r[3] % 2 == 0:
      inv = [None] * len(perm)
      for pos, p in enumerate(perm):
        inv[p] = loaded[pos]
      if any(self.label_of(e) is None for i in ids
             for e in self.lib[i].edges):
        raise Violation("edge-replaced", "unknown edge")
      self.adopt(ids, inv[:len(ids)])

  def op_load_old(self, r):
    """An earlier file still loads to the network of that time."""
    data, before = self.pick(self.old_files, r[0])
    self.ctx.op("load_nodes")
    self.compare(before, self.tn.load_nodes(io.BytesIO(data)),
                 "old-file-changed")
    self.ctx.log("old file ok")

  def op_save_subset(self, r):
    """Saving with an edge leaving the set is refused without side effects."""
    ids = self.nids()
    rng = core.prng("subset", r)
    sub = [i for i in ids if rng.random() < 0.6]
    closed = all(i in sub or not ({x for j in sub for x in self.m[j].labels} &
                                  set(self.m[i].labels)) for i in ids)
    if not sub or closed:
      raise SkipOp()
    nodes = [self.lib[i] for i in sub]
    allnodes = [self.lib[i] for i in ids]
    before = snapshot(allnodes)
    disk = SimDisk()
    self.ctx.op("save_nodes-refused")
    try:
      self.tn.save_nodes(nodes, disk)
    except ValueError:
      pass
    else:
      raise Violation("save-accepted-open-subset", "")
    self.check_unchanged(allnodes, before, "refused-save-changed-network")
    if disk.n:
      raise Violation("refused-save-wrote", "")
    try:
      self.tn.save_nodes(allnodes + [allnodes[0]], disk)
    except ValueError:
      pass
    else:
      raise Violation("save-accepted-duplicate", "")
    self.check_unchanged(allnodes, before, "refused-save-changed-network")

  def op_save_fault(self, r):
    """A save that fails part way, or a crash while it runs."""
    rng = core.prng("savefault", r)
    ids = self.closed_set(r[0])
    extra = self.exotic(rng) if r[4] % 2 else []
    nodes, _ = self.order_of(ids, extra, rng)
    before = snapshot(nodes)
    clean = SimDisk()
    self.tn.save_nodes(list(nodes), clean)
    writes = [j for j in clean.journal]
    total = len(clean.getvalue())
    kind = ("io", "io-once", "short", "full", "alloc", "crash", "torn")[
        r[1] % 7]
    self.ctx.op("save_nodes-" + kind)
    self.ctx.ticks += 1
    if kind in ("crash", "torn"):
      # most positions are early; the interesting ones are near the end
      n = len(writes)
      k = n - r[2] % min(n, 7) if r[3] % 2 else r[2] % (n + 1)
      img = SimDisk.image(writes, k, r[4] if kind == "torn" else None)
      self.ctx.fault(kind)
    else:
      err = None
      disk = SimDisk()
      if kind in ("io", "io-once", "short"):
        nw = clean.n
        k = 1 + (nw - 1 - r[2] % min(nw, 8) if r[3] % 2 else r[2] % nw)
        disk = SimDisk(fail_at=k, sticky=kind != "io-once",
                       short=kind == "short")
      elif kind == "full":
        disk = SimDisk(limit=r[2] % max(1, total), short=r[3] % 2 == 0)
      else:
        self.h5faults.arm(1 + r[2] % (9 * len(nodes) + 8))
      try:
        self.tn.save_nodes(list(nodes), disk)
      except Exception as e:  # pylint: disable=broad-except
        err = e  # h5py reports a failing file object in many ways
      fired = self.h5faults.disarm() or disk.fired
      disk.fail_at = disk.limit = None  # the disk recovers
      if err is not None and not fired:
        raise err
      if fired:
        self.ctx.fault("alloc" if kind == "alloc" else "disk-" + kind)
      if fired and err is None:
        # an absorbed error is fine only if the file is complete
        self.ctx.probe("disk-error-not-reported")
        loaded = None
        try:
          loaded = self.tn.load_nodes(io.BytesIO(disk.getvalue()))
        except Exception:  # pylint: disable=broad-except
          pass
        if loaded is None:
          raise Violation("error-swallowed", "save_nodes returned normally "
                          "but the file does not load")
        self.compare(before, loaded, "error-swallowed")
      self.check_unchanged(nodes, before, "failed-save-changed-network")
      img = disk.getvalue()
      if kind != "alloc":
        disk.bury()
    self.ctx.nontrivial = True
    loaded = None
    try:
      loaded = self.tn.load_nodes(io.BytesIO(img))
    except Exception as e:  # pylint: disable=broad-except
      self.ctx.probe("incomplete-file-refused")
      self.ctx.log("refused", kind, type(e).__name__)
    if loaded is not None:
      self.ctx.probe("crash-image-loads")
      self.compare(before, loaded, "incomplete-file-accepted")
    # the save can simply be retried
    if r[4] % 3 == 0:
      disk = SimDisk()
      self.tn.save_nodes(list(nodes), disk)
      self.compare(before, self.tn.load_nodes(io.BytesIO(disk.getvalue())),
                   "retry")

  # -- JSON -----------------------------------------------------------------
  def op_json(self, r):
    rng = core.prng("json", r)
    ids = [i for i in self.nids() if not self.is_copy_node(i)]
    if r[0] % 3:
      ids = [i for i in ids if rng.random() < 0.6]
    extra = self.exotic(rng)
    if not ids and not extra:
      raise SkipOp()
    nodes, perm = self.order_of(ids, extra, rng)
    allnodes = [self.lib[i] for i in self.nids()] + extra
    before_all = snapshot(allnodes)
    pos = {id(n): i for i, n in enumerate(nodes)}
    # bindings: single edges, lists, sets, tuples; some of excluded nodes
    alle = []
    for n in allnodes:
      for e in n.edges:
        if all(e is not f for f in alle):
          alle.append(e)
    binding, expect = {}, {}
    for b in range(rng.randrange(0, 5)):
      if not alle:
        break
      pick = rng.sample(alle, min(len(alle), rng.choice([1, 1, 2, 3])))
      if len(pick) == 1 and rng.random() < 0.6:
        v = pick[0]
      else:
        v = rng.choice([tuple, list])(pick)
      key = rng.choice(NAMES) + str(b)
      binding[key] = v
      exp = []
      for e in pick:
        ends = [(pos[id(n)], a) for n, a in ((e.node1, e.axis1),
                                             (e.node2, e.axis2))
                if n is not None and id(n) in pos]
        if ends:
          exp.append(tuple(ends))
      if exp:
        expect[key] = exp
    self.ctx.op("nodes_to_json")
    self.ctx.ticks += 1
    fault = self.cur_fault
    if fault is not None and self.faults is not None:
      self.faults.arm(fault["k"])
      try:
        self.tn.nodes_to_json(list(nodes), binding or None)
      except SimOOM:
        self.ctx.fault("alloc")
      self.faults.disarm()
      self.check_unchanged(allnodes, before_all, "json-changed-network")
    s = self.tn.nodes_to_json(list(nodes), binding or None)
    self.check_unchanged(allnodes, before_all, "json-changed-network")
    s = s.encode("utf-8").decode("utf-8")
    if r[1] % 3 == 0:
      cut = s[:rng.randrange(len(s))]
      self.ctx.fault("truncated-text")
      try:
        self.tn.nodes_from_json(cut)
      except ValueError:
        self.ctx.probe("truncated-text-refused")
      else:
        raise Violation("truncated-json-accepted", "")
    if fault is not None and self.faults is not None:
      self.faults.arm(fault["k"])
      try:
        self.tn.nodes_from_json(s)
      except SimOOM:
        self.ctx.fault("alloc")
      self.faults.disarm()
    if r[2] % 4 == 0:
      # whitespace and key order of the text carry no meaning
      s = json.dumps(json.loads(s), indent=1, sort_keys=True)
    loaded, got = self.tn.nodes_from_json(s)
    # expected: edges to excluded nodes dangle
    exp = []
    for st in snapshot(nodes):
      st = dict(st)
      st["edges"] = []
      exp.append(st)
    for n, st in zip(nodes, exp):
      for i, e in enumerate(n.edges):
        ends = [(pos[id(m)], a) for m, a in ((e.node1, e.axis1),
                                             (e.node2, e.axis2))
                if m is not None and id(m) in pos]
        st["edges"].append((e.name, ends[0],
                            ends[1] if len(ends) > 1 else None))
    d = snap_diff(exp, snapshot(loaded))
    if d is not None:
      raise Violation("json-round-trip", d)
    self.structure_check(loaded)
    if set(got) != set(expect):
      raise Violation("json-bindings", "keys %s, expected %s" % (
          sorted(got), sorted(expect)))
    lpos = {id(n): i for i, n in enumerate(loaded)}
    for k, v in got.items():
      if not isinstance(v, tuple):
        raise Violation("json-bindings", "binding is not a tuple")
      ends = [tuple((lpos[id(n)], a) for n, a in ((e.node1, e.axis1),
                                                  (e.node2, e.axis2))
                    if n is not None) for e in v]
      if ends != expect[k]:
        raise Violation("json-bindings", "%r: %s, expected %s" % (
            k, ends, expect[k]))
      for e in v:
        if all(e is not f for f in e.node1.edges):
          raise Violation("json-bindings", "binding to an edge no node holds")
    self.ctx.log("json", len(nodes), len(expect))
    self.ctx.nontrivial = True
    if r[3] % 2 == 0 and ids:
      inv = [None] * len(perm)
      for p2, p in enumerate(perm):
        inv[p] = loaded[p2]
      self.adopt(ids, inv[:len(ids)])

  def op_json_copy_node(self, r):
    """Copy nodes are refused, not silently dropped."""
    ids = [i for i in self.nids() if self.is_copy_node(i)]
    i = self.pick(ids, r[0])
    alln = [self.lib[j] for j in self.nids()]
    before = snapshot(alln)
    try:
      self.tn.nodes_to_json([self.lib[i]])
    except NotImplementedError:
      pass
    else:
      raise Violation("json-copy-node", "accepted")
    self.check_unchanged(alln, before, "json-changed-network")


def gen_persist(rng, n, ops, faults=False, fault_rate=0.5, exclude=()):
  """A graph history with persistence operations in between."""
  base = gen_ops(rng, n, faults=False, exclude=exclude, boost={"new": 3})
  res = []
  for i, op in enumerate(base):
    res.append(op)
    if i >= 4 and rng.random() < 0.3:
      if rng.random() < 0.5:
        res.append({"op": "rename",
                    "r": [rng.randrange(1 << 16) for _ in range(5)]})
      o = {"op": rng.choice(ops), "r": [rng.randrange(1 << 16)
                                        for _ in range(5)]}
      if faults and rng.random() < fault_rate:
        o["fault"] = {"k": 1 + rng.randrange(8), "kind": "oom"}
      res.append(o)
  res.append({"op": ops[0], "r": [rng.randrange(1 << 16) for _ in range(5)]})
  return res
