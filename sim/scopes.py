"""Default backends and node collections: what a with-block puts in effect.

The model is one stack per thread or task: a construction without an explicit
backend uses the innermost backend block of the code that runs it (else the
process default), and a node joins the innermost collection block, whatever
other threads or tasks are inside of and however earlier blocks ended.
"""
import contextvars
import random

import numpy as np

from sim.core import SkipOp, Violation
from sim.seams import SimInterrupt

_OWN = {}
_FAIL = contextvars.ContextVar("fail", default=False)


def backends():
  """name or object passed to the library; two objects, two names, one bad."""
  if not _OWN:
    from tensornetwork.backends.numpy.numpy_backend import NumPyBackend

    class BackendA(NumPyBackend):
      def convert_to_tensor(self, tensor):
        if _FAIL.get():
          raise SimInterrupt("injected: conversion failed")
        return super().convert_to_tensor(tensor)

    class BackendB(NumPyBackend):
      pass

    _OWN["a"], _OWN["b"] = BackendA(), BackendB()
  return ["numpy", "symmetric", _OWN["a"], _OWN["b"], "nonsense"]


def same_backend(got, want):
  if isinstance(want, str):
    return getattr(got, "name", got) == want and got not in _OWN.values()
  return got is want


class ScopeSim:
  """One program of enter/exit/raise/construct operations."""

  def __init__(self, plan, ctx, shared, tid=0):
    import tensornetwork as tn
    self.tn, self.plan, self.ctx, self.tid = tn, plan, ctx, tid
    self.shared = shared          # {"default": ..., "settable": bool}
    self.bk = backends()
    self.stack = []               # [(kind, cm, value)]
    self.cms = []                 # context managers to be entered again
    self.boxes = []               # [(container, [expected node ids], exact)]
    self.nodes = []
    self.npr = np.random.RandomState(plan["data_seed"] % 2**32)
    self.bs_tensor = None

  # -- model -------------------------------------------------------------
  def backend_now(self):
    for kind, _, val in reversed(self.stack):
      if kind == "b":
        return val
    return self.shared["default"]

  def box_now(self):
    for kind, _, val in reversed(self.stack):
      if kind == "c":
        return val
    return None

  def where(self):
    return "thread %d, inside %s" % (
        self.tid, [k + str(v if k == "b" else "") for k, _, v in self.stack])

  def check_current(self, what):
    got = self.tn.backend_contextmanager.get_default_backend()
    want = self.backend_now()
    if got is not want and got != want:
      raise Violation("wrong-default-backend",
                      "after %s: %r in effect, expected %r; %s" %
                      (what, got, want, self.where()))

  def check_boxes(self, what):
    for i, box in enumerate(self.boxes):
      cont = list(box["c"])
      ids = [id(x) for x in cont]
      if len(set(ids)) != len(ids):
        raise Violation("collected-twice", what)
      for n in box["must"]:
        if id(n) not in ids:
          raise Violation("not-collected", "after %s: a node made inside the "
                          "block is not in collection %d; %s" %
                          (what, i, self.where()))
      if box["exact"] and len(cont) != len(box["must"]):
        raise Violation("foreign-node-collected",
                        "after %s: collection %d holds %d nodes, %d were made "
                        "inside it; %s" % (what, i, len(cont),
                                           len(box["must"]), self.where()))

  # -- execution ----------------------------------------------------------
  def step(self, op):
    name, r = op["op"], random.Random(op["r"])
    self.ctx.ticks += 1
    try:
      getattr(self, "do_" + name)(r)
    except SkipOp:
      self.ctx.log(self.tid, name, "skip")
      return
    self.ctx.op(name)
    self.check_current(name)
    self.check_boxes(name)
    st = [[k, str(v) if isinstance(v, str) else "obj"] if k == "b" else [k]
          for k, _, v in self.stack]
    self.ctx.log(self.tid, name, st)
    self.ctx.state([self.tid, name, [k[0] + k[-1] for k in st]])

  def finish(self):
    while self.stack:
      self.leave(None)
    self.check_current("leaving every block")
    self.check_boxes("leaving every block")

  def leave(self, exc):
    kind, cm, _ = self.stack.pop()
    if exc is None:
      res = cm.__exit__(None, None, None)
    else:
      res = cm.__exit__(type(exc), exc, exc.__traceback__)
    if res:
      raise Violation("exception-swallowed", "by a %s block" % kind)

  def do_enter_b(self, r):
    if len(self.stack) > 6:
      raise SkipOp()
    old = [c for c in self.cms if c[0] == "b"]
    if old and r.random() < 0.3:
      kind, cm, val = r.choice(old)   # possibly one that is active right now
    else:
      val = self.bk[r.choice([0, 0, 1, 2, 2, 3, 3, 4])]
      cm = self.tn.DefaultBackend(val)
      self.cms.append(("b", cm, val))
    cm.__enter__()
    self.stack.append(("b", cm, val))
    self.ctx.nontrivial = True

  def do_enter_c(self, r):
    if len(self.stack) > 6:
      raise SkipOp()
    if self.boxes and r.random() < 0.35:
      box = r.choice(self.boxes)      # the same container again
    else:
      box = {"c": [] if r.random() < 0.5 else set(), "must": [], "exact": True}
      self.boxes.append(box)
    cm = self.tn.NodeCollection(box["c"])
    cm.__enter__()
    self.stack.append(("c", cm, box))
    self.ctx.nontrivial = True

  def do_exit(self, r):
    if not self.stack:
      raise SkipOp()
    self.leave(None)

  def do_raise(self, r):
    """An exception leaves one or more blocks."""
    if not self.stack:
      raise SkipOp()
    try:
      raise SimInterrupt("raised by the body")
    except SimInterrupt as e:
      for _ in range(r.randrange(1, len(self.stack) + 1)):
        self.leave(e)
    self.ctx.fault("exception-leaves-block")

  def do_set_default(self, r):
    val = self.bk[r.choice([0, 2, 3])]
    inside = any(k == "b" for k, _, _ in self.stack)
    if not inside and not self.shared["settable"]:
      raise SkipOp()
    try:
      self.tn.set_default_backend(val)
    except AssertionError:
      if not inside:
        raise Violation("set-default-refused", self.where())
      return
    if inside:
      raise Violation("set-default-inside-block", self.where())
    self.shared["default"] = val

  def do_bad_set_default(self, r):
    """A refused change changes nothing."""
    bad = r.choice([3, None, "nonsense", ["numpy"]])
    try:
      self.tn.set_default_backend(bad)
    except (AssertionError, ValueError):
      return
    raise Violation("bad-default-accepted", repr(bad))

  def do_bad_enter(self, r):
    try:
      if r.random() < 0.5:
        self.tn.DefaultBackend(r.choice([3, None, np]))
      else:
        self.tn.NodeCollection(r.choice([3, None, "ab", ()]))
    except ValueError:
      return
    raise Violation("bad-context-accepted", "")

  # -- constructions --------------------------------------------------------
  def sparse(self):
    if self.bs_tensor is None:
      from tensornetwork import block_sparse as bs
      c = bs.U1Charge(np.array([0, 1], dtype=np.int16))
      self.bs_tensor = bs.BlockSparseTensor.ones(
          [bs.Index(c, False), bs.Index(c, True)])
    return self.bs_tensor

  def tensor_for(self, b):
    return self.sparse() if b == "symmetric" else self.npr.randn(2, 2)

  def made(self, node, b, what):
    if not same_backend(node.backend, b):
      raise Violation("wrong-backend", "%s has backend %r, expected %r; %s" %
                      (what, getattr(node.backend, "name", node.backend), b,
                       self.where()))
    box = self.box_now()
    if box is not None:
      box["must"].append(node)
    self.nodes.append((node, b))
    self.nodes = self.nodes[-6:]

  def do_node(self, r):
    explicit = r.random() < 0.25
    b = self.bk[r.choice([0, 1, 2, 3])] if explicit else self.backend_now()
    kw = {"backend": b} if explicit else {}
    if b == "nonsense":
      try:
        self.tn.Node(np.ones((2, 2)), **kw)
      except ValueError:
        self.ctx.probe("unknown-backend-refused")
        return
      raise Violation("unknown-backend-accepted", self.where())
    self.made(self.tn.Node(self.tensor_for(b), **kw), b, "Node")

  def do_copynode(self, r):
    b = self.backend_now()
    if b == "nonsense":
      raise SkipOp()
    self.made(self.tn.CopyNode(2, 2), b, "CopyNode")

  def do_tensor(self, r):
    b = self.backend_now()
    if b in ("nonsense", "symmetric"):
      raise SkipOp()
    k = r.randrange(4)
    if k == 0:
      t = self.tn.Tensor(np.ones((2, 2)))
    elif k == 1:
      t = self.tn.eye(2)
    elif k == 2:
      t = self.tn.ones((2, 3))
    else:
      t = self.tn.zeros((2, 3))
    if not same_backend(t.backend, b):
      raise Violation("wrong-backend", "Tensor has %r, expected %r; %s" %
                      (t.backend, b, self.where()))

  def do_mps(self, r):
    b = self.backend_now()
    if b in ("nonsense", "symmetric"):
      raise SkipOp()
    box = self.box_now()
    if box is not None:
      box["exact"] = False   # internal nodes may be collected as well
    mps = self.tn.FiniteMPS([self.npr.randn(1, 2, 2), self.npr.randn(2, 2, 1)],
                            canonicalize=r.random() < 0.3)
    if not same_backend(mps.backend, b):
      raise Violation("wrong-backend", "FiniteMPS has %r, expected %r; %s" %
                      (mps.backend, b, self.where()))

  def do_ncon(self, r):
    b = self.backend_now()
    if b in ("nonsense", "symmetric"):
      raise SkipOp()
    box = self.box_now()
    if box is not None:
      box["exact"] = False
    a, c = self.npr.randn(2, 3), self.npr.randn(3, 2)
    got = self.tn.ncon([a, c], [[-1, 1], [1, -2]])
    if not np.allclose(got, a @ c):
      raise Violation("ncon-value", self.where())

  def do_bad_node(self, r):
    """A construction that fails leaves no node in the collection."""
    b = self.backend_now()
    if b == "nonsense":
      raise SkipOp()
    t = self.tensor_for(b)
    k = r.randrange(3)
    if k == 2 and b is self.bk[2]:
      token = _FAIL.set(True)
      try:
        self.tn.Node(t)
      except SimInterrupt:
        self.ctx.fault("conversion-failed")
        return
      finally:
        _FAIL.reset(token)
      raise Violation("failure-swallowed", self.where())
    try:
      if k == 0:
        self.tn.Node(t, axis_names=["a"])
      else:
        self.tn.Node(t, axis_names=["a", "a"])
    except ValueError:
      return
    raise Violation("bad-names-accepted", self.where())

  def do_derive(self, r):
    """Operations on existing nodes keep the operands' backend."""
    if not self.nodes:
      raise SkipOp()
    node, b = r.choice(self.nodes)
    if len(node.shape) != 2 or isinstance(node, self.tn.CopyNode):
      raise SkipOp()
    box = self.box_now()
    k = r.randrange(3)
    if k == 0:
      self.made(node.copy(), b, "a copy")
      return
    x, y = node.copy(), node.copy(conjugate=True)
    if box is not None:
      box["must"].extend([x, y])
    x[0] ^ y[0]
    if k == 1:
      self.made(self.tn.contract_between(x, y), b, "a contraction")
      return
    if box is not None:
      box["exact"] = False
    if b == "symmetric":
      raise SkipOp()
    left, right, _ = self.tn.split_node(x, [x[0]], [x[1]])
    self.made(left, b, "a factor")
    self.made(right, b, "a factor")


OPS = [("enter_b", 6), ("enter_c", 5), ("exit", 6), ("raise", 3),
       ("set_default", 1), ("bad_set_default", 1), ("bad_enter", 1),
       ("node", 7), ("copynode", 2), ("tensor", 2), ("mps", 1), ("ncon", 1),
       ("bad_node", 2), ("derive", 3)]


def gen_scope_ops(rng, n):
  names = [x for x, w in OPS for _ in range(w)]
  return [{"op": rng.choice(names), "r": rng.getrandbits(32)}
          for _ in range(n)]
