"""Histories of operations on finite matrix product states.

The model of an MPS is its dense tensor (left bond, physical legs, right bond)
plus what is known about its canonical form.  The library object is read by
multiplying out its tensors with numpy.
"""
import random
import warnings

import numpy as np

from sim.core import Violation, short_hash
from sim.seams import SimLinAlgError, SimOOM

ATOL = 1e-8


def dense(t):
  return np.asarray(t.todense() if hasattr(t, "todense") else t)


def dense_state(tensors):
  """Multiply the site tensors out."""
  out = dense(tensors[0])
  for t in tensors[1:]:
    b = dense(t)
    if out.shape[-1] != b.shape[0]:
      raise Violation("bond-mismatch", "bond dimensions %d and %d" %
                      (out.shape[-1], b.shape[0]))
    out = np.tensordot(out, b, ([out.ndim - 1], [0]))
  return out


def on_site(op, psi, site):
  """op[out, in] applied to physical leg `site` (axis site+1)."""
  out = np.tensordot(op, psi, ([1], [site + 1]))
  return np.moveaxis(out, 0, site + 1)


def on_bond(gate, psi, site):
  out = np.tensordot(gate, psi, ([2, 3], [site + 1, site + 2]))
  return np.moveaxis(out, [0, 1], [site + 1, site + 2])


class Ambiguous(Exception):
  pass


def schmidt_truncate(psi, bond, max_d, err, relative=True):
  """Best approximation across `bond` (number of sites to the left)."""
  left = int(np.prod(psi.shape[:bond + 1]))
  u, s, v = np.linalg.svd(psi.reshape(left, -1), full_matrices=False)
  if s[0] < 1e-10:
    raise Ambiguous()
  keep = len(s)
  if err is not None:
    tails = np.sqrt(np.cumsum(s[::-1]**2))
    limit = err * s[0] if relative else err
    if np.any(np.abs(tails - limit) < 1e-6 * s[0]):
      raise Ambiguous()
    keep = int(np.count_nonzero(tails > limit))
  if max_d is not None:
    keep = min(keep, max_d)
  if keep == 0:
    raise Ambiguous()
  if keep < len(s) and s[keep - 1] - s[keep] < 1e-5 * s[0] and \
      s[keep - 1] > 1e-9 * s[0]:
    raise Ambiguous()
  rest = s[keep:]
  out = ((u[:, :keep] * s[:keep]) @ v[:keep]).reshape(psi.shape)
  return out, float(np.sqrt(np.sum(rest**2)))


class Slot:
  """One MPS of the run and what it must denote."""

  def __init__(self, mps, psi, center, canon, phys):
    self.mps = mps
    self.psi = psi          # exact dense tensor
    self.center = center    # expected center_position
    self.canon = canon      # the canonical form it reports is really there
    self.phys = phys


class MPSSim:
  """Executes the operations of one plan."""

  def __init__(self, plan, ctx, faults=None):
    import tensornetwork as tn
    self.tn = tn
    self.plan = plan
    self.ctx = ctx
    self.faults = faults
    self.backend = plan["backend"]
    self.dtype = np.dtype(plan["dtype"])
    self.slots = []
    self.held = []  # (array, copy): tensors the user still has
    self.N = plan["N"]
    rng = random.Random(plan["data_seed"])
    self.rng0 = rng
    self.setup_legs(rng)

  # ---- tensors -------------------------------------------------------------
  def setup_legs(self, rng):
    n = self.N
    self.d = [rng.choice([1, 2, 2, 2, 3]) if self.plan["varied"] else 2
              for _ in range(n)]
    if self.backend == "symmetric":
      self.physq = [np.array([rng.choice([-1, 0, 1]) for _ in range(d)])
                    for d in self.d]
      if self.plan["varied"]:
        pass
      else:
        self.physq = [self.physq[0]] * n

  def gen(self, rng):
    return np.random.RandomState(rng.getrandbits(32))

  def rand(self, rng, shape):
    g = self.gen(rng)
    a = g.standard_normal(shape)
    if self.dtype.kind == "c":
      a = a + 1j * g.standard_normal(shape)
    return a.astype(self.dtype)

  def index(self, q, flow):
    from tensornetwork.block_sparse import Index, U1Charge
    return Index(U1Charge(np.asarray(q, dtype=np.int16)), flow)

  def block(self, arr_rng, legs):
    """Random symmetric tensor with legs (charges, flow)."""
    from tensornetwork.block_sparse import BlockSparseTensor
    g = self.gen(arr_rng)
    def fill(shape, dtype=np.float64):
      a = g.standard_normal(shape)
      if np.dtype(dtype).kind == "c":
        a = a + 1j * g.standard_normal(shape)
      return a.astype(dtype)
    t = BlockSparseTensor.random([self.index(q, f) for q, f in legs],
                                 dtype=self.dtype)
    t.data = fill(t.data.shape, self.dtype)
    return t

  def make_tensors(self, rng):
    n = self.N
    edge = rng.choice([1, 1, 1, 2]) if self.plan["open"] else 1
    if self.backend != "symmetric":
      dims = [edge] + [rng.randrange(1, self.plan["maxD"] + 1)
                       for _ in range(n - 1)] + [edge]
      out = [self.rand(rng, (dims[i], self.d[i], dims[i + 1]))
             for i in range(n)]
      if rng.random() < 0.2:
        # rank deficient: a bond whose second half repeats the first
        i = rng.randrange(n)
        out[i][..., -1] = out[i][..., 0]
      return out
    bonds = [np.zeros(1, dtype=int)]
    for i in range(n):
      sums = (bonds[-1][:, None] + self.physq[i][None, :]).ravel()
      k = rng.randrange(1, self.plan["maxD"] + 1) if i < n - 1 else 1
      bonds.append(np.array([rng.choice(list(sums)) for _ in range(k)]))
    return [self.block(rng, [(bonds[i], False), (self.physq[i], False),
                             (bonds[i + 1], True)]) for i in range(n)]

  def one_op(self, rng, site):
    if self.backend == "symmetric":
      q = self.physq[site]
      return self.block(rng, [(q, False), (q, True)])
    return self.rand(rng, (self.d[site],) * 2)

  def two_op(self, rng, site):
    if self.backend == "symmetric":
      a, b = self.physq[site], self.physq[site + 1]
      return self.block(rng, [(a, False), (b, False), (a, True), (b, True)])
    a, b = self.d[site], self.d[site + 1]
    return self.rand(rng, (a, b, a, b))

  # ---- comparing -----------------------------------------------------------
  def differ(self, got, want, what, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
      raise Violation("wrong-shape:" + what, "%s instead of %s" %
                      (got.shape, want.shape))
    scale = max(1e-3, float(np.max(np.abs(want))) if want.size else 0,
                scale or 0)
    err = float(np.max(np.abs(got - want))) if want.size else 0.0
    if not err <= ATOL * scale * 10:
      raise Violation("wrong-value:" + what, "error %.3g at scale %.3g" %
                      (err, scale))

  def hold(self, tensor):
    data = tensor.data if hasattr(tensor, "todense") else tensor
    if isinstance(data, np.ndarray):
      self.held.append((data, data.copy()))
      del self.held[:-40]

  def check_held(self, what):
    for a, b in self.held:
      if not np.array_equal(a, b):
        raise Violation("mutated-user-array", "by " + what)

  def read(self, slot):
    return dense_state(slot.mps.tensors)

  def isometry_error(self, mps, site, side):
    a = dense(mps.tensors[site])
    m = a.reshape(-1, a.shape[2]) if side == "l" else a.reshape(
        a.shape[0], -1).conj().T
    g = m.conj().T @ m
    return float(np.max(np.abs(g - np.eye(g.shape[0])))) if g.size else 0.0

  def check_slot(self, slot, what):
    mps = slot.mps
    self.differ(self.read(slot), slot.psi, "state after " + what)
    if mps.center_position != slot.center:
      raise Violation("wrong-center", "center_position %s, expected %s after %s"
                      % (mps.center_position, slot.center, what))
    if slot.canon and slot.center is not None:
      for i in range(self.N):
        if i != slot.center:
          side = "l" if i < slot.center else "r"
          e = self.isometry_error(mps, i, side)
          if not e < 1e-7:
            raise Violation(
                "not-canonical", "site %d is not %s-orthogonal (%.3g), center "
                "%d, after %s" % (i, side, e, slot.center, what))

  def check_all(self, what):
    for s in self.slots:
      self.check_slot(s, what)
    self.check_held(what)

  # ---- running -------------------------------------------------------------
  def step(self, op):
    res = self.step1(op)
    if res == "fault" and op.get("retry"):
      self.ctx.probe("retried")
      self.step1({k: v for k, v in op.items() if k in ("op", "r")})
    return res

  def step1(self, op):
    rng = random.Random(op["r"])
    name = op["op"]
    self.ctx.ticks += 1
    if op.get("fault") is not None and self.faults is not None:
      self.faults.arm(op["fault"], op.get("kind", "oom"))
    self.touched = None   # (slot, allowed states) of the running operation
    before = list(self.slots)
    try:
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = getattr(self, "do_" + name)(rng)
    except (SimOOM, SimLinAlgError) as e:
      if self.faults is None or self.faults.disarm() is None:
        raise
      self.ctx.fault("no-convergence" if isinstance(e, SimLinAlgError)
                     else "alloc")
      self.ctx.nontrivial = True
      self.slots = before
      self.after_fault(name)
      self.check_all("a failed " + name)
      self.ctx.log(name, "failed", self.summary())
      return "fault"
    finally:
      if self.faults is not None:
        self.faults.disarm()
    if res == "skip":
      self.ctx.log(name, "skip")
      return "skip"
    self.ctx.op(name)
    if name != "new":
      self.ctx.nontrivial = True
    self.check_all(name)
    s = self.summary()
    self.ctx.log(name, s)
    self.ctx.state(s)
    return "ok"

  def summary(self):
    return [[list(x.shape for x in map(dense, s.mps.tensors)), s.center,
             s.canon] for s in self.slots]

  def after_fault(self, name):
    """Re-read the touched MPS: it must denote one of the allowed states."""
    if self.touched is None:
      return
    slot, allowed = self.touched
    got = self.read(slot)
    for psi, center, canon, free in allowed:
      c = slot.mps.center_position
      if c != center:
        continue
      want = psi
      if free:
        # up to a positive factor
        want = psi / np.linalg.norm(psi) * np.linalg.norm(got)
      if got.shape == want.shape and np.max(np.abs(got - want)) <= \
          10 * ATOL * max(1e-3, np.max(np.abs(want))):
        slot.psi, slot.center, slot.canon = want, center, canon
        return
    raise Violation(
        "corrupted-by-failure", "after a failed %s the state is none of the %d "
        "states it could be in (center_position %s)" %
        (name, len(allowed), slot.mps.center_position))

  def pick(self, rng, pred=lambda s: True):
    c = [s for s in self.slots if pred(s)]
    return rng.choice(c) if c else None

  # ---- operations ----------------------------------------------------------
  def do_new(self, rng):
    kind = rng.choice(["fresh", "fresh", "fresh", "share", "random"])
    old = self.pick(rng)
    if kind == "share" and old is not None:
      tensors = list(old.mps.tensors)
    elif kind == "random" and self.backend == "numpy":
      d = list(self.d)
      D = [rng.randrange(1, self.plan["maxD"] + 1) for _ in range(self.N - 1)]
      canon = rng.random() < 0.7
      mps = self.tn.FiniteMPS.random(d, D, dtype=self.dtype, backend="numpy",
                                     canonicalize=canon)
      psi = self.read(Slot(mps, None, None, None, None))
      if canon and abs(np.linalg.norm(psi) - 1) > 1e-8:
        raise Violation("random-not-normalized", str(np.linalg.norm(psi)))
      if [x.shape[1] for x in mps.tensors] != d:
        raise Violation("wrong-shape:random", "")
      return self.add(mps, psi, 0 if canon else None, canon)
    else:
      tensors = self.make_tensors(rng)
    psi = dense_state(tensors)
    nrm = np.linalg.norm(psi)
    if nrm < 1e-6:
      return "skip"
    for t in tensors:
      self.hold(t)
    canon = rng.random() < 0.7
    center = rng.randrange(self.N) if canon and rng.random() < 0.7 else None
    as_list = tensors if rng.random() < 0.8 else tuple(tensors)
    mps = self.tn.FiniteMPS(as_list, center_position=center,
                            canonicalize=canon, backend=self.backend)
    if canon:
      psi = psi / nrm
      center = center or 0
    return self.add(mps, psi, center, canon)

  def add(self, mps, psi, center, canon):
    self.slots.append(Slot(mps, psi, center, canon, None))
    if len(self.slots) > 3:
      del self.slots[0]
    return "ok"

  def do_position(self, rng):
    slot = self.pick(rng, lambda s: s.center is not None)
    if slot is None:
      return "skip"
    site = rng.randrange(self.N)
    normalize = rng.random() < 0.5
    D = err = None
    if slot.canon and rng.random() < 0.5:
      D = rng.choice([None, 1, 2, 3, 4])
      err = rng.choice([None, None, 1e-12, 0.05, 0.3])
    c = slot.center
    dims = slot.mps.bond_dimensions
    stages = [(slot.psi, c, slot.canon, False)]
    psi, amb = slot.psi, False
    if site == c:
      if normalize:
        # the norm of the center tensor is the norm of the state if canonical
        z = np.linalg.norm(dense(slot.mps.tensors[c]))
        psi = psi / z
        stages.append((psi, c, slot.canon, False))
    path = range(c, site) if site > c else range(c, site, -1)
    used = 0
    for n in path:
      bond = n + 1 if site > c else n
      nxt = n + 1 if site > c else n - 1
      if (D is not None and D < dims[bond]) or err is not None:
        try:
          psi, _ = schmidt_truncate(psi, bond, D, err)
        except Ambiguous:
          amb = True
          break
        used += 1
      if normalize:
        if slot.canon:
          psi = psi / np.linalg.norm(psi)
        stages.append((psi, nxt, slot.canon, normalize and not slot.canon))
      else:
        stages.append((psi, nxt, slot.canon, False))
    if amb:
      return "skip"
    self.touched = (slot, stages)
    z = slot.mps.position(site, normalize=normalize, D=D,
                          max_truncation_err=err)
    free = normalize and not slot.canon and site != c
    if free:
      got = self.read(slot)
      psi = psi / np.linalg.norm(psi) * np.linalg.norm(got)
    slot.psi, slot.center = psi, site
    if slot.canon and not normalize:
      self.differ(z, np.linalg.norm(psi), "norm returned by position")
    if used:
      self.ctx.probe("truncated-sweep")
      new = slot.mps.bond_dimensions
      if D is not None:
        lo, hi = min(c, site), max(c, site)
        for b in range(lo + 1, hi + 1):
          if new[b] > D:
            raise Violation("bond-too-large", "bond %d is %d > %d" %
                            (b, new[b], D))
    return "ok"

  def do_canonicalize(self, rng):
    slot = self.pick(rng)
    if slot is None:
      return "skip"
    normalize = rng.random() < 0.5
    nrm = np.linalg.norm(slot.psi)
    if nrm < 1e-8:
      return "skip"
    target = slot.center if slot.center is not None else 0
    self.touched = (slot, [(slot.psi, None, False, True),
                           (slot.psi, slot.center, slot.canon, True)])
    z = slot.mps.canonicalize(normalize=normalize)
    if normalize:
      slot.psi = slot.psi / nrm
    else:
      self.differ(z, nrm, "norm returned by canonicalize")
    slot.center, slot.canon = target, True
    return "ok"

  def do_one_site_gate(self, rng):
    slot = self.pick(rng)
    if slot is None:
      return "skip"
    site = rng.randrange(self.N)
    gate = self.one_op(rng, site)
    unitary = False
    if self.backend != "symmetric" and rng.random() < 0.5:
      gate = np.linalg.qr(gate)[0].astype(self.dtype)
      unitary = True
    self.hold(gate)
    psi = on_site(dense(gate), slot.psi, site)
    if np.linalg.norm(psi) < 1e-6:
      return "skip"
    self.touched = (slot, [(slot.psi, slot.center, slot.canon, False)])
    slot.mps.apply_one_site_gate(gate, site)
    slot.psi = psi
    if slot.center is not None and site != slot.center and not unitary:
      slot.canon = False
    return "ok"

  def do_two_site_gate(self, rng):
    slot = self.pick(rng)
    if slot is None or self.N < 2:
      return "skip"
    site = rng.randrange(self.N - 1)
    if slot.center is not None and rng.random() < 0.6:
      site = min(max(0, slot.center - rng.randrange(2)), self.N - 2)
    gate = self.two_op(rng, site)
    self.hold(gate)
    inside = slot.center in (site, site + 1)
    cp = rng.choice([None, site, site + 1])
    D = err = None
    rel = rng.random() < 0.5
    if inside and slot.canon and rng.random() < 0.5:
      D = rng.choice([None, 1, 2, 3, 50])
      err = rng.choice([None, None, 1e-12, 0.05, 0.3])
    psi = on_bond(dense(gate), slot.psi, site)
    if np.linalg.norm(psi) < 1e-6:
      return "skip"
    rest = 0.0
    if D is not None or err is not None:
      try:
        psi, rest = schmidt_truncate(psi, site + 1, D, err, rel)
      except Ambiguous:
        return "skip"
      self.ctx.probe("truncated-gate")
    self.touched = (slot, [(slot.psi, slot.center, slot.canon, False)])
    tw = slot.mps.apply_two_site_gate(
        gate, site, site + 1, max_singular_values=D, max_truncation_err=err,
        center_position=cp, relative=rel)
    slot.psi = psi
    slot.center = None if not inside else (site if cp is None else cp)
    tw = dense(tw)
    if abs(np.sqrt(np.sum(np.abs(tw)**2)) - rest) > 1e-7 * max(
        1, np.linalg.norm(psi)):
      raise Violation("wrong-value:truncated weight", "%s instead of %s" %
                      (np.linalg.norm(tw), rest))
    if D is not None and slot.mps.bond_dimensions[site + 1] > D:
      raise Violation("bond-too-large", "gate kept more than %d" % D)
    return "ok"

  def measurable(self, s):
    return s.center is None or s.canon

  def do_measure_local(self, rng):
    slot = self.pick(rng, self.measurable)
    if slot is None:
      return "skip"
    sites = [rng.randrange(self.N) for _ in range(rng.randrange(0, self.N + 2))]
    ops = [self.one_op(rng, s) for s in sites]
    self.touched = (slot, [(slot.psi, slot.center, slot.canon, False)])
    res = slot.mps.measure_local_operator(ops, sites)
    if len(res) != len(sites):
      raise Violation("wrong-length", "measure_local_operator")
    nrm = float(np.linalg.norm(slot.psi)**2)
    for o, s, r in zip(ops, sites, res):
      want = np.vdot(slot.psi, on_site(dense(o), slot.psi, s))
      self.differ(r, want, "measure_local_operator", scale=nrm)
    return "ok"

  def do_correlator(self, rng):
    slot = self.pick(rng, self.measurable)
    if slot is None:
      return "skip"
    s1 = rng.randrange(self.N)
    sites = [rng.randrange(self.N) for _ in range(rng.randrange(0, self.N + 2))]
    if rng.random() < 0.5:
      sites = sorted(set(sites))
    if len(set(self.d)) > 1 or (self.backend == "symmetric" and
                                self.plan["varied"]):
      same = [s for s in range(self.N)
              if self.same_phys(s, sites[0] if sites else s1)]
      sites = [s for s in sites if s in same]
    op1 = self.one_op(rng, s1)
    op2 = self.one_op(rng, sites[0] if sites else s1)
    self.touched = (slot, [(slot.psi, slot.center, slot.canon, False)])
    arg = sites
    if rng.random() < 0.3:
      arg = np.array(sites, dtype=int)
    res = slot.mps.measure_two_body_correlator(op1, op2, s1, arg)
    if len(res) != len(sites):
      raise Violation("wrong-length", "measure_two_body_correlator: %d results "
                      "for %d sites" % (len(res), len(sites)))
    nrm = float(np.linalg.norm(slot.psi)**2)
    for s, r in zip(sites, res):
      phi = on_site(dense(op2), slot.psi, s)
      want = np.vdot(slot.psi, on_site(dense(op1), phi, s1))
      self.differ(r, want, "measure_two_body_correlator", scale=nrm)
    return "ok"

  def same_phys(self, a, b):
    if self.backend == "symmetric":
      return np.array_equal(self.physq[a], self.physq[b])
    return self.d[a] == self.d[b]

  def do_envs(self, rng):
    slot = self.pick(rng, self.measurable)
    if slot is None:
      return "skip"
    left = rng.random() < 0.5
    # an environment at the open end needs a center to the inside of it
    lo, hi = (0, self.N) if left else (-1, self.N - 1)
    c = slot.center if slot.center is not None else (
        0 if left else self.N - 1)
    if left and c == self.N:
      hi = self.N - 1
    sites = [rng.randrange(lo, hi + 1) for _ in range(rng.randrange(0, 5))]
    self.touched = (slot, [(slot.psi, slot.center, slot.canon, False)])
    if left:
      envs = slot.mps.left_envs(sites)
    else:
      envs = slot.mps.right_envs(sites)
    if sorted(int(k) for k in envs) != sorted(set(sites)):
      raise Violation("wrong-keys", "%s for sites %s" % (sorted(envs), sites))
    ts = [dense(t) for t in slot.mps.tensors]
    for s, e in envs.items():
      if left:
        m = np.eye(ts[0].shape[0])
        for t in ts[:s]:
          m = np.einsum("ab,aic,bid->cd", m, t, t.conj())
      else:
        m = np.eye(ts[-1].shape[2])
        for t in reversed(ts[s + 1:]):
          m = np.einsum("ab,cia,dib->cd", m, t, t.conj())
      self.differ(dense(e), m, "left_envs" if left else "right_envs")
    return "ok"

  def do_transfer(self, rng):
    slot = self.pick(rng)
    if slot is None or self.backend == "symmetric":
      return "skip"
    site = rng.randrange(self.N)
    left = rng.random() < 0.5
    t = dense(slot.mps.tensors[site])
    k = t.shape[0] if left else t.shape[2]
    m = self.rand(rng, (k, k))
    self.touched = (slot, [(slot.psi, slot.center, slot.canon, False)])
    name = rng.choice([1, "l", "left"] if left else [-1, "r", "right"])
    got = slot.mps.apply_transfer_operator(site, name, m)
    want = np.einsum("ab,aic,bid->cd" if left else "ab,cia,dib->cd",
                     m, t, t.conj())
    self.differ(dense(got), want, "apply_transfer_operator")
    return "ok"

  def do_check_canonical(self, rng):
    slot = self.pick(rng, lambda s: s.center is not None)
    if slot is None:
      return "skip"
    self.touched = (slot, [(slot.psi, slot.center, slot.canon, False)])
    got = float(np.real(dense(slot.mps.check_canonical())))
    dev = 0.0
    for i in range(self.N):
      if i != slot.center:
        a = dense(slot.mps.tensors[i])
        m = a.reshape(-1, a.shape[2]) if i < slot.center else a.reshape(
            a.shape[0], -1).conj().T
        g = m.conj().T @ m
        dev += float(np.sum(np.abs(g - np.eye(g.shape[0]))**2))
    self.differ(got, np.sqrt(dev), "check_canonical", scale=1e-2)
    site = rng.randrange(self.N)
    side = rng.choice(["l", "r", "left", "right"])
    got = float(np.real(dense(slot.mps.check_orthonormality(side, site))))
    a = dense(slot.mps.tensors[site])
    m = a.reshape(-1, a.shape[2]) if side[0] == "l" else a.reshape(
        a.shape[0], -1).conj().T
    g = m.conj().T @ m
    self.differ(got, np.linalg.norm(g - np.eye(g.shape[0])),
                "check_orthonormality", scale=1e-2)
    return "ok"

  def do_hold(self, rng):
    """The user keeps references to current tensors."""
    slot = self.pick(rng)
    if slot is None:
      return "skip"
    for i in range(self.N):
      t = slot.mps.get_tensor(i)
      self.differ(dense(t), dense(slot.mps.tensors[i]), "get_tensor")
      self.hold(t)
    return "ok"

  def do_bad(self, rng):
    """A refused call changes nothing."""
    slot = self.pick(rng)
    if slot is None:
      return "skip"
    m, n = slot.mps, self.N
    self.touched = (slot, [(slot.psi, slot.center, slot.canon, False)])
    g1 = self.one_op(rng, 0)
    calls = [lambda: m.position(n), lambda: m.position(-1),
             lambda: m.position(0, max_truncation_err=1.5),
             lambda: m.apply_one_site_gate(g1, n),
             lambda: m.apply_one_site_gate(g1, -1),
             lambda: m.measure_local_operator([g1], [0, 0]),
             lambda: m.measure_local_operator([g1], [n]),
             lambda: m.measure_two_body_correlator(g1, g1, -1, [0]),
             lambda: m.measure_two_body_correlator(g1, g1, n, [0]),
             lambda: m.left_envs([-1]), lambda: m.right_envs([n]),
             lambda: m.apply_two_site_gate(g1, 0, 1),
             lambda: m.check_orthonormality("x", 0)]
    if n > 1:
      g2 = self.two_op(rng, 0)
      calls += [lambda: m.apply_two_site_gate(g2, n - 1, n),
                lambda: m.apply_two_site_gate(g2, 1, 0),
                lambda: m.apply_two_site_gate(g2, 0, 1, center_position=2)]
      if slot.center is None or slot.center not in (0, 1):
        calls += [lambda: m.apply_two_site_gate(g2, 0, 1,
                                                max_singular_values=2)]
    if slot.center is None:
      calls += [m.check_canonical, lambda: m.position(0)]
    i = rng.randrange(len(calls))
    try:
      calls[i]()
    except (ValueError, IndexError):
      self.after_fault("refused call")
      self.ctx.probe("refused")
      return "ok"
    raise Violation("accepted-bad-call", "call %d" % i)


OPS = [("new", 3), ("position", 6), ("canonicalize", 2), ("one_site_gate", 3),
       ("two_site_gate", 5), ("measure_local", 3), ("correlator", 3),
       ("envs", 3), ("transfer", 1), ("check_canonical", 2), ("hold", 1),
       ("bad", 1)]


def gen_ops(rng, n, faults=0.0, ops=OPS):
  names = [o for o, w in ops for _ in range(w)]
  out = [{"op": "new", "r": rng.getrandbits(32)}]
  for _ in range(n):
    op = {"op": rng.choice(names), "r": rng.getrandbits(32)}
    if rng.random() < faults:
      op["fault"] = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 25, 40])
      op["kind"] = rng.choice(["oom", "linalg"])
      op["retry"] = rng.random() < 0.8
    out.append(op)
  return out
