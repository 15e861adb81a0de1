"""Histories of operations on infinite (uniform) matrix product states.

The model is the tensor of one unit cell (left bond, physical legs, right bond)
up to a change of gauge; states are compared by the dominant eigenvalue of the
mixed transfer matrix and by the reduced density matrix of a cell.
"""
import random
import warnings

import numpy as np

from sim.core import Violation
from sim.mpssim import on_bond, on_site
from sim.seams import SimLinAlgError, SimOOM

OPS = (["position"] * 4 + ["canonicalize"] * 4 + ["gate1"] * 2 + ["gate2"] * 3 +
       ["eigs"] * 3 + ["transfer"] * 2 + ["truncate", "new", "share", "check",
                                         "misuse", "noncanon", "padded",
                                         "padded"])


def gen_ops(rng, n, faults=0.0):
  ops = []
  for _ in range(n):
    op = {"op": rng.choice(OPS), "r": rng.getrandbits(32)}
    if rng.random() < faults:
      op["fault"] = 1 + int(rng.expovariate(1 / rng.choice([3, 20, 60])))
      op["kind"] = rng.choice(["oom", "linalg"])
      op["retry"] = rng.random() < 0.5
    ops.append(op)
  return ops


def cell(mps):
  out = np.asarray(mps.tensors[0])
  for t in mps.tensors[1:]:
    t = np.asarray(t)
    if out.shape[-1] != t.shape[0]:
      raise Violation("bond-mismatch", "%d and %d" % (out.shape[-1],
                                                      t.shape[0]))
    out = np.tensordot(out, t, 1)
  if mps.connector_matrix is not None:
    out = np.tensordot(out, np.asarray(mps.connector_matrix), 1)
  if out.shape[0] != out.shape[-1]:
    raise Violation("bond-mismatch", "cell %s" % (out.shape,))
  if not np.all(np.isfinite(out)):
    raise Violation("not-finite", "the state has nan or inf")
  return out


def flat(c):
  return c.reshape(c.shape[0], -1, c.shape[-1])


def transfer(a, b):
  """Matrix of the mixed transfer operator, ((l, l'), (r, r'))."""
  a, b = flat(a), flat(b)
  m = np.einsum("asb,csd->acbd", a, b.conj())
  return m.reshape(a.shape[0] * b.shape[0], -1)


def spectral_radius(m):
  return float(np.max(np.abs(np.linalg.eigvals(m))))


def fixed_points(c):
  m = transfer(c, c)
  d = c.shape[0]
  w, v = np.linalg.eig(m)
  order = np.argsort(-np.abs(w))
  r = v[:, order[0]].reshape(d, d)
  w2, v2 = np.linalg.eig(m.T)
  l = v2[:, np.argmax(np.abs(w2))].reshape(d, d)
  gap = abs(w[order[1]]) / abs(w[order[0]]) if len(w) > 1 else 0.0
  r, l = r / np.trace(r), l / np.trace(l)
  return float(np.abs(w[order[0]])), l, r, gap


def cell_rho(c):
  lam, l, r, _ = fixed_points(c)
  a = flat(c)
  rho = np.einsum("ab,asc,btd,cd->st", l, a, a.conj(), r)
  return rho / np.trace(rho), lam


def schmidt(c):
  """Schmidt values across the boundary of the cell, normalized."""
  _, l, r, _ = fixed_points(c)
  w, u = np.linalg.eigh((l + l.conj().T) / 2)
  sl = (u * np.sqrt(np.maximum(w, 0))) @ u.conj().T
  ev = np.linalg.eigvals(sl.T @ ((r + r.conj().T) / 2) @ sl.T)
  s = np.sqrt(np.maximum(np.sort(ev.real)[::-1], 0))
  return s / np.linalg.norm(s)


class InfSim:

  def __init__(self, plan, ctx, faults=None):
    from tensornetwork.matrixproductstates.infinite_mps import InfiniteMPS
    self.cls = InfiniteMPS
    self.plan, self.ctx, self.faults = plan, ctx, faults
    self.dtype = np.dtype(plan["dtype"])
    self.N = plan["N"]
    self.held = []
    rng = random.Random(plan["data_seed"])
    self.d = [rng.choice([1, 2, 2, 3]) if plan["varied"] else 2
              for _ in range(self.N)]
    while np.prod(self.d) > 30:
      self.d[self.d.index(max(self.d))] = 2
    self.others = []
    self.make(rng)

  def gen(self, rng):
    return np.random.RandomState(rng.getrandbits(32))

  def rand(self, rng, shape):
    g = self.gen(rng)
    a = g.standard_normal(shape)
    if self.dtype.kind == "c":
      a = a + 1j * g.standard_normal(shape)
    return a.astype(self.dtype)

  def make(self, rng):
    for attempt in range(20):
      D = [rng.randrange(1, self.plan["maxD"] + 1) for _ in range(self.N)]
      if attempt > 12:
        D = [1] * self.N
      D.append(D[0])
      # the cell has to be able to carry the bond
      ts = [self.rand(rng, (D[i], self.d[i], D[i + 1])) for i in range(self.N)]
      if rng.random() < 0.3:
        mps = self.cls.random(self.d, D, dtype=self.dtype, backend="numpy")
      else:
        conn = self.rand(rng, (D[0], D[0])) if rng.random() < 0.3 else None
        center = rng.randrange(self.N)
        for t in ts:
          self.hold(t)
        if conn is not None:
          self.hold(conn)
        mps = self.cls(ts, center_position=center, connector_matrix=conn,
                       backend="numpy")
      c = cell(mps)
      if self.good(c):
        self.mps, self.ref = mps, c
        return
    raise AssertionError("harness: no injective state")

  def good(self, c):
    """Well conditioned: unique fixed points of full rank."""
    lam, l, r, gap = fixed_points(c)
    if gap > 0.9 or not 1e-8 < lam < 1e8:
      return False
    lo = [np.linalg.eigvalsh((x + x.conj().T) / 2) for x in (l, r)]
    return all(w[0] > 1e-5 * w[-1] for w in lo)

  def hold(self, a):
    self.held.append((a, a.copy()))
    del self.held[:-20]

  # ---- comparing -----------------------------------------------------------
  def same_state(self, got, want, what, scale_too=False):
    sig = "wrong-state"
    if got.shape[1:-1] != want.shape[1:-1]:
      raise Violation("wrong-shape", "%s after %s" % (got.shape, what))
    lg, lw = [spectral_radius(transfer(x, x)) for x in (got, want)]
    f = spectral_radius(transfer(got, want)) / np.sqrt(lg * lw)
    if not abs(f - 1) < 1e-7:
      raise Violation(sig, "fidelity %.10g after %s" % (f, what))
    rg, rw = cell_rho(got)[0], cell_rho(want)[0]
    e = float(np.max(np.abs(rg - rw)))
    if not e < 1e-6:
      raise Violation(sig, "density matrix differs by %.3g after %s" % (e, what))
    if scale_too and not abs(lg / lw - 1) < 1e-7:
      raise Violation("wrong-norm", "%.10g instead of %.10g after %s" %
                      (lg, lw, what))

  def check(self, what):
    m = self.mps
    if m.center_position is not None and not (
        0 <= m.center_position < self.N):
      raise Violation("wrong-center", str(m.center_position))
    if list(m.physical_dimensions) != self.d or len(m) != self.N:
      raise Violation("wrong-shape", what)
    for t in m.tensors:
      if t.dtype != self.dtype:
        raise Violation("wrong-dtype", "%s after %s" % (t.dtype, what))
    if list(m.bond_dimensions) != [t.shape[0] for t in m.tensors] + [
        m.tensors[-1].shape[2]]:
      raise Violation("wrong-bond-dimensions", what)
    self.same_state(cell(m), self.ref, what)
    for a, b in self.held:
      if not np.array_equal(a, b):
        raise Violation("mutated-user-array", "by " + what)
    for o, c in self.others:
      self.same_state(cell(o), c, "another mps, " + what, scale_too=True)

  def summary(self):
    m = self.mps
    return [[list(t.shape) for t in m.tensors], m.center_position,
            m.connector_matrix is not None]

  # ---- running -------------------------------------------------------------
  def step(self, op):
    if self.step1(op) == "fault" and op.get("retry"):
      self.ctx.probe("retried")
      self.step1({k: op[k] for k in ("op", "r")})

  def step1(self, op):
    rng = random.Random(op["r"])
    name = op["op"]
    self.ctx.ticks += 1
    if op.get("fault") is not None and self.faults is not None:
      self.faults.arm(op["fault"], op.get("kind", "oom"))
    keep = self.mps, self.ref
    try:
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = getattr(self, "do_" + name)(rng)
    except (SimOOM, SimLinAlgError) as e:
      if self.faults is None or self.faults.disarm() is None:
        raise
      self.ctx.fault("no-convergence" if isinstance(e, SimLinAlgError)
                     else "alloc")
      self.ctx.nontrivial = True
      self.mps, self.ref = keep
      self.check("a failed " + name)
      self.ctx.log(name, "failed", self.summary())
      return "fault"
    finally:
      if self.faults is not None:
        self.faults.disarm()
    if res == "skip":
      self.ctx.log(name, "skip")
      return "skip"
    self.ctx.op(name)
    self.ctx.nontrivial = True
    self.check(name)
    s = self.summary()
    self.ctx.log(name, s)
    self.ctx.state(s)
    return "ok"

  # ---- operations ----------------------------------------------------------
  def do_new(self, rng):
    self.make(rng)

  def do_share(self, rng):
    """Another state made of the same arrays."""
    m = self.mps
    o = self.cls(list(m.tensors), center_position=m.center_position,
                 connector_matrix=m.connector_matrix, backend="numpy")
    self.others = [(o, cell(o))]
    if rng.random() < 0.5:
      self.mps, self.others = o, [(m, cell(m))]

  def do_position(self, rng):
    site = rng.randrange(self.N)
    norm = rng.random() < 0.5
    before = cell(self.mps)
    if self.mps.center_position is None:
      try:
        self.mps.position(site)
      except ValueError:
        return None
      raise Violation("misuse-accepted", "position without a center")
    self.mps.position(site, normalize=norm)
    if self.mps.center_position != site:
      raise Violation("wrong-center", "position(%d)" % site)
    if not norm:
      self.same_state(cell(self.mps), before, "position", scale_too=True)

  def do_noncanon(self, rng):
    self.mps.center_position = None if rng.random() < 0.5 else rng.randrange(
        self.N)

  def do_canonicalize(self, rng):
    kw = {}
    D0 = self.mps.bond_dimensions[0]
    if not self.good(self.ref):
      return "skip"
    if rng.random() < 0.4:
      kw["left_initial_state"] = self.rand(rng, (D0, D0))
    if rng.random() < 0.4:
      kw["right_initial_state"] = self.rand(rng, (D0, D0))
    for v in kw.values():
      self.hold(v)
    want = schmidt(self.ref)
    self.mps.canonicalize(**kw)
    self.after_canonicalize(want)

  def do_padded(self, rng):
    """The same state with a larger bond than it needs is canonicalized."""
    if not self.good(self.ref):
      return "skip"
    m = self.mps
    ts = [np.array(t) for t in m.tensors]
    if m.connector_matrix is not None:
      ts[-1] = np.tensordot(ts[-1], np.asarray(m.connector_matrix), 1)
    ts[0] = ts[0] / np.sqrt(fixed_points(self.ref)[0])
    D0 = ts[0].shape[0]
    for _ in range(rng.choice([1, 1, 2])):
      # blocks [[A, X], [0, 0]] or [[A, 0], [X, 0]]: one fixed point loses rank
      p = rng.randrange(1, 3)
      first, last = ts[0], ts[-1]
      if self.N == 1:
        D, d = first.shape[0], first.shape[1]
        new = np.zeros((D + p, d, D + p), dtype=self.dtype)
        new[:D, :, :D] = first
        if rng.random() < 0.5:
          new[:D, :, D:] = self.rand(rng, (D, d, p))
        else:
          new[D:, :, :D] = self.rand(rng, (p, d, D))
        ts = [new]
        continue
      pf = np.zeros((p,) + first.shape[1:], dtype=self.dtype)
      pl = np.zeros(last.shape[:2] + (p,), dtype=self.dtype)
      if rng.random() < 0.5:
        pf = self.rand(rng, pf.shape)
      else:
        pl = self.rand(rng, pl.shape)
      ts[0] = np.concatenate([first, pf], axis=0)
      ts[-1] = np.concatenate([last, pl], axis=2)
    D = ts[0].shape[0]
    if D > 8:
      return "skip"
    g = np.linalg.qr(self.rand(rng, (D, D)))[0] * self.gen(rng).uniform(
        0.5, 2.0, D)
    ts[0] = np.tensordot(g, ts[0], 1).astype(self.dtype)
    ts[-1] = np.tensordot(ts[-1], np.linalg.inv(g), 1).astype(self.dtype)
    new = self.cls(ts, center_position=rng.randrange(self.N), backend="numpy")
    c = cell(new)
    lam, l, r, gap = fixed_points(c)
    if gap > 0.9 or not abs(lam - 1) < 1e-6:
      return "skip"
    for x in (l, r):
      w = np.linalg.eigvalsh((x + x.conj().T) / 2)
      w = np.abs(w) / np.linalg.norm(w)
      if np.any((w > 1e-11) & (w < 1e-4)):
        return "skip"
    for t in ts:
      self.hold(t)
    want = schmidt(self.ref)
    lo = want[-1]
    if want.size != D0 or lo < 1e-3:
      return "skip"
    # (eigenvalues of the order of the rounding errors are the user's to cut)
    kw = dict(pseudo_inverse_cutoff=1e-7, truncation_threshold=1e-6)
    if rng.random() < 0.3:
      kw["D"] = D0
    new.canonicalize(**kw)
    self.mps = new
    self.ctx.probe("canonicalized-with-spare-bond")
    if new.bond_dimensions[0] != D0:
      raise Violation("wrong-bond-dimensions", "%s for a state of bond %d" %
                      (new.bond_dimensions, D0))
    self.after_canonicalize(want)
    return [D0, D]

  def after_canonicalize(self, want):
    m = self.mps
    if m.center_position != self.N - 1:
      raise Violation("wrong-center", "canonicalize: %s" % m.center_position)
    c = cell(m)
    lam = spectral_radius(transfer(c, c))
    if not abs(lam - 1) < 1e-6:
      raise Violation("not-normalized", "after canonicalize: %.10g" % lam)
    for s in range(self.N):
      t = np.asarray(m.get_tensor(s))
      a = t.reshape(-1, t.shape[2])
      e = float(np.max(np.abs(a.conj().T @ a - np.eye(a.shape[1]))))
      if not e < 1e-6:
        raise Violation("not-canonical", "site %d deviates by %.3g after "
                        "canonicalize" % (s, e))
      if float(np.abs(m.check_orthonormality("left", s))) > 1e-5:
        raise Violation("wrong-value:check_orthonormality", "")
    s = 1.0 / np.abs(np.diag(np.asarray(m.connector_matrix)))
    off = np.asarray(m.connector_matrix)
    if np.max(np.abs(off - np.diag(np.diag(off)))) > 1e-6 * np.max(np.abs(off)):
      raise Violation("not-canonical", "the connector is not diagonal")
    s = np.sort(s)[::-1]
    if s.shape != want.shape or not np.max(np.abs(s - want)) < 1e-5:
      raise Violation("wrong-schmidt-values", "%s instead of %s" % (s, want))

  def do_truncate(self, rng):
    D0 = self.mps.bond_dimensions[0]
    if D0 < 2 or not self.good(self.ref):
      return "skip"
    D = rng.randrange(1, D0)
    self.mps.canonicalize(D=D)
    if self.mps.bond_dimensions[0] != D or self.mps.bond_dimensions[-1] != D:
      raise Violation("wrong-bond-dimensions", "canonicalize(D=%d) gave %s" %
                      (D, self.mps.bond_dimensions))
    s = np.asarray(self.mps.connector_matrix)
    w = 1 / np.abs(np.diag(s))
    want = schmidt(self.ref)[:D]
    want = want / np.linalg.norm(want)
    if not np.max(np.abs(np.sort(w)[::-1] - want)) < 1e-5:
      raise Violation("wrong-schmidt-values", "truncated: %s instead of %s" %
                      (w, want))
    self.ref = cell(self.mps)
    if not self.good(self.ref):
      self.make(rng)

  def invertible(self, rng, k):
    a = np.linalg.qr(self.rand(rng, (k, k)))[0]
    if rng.random() < 0.5:
      a = a @ np.diag(1 + 0.5 * self.gen(rng).random_sample(k))
    return a.astype(self.dtype)

  def do_gate1(self, rng):
    site = rng.randrange(self.N)
    g = self.invertible(rng, self.d[site])
    self.hold(g)
    want = on_site(g, self.ref, site)
    self.mps.apply_one_site_gate(g, site)
    self.ref = want

  def do_gate2(self, rng):
    if self.N < 2:
      return "skip"
    site = rng.randrange(self.N - 1)
    a, b = self.d[site], self.d[site + 1]
    if max(t.size for t in self.mps.tensors) > 400:
      return "skip"
    g = self.invertible(rng, a * b).reshape(a, b, a, b)
    self.hold(g)
    want = on_bond(g, self.ref, site)
    kw = {}
    c = self.mps.center_position
    if rng.random() < 0.5:
      kw["center_position"] = rng.choice([site, site + 1])
    if c in (site, site + 1) and rng.random() < 0.5:
      kw["max_singular_values"] = 1000
    self.mps.apply_two_site_gate(g, site, site + 1, **kw)
    if c is not None:
      exp = kw.get("center_position", site) if c in (site, site + 1) else None
      if self.mps.center_position != exp:
        raise Violation("wrong-center", "gate: %s instead of %s" %
                        (self.mps.center_position, exp))
    self.ref = want

  def do_eigs(self, rng):
    if not self.good(self.ref):
      return "skip"
    way = rng.choice(["left", "right", "l", "r", 1, -1])
    left = way in ("left", "l", 1)
    D0 = self.mps.bond_dimensions[0]
    kw = {}
    if rng.random() < 0.5:
      kw["initial_state"] = self.rand(rng, (D0, D0))
      self.hold(kw["initial_state"])
    eta, v = self.mps.transfer_matrix_eigs(way, **kw)
    c = cell(self.mps)
    m = transfer(c, c)
    v = np.asarray(v)
    if v.shape != (D0, D0):
      raise Violation("wrong-shape", "eigs: %s" % (v.shape,))
    x = v.reshape(-1)
    y = (m.T if left else m) @ x
    lam = spectral_radius(m)
    if not abs(complex(eta) - lam) < 1e-6 * lam:
      raise Violation("wrong-eigenvalue", "%s instead of %.10g" % (eta, lam))
    if not np.linalg.norm(y - lam * x) < 1e-5 * lam * np.linalg.norm(x):
      raise Violation("wrong-eigenvector", "direction %s" % way)

  def do_transfer(self, rng):
    way = rng.choice(["left", "right", "l", "r", 1, -1])
    left = way in ("left", "l", 1)
    if rng.random() < 0.5:
      D = self.mps.bond_dimensions[0]
      x = self.rand(rng, (D, D))
      a = flat(cell(self.mps))
      got = self.mps.unit_cell_transfer_operator(way, x)
    else:
      s = rng.randrange(self.N)
      a = np.asarray(self.mps.get_tensor(s))
      if s == self.N - 1 and self.mps.connector_matrix is not None:
        b = np.tensordot(np.asarray(self.mps.tensors[s]),
                         np.asarray(self.mps.connector_matrix), 1)
        if not np.allclose(a, b, atol=1e-10 * np.max(np.abs(b))):
          raise Violation("wrong-value:get_tensor", "")
      D = a.shape[0] if left else a.shape[2]
      x = self.rand(rng, (D, D))
      got = self.mps.apply_transfer_operator(s, way, x)
    self.hold(x)
    if left:
      want = np.einsum("asb,ac,csd->bd", a, x, a.conj())
    else:
      want = np.einsum("asb,bd,csd->ac", a, x, a.conj())
    got = np.asarray(got)
    if got.shape != want.shape or not np.max(np.abs(got - want)) < \
        1e-8 * max(1e-300, np.max(np.abs(want))):
      raise Violation("wrong-value:transfer", "direction %s" % way)

  def do_check(self, rng):
    s = rng.randrange(self.N)
    which = rng.choice(["l", "left", "r", "right"])
    got = float(np.abs(self.mps.check_orthonormality(which, s)))
    t = np.asarray(self.mps.get_tensor(s))
    if which[0] == "l":
      a = t.reshape(-1, t.shape[2])
      g = a.conj().T @ a
    else:
      a = t.reshape(t.shape[0], -1)
      g = a @ a.conj().T
    want = float(np.linalg.norm(g - np.eye(len(g))))
    if not abs(got - want) < 1e-7 * max(1.0, want):
      raise Violation("wrong-value:check_orthonormality", "%g instead of %g" %
                      (got, want))

  def do_misuse(self, rng):
    k = rng.randrange(5)
    try:
      if k == 0:
        self.cls.random([2, 2], [2, 3], dtype=self.dtype, backend="numpy")
      elif k == 1:
        self.cls.random([2], [2, 3], dtype=self.dtype, backend="numpy")
      elif k == 2:
        self.mps.get_tensor(self.N)
      elif k == 3:
        self.mps.apply_one_site_gate(np.eye(2, dtype=self.dtype), self.N)
      else:
        self.mps.check_orthonormality("up", 0)
    except (ValueError, IndexError):
      return
    raise Violation("misuse-accepted", "kind %d" % k)
