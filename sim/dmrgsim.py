"""Histories of DMRG runs on one MPS, checked against dense linear algebra."""
import contextlib
import io
import itertools
import random
import warnings

import numpy as np

from sim.core import Violation
from sim.mpssim import dense, dense_state, on_bond, on_site
from sim.seams import SimLinAlgError, SimOOM

OPS = (["one_site"] * 6 + ["two_site"] * 5 + ["position"] * 4 + ["energy"] * 2 +
       ["sweeps"] * 2 + ["mps_position", "mps_gate", "mps_gate2", "restart", "other_mpo",
        "boundary"])


def gen_ops(rng, n, faults=0.0):
  ops = []
  for _ in range(n):
    op = {"op": rng.choice(OPS), "r": rng.getrandbits(32)}
    if rng.random() < faults:
      op["fault"] = 1 + int(rng.expovariate(1 / rng.choice([4, 30, 150])))
      op["kind"] = rng.choice(["oom", "linalg"])
      op["retry"] = rng.random() < 0.5
    ops.append(op)
  return ops


def mpo_matrix(tensors):
  out = np.ones((1, 1, 1))
  for t in tensors:
    w = dense(t)
    out = np.einsum("aij,abkl->bikjl", out, w)
    out = out.reshape(out.shape[0], out.shape[1] * out.shape[2], -1)
  return out[0]


class DMRGSim:

  def __init__(self, plan, ctx, faults=None):
    import tensornetwork as tn
    from tensornetwork.matrixproductstates import dmrg
    self.tn = tn
    self.mod = dmrg
    self.plan = plan
    self.ctx = ctx
    self.faults = faults
    self.dtype = np.dtype(plan["dtype"])
    self.sym = plan["backend"] == "symmetric"
    self.N = plan["N"]
    self.d = plan["d"]
    rng = random.Random(plan["data_seed"])
    self.held = []
    if self.sym:
      self.q = [0, 1] if self.d == 2 else [-1, 0, 1]
      self.setup_sector(rng)
    self.new_mpo(rng)
    self.new_mps(rng)
    self.start()

  # ---- construction --------------------------------------------------------
  def gen(self, rng):
    return np.random.RandomState(rng.getrandbits(32))

  def rand(self, rng, shape):
    g = self.gen(rng)
    a = g.standard_normal(shape)
    if self.dtype.kind == "c":
      a = a + 1j * g.standard_normal(shape)
    return a.astype(self.dtype)

  def herm(self, rng):
    a = self.rand(rng, (self.d, self.d))
    return (a + a.conj().T) / 2

  def new_mpo(self, rng):
    n, d = self.N, self.d
    from tensornetwork.matrixproductstates.mpo import FiniteMPO, FiniteXXZ, \
        FiniteTFI
    kind = rng.choice(["random", "random", "xxz", "tfi"])
    g = self.gen(rng)
    eye = np.eye(d)
    if self.sym:
      # conserves the charge: hopping, density-density, potential
      dq = 1
      up = np.diag(np.ones(d - 1), -1)     # raises the charge by one
      nn = np.diag(g.standard_normal(d))
      ops = [(up, up.T, dq), (up.T, up, -dq), (nn, nn, 0)]
      ws = []
      amp = g.standard_normal(n)
      ph = np.exp(1j * g.standard_normal(n)) if self.dtype.kind == "c" else \
          np.ones(n)
      zz = g.standard_normal(n)
      coef = [[a * p, a * np.conj(p), z] for a, p, z in zip(amp, ph, zz)]
      loc = [np.diag(g.standard_normal(d)) for _ in range(n)]
    elif kind == "random" or d != 2 or n < 2:
      k = rng.choice([1, 2])
      mats = [[self.herm(rng) for _ in range(k)] for _ in range(2)]
      ops = [(mats[0][a], mats[1][a], 0) for a in range(k)]
      coef = [g.standard_normal(k) for _ in range(n)]
      loc = [self.herm(rng) for _ in range(n)]
    elif kind == "xxz":
      mpo = FiniteXXZ(g.standard_normal(n - 1), g.standard_normal(n - 1),
                      g.standard_normal(n), dtype=self.dtype, backend="numpy")
      return self.set_mpo(mpo)
    else:
      mpo = FiniteTFI(g.standard_normal(n - 1), g.standard_normal(n),
                      dtype=self.dtype, backend="numpy")
      return self.set_mpo(mpo)
    k = len(ops)
    bondq = [0] + [o[2] for o in ops] + [0]
    ws = []
    for i in range(n):
      w = np.zeros((k + 2, k + 2, d, d), dtype=self.dtype)
      w[0, 0] = w[k + 1, k + 1] = eye
      w[k + 1, 0] = loc[i]
      for a, (x, y, _) in enumerate(ops):
        w[k + 1, a + 1] = coef[i][a] * x
        w[a + 1, 0] = y
      lq, rq = bondq, bondq
      if i == 0:
        w, lq = w[k + 1:], [0]
      if i == n - 1:
        w, rq = w[:, :1], [0]
      ws.append(self.symmetrize(w, lq, rq) if self.sym else w)
    self.set_mpo(FiniteMPO(ws, backend=self.plan["backend"]))

  def symmetrize(self, w, lq, rq):
    from tensornetwork.block_sparse import BlockSparseTensor, Index, U1Charge
    def ix(q, f):
      return Index(U1Charge(np.asarray(q, dtype=np.int16)), f)
    t = BlockSparseTensor.fromdense(
        [ix(lq, False), ix(rq, True), ix(self.q, False), ix(self.q, True)], w)
    if not np.allclose(t.todense(), w):
      raise AssertionError("harness: MPO is not symmetric")
    return t

  def set_mpo(self, mpo):
    self.mpo = mpo
    self.h = mpo_matrix(mpo.tensors)
    if np.max(np.abs(self.h - self.h.conj().T)) > 1e-9:
      raise AssertionError("harness: H is not hermitian")
    if self.sym:
      h = self.h[np.ix_(self.sector, self.sector)]
    else:
      h = self.h
    self.evals = np.linalg.eigvalsh(h)
    self.scale = max(1.0, float(np.max(np.abs(self.evals))))
    for t in mpo.tensors:
      self.hold(t)

  def setup_sector(self, rng):
    tot = [sum(c) for c in itertools.product(self.q, repeat=self.N)]
    self.total = rng.choice(tot)
    self.sector = [i for i, t in enumerate(tot) if t == self.total]

  def new_mps(self, rng):
    n, d = self.N, self.d
    if not self.sym:
      dims = [1] + [rng.randrange(1, self.plan["maxD"] + 1)
                    for _ in range(n - 1)] + [1]
      ts = [self.rand(rng, (dims[i], d, dims[i + 1])) for i in range(n)]
    else:
      from tensornetwork.block_sparse import BlockSparseTensor, Index, U1Charge
      def reach(k):
        return {sum(c) for c in itertools.product(self.q, repeat=k)}
      bonds = [[0]]
      for i in range(1, n):
        ok = sorted({a + b for a in bonds[-1] for b in self.q} &
                    {self.total - x for x in reach(n - i)})
        k = rng.randrange(1, self.plan["maxD"] + 1)
        bonds.append([rng.choice(ok) for _ in range(k)])
      bonds.append([self.total])
      def ix(q, f):
        return Index(U1Charge(np.asarray(q, dtype=np.int16)), f)
      ts = []
      for i in range(n):
        t = BlockSparseTensor.random(
            [ix(bonds[i], False), ix(self.q, False), ix(bonds[i + 1], True)],
            dtype=self.dtype)
        t.data = self.rand(rng, t.data.shape)
        ts.append(t)
    for t in ts:
      self.hold(t)
    self.mps = self.tn.FiniteMPS(ts, canonicalize=True,
                                 backend=self.plan["backend"])

  def start(self):
    self.dmrg = self.tn.FiniteDMRG(self.mps, self.mpo)
    self.fresh = True     # no environments have been computed yet
    self.complete = False  # the last operation computed all environments
    self.envs_ok = self.N == 1
    self.complete = False
    self.psi = self.read()

  # ---- checks --------------------------------------------------------------
  def hold(self, t):
    a = t.data if hasattr(t, "todense") else t
    if isinstance(a, np.ndarray):
      self.held.append((a, a.copy()))
      del self.held[:-30]

  def read(self):
    p = dense_state(self.mps.tensors)
    if not np.all(np.isfinite(p)):
      raise Violation("not-finite", "the state has nan or inf")
    return p

  def energy(self, psi):
    v = psi.reshape(-1)
    return float(np.real(np.vdot(v, self.h @ v) / np.vdot(v, v)))

  def check_canonical(self, what):
    c = self.mps.center_position
    if c is None or not 0 <= c < self.N:
      raise Violation("wrong-center", "%s after %s" % (c, what))
    for i, t in enumerate(self.mps.tensors):
      if i == c:
        continue
      a = dense(t)
      m = a.reshape(-1, a.shape[2]) if i < c else a.reshape(
          a.shape[0], -1).conj().T
      g = m.conj().T @ m
      e = float(np.max(np.abs(g - np.eye(len(g)))))
      if not e < 1e-7:
        raise Violation("not-canonical", "site %d deviates by %.3g, center %d, "
                        "after %s" % (i, e, c, what))

  def check_envs(self, what):
    """Blocks up to the center are those of the current tensors."""
    if not self.envs_ok:
      return
    c = self.mps.center_position
    left = np.ones((1, 1, 1))
    for i in range(c + 1):
      if i in self.dmrg.left_envs:
        got = dense(self.dmrg.left_envs[i])
        self.close(got, left, "left environment", what)
      elif self.complete:
        raise Violation("missing-env", "left %d after %s" % (i, what))
      a, w = dense(self.mps.tensors[i]), dense(self.mpo.tensors[i])
      left = np.einsum("abc,bsd,aefs,cfg->edg", left, a, w, a.conj())
    right = np.ones((1, 1, 1))
    for i in range(self.N - 1, c - 1, -1):
      if i in self.dmrg.right_envs:
        got = dense(self.dmrg.right_envs[i])
        self.close(got, right, "right environment", what)
      elif self.complete:
        raise Violation("missing-env", "right %d after %s" % (i, what))
      a, w = dense(self.mps.tensors[i]), dense(self.mpo.tensors[i])
      right = np.einsum("edg,bsd,aefs,cfg->abc", right, a, w, a.conj())

  def close(self, got, want, name, what):
    if got.shape != want.shape or not np.max(np.abs(got - want)) < \
        1e-7 * max(1.0, float(np.max(np.abs(want)))):
      raise Violation("wrong-" + name.replace(" ", "-"), "after " + what)

  def check_held(self, what):
    for a, b in self.held:
      if not np.array_equal(a, b):
        raise Violation("mutated-user-array", "by " + what)

  def same_ray(self, a, b):
    a, b = a.reshape(-1), b.reshape(-1)
    if a.shape != b.shape:
      return False
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    return float(np.linalg.norm(a - b)) < 1e-7

  def check(self, what):
    self.check_held(what)
    self.check_canonical(what)
    self.check_envs(what)
    if len(self.dmrg.mps.tensors) != self.N or self.dmrg.mps is not self.mps:
      raise Violation("wrong-mps", what)
    for i, t in enumerate(self.mps.tensors):
      if dense(t).shape[1] != self.d:
        raise Violation("wrong-shape", "site %d" % i)
      if t.dtype != self.dtype:
        raise Violation("wrong-dtype", "site %d: %s" % (i, t.dtype))

  # ---- running -------------------------------------------------------------
  def step(self, op):
    res = self.step1(op)
    if res == "fault" and op.get("retry"):
      self.ctx.probe("retried")
      self.step1({k: op[k] for k in ("op", "r")})

  def step1(self, op):
    rng = random.Random(op["r"])
    name = op["op"]
    self.ctx.ticks += 1
    if op.get("fault") is not None and self.faults is not None:
      self.faults.arm(op["fault"], op.get("kind", "oom"))
    self.limit = None      # largest energy the state may have afterwards
    self.ray = False       # the state may not change
    e0 = self.energy(self.psi)
    out = io.StringIO()
    old = self.mod.stdout
    self.mod.stdout = out
    try:
      with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        res = getattr(self, "do_" + name)(rng, e0)
    except (SimOOM, SimLinAlgError) as e:
      if self.faults is None or self.faults.disarm() is None:
        raise
      self.ctx.fault("no-convergence" if isinstance(e, SimLinAlgError)
                     else "alloc")
      self.ctx.nontrivial = True
      self.failed(name)
      self.psi = self.read()
      self.ctx.log(name, "failed", self.summary())
      return "fault"
    finally:
      self.mod.stdout = old
      if self.faults is not None:
        self.faults.disarm()
    if res == "skip":
      self.ctx.log(name, "skip")
      return "skip"
    self.ctx.op(name)
    self.ctx.nontrivial = True
    if name in ("one_site", "two_site", "energy", "sweeps"):
      self.complete = True
    elif not self.envs_ok:
      self.complete = False
    self.check(name)
    psi = self.read()
    if self.ray and not self.same_ray(psi, self.psi):
      raise Violation("state-changed", "by " + name)
    self.psi = psi
    s = self.summary()
    self.ctx.log(name, s)
    self.ctx.state(s)
    return "ok"

  def failed(self, name):
    what = "a failed " + name
    # the environments are only promised where they are still complete
    self.check_held(what)
    self.check_canonical(what)
    psi = self.read()
    if not 1e-3 < np.linalg.norm(psi) < 1e3:
      raise Violation("corrupted-by-failure", "norm %.3g after %s" %
                      (np.linalg.norm(psi), what))
    if self.ray and not self.same_ray(psi, self.psi):
      raise Violation("corrupted-by-failure", "the state changed in " + what)
    if self.limit is not None:
      e = self.energy(psi)
      if e > self.limit + 1e-6 * self.scale:
        raise Violation("corrupted-by-failure", "energy %.10g above %.10g "
                        "after %s" % (e, self.limit, what))
    # where environments exist up to the center they must be right
    c = self.mps.center_position
    self.complete = False
    if self.envs_ok and all(i in self.dmrg.left_envs for i in range(c + 1)) \
        and all(i in self.dmrg.right_envs for i in range(c, self.N)):
      self.ctx.probe("envs complete after failure")
    self.check_envs(what)

  def summary(self):
    return [[list(dense(t).shape) for t in self.mps.tensors],
            self.mps.center_position, "%.4f" % self.energy(self.read())]

  def scalar(self, e, what):
    e = complex(np.asarray(e).reshape(()))
    if abs(e.imag) > 1e-7 * self.scale or not np.isfinite(e.real):
      raise Violation("bad-energy", "%s returned %s" % (what, e))
    return e.real

  # ---- operations ----------------------------------------------------------
  def params(self, rng):
    return dict(num_sweeps=rng.choice([1, 1, 2, 4]),
                precision=rng.choice([1e-6, 1e-10, 1e-2]),
                num_krylov_vecs=rng.choice([2, 4, 10, 20]),
                verbose=rng.choice([0, 0, 1, 2]),
                delta=rng.choice([1e-6, 1e-6, 1e-4]), tol=1e-8,
                ndiag=rng.choice([1, 3, 10]))

  def energies(self, e, e0, exact_state, what):
    e = self.scalar(e, what)
    if e < self.evals[0] - 1e-6 * self.scale:
      raise Violation("energy-below-ground-state", "%s: %.12g < %.12g" %
                      (what, e, self.evals[0]))
    if exact_state:
      got = self.energy(self.read())
      if abs(got - e) > 1e-6 * self.scale:
        raise Violation("wrong-energy", "%s returned %.12g, the state has "
                        "%.12g" % (what, e, got))
      if e > e0 + 1e-6 * self.scale:
        raise Violation("energy-increased", "%s: from %.12g to %.12g" %
                        (what, e0, e))
    return e

  def do_one_site(self, rng, e0):
    p = self.params(rng)
    self.limit = e0
    self.envs_ok = True
    e = self.dmrg.run_one_site(**p)
    e = self.energies(e, e0, True, "run_one_site")
    if self.N == 1 and p["num_krylov_vecs"] >= 10 and not self.sym:
      if e > self.evals[0] + 1e-4 * self.scale:
        raise Violation("not-ground-state", "single site")

  def do_two_site(self, rng, e0):
    if self.N < 2:
      return "skip"
    p = self.params(rng)
    full = rng.random() < 0.6
    maxd = 100 if full else rng.choice([1, 2, 3])
    complete = full and rng.random() < 0.5 and self.N <= 5
    if complete:
      p.update(num_sweeps=8, precision=1e-12, num_krylov_vecs=40, delta=1e-6,
               ndiag=1)
    if full:
      self.limit = e0
    self.envs_ok = True
    e = self.dmrg.run_two_site(maxd, **p)
    e = self.energies(e, e0, full, "run_two_site")
    ds = [dense(t).shape[0] for t in self.mps.tensors]
    if not full and max(ds[1:] or [1]) > maxd:
      raise Violation("bond-too-large", "%s with max_bond_dim %d" % (ds, maxd))
    if complete:
      self.ctx.probe("complete two-site run")
      # the central two-site problem of a chain of up to five sites is the
      # whole space; only an exactly orthogonal start could miss the minimum
      gap = e - self.evals[0]
      self.ctx.count("gap<1e-4" if gap < 1e-4 * self.scale else "gap>=1e-4")

  def twin(self):
    """An independent simulation of a copy of the current state."""
    ts = [t.copy() for t in self.mps.tensors]
    mps = self.tn.FiniteMPS(ts, canonicalize=False,
                            backend=self.plan["backend"])
    mps.center_position = self.mps.center_position
    return self.tn.FiniteDMRG(mps, self.mpo)

  def do_sweeps(self, rng, e0):
    """A run stops at the first sweep that changes the energy by less than
    the requested precision, and otherwise after the requested number."""
    p = self.params(rng)
    n = p["num_sweeps"] = rng.choice([2, 3, 4, 5])
    p["precision"] = rng.choice([1e-10, 1e-6, 1e-4, 1e-2, 1.0])
    two = self.N > 1 and rng.random() < 0.5
    maxd = rng.choice([1, 2, 3, 100])

    def run(sim, **kw):
      q = dict(p, **kw)
      return self.scalar(
          sim.run_two_site(maxd, **q) if two else sim.run_one_site(**q),
          "a run")

    es = []
    for k in range(1, n + 1):
      es.append(run(self.twin(), num_sweeps=k, precision=-1.0, verbose=0))
      if len(es) > 1 and abs(es[-1] - es[-2]) < p["precision"]:
        break
    near = [abs(b - a) for a, b in zip(es, es[1:])]
    # where the comparison is within rounding of the threshold, both are right
    if any(abs(x - p["precision"]) < 1e-9 * self.scale for x in near):
      return "skip"
    self.limit = e0 if not two or maxd == 100 else None
    self.envs_ok = True
    e = run(self.dmrg)
    self.energies(e, e0, not two or maxd == 100, "run")
    self.ctx.probe("converged early" if len(es) < n else "ran all sweeps")
    if abs(e - es[-1]) > 1e-9 * self.scale:
      raise Violation("wrong-number-of-sweeps",
                      "two=%s num_sweeps=%d precision=%g: energies per sweep "
                      "%s, the run returned %.14g" % (two, n, p["precision"],
                                                      es, e))

  def do_position(self, rng, e0):
    if not self.envs_ok and not self.fresh:
      return "skip"
    self.ray = True
    self.envs_ok = True
    site = rng.randrange(self.N)
    r = self.dmrg.position(site)
    if r is not self.dmrg or self.mps.center_position != site:
      raise Violation("wrong-center", "position(%d)" % site)

  def do_energy(self, rng, e0):
    self.ray = True
    self.envs_ok = True
    if rng.random() < 0.5:
      e = self.dmrg.compute_energy()
    elif rng.random() < 0.5 or self.N < 2:
      e = self.dmrg.run_one_site(num_sweeps=0)
    else:
      e = self.dmrg.run_two_site(3, num_sweeps=0)
    e = self.scalar(e, "compute_energy")
    if abs(e - e0) > 1e-7 * self.scale:
      raise Violation("wrong-energy", "compute_energy returned %.12g, the state "
                      "has %.12g" % (e, e0))

  def do_mps_position(self, rng, e0):
    self.ray = True
    self.envs_ok = self.fresh = False
    self.mps.position(rng.randrange(self.N))

  def unitary(self, rng, k):
    a = self.rand(rng, (k, k))
    return np.linalg.qr(a)[0].astype(self.dtype)

  def do_mps_gate(self, rng, e0):
    if self.sym:
      return "skip"
    u = self.unitary(rng, self.d)
    site = rng.randrange(self.N)
    want = on_site(u, self.psi, site)
    self.envs_ok = self.fresh = False
    self.mps.apply_one_site_gate(u, site)
    if not self.same_ray(self.read(), want):
      raise Violation("wrong-value:gate", "")

  def do_mps_gate2(self, rng, e0):
    if self.sym or self.N < 2:
      return "skip"
    d = self.d
    g = self.unitary(rng, d * d).reshape(d, d, d, d)
    site = rng.randrange(self.N - 1)
    c = site + rng.randrange(2)
    self.ray = True
    self.envs_ok = self.fresh = False
    self.mps.position(c)
    self.ray = False
    old = self.psi
    want = on_bond(g, old, site)
    try:
      self.mps.apply_two_site_gate(g, site, site + 1, center_position=c)
    except (SimOOM, SimLinAlgError):
      if not self.same_ray(self.read(), old):
        raise Violation("corrupted-by-failure", "two-site gate") from None
      raise
    if not self.same_ray(self.read(), want):
      raise Violation("wrong-value:gate", "")

  def do_restart(self, rng, e0):
    """A new simulation continues with the same mps."""
    self.ray = True
    name = self.tn.FiniteDMRG(self.mps, self.mpo, "again")
    self.dmrg = name
    self.fresh = True
    self.envs_ok = self.N == 1
    self.complete = False

  def do_other_mpo(self, rng, e0):
    """Another Hamiltonian for the same mps."""
    self.ray = True
    old = (self.mpo, self.h, self.evals, self.scale)
    try:
      self.new_mpo(rng)
      self.dmrg = self.tn.FiniteDMRG(self.mps, self.mpo)
    except (SimOOM, SimLinAlgError):
      self.mpo, self.h, self.evals, self.scale = old
      raise
    self.fresh = True
    self.envs_ok = self.N == 1
    self.complete = False

  def do_boundary(self, rng, e0):
    """Misuse is refused and changes nothing."""
    self.ray = True
    kind = rng.randrange(4)
    try:
      if kind == 0:
        self.dmrg.position(self.N)
      elif kind == 1:
        self.dmrg.position(-1)
      elif kind == 2:
        m = self.tn.FiniteMPS(list(self.mps.tensors), canonicalize=False,
                              backend=self.plan["backend"])
        m.center_position = None
        self.tn.FiniteDMRG(m, self.mpo)
      else:
        m = self.tn.FiniteMPS(list(self.mps.tensors) + [self.mps.tensors[-1]],
                              canonicalize=False, center_position=0,
                              backend=self.plan["backend"])
        self.tn.FiniteDMRG(m, self.mpo)
    except (IndexError, ValueError):
      return None
    raise Violation("misuse-accepted", "kind %d" % kind)
