"""Histories over built-in model Hamiltonians and rolled infinite MPOs.

The model of a Hamiltonian is the sum of its terms as Kronecker products,
computed from a private copy of the couplings (for fermions: with explicit
Jordan-Wigner strings, and the spectrum from the hopping matrix alone).
"""
import itertools
import random
import warnings

import numpy as np

from sim.core import Violation
from sim.mpssim import dense
from sim.seams import SimLinAlgError, SimOOM

OPS = (["xxz"] * 4 + ["tfi"] * 4 + ["fermions"] * 4 + ["inf"] * 2 +
       ["roll"] * 3 + ["energy"] * 4 + ["overwrite"] * 3 + ["drop", "refuse",
                                                            "sub"])
MAX = 6


def gen_ops(rng, n, faults=0.2):
  ops = []
  for _ in range(n):
    op = {"op": rng.choice(OPS), "r": rng.getrandbits(32)}
    if rng.random() < faults:
      op["fault"] = 1 + int(rng.expovariate(1 / rng.choice([2, 5, 20])))
      op["kind"] = rng.choice(["oom", "linalg"])
      op["retry"] = rng.random() < 0.6
    ops.append(op)
  return ops


def site_op(ops, n):
  """The operator with `ops[i]` on site i and the identity elsewhere."""
  out = np.ones((1, 1))
  for i in range(n):
    out = np.kron(out, ops.get(i, np.eye(2)))
  return out


SZ = np.diag([-0.5, 0.5])
SP = np.array([[0., 0.], [1., 0.]])        # raises: |0> -> |1>
SM = SP.T
X = np.array([[0., 1.], [1., 0.]])
Z = np.diag([-1., 1.])
STRING = np.diag([1., -1.])


def xxz(jz, jxy, bz):
  n = len(bz)
  h = np.zeros((2**n, 2**n), dtype=np.result_type(jz, jxy, bz, float))
  for i in range(n - 1):
    h = h + jz[i] * site_op({i: SZ, i + 1: SZ}, n)
    h = h + jxy[i] / 2 * (site_op({i: SP, i + 1: SM}, n) +
                          site_op({i: SM, i + 1: SP}, n))
  for i in range(n):
    h = h + bz[i] * site_op({i: SZ}, n)
  return h


def tfi(jx, bz):
  n = len(bz)
  h = np.zeros((2**n, 2**n), dtype=np.result_type(jx, bz, float))
  for i in range(n - 1):
    h = h + jx[i] * site_op({i: X, i + 1: X}, n)
  for i in range(n):
    h = h + bz[i] * site_op({i: Z}, n)
  return h


def grid_bonds(n1, n2):
  """((site, site), vertical) of a grid numbered along the vertical axis."""
  for b in range(n2):
    for a in range(n1):
      if a + 1 < n1:
        yield b * n1 + a, b * n1 + a + 1, True
      if b + 1 < n2:
        yield b * n1 + a, (b + 1) * n1 + a, False


def fermions(t1, t2, v, n1, n2):
  n = n1 * n2

  def annihilate(i):
    ops = {j: STRING for j in range(i)}
    ops[i] = SM
    return site_op(ops, n)

  c = [annihilate(i) for i in range(n)]
  h = np.zeros((2**n, 2**n))
  for i, j, vertical in grid_bonds(n1, n2):
    hop = (t1 if vertical else t2) * c[i].T @ c[j]
    h = h + hop + hop.T
  for i in range(n):
    h = h + v * c[i].T @ c[i]
  return h


def one_particle(t1, t2, v, n1, n2):
  m = np.eye(n1 * n2) * v
  for i, j, vertical in grid_bonds(n1, n2):
    m[i, j] = m[j, i] = t1 if vertical else t2
  return m


def matrix(tensors):
  """The operator of the chain (bra index first)."""
  out = np.ones((1, 1, 1))
  for t in tensors:
    w = dense(t)
    if w.ndim != 4 or w.shape[0] != out.shape[2]:
      raise Violation("bond-mismatch", "%s after %d" % (w.shape,
                                                        out.shape[2]))
    out = np.einsum("aij,abkl->bikjl", np.moveaxis(out, 2, 0), w)
    b, i, k, j, l = out.shape
    out = np.moveaxis(out.reshape(b, i * k, j * l), 0, 2)
  if out.shape[2] != 1:
    raise Violation("bond-mismatch", "right end %d" % out.shape[2])
  return out[:, :, 0]


class HamSim:

  def __init__(self, plan, ctx, faults=None):
    import tensornetwork as tn
    self.tn = tn
    from tensornetwork.matrixproductstates.mpo import FiniteMPO, InfiniteMPO
    self.finite, self.infinite = FiniteMPO, InfiniteMPO
    self.plan, self.ctx, self.faults = plan, ctx, faults
    self.backend = plan["backend"]
    self.pool = []          # [kind, mpo, matrix or list of tensors, arrays]

  # ---- values -------------------------------------------------------------
  def g(self, rng):
    return np.random.RandomState(rng.getrandbits(32))

  def couplings(self, rng, n):
    kind = rng.choice(["random", "random", "random", "constant", "sparse",
                       "integers"])
    g = self.g(rng)
    a = g.standard_normal(n)
    if kind == "constant":
      a = np.full(n, a[0] if n else 0.0)
    elif kind == "sparse":
      a = a * (g.rand(n) < 0.5)
    elif kind == "integers":
      return g.randint(-3, 4, size=n)
    return a

  def dt(self, rng):
    return np.dtype(rng.choice(["float64", "float64", "complex128",
                                "float32"]))

  def tol(self, dtype):
    return 1e-10 if np.dtype(dtype) in (np.float64, np.complex128) else 2e-5

  # ---- checks -------------------------------------------------------------
  def close(self, a, b, dtype, name, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
      raise Violation(name, "%s: shape %s, not %s" % (what, a.shape, b.shape))
    err = np.max(np.abs(a - b)) if a.size else 0.0
    if not err <= self.tol(dtype) * (1 + np.max(np.abs(b), initial=0)):
      raise Violation(name, "%s: off by %.3g" % (what, err))

  def check(self, item, what):
    kind, mpo, want = item[0], item[1], item[2]
    dtype = item[4]
    if str(np.dtype(mpo.tensors[0].dtype if self.backend == "numpy" else
                    np.asarray(mpo.tensors[0]).dtype)) != str(dtype):
      raise Violation("wrong-dtype", "%s %s: %s, not %s" %
                      (kind, what, mpo.tensors[0].dtype, dtype))
    if mpo.backend.name != self.backend:
      raise Violation("wrong-backend", "%s %s" % (kind, mpo.backend.name))
    shapes = [tuple(t.shape) for t in mpo.tensors]
    bonds = [s[0] for s in shapes] + [shapes[-1][1]]
    if [int(x) for x in mpo.bond_dimensions] != bonds:
      raise Violation("wrong-bonds", "%s: %s, not %s" %
                      (kind, mpo.bond_dimensions, bonds))
    if kind == "inf":
      if len(mpo) != len(want):
        raise Violation("wrong-length", "%s: %d" % (what, len(mpo)))
      for i, (t, w) in enumerate(zip(mpo, want)):
        self.close(np.asarray(t), w, dtype, "wrong-cell",
                   "tensor %d %s" % (i, what))
      return
    seen = [np.asarray(t).tobytes() for t in mpo.tensors]
    if len(item) > 5 and item[5] == seen:
      return          # bit for bit what was found right before
    self.close(matrix(mpo.tensors), want, dtype, "wrong-hamiltonian",
               "%s %s" % (item[3][1], what))
    item[5:] = [seen]

  def check_all(self, what):
    for i, item in enumerate(self.pool):
      self.check(item, what)

  # ---- running ------------------------------------------------------------
  def step(self, op):
    if self.step1(op) == "fault" and op.get("retry"):
      self.ctx.probe("retried")
      self.step1({k: op[k] for k in ("op", "r")})

  def step1(self, op):
    rng = random.Random(op["r"])
    name = op["op"]
    self.ctx.ticks += 1
    before = list(self.pool)
    if op.get("fault") is not None and self.faults is not None:
      self.faults.arm(op["fault"], op.get("kind", "oom"))
    try:
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = getattr(self, "do_" + name)(rng)
    except (SimOOM, SimLinAlgError) as e:
      if self.faults is None or self.faults.disarm() is None:
        raise
      self.ctx.fault("no-convergence" if isinstance(e, SimLinAlgError)
                     else "alloc")
      self.ctx.nontrivial = True
      self.pool = before
      self.check_all("after a failed " + name)
      self.ctx.log(name, "failed")
      return "fault"
    finally:
      if self.faults is not None:
        self.faults.disarm()
    if res == "skip":
      self.ctx.log(name, "skip")
      return "skip"
    self.ctx.op(name)
    self.ctx.nontrivial = True
    self.check_all("after " + name)
    self.ctx.log(name, res, len(self.pool))
    self.ctx.state([name, res, [i[0] for i in self.pool]])
    return "ok"

  def add(self, kind, mpo, want, arrays, dtype, label):
    for a, copy in arrays:
      if not np.array_equal(a, copy):
        raise Violation("argument-changed", "%s changed its couplings" % label)
    self.pool.append([kind, mpo, want, [arrays, label], dtype])
    if len(self.pool) > MAX:
      self.pool.pop(0)

  def backend_arg(self, rng):
    if rng.random() < 0.3:
      return self.tn.backends.backend_factory.get_backend(self.backend)
    return self.backend

  def size(self, rng):
    return rng.choice([2, 2, 3, 3, 4, 5, 6, 7])

  def do_xxz(self, rng):
    n, dtype = self.size(rng), self.dt(rng)
    arrays = [self.couplings(rng, k) for k in
              (n - 1, n - 1, n)]
    if rng.random() < 0.2:
      # longer arrays of bond couplings than bonds: the rest has no effect
      arrays[0] = np.append(arrays[0], 7.0)
    copies = [a.copy() for a in arrays]
    want = xxz(*copies)
    mpo = self.tn.FiniteXXZ(arrays[0], arrays[1], arrays[2], dtype=dtype.type,
                            backend=self.backend_arg(rng))
    self.add("xxz", mpo, want, list(zip(arrays, copies)), dtype, "XXZ(%d)" % n)
    return [n, str(dtype)]

  def do_tfi(self, rng):
    n, dtype = self.size(rng), self.dt(rng)
    arrays = [self.couplings(rng, n - 1), self.couplings(rng, n)]
    copies = [a.copy() for a in arrays]
    want = tfi(*copies)
    mpo = self.tn.FiniteTFI(arrays[0], arrays[1], dtype=dtype.type,
                            backend=self.backend_arg(rng))
    self.add("tfi", mpo, want, list(zip(arrays, copies)), dtype, "TFI(%d)" % n)
    return [n, str(dtype)]

  def do_fermions(self, rng):
    dtype = self.dt(rng)
    n1, n2 = rng.choice([(1, 2), (2, 1), (1, 4), (4, 1), (2, 2), (2, 3),
                         (3, 2), (1, 3), (3, 1), (2, 4), (4, 2), (1, 7),
                         (7, 1)])
    t1, t2, v = [float(x) for x in self.g(rng).standard_normal(3)]
    if rng.random() < 0.2:
      t1 = 0.0
    if rng.random() < 0.2:
      v = 0.0
    label = "fermions(%dx%d)" % (n1, n2)
    want = fermions(t1, t2, v, n1, n2)
    mpo = self.tn.FiniteFreeFermion2D(t1, t2, v, n1, n2, dtype=dtype.type,
                                      backend=self.backend_arg(rng))
    got = np.linalg.eigvalsh(matrix(mpo.tensors))
    e = np.linalg.eigvalsh(one_particle(t1, t2, v, n1, n2))
    levels = np.sort([sum(c) for k in range(len(e) + 1)
                      for c in itertools.combinations(e, k)])
    self.close(got, levels, dtype, "wrong-spectrum", label)
    self.add("fermions", mpo, want, [], dtype, label)
    return [n1, n2, str(dtype)]

  def do_inf(self, rng):
    g, dtype = self.g(rng), self.dt(rng)
    n = rng.choice([1, 2, 3, 4])
    bonds = [int(g.randint(1, 4)) for _ in range(n)]
    bonds.append(bonds[0])
    ts = []
    for i in range(n):
      t = g.standard_normal((bonds[i], bonds[i + 1], 2, 2))
      if dtype.kind == "c":
        t = t + 1j * g.standard_normal(t.shape)
      ts.append(t.astype(dtype))
    mpo = self.infinite(ts, backend=self.backend_arg(rng), name="cell")
    self.add("inf", mpo, [t.copy() for t in ts], [], dtype, "cell of %d" % n)
    return [bonds]

  def do_roll(self, rng):
    items = [i for i in self.pool if i[0] == "inf"]
    if not items:
      return "skip"
    item = rng.choice(items)
    n = len(item[2])
    k = rng.randrange(n + 1)
    item[1].roll(k)
    item[2] = item[2][k:] + item[2][:k]
    return [n, k]

  def do_overwrite(self, rng):
    """The caller reuses the arrays its couplings were in."""
    items = [i for i in self.pool if i[3][0]]
    if not items:
      return "skip"
    item = rng.choice(items)
    for a, copy in item[3][0]:
      a[...] = rng.choice([0, 5])
    item[3][0] = []
    return item[0]

  def do_drop(self, rng):
    if not self.pool:
      return "skip"
    self.pool.pop(rng.randrange(len(self.pool)))
    return "drop"

  def do_sub(self, rng):
    """A chain rebuilt from the tensors of another is the same operator."""
    items = [i for i in self.pool if i[0] != "inf"]
    if not items:
      return "skip"
    item = rng.choice(items)
    mpo = self.finite(list(item[1]), backend=self.backend)
    self.add(item[0], mpo, item[2], [], item[4], item[3][1])
    return item[0]

  def do_refuse(self, rng):
    """Tensors that are no finite (infinite) chain are refused."""
    g = self.g(rng)
    kind = rng.choice(["ends", "cell", "dtype"])
    a = g.standard_normal((1, 3, 2, 2))
    b = g.standard_normal((3, 1, 2, 2))
    if kind == "ends":
      cls, ts, err = self.finite, rng.choice([[a], [b], [b, a]]), ValueError
    elif kind == "cell":
      cls, ts, err = self.infinite, rng.choice([[a], [b]]), ValueError
    else:
      cls, ts, err = self.finite, [a, b.astype(np.float32)], TypeError
    try:
      cls(ts, backend=self.backend)
    except err:
      return kind
    raise Violation("not-refused", kind)

  def do_energy(self, rng):
    """The energy of a state, through the DMRG environments."""
    items = [i for i in self.pool if i[0] != "inf"]
    if not items or self.backend != "numpy":
      return "skip"
    item = rng.choice(items)
    n, dtype = len(item[1]), item[4]
    g = self.g(rng)
    dims = [1] + [min(rng.choice([1, 2, 3]), 2**i, 2**(n - i))
                  for i in range(1, n)] + [1]
    ts = []
    for i in range(n):
      t = g.standard_normal((dims[i], 2, dims[i + 1]))
      if dtype.kind == "c":
        t = t + 1j * g.standard_normal(t.shape)
      ts.append(t.astype(dtype))
    mps = self.tn.FiniteMPS(ts, canonicalize=True,
                            center_position=rng.randrange(n),
                            backend=self.backend)
    psi = np.ones((1, 1))
    for t in mps.tensors:
      psi = np.tensordot(psi, np.asarray(t), 1).reshape(-1, t.shape[2])
    psi = psi[:, 0]
    want = np.vdot(psi, item[2] @ psi)
    dmrg = self.tn.FiniteDMRG(mps, item[1])
    if rng.random() < 0.5:
      dmrg.position(rng.randrange(n))
    got = complex(np.asarray(dmrg.compute_energy()))
    scale = 1 + np.max(np.abs(item[2]))
    if not abs(got - want) <= 100 * self.tol(dtype) * scale:
      raise Violation("wrong-energy", "%s: %s, not %s" % (item[3][1], got,
                                                         want))
    return "%.4f" % got.real
