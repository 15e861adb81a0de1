"""Histories of Krylov solver calls with operators that alias, fail or count.

The reference is dense linear algebra on the operator written as a matrix.
"""
import random
import warnings

import numpy as np

from sim.core import Violation
from sim.seams import SimInterrupt, SimOOM


def ident(x):
  return x


class KrylovSim:

  def __init__(self, plan, ctx, faults):
    import tensornetwork as tn
    from tensornetwork import block_sparse as bs
    from tensornetwork.backends import backend_factory
    from tensornetwork.linalg import krylov
    self.front = krylov
    self.tn, self.bs = tn, bs
    self.plan, self.ctx, self.faults = plan, ctx, faults
    self.be = {n: backend_factory.get_backend(n)
               for n in ("numpy", "symmetric")}
    self.held = []   # things the caller owns: (label, reader, value)
    self.ops = []    # reusable problems

  # ---- building ------------------------------------------------------------
  def g(self, rng):
    return np.random.RandomState(rng.getrandbits(32))

  def rand(self, rng, shape, cplx):
    g = self.g(rng)
    a = g.standard_normal(shape)
    return a + 1j * g.standard_normal(shape) if cplx else a

  def matrix(self, rng, n, kind, cplx):
    """hermitian / general / well conditioned matrix with simple spectrum."""
    a = self.rand(rng, (n, n), cplx)
    if kind == "herm":
      q = np.linalg.qr(a)[0]
      w = np.sort(self.g(rng).uniform(-3, 3, n)) + 0.37 * np.arange(n)
      m = (q * w) @ q.conj().T
      return (m + m.conj().T) / 2
    if kind == "solve":
      return a / (2.5 * np.sqrt(n)) + 2.0 * np.eye(n)
    return a

  def hold(self, label, arr):
    self.held.append((label, arr, np.array(arr, copy=True)))
    del self.held[:-60]

  def hold_block(self, label, t):
    """The denoted tensor, its layout and its storage are the caller's."""
    self.held.append((label, t, (t.todense().copy(), t.data.copy(),
                                 [list(o) for o in t._order], t.shape)))
    del self.held[:-60]

  def check_held(self, what):
    for label, ref, val in self.held:
      if isinstance(ref, np.ndarray):
        if not np.array_equal(ref, val):
          raise Violation("mutated:" + label, "by " + what)
      else:
        d, data, order, shape = val
        if ref.shape != shape or not np.array_equal(ref.todense(), d):
          raise Violation("mutated:" + label, "by " + what)

  def size(self, kind):
    """The size of the vector given, over many orders of magnitude."""
    if self.plan.get("v", 1) < 2:
      return 1.0  # replay files written before
    return self.extra.choice([1.0, 1.0, 1e-4, 1e-2, 1e2, 1e3])

  def problem(self, rng, kind, which):
    """(operator dense n x n, wrap vec->tensor, unwrap, A, args, label)"""
    cplx = rng.random() < 0.4
    style = rng.choice(["fresh", "fresh", "view", "inplace-buffer", "args",
                        "identity", "table"])
    if which == "numpy":
      shape = tuple(rng.randrange(1, 4) for _ in range(rng.randrange(1, 4)))
      n = int(np.prod(shape))
      while n < 6:
        shape = shape + (rng.randrange(2, 4),)
        n = int(np.prod(shape))
      if n > 30:
        shape, n = (4, 3), 12
      m = self.matrix(rng, n, kind, cplx)
      if style == "identity":
        m = np.eye(n, dtype=m.dtype)
      t = m.reshape(shape + shape)
      k = len(shape)
      axes = (list(range(k, 2 * k)), list(range(k)))
      buf = np.empty(shape, dtype=m.dtype)
      self.hold("operator", t)

      def apply(x, *args):
        if style == "identity":
          return x
        if style == "args":
          return np.tensordot(args[0], x, axes)
        y = np.tensordot(t, x, axes)
        if style == "inplace-buffer" and y.dtype == buf.dtype:
          buf[...] = y
          return buf
        if style == "view":
          big = np.zeros((2,) + y.shape, dtype=y.dtype)
          big[1] = y
          return big[1]
        if style == "table":
          # the operator keeps the result for itself
          self.hold("result of the operator", y)
        return y

      args = [t] if style == "args" else None
      start = self.rand(rng, shape, cplx) * self.size(kind)
      lay = rng.choice(["plain", "plain", "slice", "fortran", "readonly"])
      if lay == "slice":
        big = self.rand(rng, (2,) + shape, cplx)
        big[1] = start
        self.hold("array around the start vector", big)
        start = big[1]
      elif lay == "fortran":
        start = np.asfortranarray(start)
      elif lay == "readonly":
        start.setflags(write=False)
      self.hold("start vector", start)
      return dict(m=m, A=apply, args=args, start=start, shape=shape,
                  dense=lambda x: np.asarray(x).ravel(), cplx=cplx, n=n,
                  which=which, style=style, kind=kind, scale=1.0)
    # symmetric
    bs = self.bs
    sym = rng.choice([bs.U1Charge, bs.Z2Charge, bs.ZNCharge(3)])
    def index(flow):
      d = rng.randrange(2, 4)
      lo, hi = {0: (-1, 1), 1: (0, 1), 2: (0, 2)}[
          0 if sym is bs.U1Charge else 1 if sym is bs.Z2Charge else 2]
      q = np.array([rng.randint(lo, hi) for _ in range(d)], dtype=np.int16)
      return bs.Index(sym(q), flow)
    k = rng.randrange(2, 4)
    idx = [index(rng.random() < 0.5) for _ in range(k)]
    full = bs.BlockSparseTensor.random(idx, dtype=np.float64)
    n = len(full.data)
    dtype = np.complex128 if cplx else np.float64
    if n < 6:
      return None
    shape = full.shape
    # hermitian operator conserving charge: random, then symmetrise densely
    hin = [i.copy().flip_flow() for i in idx]
    op = bs.BlockSparseTensor.random(idx + hin, dtype=dtype)
    op.data = self.rand(rng, op.data.shape, cplx).astype(dtype)
    if style == "identity":
      pass
    ax = (list(range(k, 2 * k)), list(range(k)))
    if kind == "herm":
      opc = op.conj().transpose(list(range(k, 2 * k)) + list(range(k)))
      op = (op + opc) * 0.5
    elif kind == "solve":
      op = op * (1.0 / (2.5 * np.sqrt(n)))
    fuse = k == 3 and rng.random() < 0.4
    fshape = (shape[0] * shape[1], shape[2]) if fuse else shape
    self.hold_block("operator", op)

    def apply(x, *args):
      if x.shape != fshape:
        raise Violation("operator-got-wrong-shape", "%s instead of %s" %
                        (x.shape, fshape))
      if style == "identity":
        return x
      y = x.reshape(shape) if fuse else x
      o = args[0] if style == "args" else op
      r = bs.tensordot(o, y, ax)
      if kind == "solve":
        r = r + y * 2.0
      if style == "view":
        p = list(range(k))[::-1]
        r = r.transpose(p, shuffle=True).transpose(p)
      if fuse:
        r = r.reshape(fshape)
      if style == "table":
        self.hold_block("result of the operator", r)
      return r

    args = [op] if style == "args" else None
    perm = list(range(k))
    rng.shuffle(perm)
    start = bs.BlockSparseTensor.random([idx[p] for p in perm], dtype=dtype)
    start.data = self.rand(rng, start.data.shape, cplx).astype(dtype)
    start.data *= self.size(kind)
    start = start.transpose([perm.index(i) for i in range(k)])
    if fuse:
      start = start.reshape(fshape)
    self.hold_block("start vector", start)
    # the operator as a matrix on the charge-conserving components
    mask = None
    basis = []
    ones = bs.BlockSparseTensor.ones(idx)
    mask = np.flatnonzero(ones.todense().ravel())
    d = op.todense().reshape(int(np.prod(shape)), -1)
    m = d[np.ix_(mask, mask)]
    if kind == "solve":
      m = m + 2.0 * np.eye(len(mask))
    if style == "identity":
      m = np.eye(len(mask), dtype=dtype)
    del basis
    return dict(m=m, A=apply, args=args, start=start, shape=fshape,
                dense=lambda x: np.asarray(x.todense()).ravel()[mask],
                cplx=cplx, n=n, which=which, style=style, kind=kind, scale=1.0)

  # ---- running -------------------------------------------------------------
  def step(self, op):
    res = self.step1(op)
    if res == "fault" and op.get("retry"):
      self.ctx.probe("retried")
      self.step1({k: v for k, v in op.items() if k in ("op", "r")})

  def step1(self, op):
    rng = random.Random(op["r"])
    self.extra = random.Random(op["r"] ^ 0x5ca1e)
    self.ctx.ticks += 1
    bs = self.bs
    self.abort = op.get("abort")
    self.calls = 0
    self.last = None
    bs.set_caching_status(op["r"] % 3 == 0)
    if op["r"] % 5 == 0:
      bs.clear_cache()
    status = bs.get_caching_status()
    empty = bs.get_cacher().is_empty
    np.random.seed(op["r"] % 2**32)       # start vectors a solver draws
    try:
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = getattr(self, "do_" + op["op"])(rng, op)
    except (SimInterrupt, SimOOM) as e:
      if isinstance(e, SimOOM):
        if self.faults.disarm() is None:
          raise
        self.ctx.fault("alloc")
      else:
        self.ctx.fault("operator-raises")
      res = "fault"
    finally:
      self.faults.disarm()
    self.ctx.nontrivial = self.ctx.nontrivial or res != "skip"
    if bs.get_caching_status() != status:
      raise Violation("caching-status", "%s before, %s after %s (%s)" %
                      (status, bs.get_caching_status(), op["op"], res))
    if empty and not status and not bs.get_cacher().is_empty:
      raise Violation("cache-left-filled", "after %s (%s)" % (op["op"], res))
    self.check_held(op["op"])
    if res != "fault":
      self.ctx.op(op["op"]) if res != "skip" else None
    self.ctx.log(op["op"], res)
    self.ctx.state([op["op"], res, self.last, self.calls, status, empty])
    return res

  def wrap(self, prob, front):
    """The operator as given to the library: counted, possibly failing."""
    sim = self

    def A(x, *args):
      sim.calls += 1
      if sim.abort is not None and sim.calls >= sim.abort:
        sim.abort = None
        raise SimInterrupt("the operator failed")
      return prob["A"](x, *args)

    if not front:
      return A
    tn = self.tn

    def A2(x, *args):
      y = A(x.array, *[a.array for a in args])
      return tn.Tensor(y, backend=prob["which"])

    return A2

  def arm(self, op):
    if op.get("fault") is not None:
      self.faults.arm(op["fault"])

  def choose(self, rng, kind):
    p = self.problem(rng, kind, self.plan["which"])
    if p is not None:
      self.last = [p["style"], p["kind"], list(p["shape"]), p["cplx"]]
    return p

  def origin(self, p, op, front, like):
    """Where a solver starts: a vector given, or one it draws itself."""
    draw = self.plan.get("v", 1) >= 3 and random.Random(
        op["r"] ^ 0x57a27).random() < 0.2
    name = "x0" if front else "initial_state"
    if not draw:
      start = p["start"]
      return False, {name: self.tn.Tensor(start, backend="numpy")
                     if front else start}
    self.ctx.probe("start-drawn:" + like)
    start = p["start"]
    kw = dict(shape=start.shape if p["which"] == "numpy" else
              start.sparse_shape, dtype=start.dtype)
    if front:
      kw["backend"] = "numpy"
    elif random.Random(op["r"] ^ 0x57a28).random() < 0.3:
      for bad in ("shape", "dtype"):
        try:
          getattr(self.be[p["which"]], like)(
              p["A"], p["args"],
              **{k: v for k, v in kw.items() if k != bad})
        except ValueError:
          continue
        raise Violation("not-rejected", "%s without a start and without %s" % (
            like, bad))
    return True, kw

  def do_lanczos(self, rng, op):
    p = self.choose(rng, "herm")
    if p is None:
      return "skip"
    m, n = p["m"], p["n"]
    reorth = rng.random() < 0.6
    numeig = rng.choice([1, 1, 2, 3]) if reorth else 1
    kv = rng.choice([numeig, numeig + 2, 6, n, n + 3])
    kv = max(kv, numeig)
    if not reorth:
      kv = min(kv, 7)
    ndiag = rng.choice([1, 2, 20, 1000])
    tol = rng.choice([1e-14, 1e-8, 1e-3])
    if self.plan.get("v", 1) >= 2 and self.extra.random() < 0.4:
      # a tolerance that is met on the way
      ndiag, kv = self.extra.choice([1, 1, 2]), n
      tol = self.extra.choice([0.3, 1e-1, 1e-2]) * np.linalg.norm(m, 2)
      if not reorth:
        kv = min(kv, 7)
      kv = max(kv, numeig)
    front = rng.random() < 0.4 and self.plan["which"] == "numpy"
    kw = dict(num_krylov_vecs=kv, numeig=numeig, tol=tol, ndiag=ndiag,
              reorthogonalize=reorth)
    drawn, org = self.origin(p, op, front, "eigsh_lanczos")
    kw.update(org)
    if front:
      tn = self.tn
      call = lambda: self.front.eigsh_lanczos(
          self.wrap(p, True),
          args=None if p["args"] is None else [
              tn.Tensor(a, backend="numpy") for a in p["args"]], **kw)
    else:
      if self.plan["which"] == "symmetric":
        kw["enable_caching"] = rng.random() < 0.7
      call = lambda: self.be[p["which"]].eigsh_lanczos(
          self.wrap(p, False), args=p["args"], **kw)
    self.arm(op)
    vals, vecs = call()
    self.faults.disarm()
    if front:
      vecs = [v.array for v in vecs]
    v0 = p["dense"](p["start"])
    v0 = v0 / np.linalg.norm(v0)
    basis, ritz = krylov_ritz(m, v0, kv)
    exact = np.linalg.eigvalsh(m)
    vals = np.asarray(vals)
    if len(vals) != len(vecs) or not 1 <= len(vals) <= numeig:
      raise Violation("wrong-number", "%d values, %d vectors" %
                      (len(vals), len(vecs)))
    scale = max(1.0, np.max(np.abs(exact)))
    for e, v in zip(vals, vecs):
      if v.shape != p["shape"]:
        raise Violation("wrong-shape", "eigenvector %s" % (v.shape,))
      x = p["dense"](v)
      if abs(np.linalg.norm(x) - 1) > 1e-7:
        raise Violation("not-normalised", str(np.linalg.norm(x)))
      if abs(np.imag(e)) > 1e-8 * scale:
        raise Violation("complex-eigenvalue", str(e))
      r = np.real(np.vdot(x, m @ x))
      if abs(r - np.real(e)) > 1e-6 * scale:
        raise Violation("not-a-ritz-pair", "<x|A|x> = %.9g, value %.9g" %
                        (r, np.real(e)))
    e0 = float(np.real(vals[0]))
    if e0 < exact[0] - 1e-7 * scale:
      raise Violation("below-spectrum", "%r < %r" % (e0, exact[0]))
    if drawn:
      if reorth and kv >= n and ndiag >= kv and (
          len(vals) == numeig or len(vals) >= len(ritz)) and \
          e0 > exact[0] + 1e-5 * scale:
        raise Violation("wrong-value:eigsh_lanczos", "%r instead of %r from a "
                        "random start" % (e0, exact[0]))
      return "ok"
    if e0 > np.real(np.vdot(v0, m @ v0)) + 1e-7 * scale:
      raise Violation("above-start", "%r" % e0)
    if reorth or kv <= 7:
      self.check_lanczos_stop(m, v0, kv, numeig, ndiag, tol, scale, vals)
    if ndiag >= kv and (reorth or kv <= 7):
      k = min(len(vals), len(ritz))
      if len(ritz) >= numeig and len(vals) < numeig:
        raise Violation("wrong-number", "%d of %d values" %
                        (len(vals), numeig))
      bad = np.max(np.abs(np.real(vals[:k]) - ritz[:k])) if k else 0
      if bad > 1e-5 * scale:
        raise Violation("wrong-value:eigsh_lanczos", "%s instead of %s" %
                        (vals[:k], ritz[:k]))
      self.ctx.probe("lanczos-exact-krylov")
    return "ok"

  def check_lanczos_stop(self, m, v0, kv, numeig, ndiag, tol, scale, vals):
    """The values belong to a Krylov space the stated criterion stops at.

    Either the largest one asked for, or an invariant one, or one where the
    asked values changed by less than `tol` within the last `ndiag` steps.
    """
    q, norms = krylov_basis(m, v0, kv)
    h = q.conj().T @ m @ q
    ritz = [np.linalg.eigvalsh((h[:k, :k] + h[:k, :k].conj().T) / 2)
            for k in range(1, q.shape[1] + 1)]
    top = len(ritz)
    got = np.real(np.asarray(vals))
    for k in range(1, top + 1):
      new = ritz[k - 1][:numeig]
      if len(new) != len(got) or np.max(np.abs(new - got)) > 2e-5 * scale:
        continue
      if k == top or norms[k - 1] < 1e-5 * scale:
        return
      old = ritz[k - 1 - ndiag][:numeig] if k > ndiag else ()
      if len(old) == len(new) and np.linalg.norm(new - old) < (
          tol + 1e-6 * scale):
        self.ctx.probe("lanczos-stopped-early")
        return
    raise Violation("stopped-too-early:eigsh_lanczos",
                    "%s with tol %g, ndiag %d, at most %d vectors; Ritz %s" %
                    (got, tol, ndiag, kv, [r[:numeig] for r in ritz]))

  def do_eigs(self, rng, op):
    p = self.choose(rng, rng.choice(["herm", "general"]))
    if p is None or p["style"] == "identity":
      return "skip"
    m, n = p["m"], p["n"]
    which = rng.choice(["LR", "LM", "SR", "LR"])
    numeig = rng.choice([1, 1, 2, 3])
    kv = min(n, numeig + 2 + rng.randrange(0, 12))
    if rng.random() < 0.5:
      kv = n
    if numeig + 1 >= kv or numeig >= n - 1:
      return "skip"
    kw = dict(num_krylov_vecs=kv, numeig=numeig, which=which, tol=1e-10,
              maxiter=100)
    front = rng.random() < 0.4 and self.plan["which"] == "numpy"
    _, org = self.origin(p, op, front, "eigs")
    kw.update(org)
    if front:
      tn = self.tn
      call = lambda: self.front.eigs(
          self.wrap(p, True),
          args=None if p["args"] is None else [
              tn.Tensor(a, backend="numpy") for a in p["args"]], **kw)
    else:
      if self.plan["which"] == "symmetric":
        kw["enable_caching"] = rng.random() < 0.7
      call = lambda: self.be[p["which"]].eigs(
          self.wrap(p, False), args=p["args"], **kw)
    self.arm(op)
    try:
      vals, vecs = call()
    except Exception as e:  # pylint: disable=broad-except
      if "Arpack" in type(e).__name__:
        return "skip"
      raise
    self.faults.disarm()
    if front:
      vecs = [v.array for v in vecs]
    if len(vals) != numeig or len(vecs) != numeig:
      raise Violation("wrong-number", "%d values" % len(vals))
    spec = np.linalg.eigvals(m)
    scale = np.max(np.abs(spec))
    key = {"LR": lambda z: -np.real(z), "SR": lambda z: np.real(z),
           "LM": lambda z: -np.abs(z)}[which]
    order = np.sort(key(spec))
    for e, v in zip(vals, vecs):
      if v.shape != p["shape"]:
        raise Violation("wrong-shape", "eigenvector %s" % (v.shape,))
      x = p["dense"](v)
      res = np.linalg.norm(m @ x - e * x)
      if res > 1e-6 * scale or np.linalg.norm(x) < 1e-3:
        raise Violation("not-an-eigenpair", "residual %.3g" % res)
    got = np.sort(key(np.asarray(vals)))
    # ARPACK may converge to another eigenpair in a smaller space
    if kv == n and np.max(np.abs(got - order[:numeig])) > 1e-6 * scale:
      raise Violation("wrong-value:eigs", "%s %s instead of %s" %
                      (which, got, order[:numeig]))
    return "ok"

  def do_gmres(self, rng, op):
    p = self.choose(rng, "solve")
    if p is None:
      return "skip"
    m, n = p["m"], p["n"]
    tol = rng.choice([1e-5, 1e-9])
    atol = rng.choice([None, 0.0, 1e-6])
    x0 = None
    if rng.random() < 0.5:
      if p["which"] == "numpy":
        x0 = self.rand(rng, p["shape"], p["cplx"])
        self.hold("initial guess", x0)
      else:
        x0 = p["start"] * 0.5
        self.hold_block("initial guess", x0)
    kw = dict(tol=tol, atol=atol, num_krylov_vectors=n, maxiter=20)
    front = rng.random() < 0.4 and self.plan["which"] == "numpy"
    b = p["start"]
    if front:
      tn = self.tn
      call = lambda: self.front.gmres(
          self.wrap(p, True), tn.Tensor(b, backend="numpy"),
          A_args=None if p["args"] is None else [
              tn.Tensor(a, backend="numpy") for a in p["args"]],
          x0=None if x0 is None else tn.Tensor(x0, backend="numpy"), **kw)
    else:
      if self.plan["which"] == "symmetric":
        kw["enable_caching"] = rng.random() < 0.7
      call = lambda: self.be[p["which"]].gmres(
          self.wrap(p, False), b, A_args=p["args"], x0=x0, **kw)
    self.arm(op)
    x, info = call()
    self.faults.disarm()
    if front:
      x = x.array
    if x.shape != p["shape"]:
      raise Violation("wrong-shape", "solution %s" % (x.shape,))
    if info != 0:
      raise Violation("did-not-converge", "info %s, %d unknowns" % (info, n))
    bb = p["dense"](b)
    res = np.linalg.norm(m @ p["dense"](x) - bb)
    lim = max(tol * np.linalg.norm(bb), tol if atol is None else atol)
    if not res <= 3 * lim + 1e-12:
      raise Violation("wrong-value:gmres", "residual %.3g > %.3g" % (res, lim))
    return "ok"

  def do_bad(self, rng, op):
    p = self.choose(rng, "herm")
    if p is None:
      return "skip"
    be, A, s = self.be[p["which"]], self.wrap(p, False), p["start"]
    calls = [
        lambda: be.eigsh_lanczos(A, initial_state=s, num_krylov_vecs=2,
                                 numeig=3, reorthogonalize=True),
        lambda: be.eigsh_lanczos(A, initial_state=s, numeig=2),
        lambda: be.eigsh_lanczos(A, shape=(2, 2)),
        lambda: be.eigsh_lanczos(A, initial_state=[1, 2]),
        lambda: be.eigs(A, initial_state=s, num_krylov_vecs=2, numeig=2),
        lambda: be.eigs(A, initial_state=s, which="SI"),
        lambda: be.eigs(A, initial_state="x"),
        lambda: be.gmres(A, s, tol=-1.0),
        lambda: be.gmres(A, s, num_krylov_vectors=0),
    ]
    try:
      rng.choice(calls)()
    except (ValueError, TypeError):
      return "ok"
    raise Violation("accepted-bad-call", "")


def krylov_basis(m, v, k):
  """Orthonormal basis of span{v, Av, ...} and the sizes of what came next."""
  q, norms = [v / np.linalg.norm(v)], []
  while True:
    w = m @ q[-1]
    for _ in range(3):
      for x in q:
        w = w - np.vdot(x, w) * x
    nw = np.linalg.norm(w)
    norms.append(nw)
    if nw < 1e-8 or len(q) >= k:
      return np.stack(q, axis=1), norms
    q.append(w / nw)


def krylov_ritz(m, v, k):
  """Orthonormal basis of span{v, Av, ...} and its Ritz values."""
  q = [v / np.linalg.norm(v)]
  while len(q) < k:
    w = m @ q[-1]
    for _ in range(3):
      for x in q:
        w = w - np.vdot(x, w) * x
    nw = np.linalg.norm(w)
    if nw < 1e-8:
      break
    q.append(w / nw)
  b = np.stack(q, axis=1)
  h = b.conj().T @ m @ b
  return b, np.linalg.eigvalsh((h + h.conj().T) / 2)


OPS = [("lanczos", 5), ("eigs", 3), ("gmres", 3), ("bad", 1)]


def gen_ops(rng, n, faults=0.0, aborts=0.0):
  names = [o for o, w in OPS for _ in range(w)]
  out = []
  for _ in range(n):
    op = {"op": rng.choice(names), "r": rng.getrandbits(32)}
    if rng.random() < aborts:
      op["abort"] = rng.choice([1, 2, 3, 4, 6, 9])
      op["retry"] = rng.random() < 0.8
    elif rng.random() < faults:
      op["fault"] = rng.choice([1, 2, 3, 5, 8, 13, 25, 60])
      op["retry"] = rng.random() < 0.8
    out.append(op)
  return out
