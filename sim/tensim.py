"""Histories of the array interface (tn.Tensor, tn.linalg, ncon) on several
backends at once; the model of a tensor is a numpy array and a backend name."""
import contextlib
import random

import numpy as np

from sim.core import Violation

UNARY = ("T H conj conjugate hconj copy flatten ravel reshape squeeze "
         "transpose slice sqrt sin cos exp log abs sign pivot diagonal "
         "diagflat trace like").split()
BINARY = ("add sub mul div matmul tensordot outer einsum kron ncon builder "
          "scalar").split()
DECOMP = "svd svd qr rq eigh inv expm norm".split()
OPS = (["new"] * 4 + ["unary"] * 10 + ["binary"] * 10 + ["decomp"] * 5 +
       ["init"] * 2 + ["misuse"] * 2 + ["jit"] +
       ["direct"] * 4)
DIRECT = ("sum", "sum", "shape", "concat", "right", "left", "power", "item",
          "matmul", "einsum", "index_update", "serialize", "eps", "tensordot")
MAX = 400


def gen_ops(rng, n, backends, faults=0.0):
  ops = [{"op": "new", "r": rng.getrandbits(32), "b": rng.choice(backends)}
         for _ in range(3)]
  for _ in range(n):
    op = {"op": rng.choice(OPS), "r": rng.getrandbits(32),
          "b": rng.choice(backends)}
    if rng.random() < faults:
      op["fault"] = 1 + int(rng.expovariate(1 / 1.5))
    ops.append(op)
  return ops


class TenSim:

  def __init__(self, plan, ctx, faults=None):
    import tensornetwork as tn
    self.tn, self.plan, self.ctx, self.faults = tn, plan, ctx, faults
    self.items = []     # [Tensor, array, backend, source]
    self.tol = 1e-9

  # -- helpers -----------------------------------------------------------
  def rand(self, rng, shape, dtype=None):
    g = np.random.RandomState(rng.getrandbits(32))
    a = g.standard_normal(shape)
    if np.dtype(dtype or self.plan["dtype"]).kind == "c":
      a = a + 1j * g.standard_normal(shape)
    return np.asarray(a, dtype=dtype or self.plan["dtype"])

  def shape(self, rng, lo=0, hi=4):
    return tuple(rng.choice((1, 2, 2, 3)) for _ in range(rng.randrange(lo, hi)))

  def wrap(self, arr, b, how=0):
    tn = self.tn
    src = np.array(arr)
    if how == 0:
      t = tn.Tensor(src, backend=b)
    elif how == 1:
      with tn.DefaultBackend(b):
        t = tn.Tensor(src)
    else:
      t = tn.Tensor(src, backend=tn.backends.backend_factory.get_backend(b))
    return t, src

  def add(self, t, arr, b, src=None):
    arr = np.asarray(arr)
    self.check(t, arr, b)
    if arr.size <= MAX and arr.ndim <= 6 and np.all(np.isfinite(arr)) and \
        (not arr.size or np.max(np.abs(arr)) < 1e4):
      self.items.append((t, np.array(arr), b, src))
      self.items = self.items[-9:]

  def check(self, t, arr, b, value=True):
    tn = self.tn
    if not isinstance(t, tn.Tensor):
      raise Violation("not-a-tensor", type(t).__name__)
    if t.backend.name != b:
      raise Violation("wrong-backend", "%s, expected %s" % (t.backend.name, b))
    got = np.asarray(t.array)
    if tuple(t.shape) != arr.shape or got.shape != arr.shape or \
        t.ndim != arr.ndim or int(t.size) != arr.size or \
        tuple(tn.shape(t)) != arr.shape:
      raise Violation("wrong-shape", "shape %s ndim %s size %s array %s, "
                      "expected %s" % (tuple(t.shape), t.ndim, t.size,
                                       got.shape, arr.shape))
    if value:
      self.same(got, arr, "wrong-value")
      if got.dtype.kind != arr.dtype.kind:
        raise Violation("wrong-dtype", "%s, expected %s" % (got.dtype,
                                                            arr.dtype))
    self.ctx.state((b, arr.shape, arr.dtype.kind))

  def same(self, got, want, sig):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
      raise Violation(sig + ":shape", "%s, expected %s" % (got.shape,
                                                           want.shape))
    fin = np.isfinite(want)
    scale = max(1e-2, float(np.max(np.abs(want[fin]))) if fin.any() else 0.0)
    if not np.allclose(got[fin], want[fin], rtol=1e-7, atol=1e-8 * scale):
      raise Violation(sig, "%s, expected %s" % (got, want))

  def pick(self, rng, cond=lambda x: True):
    c = [x for x in self.items if cond(x)]
    return rng.choice(c) if c else None

  def partner(self, rng, a, cond):
    """Another tensor of the same backend, made if there is none."""
    # (tensorflow does not promote types)
    return self.pick(rng, lambda x: x[2] == a[2] and cond(x[1]) and
                     (a[2] != "tensorflow" or x[1].dtype == a[1].dtype))

  # -- driver ------------------------------------------------------------
  def step(self, op):
    rng = random.Random(op["r"])
    self.what = op["op"]
    self.armed, self.cur = op.get("fault"), op["b"]
    try:
      getattr(self, "op_" + op["op"])(rng, op["b"])
    except MemoryError:
      if self.faults is None or self.faults.disarm() is None:
        raise
      self.ctx.fault("backend")
      self.ctx.log(self.what, "fault")
    finally:
      if self.faults is not None:
        self.faults.disarm()
    self.ctx.op(self.what)
    self.ctx.ticks += 1
    self.ctx.log(self.what, op["b"], len(self.items))
    for t, arr, b, src in self.items:
      if not np.array_equal(np.asarray(t.array), arr):
        # exact: nothing may have touched it (rounding happened at creation)
        if not hasattr(t, "_sim_first"):
          t._sim_first = np.array(t.array)
          self.same(t.array, arr, "operand-changed:" + self.what)
        elif not np.array_equal(np.asarray(t.array), t._sim_first):
          raise Violation("operand-changed:" + self.what, "")
      if src is not None and not np.array_equal(src, arr):
        raise Violation("argument-changed:" + self.what, "")

  def run(self, what, fn):
    self.what = what
    jitted = what in ("ncon", "builder") and self.cur == "jax"
    if self.armed and self.faults is not None and not jitted:
      # (the backend calls of a jitted ncon happen only while it is traced)
      self.faults.arm(self.armed)
    res = fn()
    if self.faults is not None:
      self.faults.disarm()
    self.ctx.nontrivial = True
    return res

  # -- operations ----------------------------------------------------------
  def op_new(self, rng, b):
    arr = self.rand(rng, self.shape(rng))
    t, src = self.wrap(arr, b, rng.randrange(3))
    self.add(t, arr, b, src)

  def op_init(self, rng, b):
    tn = self.tn
    dt = {"tensorflow": self.tfdtype}.get(b, np.dtype)(self.plan["dtype"])
    d = np.dtype(self.plan["dtype"])
    kw = {"backend": b} if rng.random() < 0.5 else {}
    shape = self.shape(rng)
    how = rng.choice(["eye", "ones", "zeros", "node", "like"])
    con = contextlib.nullcontext() if kw else tn.DefaultBackend(b)
    n, m = rng.randrange(1, 4), rng.choice([None, 1, 2, 4])
    from tensornetwork.linalg import initialization, node_linalg
    with con:
      if how == "eye":
        t = self.run("eye", lambda: tn.eye(n, dtype=dt, M=m, **kw))
        arr = np.eye(n, m, dtype=d)
      elif how == "node":
        f, g = rng.choice([("ones", np.ones), ("zeros", np.zeros)])
        node = self.run("node-" + f, lambda: getattr(node_linalg, f)(
            shape, dtype=dt, **kw))
        if node.backend.name != b:
          raise Violation("wrong-backend", "node of " + node.backend.name)
        t, arr = tn.Tensor(node.tensor, backend=node.backend), g(shape, d)
      elif how == "like":
        f, g = rng.choice([("ones_like", np.ones), ("zeros_like", np.zeros)])
        a = self.pick(rng, lambda x: x[2] == b)
        if a is not None and rng.random() < 0.5:
          shape, src = a[1].shape, a[0]
        else:
          src = np.zeros(shape)
        t = self.run(f, lambda: getattr(initialization, f)(src, dtype=dt, **kw))
        arr = g(shape, d)
      else:
        t = self.run(how, lambda: getattr(tn, how)(shape, dtype=dt, **kw))
        arr = getattr(np, how)(shape, d)
    self.add(t, arr, b)

  def tfdtype(self, name):
    import tensorflow as tf
    return tf.dtypes.as_dtype(name)

  def op_unary(self, rng, b):
    tn = self.tn
    a = self.pick(rng, lambda x: x[2] == b) or self.pick(rng)
    if a is None:
      return
    t, x, b, _ = a
    self.cur = b
    how = rng.choice(UNARY)
    perm = list(range(x.ndim))
    rng.shuffle(perm)
    # which of two spellings of the same thing
    alt = rng.random() < 0.5
    fn = None
    if how == "T":
      fn, want = (lambda: t.T), x.T
    elif how == "H":
      fn, want = (lambda: t.H), x.conj().T
    elif how in ("conj", "conjugate"):
      fn, want = (lambda: tn.conj(t) if alt else getattr(t, how)()), x.conj()
    elif how == "hconj":
      p = perm if rng.random() < 0.6 else None
      fn = lambda: tn.hconj(t, perm=p) if alt else t.hconj(perm=p)
      want = np.transpose(x.conj(), p)
    elif how == "copy":
      fn, want = t.copy, x
    elif how in ("flatten", "ravel"):
      fn, want = getattr(t, how), x.reshape(-1)
    elif how == "reshape":
      s = [d for d in x.shape]
      if len(s) >= 2 and rng.random() < 0.7:
        i = rng.randrange(len(s) - 1)
        s[i:i + 2] = [s[i] * s[i + 1]]
      if rng.random() < 0.5:
        s.insert(rng.randrange(len(s) + 1), 1)
      s = rng.choice([list, tuple])(s)
      fn = lambda: tn.reshape(t, s) if alt else t.reshape(s)
      want = x.reshape(s)
    elif how == "squeeze":
      fn, want = t.squeeze, np.squeeze(x)
    elif how == "transpose":
      p = perm if rng.random() < 0.7 else None
      fn = lambda: tn.transpose(t, perm=p) if alt else t.transpose(perm=p)
      want = np.transpose(x, p)
    elif how == "slice":
      if not x.ndim:
        return
      start = tuple(rng.randrange(d) for d in x.shape)
      size = tuple(rng.randrange(1, d - s + 1) for s, d in zip(start, x.shape))
      fn = lambda: tn.take_slice(t, start, size)
      want = x[tuple(slice(s, s + n) for s, n in zip(start, size))]
    elif how in ("sin", "cos", "exp", "abs", "sqrt", "log", "sign"):
      if how in ("sqrt", "log") and x.dtype.kind != "c" and np.any(x <= 0):
        return
      if how == "log" and np.any(np.abs(x) < 1e-12):
        return
      if how == "sign" and x.dtype.kind == "c":
        return    # documented to depend on the backend
      if x.size and np.max(np.abs(x)) > 20:
        return
      fn, want = (lambda: getattr(tn, how)(t)), getattr(np, how)(x)
    elif how == "pivot":
      if not x.ndim:
        return
      p = rng.choice([i for i in range(-x.ndim, x.ndim + 1) if i])
      if p == -x.ndim:
        p = 1
      fn = lambda: tn.pivot(t, pivot_axis=p)
      want = x.reshape(int(np.prod(x.shape[:p])), -1)
    elif how in ("diagonal", "trace"):
      if x.ndim < 2:
        return
      kw = {}
      if b != "tensorflow" and rng.random() < 0.6:
        i, j = rng.sample(range(x.ndim), 2)
        kw = {"offset": rng.choice([0, 0, 1, -1]), "axis1": i,
              "axis2": j - x.ndim}
      elif b == "tensorflow" and how == "trace":
        i, j = rng.sample(range(x.ndim), 2)
        kw = {"axis1": i, "axis2": j - x.ndim}
      i, j = kw.get("axis1", -2), kw.get("axis2", -1)
      if x.shape[i] != x.shape[j] and (how == "trace" or b == "tensorflow"):
        return
      if x.shape[i] <= 1 and kw.get("offset"):
        return
      fn = lambda: getattr(tn, how)(t, **kw)
      want = getattr(np, how)(x, **dict({"axis1": -2, "axis2": -1}, **kw))
    elif how == "diagflat":
      k = rng.choice([0, 0, 1, -1])
      if x.size > 12 or not x.ndim:
        return
      fn, want = (lambda: tn.diagflat(t, k=k)), np.diagflat(x, k)
    else:
      return
    self.add(self.run(how, fn), want, b)

  def op_binary(self, rng, b):
    tn = self.tn
    a = self.pick(rng, lambda x: x[2] == b) or self.pick(rng)
    if a is None:
      return
    t, x, b, _ = a
    self.cur = b
    how = rng.choice(BINARY)
    alt = rng.random() < 0.5
    if how == "scalar":
      c = rng.choice([2, 0.5, -3, 1.25])
      op = rng.choice(["t*c", "c*t", "t+c", "c+t", "t-c", "c-t", "t/c"])
      if b == "tensorflow" and x.dtype.kind == "c":
        c = float(c)
      fn = lambda: eval(op, {"t": t, "c": c})
      want = eval(op, {"t": x, "c": c})
      self.add(self.run("scalar " + op, fn), want, b)
      return
    if how in ("add", "sub", "mul", "div"):
      o = self.partner(rng, a, lambda y: y.shape == x.shape)
      u, y = o[0], o[1]
      if how == "div" and np.any(np.abs(y) < 1e-2):
        return
      op = {"add": "t+u", "sub": "t-u", "mul": "t*u", "div": "t/u"}[how]
      fn = lambda: eval(op, {"t": t, "u": u})
      want = eval(op, {"t": x, "u": y})
    elif how == "matmul":
      if x.ndim < 2:
        return
      y = self.rand(rng, (x.shape[-1], rng.choice((1, 2, 3))), x.dtype)
      u, _ = self.wrap(y, b)
      o = self.partner(rng, a, lambda z: z.ndim == 2 and
                       z.shape[0] == x.shape[-1])
      if o is not None and rng.random() < 0.5:
        u, y = o[0], o[1]
      fn, want = (lambda: t @ u), x @ y
    elif how in ("tensordot", "outer", "einsum", "ncon", "builder"):
      o = self.partner(rng, a, lambda z: z.size * x.size <= 4 * MAX and
                       z.ndim + x.ndim <= 7)
      if o is None:
        return
      u, y = o[0], o[1]
      if how == "outer":
        fn, want = (lambda: tn.outer(t, u)), np.multiply.outer(x, y)
      else:
        pairs, used = [], set()
        for i in range(x.ndim):
          js = [j for j in range(y.ndim) if j not in used and
                y.shape[j] == x.shape[i]]
          if js and rng.random() < 0.6:
            j = rng.choice(js)
            used.add(j)
            pairs.append((i, j))
        rng.shuffle(pairs)
        ia, ib = [p[0] for p in pairs], [p[1] for p in pairs]
        want = np.tensordot(x, y, (ia, ib))
        if how == "tensordot":
          if alt and pairs:
            fn = lambda: tn.tensordot(t, u, rng.choice([tuple, list])((ia, ib)))
          else:
            n = max((n for n in range(min(x.ndim, y.ndim) + 1) if
                     x.shape[x.ndim - n:] == y.shape[:n]))
            n = rng.choice([0, n])
            fn = lambda: tn.tensordot(t, u, n)
            want = np.tensordot(x, y, n)
        else:
          la = [-1 - i for i in range(x.ndim)]
          lb = [-20 - i for i in range(y.ndim)]
          for k, (i, j) in enumerate(pairs):
            la[i] = lb[j] = k + 1
          free = [l for l in la + lb if l < 0]
          perm = list(range(len(free)))
          rng.shuffle(perm)
          name = {l: -1 - perm.index(k) for k, l in enumerate(free)}
          la = [name.get(l, l) for l in la]
          lb = [name.get(l, l) for l in lb]
          want = np.transpose(want, perm)
          if how == "einsum":
            ch = lambda l: chr(97 + l) if l > 0 else chr(65 - l)
            ex = "%s,%s->%s" % ("".join(map(ch, la)), "".join(map(ch, lb)),
                                "".join(ch(-1 - k) for k in range(len(free))))
            opt = rng.random() < 0.5
            fn = lambda: tn.einsum(ex, t, u, optimize=opt)
          elif how == "ncon":
            fn = lambda: tn.ncon([t, u], [la, lb], backend=b)
          else:
            if not la or not lb:
              return
            fn = lambda: tn.finalize(t(*la) @ u(*lb))
    else:  # kron
      o = self.partner(rng, a, lambda z: z.ndim % 2 == 0 and
                       z.ndim + x.ndim <= 6 and z.size * x.size <= 4 * MAX)
      if o is None or x.ndim % 2:
        return
      u, y = o[0], o[1]
      m, n = x.ndim // 2, y.ndim // 2
      fn = lambda: tn.kron(t, u)
      want = np.transpose(
          np.multiply.outer(x, y),
          list(range(m)) + list(range(2 * m, 2 * m + n)) +
          list(range(m, 2 * m)) + list(range(2 * m + n, 2 * m + 2 * n)))
    self.add(self.run(how, fn), want, b)

  def op_decomp(self, rng, b):
    tn = self.tn
    how = rng.choice(DECOMP)
    a = self.pick(rng, lambda x: x[2] == b) or self.pick(rng)
    if a is None:
      return
    t, x, b, _ = a
    self.cur = b
    if how == "norm":
      got = self.run(how, lambda: tn.norm(t))
      self.same(got, np.linalg.norm(x.ravel()), "wrong-norm")
      return
    if how in ("eigh", "inv", "expm"):
      n = rng.randrange(1, 5)
      m = self.rand(rng, (n, n))
      if how == "eigh":
        m = m + m.conj().T
      if how == "inv":
        m = m + 3 * np.eye(n)
      t, src = self.wrap(m, b)
      if how == "eigh":
        w, v = self.run(how, lambda: tn.eigh(t))
        w, v = np.asarray(w.array), np.asarray(v.array)
        self.same(np.sort(w.real), np.linalg.eigvalsh(m), "wrong-eigenvalues")
        if np.any(np.diff(w.real) < -1e-9):
          raise Violation("wrong-eigenvalues", "not ascending")
        self.same(m @ v, v * w, "wrong-eigenvectors")
        self.same(v.conj().T @ v, np.eye(n), "wrong-eigenvectors")
      elif how == "inv":
        self.add(self.run(how, lambda: tn.inv(t)), np.linalg.inv(m), b)
      else:
        w, v = np.linalg.eig(m)
        if np.linalg.cond(v) > 1e4:
          return
        want = (v * np.exp(w)) @ np.linalg.inv(v)
        want = want if m.dtype.kind == "c" else want.real
        self.add(self.run(how, lambda: tn.expm(t)), want, b)
      if not np.array_equal(src, m):
        raise Violation("argument-changed:" + how, "")
      return
    if x.ndim < 2 or not x.size:
      return
    p = rng.choice([i for i in range(-x.ndim + 1, x.ndim) if i])
    left, right = x.shape[:p], x.shape[p:]
    m = x.reshape(int(np.prod(left)), int(np.prod(right)))
    k = min(m.shape)
    if how == "svd":
      s0 = np.linalg.svd(m, compute_uv=False)
      kw = {}
      if rng.random() < 0.5:
        kw["max_singular_values"] = rng.randrange(1, k + 2)
      if rng.random() < 0.5:
        cut = rng.randrange(k + 1)
        tails = np.sqrt(np.cumsum(s0[::-1]**2))[::-1]   # discard from i on
        hi = tails[cut - 1] if cut else 2 * tails[0]
        lo = tails[cut] if cut < k else 0.0
        if hi - lo < 1e-6 * max(tails[0], 1e-30):
          return
        eps = (hi + lo) / 2
        kw["relative"] = rng.random() < 0.5
        kw["max_truncation_error"] = eps / s0[0] if kw["relative"] else eps
        if kw["relative"] and s0[0] < 1e-9:
          return
      keep = k
      if "max_truncation_error" in kw:
        keep = cut
      keep = min(keep, kw.get("max_singular_values", k))
      u, s, v, rest = self.run(how, lambda: tn.svd(t, p, **kw))
      u, s, v, rest = [np.asarray(z.array) for z in (u, s, v, rest)]
      if u.shape != left + (keep,) or v.shape != (keep,) + right:
        raise Violation("wrong-svd", "shapes %s %s, expected %d values" % (
            u.shape, v.shape, keep))
      self.same(s, s0[:keep], "wrong-singular-values")
      self.same(rest, s0[keep:], "wrong-discarded-values")
      if keep:
        um, vm = u.reshape(-1, keep), v.reshape(keep, -1)
        self.same(um.conj().T @ um, np.eye(keep), "wrong-isometry")
        self.same(vm @ vm.conj().T, np.eye(keep), "wrong-isometry")
      if keep == k:
        self.same((um * s) @ vm, m, "wrong-svd")
      elif keep:
        self.same(um.conj().T @ m, (s[:, None] * vm), "wrong-svd")
      return
    kw = {"non_negative_diagonal": rng.random() < 0.5}
    a1, a2 = self.run(how, lambda: getattr(tn, how)(t, p, **kw))
    self.check(a1, np.zeros(left + (k,)), b, False)
    self.check(a2, np.zeros((k,) + right), b, False)
    m1 = np.asarray(a1.array).reshape(-1, k)
    m2 = np.asarray(a2.array).reshape(k, -1)
    self.same(m1 @ m2, m, "wrong-" + how)
    q, r = (m1, m2) if how == "qr" else (m2.conj().T, m1)
    self.same(q.conj().T @ q, np.eye(k), "wrong-isometry")
    if how == "qr":
      if np.max(np.abs(np.tril(r, -1)), initial=0) > 1e-9:
        raise Violation("wrong-qr", "R is not upper triangular")
    if kw["non_negative_diagonal"]:
      d = np.diagonal(r)
      if np.any(d.real < -1e-9) or np.any(np.abs(d.imag) > 1e-9):
        raise Violation("negative-diagonal", "%s %s" % (how, d))

  def op_jit(self, rng, b):
    """A function compiled for a backend computes what it computes."""
    tn = self.tn
    bf = tn.backends.backend_factory
    be = bf.get_backend(b)
    n = rng.choice([1, 2, 3])
    x, y = self.rand(rng, (n, n)), self.rand(rng, (n, n))
    calls = []

    def power(a, k, c):
      """k-fold product of a, times c."""
      calls.append(k)
      out = c
      for _ in range(k):
        out = be.tensordot(a, out, 1)
      return out, be.sum(out)

    def power_on(a, k, backend, c):
      b2 = bf.get_backend(backend)
      out = c
      for _ in range(k):
        out = b2.tensordot(a, out, 1)
      return out, b2.sum(out)

    how = rng.choice(["name", "object", "default", "argnum", "argnum",
                      "both", "no backend"])
    static = rng.choice([1, (1,), [1]])
    self.what = "jit " + how
    kw = {"static_argnums": tuple(static) if isinstance(static, list)
                            and how not in ("argnum",) else static}
    arg = None
    if how in ("both", "no backend"):
      try:
        if how == "both":
          tn.jit(power_on, backend=b, backend_argnum=2)
        else:
          tn.jit(power_on, backend_argnum=2, **kw)(x, 1, rng.choice(
              ["nonsense", 7.5]), y)
      except ValueError:
        self.ctx.nontrivial = True
        return
      raise Violation("not-rejected:" + self.what, "")
    if how == "argnum":
      f = tn.jit(power_on, backend_argnum=2, **kw)
      arg = rng.choice([b, be])
    elif how == "default":
      with tn.DefaultBackend(b):
        f = tn.jit(power, **kw)
    else:
      f = tn.jit(power, backend=b if how == "name" else be, **kw)
    if f.__name__ != (power_on if how == "argnum" else power).__name__:
      raise Violation("lost-name", f.__name__)
    for k in (rng.randrange(4), rng.randrange(4)):
      a, c = be.convert_to_tensor(x), be.convert_to_tensor(y)
      got = f(a, k, c) if arg is None else f(a, k, arg, c)
      want = np.linalg.matrix_power(x, k) @ y
      self.same(got[0], want, "wrong-value:jit")
      if not abs(complex(got[1]) - np.sum(want)) <= 1e-9 * (
          1 + np.abs(want).sum()):
        raise Violation("wrong-value:jit", "sum %s, expected %s" % (
            got[1], np.sum(want)))
    self.ctx.nontrivial = True

  def op_direct(self, rng, b):
    """The functions of a backend object, called with its own arrays."""
    tn = self.tn
    be = tn.backends.backend_factory.get_backend(b)
    shape = self.shape(rng)
    how = rng.choice(DIRECT)
    x = self.rand(rng, shape)
    t, src = self.wrap(x, b)
    a = t.array
    want, nd = None, len(shape)
    if how == "sum":
      ax = None if rng.random() < 0.3 else sorted(
          rng.sample(range(nd), rng.randrange(nd + 1)))
      if ax is not None:
        ax = rng.choice([list, tuple])(
            [i - nd if rng.random() < 0.3 else i for i in ax])
      kw = {"keepdims": rng.random() < 0.5} if rng.random() < 0.5 else {}
      if ax is not None or rng.random() < 0.5:
        kw["axis"] = ax
      fn = lambda: be.sum(a, **kw)
      want = np.sum(x, axis=None if ax is None else tuple(ax),
                    keepdims=kw.get("keepdims", False))
    elif how == "shape":
      got = self.run(how, lambda: (be.shape_tuple(a), be.shape_tensor(a),
                                   be.sparse_shape(a),
                                   be.shape_prod(be.shape_tensor(a))))
      if not isinstance(got[0], tuple) or any(
          tuple(int(d) for d in g) != shape for g in got[:3]) or \
          int(got[3]) != x.size:
        raise Violation("wrong-shape", "%s, expected %s" % (got, shape))
      return
    elif how == "concat":
      if not nd:
        return
      ax = rng.randrange(-nd, nd)
      s2 = list(shape)
      s2[ax] = rng.randrange(1, 4)
      y = self.rand(rng, tuple(s2))
      c = be.convert_to_tensor(y)
      fn = lambda: be.shape_concat([a, c, a], ax)
      want = np.concatenate([x, y, x], ax)
    elif how in ("right", "left"):
      if not nd:
        return
      y = self.rand(rng, (shape[-1 if how == "right" else 0],))
      c = be.convert_to_tensor(y)
      if how == "right":
        fn, want = (lambda: be.broadcast_right_multiplication(a, c)), x * y
      else:
        fn = lambda: be.broadcast_left_multiplication(c, a)
        want = x * y.reshape((-1,) + (1,) * (nd - 1))
    elif how == "power":
      y = np.abs(x) + 0.1
      c = be.convert_to_tensor(y)
      if rng.random() < 0.5:
        e = rng.choice([2.0, 0.5, 3.0, -1.0])
        fn, want = (lambda: be.power(c, e)), y**e
      else:
        # the base may have to be broadcast
        z = self.rand(rng, shape[rng.randrange(nd + 1):])
        d, f = be.convert_to_tensor(np.abs(z)), c
        if z.dtype.kind == "c":
          d = be.convert_to_tensor(np.abs(z).astype(y.dtype))
        fn, want = (lambda: be.power(f, d)), y**np.abs(z)
    elif how == "item":
      y = self.rand(rng, (1,) * rng.randrange(4))
      c = be.convert_to_tensor(y)
      got = np.asarray(self.run(how, lambda: be.item(c)))
      self.same(got, y.reshape(()), "wrong-item")
      return
    elif how == "matmul":
      k = rng.choice((1, 2, 3))
      x = self.rand(rng, shape[:2] + (2, k))
      y = self.rand(rng, (shape[:2] if rng.random() < 0.6 else ()) + (k, 3))
      a, c = be.convert_to_tensor(x), be.convert_to_tensor(y)
      src = np.array(x)
      fn, want = (lambda: be.matmul(a, c)), x @ y
    elif how == "einsum":
      n, m = rng.choice((1, 2, 3)), rng.choice((1, 2))
      ms = [self.rand(rng, s) for s in ((n, m), (m, 2), (2, n), (n,))]
      cs = [be.convert_to_tensor(z) for z in ms]
      ex = rng.choice(["ij,jk,kl,l->i", "ij,jk,ki,i->", "ij,jk,km,i->mi",
                       "ij,jk,kl,i->lik"])
      kw = {"optimize": rng.random() < 0.5} if rng.random() < 0.7 else {}
      fn, want = (lambda: be.einsum(ex, *cs, **kw)), np.einsum(ex, *ms)
    elif how == "index_update":
      if b == "jax":
        return      # needs a version of jax that is not installed
      mask = np.array([rng.random() < 0.5 for _ in range(x.size)],
                      bool).reshape(shape)
      v = rng.choice([0.0, 1.5])
      if b == "tensorflow":
        v = x.dtype.type(v)
      fn = lambda: be.index_update(a, mask if b == "numpy" else
                                   be.convert_to_tensor(mask), v)
      want = np.where(mask, v, x)
    elif how == "serialize":
      if b != "numpy":
        return
      fn = lambda: be.deserialize_tensor(be.serialize_tensor(a))
      want = x
    elif how == "eps":
      dt = {"tensorflow": self.tfdtype}.get(b, np.dtype)(
          rng.choice(["float32", "float64"]))
      got = self.run(how, lambda: be.eps(dt))
      if float(got) != np.finfo(str(dt.name)).eps:
        raise Violation("wrong-eps", "%s" % got)
      return
    elif how == "tensordot":
      # more axes than two, negative ones, scalar axes
      if nd < 2:
        return
      ax = rng.sample(range(nd), rng.randrange(1, nd))
      y = self.rand(rng, tuple(shape[i] for i in ax) + (2,))
      c = be.convert_to_tensor(y)
      bx = list(range(len(ax)))
      if rng.random() < 0.5 and b != "tensorflow":
        ax = [i - nd for i in ax]
      fn = lambda: be.tensordot(a, c, [ax, bx])
      want = np.tensordot(x, y, (ax, bx))
    got = self.run("direct " + how, fn)
    got = np.asarray(got)
    self.same(got, want, "wrong-value:direct " + how)
    if got.dtype.kind != want.dtype.kind:
      raise Violation("wrong-dtype:direct " + how, "%s, expected %s" % (
          got.dtype, want.dtype))
    if not np.array_equal(np.asarray(a), x) or not np.array_equal(
        np.asarray(src), x):
      raise Violation("operand-changed:direct " + how, "")

  def op_misuse(self, rng, b):
    """Tensors of different backends do not mix."""
    tn = self.tn
    a = self.pick(rng)
    if a is None:
      return
    o = self.pick(rng, lambda x: x[2] != a[2])
    if o is None:
      return
    t, u = a[0], o[0]
    how = rng.choice(["+", "-", "*", "/", "@", "tensordot", "outer", "einsum",
                      "kron"])
    if how in "+-*/@":
      fn = lambda: eval("t%su" % how, {"t": t, "u": u})
    elif how == "einsum":
      e = "ABCDEF"[:t.ndim] + "," + "abcdef"[:u.ndim]
      fn = lambda: tn.einsum(e, t, u, optimize=True)
    elif how == "tensordot":
      fn = lambda: tn.tensordot(t, u, 0)
    else:
      fn = lambda: getattr(tn, how)(t, u)
    self.what = "misuse " + how
    try:
      fn()
    except ValueError:
      self.ctx.nontrivial = True
      return
    raise Violation("not-rejected:" + how, "tensors of %s and %s" % (a[2],
                                                                     o[2]))
