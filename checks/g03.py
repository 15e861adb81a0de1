"""G03: ncon computes the defining sum for every labelling and order."""
import numpy as np

from sim import core
from sim.core import Violation
from sim.netsim import close
from sim.seams import BackendFaults, SimOOM, seeded_numpy

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def einsum_out(net):
  labs = list(dict.fromkeys(x for l in net for x in l))
  ints = sorted([x for x in labs if not isinstance(x, str) and x < 0],
                reverse=True)
  strs = sorted([x for x in labs if isinstance(x, str) and x[0] == "-"])
  return ints + strs


def oracle(arrs, net, out):
  labs = list(dict.fromkeys(x for l in net for x in l))
  m = {x: LETTERS[i] for i, x in enumerate(labs)}
  return np.einsum(
      ",".join("".join(m[x] for x in l) for l in net) + "->" +
      "".join(m[x] for x in out), *arrs)


def gen_call(rng):
  nt = rng.choice([1, 2, 2, 3, 3, 4, 5])
  batchy = rng.random() < 0.3
  slots = [[] for _ in range(nt)]
  dims = {}
  names = []
  style = rng.choice(["int", "int", "str", "mix"])

  def name(is_open):
    while True:
      k = rng.choice([1, 2, 3, 5, 7, 10, 11, 20, 100])
      k += rng.randrange(6)
      if style == "int" or (style == "mix" and rng.random() < 0.5):
        x = -k if is_open else k
      else:
        x = rng.choice(["a", "B", "z", "1", "10", "2", "rick", "Z9"]) + \
            rng.choice(["", "1", "x", "0"])
        x = "-" + x if is_open else x
      if x not in dims:
        return x

  ncl = rng.randrange(0, 6) if nt > 1 else rng.randrange(0, 3)
  nop = rng.randrange(0, 5)
  for _ in range(ncl):
    x = name(False)
    dims[x] = rng.choice([1, 2, 2, 3])
    names.append(x)
    cnt = 2
    if batchy:
      cnt = rng.choice([1, 2, 2, 3, 4])
    for _ in range(cnt):
      slots[rng.randrange(nt)].append(x)
  for _ in range(nop):
    x = name(True)
    dims[x] = rng.choice([1, 2, 2, 3])
    names.append(x)
    for _ in range(rng.choice([1, 2, 3]) if batchy and rng.random() < 0.5
                   else 1):
      slots[rng.randrange(nt)].append(x)
  for s in slots:
    rng.shuffle(s)
    del s[6:]
  # dropping slots may leave labels once or not at all; keep those used
  used = [x for x in names if any(x in s for s in slots)]
  call = {"net": slots, "dims": [[x, dims[x]] for x in used],
          "data": rng.getrandbits(32),
          "con": rng.getrandbits(30) if rng.random() < 0.6 else None,
          "out": rng.getrandbits(30) if rng.random() < 0.6 else None,
          "wrap": rng.choice(["raw", "raw", "tensor", "builder", "solver",
                              "default"]),
          "containers": rng.randrange(4),
          "check": rng.random() < 0.85}
  if rng.random() < 0.4:
    call["bad"] = [rng.choice(BAD), rng.getrandbits(30)]
  return call


BAD = ("few-lists", "many-lists", "short-list", "long-list", "zero", "symbol",
       "con-negative", "con-twice", "con-short", "con-unknown", "con-open",
       "out-positive", "out-twice", "out-short", "out-unknown", "out-closed",
       "dims", "backends")


def spoil(kind, seed, net, arrs, closed, out):
  """An ill-formed call made from a well-formed one, or None."""
  rnd = core.prng("spoil", seed)
  net = [list(l) for l in net]
  arrs = list(arrs)
  con = out2 = None
  full = [t for t, l in enumerate(net) if l]
  new_label = "unused9" if rnd.random() < 0.5 else 987

  def shuffled(xs):
    xs = sorted(xs, key=str)
    rnd.shuffle(xs)
    return xs

  if kind == "few-lists":
    net.pop()
  elif kind == "many-lists":
    net.append([])
  elif kind == "short-list":
    if not full:
      return None
    net[rnd.choice(full)].pop()
  elif kind == "long-list":
    rnd.choice(net).append(new_label)
  elif kind in ("zero", "symbol"):
    if not full:
      return None
    t = rnd.choice(full)
    bad = 0 if kind == "zero" else rnd.choice(["a b", "-", "x_y", "-p-", "é!"])
    net[t][rnd.randrange(len(net[t]))] = bad
  elif kind.startswith("con-"):
    if not closed:
      return None
    con = shuffled(closed)
    j = rnd.randrange(len(con))
    if kind == "con-negative":
      con[j] = "-" + con[j] if isinstance(con[j], str) else -con[j]
    elif kind == "con-twice":
      con.append(con[j])
    elif kind == "con-short":
      if len(con) < 2:
        return None
      con.pop()
    elif kind == "con-unknown":
      con[j] = new_label
    else:
      if not out:
        return None
      con.append(rnd.choice(out))
  elif kind.startswith("out-"):
    if not out:
      return None
    out2 = shuffled(out)
    j = rnd.randrange(len(out2))
    if kind == "out-positive":
      out2[j] = out2[j][1:] if isinstance(out2[j], str) else -out2[j]
    elif kind == "out-twice":
      out2.append(out2[j])
    elif kind == "out-short":
      if len(out2) < 2:
        return None
      out2.pop()
    elif kind == "out-unknown":
      out2[j] = "-unused9" if rnd.random() < 0.5 else -987
    else:
      if not closed:
        return None
      out2.append(rnd.choice(closed))
  elif kind == "dims":
    many = [x for x in closed if sum(l.count(x) for l in net) > 1]
    if not many:
      return None
    x = rnd.choice(many)
    t = rnd.choice([t for t in full if x in net[t]])
    a = arrs[t]
    arrs[t] = np.concatenate([a, a[:1]] if net[t][0] == x else [a], 0)
    if arrs[t].shape == a.shape:
      p = net[t].index(x)
      arrs[t] = np.repeat(a, a.shape[p] + 1, axis=p)
  return net, arrs, con, out2


class G03(core.Scenario):
  ID = "G03"
  CONFIGS = [("nofault", 3), ("alloc-faults", 2), ("jit", 1)]
  QUICK_RUNS = 30000
  QUICK_BUDGET = 38.0
  RULE = ("A run is a history of 3-12 ncon calls (random networks, labels, "
          "orders and wrappers) sharing the library's cache of compiled "
          "contractions; non-trivial: some call contracted two tensors.")
  REAL = ["tensornetwork.ncon_interface", "tensornetwork.tensor",
          "tensornetwork.contractors.custom_path_solvers", "numpy backend",
          "jax backend (jit configuration)"]
  STUB = ["outcome of individual backend calls (injected MemoryError)"]
  ASSUMPTIONS = ["numpy.einsum is correct"]
  SHRINK_LISTS = ("calls",)
  SIM_TIME_UNIT = "ncon calls"

  def gen(self, rng, cfg, tier):
    n = rng.randrange(3, 13)
    if cfg == "jit":
      n = rng.randrange(3, 6)
    calls = [gen_call(rng) for _ in range(n)]
    if rng.random() < 0.6:
      # the same structure again with other data, sizes and orders
      for _ in range(2):
        c = dict(rng.choice(calls))
        c["data"] = rng.getrandbits(32)
        if rng.random() < 0.5:
          c["con"] = rng.getrandbits(30)
          c["out"] = rng.getrandbits(30)
        if rng.random() < 0.5:
          c["dims"] = [[x, rng.choice([1, 2, 3])] for x, _ in c["dims"]]
        calls.append(c)
    if cfg == "alloc-faults":
      for c in calls:
        if rng.random() < 0.4:
          c["fault"] = 1 + rng.randrange(9)
    return {"calls": calls, "data_seed": rng.getrandbits(32)}

  def execute(self, plan, ctx):
    from tensornetwork import ncon_interface
    jit = plan["cfg"] == "jit"
    if jit:
      self.jits = getattr(self, "jits", 0) + 1
      if self.jits % 60 == 0:  # bounds the memory of a long search
        import jax
        jax.clear_caches()
        ncon_interface._CACHED_JITTED_NCONS.clear()
    else:
      ncon_interface._CACHED_JITTED_NCONS.clear()  # a fresh process
    with seeded_numpy(plan["data_seed"]), BackendFaults() as faults:
      for c in plan["calls"]:
        self.one(c, ctx, faults, "jax" if jit and c["data"] % 3 else "numpy")

  def one(self, c, ctx, faults, backend):
    import tensornetwork as tn
    net = c["net"]
    dims = dict((x, d) for x, d in c["dims"])
    flat = [x for l in net for x in l]
    rs = np.random.RandomState(c["data"])
    arrs = []
    for l in net:
      a = np.asarray(rs.standard_normal(tuple(dims[x] for x in l)))
      if c["data"] % 5 == 0:
        a = a + 1j * rs.standard_normal(a.shape)
      if c["data"] % 7 == 0:
        a = np.array(a, order="F")
      arrs.append(np.asarray(a))
    closed = [x for x in dims if not (x.startswith("-")
                                      if isinstance(x, str) else x < 0)]
    out = einsum_out(net)
    batch = any(flat.count(x) != 2 for x in closed) or any(
        flat.count(x) != 1 for x in out)
    plain = not batch
    kw = {}
    con = None
    if c["con"] is not None and closed:
      con = sorted(closed, key=str)
      core.prng(c["con"]).shuffle(con)
      kw["con_order"] = con
    order = out
    if c["out"] is not None and out:
      order = list(out)
      core.prng(c["out"]).shuffle(order)
      kw["out_order"] = list(order)
    if c.get("bad"):
      self.refused(c, net, arrs, closed, out, backend, ctx)
    wrap = c["wrap"]
    if not c["check"] and plain:
      kw["check_network"] = False
    ints = all(not isinstance(x, str) for x in flat)
    keep = [a.copy() for a in arrs]
    ts = list(arrs)
    given_net = [list(l) for l in net]
    if c["containers"] % 2:
      given_net = [tuple(l) for l in given_net]
    if c["containers"] // 2:
      ts, given_net = tuple(ts), tuple(given_net)
    expect_tensor = False
    if wrap == "solver" and plain and ints and len(net) >= 2 and \
        all(l for l in net) and closed and \
        len({id(a) for a in arrs}) == len(net):
      co, _, _ = tn.contractors.custom_path_solvers.ncon_solver(
          list(arrs), [list(l) for l in net], max_branch=3)
      kw["con_order"] = [int(x) for x in co]
      con = kw["con_order"]
      if sorted(con) != sorted(closed):
        raise Violation("solver-order", "%s for labels %s" % (con, closed))
      ctx.op("ncon_solver")
    if wrap in ("tensor", "builder"):
      ts = [tn.Tensor(a, backend=backend) for a in arrs]
      expect_tensor = True
    if wrap == "builder" and not kw and len(net) >= 2 and ints and \
        all(l for l in net):
      def run():
        b = None
        for t, l in zip(ts, net):
          b = t(*l) if b is None else b @ t(*l)
        return tn.finalize(b)
    elif wrap == "default":
      def run():
        with tn.DefaultBackend(backend):
          return tn.ncon(ts, given_net, **kw)
    else:
      def run():
        return tn.ncon(ts, given_net, backend=backend, **kw)
    ctx.op("ncon")
    ctx.ticks += 1

    def unchanged():
      for a, k in zip(arrs, keep):
        if a.shape != k.shape or not np.array_equal(a, k):
          raise Violation("argument-changed", "a tensor passed to ncon")
      if [list(l) for l in given_net] != net:
        raise Violation("argument-changed", "network_structure")
      if con is not None and kw.get("con_order") != con:
        raise Violation("argument-changed", "con_order")

    if c.get("fault"):
      faults.arm(c["fault"])
      try:
        run()
      except SimOOM:
        ctx.fault("alloc")
        ctx.log("fault", faults.fired)
      except ValueError as e:
        if "stuck" not in str(e) or not batch:
          raise
      except Exception as e:
        if faults.fired is not None:
          raise Violation("fault-changed-exception", repr(e)) from e
        raise
      faults.disarm()
      unchanged()
    try:
      res = run()
    except ValueError as e:
      if batch and "stuck" in str(e):
        ctx.probe("refused-batch-order")
        unchanged()
        ctx.log("refused")
        return
      raise
    unchanged()
    if expect_tensor:
      if not isinstance(res, tn.Tensor):
        raise Violation("result-type", type(res))
      res = res.array
    got = np.asarray(res)
    exp = oracle(arrs, net, order)
    tol = 1e-8 if backend == "numpy" else 1e-4
    if got.shape != exp.shape or not close(got, exp, tol):
      raise Violation("value", "net=%s con=%s out=%s: shape %s, expected %s" %
                      (net, kw.get("con_order"), order, got.shape, exp.shape))
    if len(net) > 1:
      ctx.nontrivial = True
    if batch:
      ctx.probe("batch-network")
    ctx.log("ok", net, got.shape, round(float(np.abs(got).sum()), 6)
            if backend == "numpy" else "")
    ctx.state([net, sorted(map(str, dims.items()))])

  def refused(self, c, net, arrs, closed, out, backend, ctx):
    """An ill-formed labelling is refused with a ValueError."""
    import tensornetwork as tn
    kind, seed = c["bad"]
    if kind == "backends":
      ts = [tn.Tensor(a, backend="numpy") for a in arrs]
      call = lambda: tn.ncon(ts, net, backend="jax")
      made = (net, arrs, None, None)
    else:
      made = spoil(kind, seed, net, arrs, closed, out)
      if made is None:
        return
      net2, arrs2, con, out2 = made
      kw = {}
      if con is not None:
        kw["con_order"] = con
      if out2 is not None:
        kw["out_order"] = out2
      call = lambda: tn.ncon(arrs2, net2, backend=backend, **kw)
    copies = [a.copy() for a in made[1]]
    frozen = repr([made[0], made[2], made[3]])
    ctx.op("ncon refused")
    try:
      call()
    except ValueError as e:
      ctx.log("refused", kind, str(e)[:60])
    else:
      raise Violation("not-refused:" + kind, "net=%s con=%s out=%s shapes=%s"
                      % (made[0], made[2], made[3],
                         [a.shape for a in made[1]]))
    ctx.probe("refused " + kind)
    if repr([made[0], made[2], made[3]]) != frozen or any(
        not np.array_equal(a, b) for a, b in zip(made[1], copies)):
      raise Violation("argument-changed", "by a refused call")

  def simplify(self, plan):
    for i, c in enumerate(plan["calls"]):
      for k, v in (("fault", None), ("con", None), ("out", None),
                   ("wrap", "raw"), ("containers", 0), ("check", True),
                   ("bad", None)):
        if c.get(k) != v:
          calls = [dict(x) for x in plan["calls"]]
          calls[i][k] = v
          yield dict(plan, calls=calls)
      for j in range(len(c["net"])):
        if len(c["net"]) > 1:
          calls = [dict(x) for x in plan["calls"]]
          net = c["net"][:j] + c["net"][j + 1:]
          flat = [x for l in net for x in l]
          calls[i]["net"] = net
          calls[i]["dims"] = [d for d in c["dims"] if d[0] in flat]
          yield dict(plan, calls=calls)


SCENARIO = G03
