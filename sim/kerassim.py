"""Histories of the Keras layers: build, call, train, checkpoint, crash.

The reference of a layer is a function written with tf.einsum from the layer's
documented picture; it is applied to the reference copy of the weights, which
follows its own training steps.  A crash discards all layers; what survives is
the last checkpoint: configurations as JSON text and weights as arrays.
"""
import json
import string

import numpy as np

from sim import core
from sim.core import SkipOp, Violation
from sim.seams import SimLinAlgError, SimOOM

ACTS = {None: "linear", "relu": "relu", "tanh": "tanh", "sigmoid": "sigmoid"}


def make_layer_spec(rng, in_dim, conv=False):
  """A random layer for an input dimension, and its output dimension."""
  acts = [None, None, "relu", "tanh", "sigmoid"]
  common = {"use_bias": rng.random() < 0.7, "activation": rng.choice(acts),
            "bias_initializer": rng.choice(["zeros", "random_normal"])}
  if conv:
    n = rng.choice([2, 2, 3])
    root = rng.choice([1, 2, 2, 3]) if n == 2 else rng.choice([1, 2])
    kw = dict(common, filters=root**n, num_nodes=n,
              bond_dim=rng.choice([1, 2, 3]),
              kernel_size=rng.choice([1, 2, 3, [1, 2], [2, 3], [3, 1]]),
              padding=rng.choice(["same", "valid"]))
    if rng.random() < 0.4:
      kw["strides"] = rng.choice([2, [1, 2]])
    elif rng.random() < 0.3:
      kw["dilation_rate"] = 2
    if rng.random() < 0.3:
      kw["kernel_regularizer"] = "l2"
    if rng.random() < 0.2:
      kw["bias_regularizer"] = "l2"
    return {"kind": "Conv2DMPO", "kw": kw}, root**n
  kinds = ["DenseDecomp", "DenseExpander"]
  roots = [(r, n) for n in (3, 4, 5) for r in range(1, 8) if r**n == in_dim]
  ent = [(r, n) for n in (2, 3, 4, 5) for r in range(1, 12)
         if r**n == in_dim and r > 1]
  cond = [(e, n) for e in (2, 3) for n in (1, 2, 3)
          if in_dim % e**n == 0]
  if roots:
    kinds += ["DenseMPO", "DenseMPO"]
  if ent:
    kinds += ["DenseEntangler", "DenseEntangler"]
  if cond:
    kinds += ["DenseCondenser", "DenseCondenser"]
  kind = rng.choice(kinds)
  if kind == "DenseDecomp":
    out = rng.choice([1, 2, 3, 4, 8, 9])
    kw = dict(common, output_dim=out, decomp_size=rng.choice([1, 2, 3]))
  elif kind == "DenseExpander":
    e, n = rng.choice([(2, 1), (2, 2), (3, 1), (2, 3), (1, 2)])
    if in_dim * e**n > 128:
      e, n = 1, 1
    out = in_dim * e**n
    kw = dict(common, exp_base=e, num_nodes=n)
  elif kind == "DenseMPO":
    r, n = rng.choice(roots)
    o = rng.choice([1, 2, 3]) if n < 5 else rng.choice([1, 2])
    out = o**n
    kw = dict(common, output_dim=out, num_nodes=n,
              bond_dim=rng.choice([1, 2, 3]))
  elif kind == "DenseEntangler":
    r, n = rng.choice(ent)
    o = rng.choice([r, r, max(1, r - 1), r + 1 if (r + 1)**n < 130 else r])
    out = o**n
    kw = dict(common, output_dim=out, num_legs=n,
              num_levels=rng.choice([1, 1, 2, 3]))
  else:
    e, n = rng.choice(cond)
    out = in_dim // e**n
    kw = dict(common, exp_base=e, num_nodes=n)
  return {"kind": kind, "kw": kw}, out


def gen(rng, tier, rate):
  conv = rng.random() < 0.25
  plan = {"conv": conv, "specs": []}
  if conv:
    d = rng.choice([1, 4, 4, 9, 8])
    plan["in_dim"] = d
    n = rng.choice([2, 2, 3])
    fits = {1: [2, 3], 4: [2], 9: [2], 8: [3]}
    for _ in range(rng.choice([1, 1, 2])):
      for _ in range(20):
        spec, out = make_layer_spec(rng, d, True)
        if spec["kw"]["num_nodes"] in fits.get(d, []):
          break
      else:
        break
      if plan["specs"]:
        spec["kw"]["padding"] = "same"
      plan["specs"].append(spec)
      d = out
  else:
    d = rng.choice([4, 8, 8, 9, 12, 16, 16, 27, 32, 64, 81])
    if rng.random() < 0.04:
      d = 3125
    plan["in_dim"] = d
    for _ in range(rng.choice([1, 1, 2, 3])):
      if d > 700:
        spec = {"kind": "DenseMPO", "kw": {
            "output_dim": rng.choice([1, 32]), "num_nodes": 5, "bond_dim": 2}}
        d = spec["kw"]["output_dim"]
      else:
        spec, d = make_layer_spec(rng, d)
      plan["specs"].append(spec)
  plan["dtype"] = rng.choice(["float64", "float64", "float32"])
  if conv and rng.random() < 0.4:
    # TensorFlow has this layout on a CPU for single precision only
    plan["dtype"] = "float32"
    for spec in plan["specs"]:
      spec["kw"]["data_format"] = "channels_first"
  if not conv and rng.random() < 0.15:
    plan["specs"][0]["kw"]["input_dim"] = plan["in_dim"]
  ops = []
  for i in range(rng.randrange(4, 20 if tier != "quick" else 11)):
    o = rng.choice(["call", "call", "graph", "train", "train", "checkpoint",
                    "crash", "bad_input", "shape", "split_batch", "rebuild"])
    if i == 0:
      o = "call"
    if i == 1:
      o = rng.choice([o, "rebuild"])
    op = {"op": o, "r": [rng.randrange(1 << 16) for _ in range(4)]}
    if rate and i and o in ("call", "train", "graph") and rng.random() < rate:
      op["fault"] = 1 + rng.randrange(30)
    ops.append(op)
  plan["ops"] = ops
  return plan


class KerasSim:

  def __init__(self, plan, ctx, faults=None):
    import tensorflow as tf
    from tensornetwork.tn_keras import layers
    self.tf, self.mod = tf, layers
    self.plan, self.ctx, self.faults = plan, ctx, faults
    self.npr = np.random.RandomState(plan["data_seed"] % 2**32)
    self.tol = 1e-9 if plan["dtype"] == "float64" else 2e-4
    self.names = 0
    tf.random.set_seed(plan["data_seed"] % 2**31)
    self.specs = plan["specs"]
    self.layers = [self.make(s) for s in self.specs]
    self.ref = None          # reference weights: list of lists of arrays
    self.saved = None
    self.built = False

  # -- the library side ------------------------------------------------------
  def make(self, spec):
    kw = dict(spec["kw"])
    for k in ("kernel_size", "strides"):
      if isinstance(kw.get(k), list):
        kw[k] = tuple(kw[k])
    self.names += 1
    layer = getattr(self.mod, spec["kind"])(
        name="l%d" % self.names, dtype=self.plan["dtype"], **kw)
    if "input_dim" in kw:
      model = self.tf.keras.Sequential([layer])     # builds it at once
      if not layer.built or tuple(model.input_shape) != (None,
                                                         kw["input_dim"]):
        raise Violation("input_dim", "built %s, input %s" % (
            layer.built, model.input_shape))
    return layer

  def run(self, x):
    for l in self.layers:
      x = l(x)
    return x

  def weights(self, l):
    """Weights in the order the documentation names them: nodes, then bias."""
    return [np.array(w) for w in l.get_weights()]

  def adopt(self):
    """First call: the library chose the initial weights."""
    self.ref = [self.weights(l) for l in self.layers]
    for l, ws, s in zip(self.layers, self.ref, self.specs):
      if s["kw"].get("use_bias", True) and \
          s["kw"].get("bias_initializer", "zeros") == "zeros" and \
          np.any(ws[-1] != 0):
        raise Violation("initial-bias", "bias_initializer zeros gave %s" %
                        ws[-1])
      for w in ws:
        if w.dtype != np.dtype(self.plan["dtype"]):
          raise Violation("dtype", "weight of dtype %s" % w.dtype)
    self.built = True

  # -- the reference -----------------------------------------------------------
  def reference(self, weights, x):
    tf = self.tf
    for s, ws in zip(self.specs, weights):
      x = self.ref_layer(s, list(ws), x)
    return x

  def ref_layer(self, s, ws, x):
    tf = self.tf
    kw, kind = s["kw"], s["kind"]
    bias = ws.pop() if kw.get("use_bias", True) else None
    first = kw.get("data_format") == "channels_first"
    if kind == "Conv2DMPO":
      if first:
        x = tf.transpose(x, (0, 2, 3, 1))
      y = self.ref_conv(kw, ws, x)
    else:
      lead = [int(d) for d in x.shape[:-1]]
      v = tf.reshape(x, (-1, int(x.shape[-1])))
      y = getattr(self, "ref_" + kind)(kw, ws, v)
      y = tf.reshape(y, lead + [-1])
    if bias is not None:
      y = y + bias
    if first:
      y = tf.transpose(y, (0, 3, 1, 2))
    act = kw.get("activation")
    if act:
      y = {"relu": tf.nn.relu, "tanh": tf.tanh, "sigmoid": tf.sigmoid}[act](y)
    return y

  def ref_DenseDecomp(self, kw, ws, v):
    return v @ ws[0] @ ws[1]

  def ref_DenseMPO(self, kw, ws, v):
    tf, n = self.tf, kw["num_nodes"]
    r = round(int(v.shape[-1])**(1 / n))
    # site by site from the left: (batch, outs, bond, remaining ins)
    rest = r**(n - 1)
    t = tf.reshape(v, (-1, r, rest))
    t = tf.einsum("bir,iko->bokr", t, ws[0])
    for i in range(1, n):
      rest //= r
      out, bond = int(t.shape[1]), int(t.shape[2])
      t = tf.reshape(t, (-1, out, bond, r, rest))
      if i < n - 1:
        t = tf.einsum("bOkir,ikqo->bOoqr", t, ws[i])
      else:
        t = tf.einsum("bOkir,iko->bOor", t, ws[i])[..., None, :]
      t = tf.reshape(t, (-1, out * int(t.shape[2]), int(t.shape[3]), rest))
    return tf.reshape(t, (-1, kw["output_dim"]))

  def ref_DenseCondenser(self, kw, ws, v):
    tf, e, n = self.tf, kw["exp_base"], kw["num_nodes"]
    out = int(v.shape[-1]) // e**n
    t = tf.reshape(v, (-1, e**n, out))
    for w in ws:
      t = tf.reshape(t, (int(v.shape[0]), -1, e, out))
      t = tf.einsum("bxeo,oep->bxp", t, w)
    return tf.reshape(t, (int(v.shape[0]), out))

  def ref_DenseExpander(self, kw, ws, v):
    tf = self.tf
    t = v[:, None, :]
    for w in ws:
      t = tf.einsum("bxi,iep->bxep", t, w)
      t = tf.reshape(t, (int(v.shape[0]), -1, int(w.shape[2])))
    return tf.reshape(t, (int(v.shape[0]), -1))

  def ref_DenseEntangler(self, kw, ws, v):
    tf, n = self.tf, kw["num_legs"]
    r = round(int(v.shape[-1])**(1 / n))
    t = tf.reshape(v, [int(v.shape[0])] + [r] * n)
    legs = list(range(n))      # which leg each axis of t belongs to
    for i, w in enumerate(ws):
      a, b = i % n, (i + 1) % n
      ab = string.ascii_lowercase
      axes = ["z"] + [ab[x] for x in legs]
      out = ["z"] + [ab[x] for x in legs if x not in (a, b)] + ["X", "Y"]
      t = tf.einsum("%s,%sXY->%s" % ("".join(axes), ab[a] + ab[b],
                                     "".join(out)), t, w)
      legs = [x for x in legs if x not in (a, b)] + [a, b]
    return tf.reshape(t, (int(v.shape[0]), -1))

  def ref_conv(self, kw, ws, x):
    tf = self.tf
    n = len(ws)
    # kernel[h, w, in..., out...]
    t = ws[0]                                     # (i, h, k, o)
    t = tf.transpose(t, (1, 0, 3, 2))             # h, I, O, k
    for w in ws[1:-1]:
      t = tf.einsum("hIOk,ikqo->hIiOoq", t, w)
      t = tf.reshape(t, (int(t.shape[0]), int(t.shape[1]) * int(t.shape[2]),
                         int(t.shape[3]) * int(t.shape[4]), int(t.shape[5])))
    t = tf.einsum("hIOk,ikwo->hwIiOo", t, ws[-1])
    sh = [int(d) for d in t.shape]
    kernel = tf.reshape(t, (sh[0], sh[1], sh[2] * sh[3], sh[4] * sh[5]))
    st = kw.get("strides", 1)
    dl = kw.get("dilation_rate", 1)
    del n
    return tf.nn.conv2d(x, kernel, [st, st] if isinstance(st, int) else st,
                        kw["padding"].upper(), dilations=[dl, dl])

  # -- helpers -----------------------------------------------------------------
  def first(self):
    return self.specs[0]["kw"].get("data_format") == "channels_first"

  def batch(self, r, lead=None):
    d = self.plan["in_dim"]
    if self.plan["conv"]:
      shape = (1 + r % 3, 5 + r // 3 % 3, 5 + r // 9 % 3, d)
      if self.first():
        shape = (shape[0], d) + shape[1:3]
    elif d > 700:
      shape = (1 + r % 2, d)
    else:
      shape = [(1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)][r % 6] + (d,)
    return self.npr.standard_normal(shape).astype(self.plan["dtype"])

  def same(self, got, want, what, tol=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
      raise Violation("wrong-shape:" + what, "%s, expected %s" % (
          got.shape, want.shape))
    if got.dtype != np.dtype(self.plan["dtype"]):
      raise Violation("wrong-dtype:" + what, str(got.dtype))
    scale = max(1.0, np.abs(want).max() if want.size else 1.0)
    if want.size and not np.abs(got - want).max() <= (
        tol or self.tol) * scale:
      raise Violation("wrong-value:" + what, "max deviation %s (scale %s), "
                      "layers %s" % (np.abs(got - want).max(), scale,
                                     [s["kind"] for s in self.specs]))

  def check_weights(self, what):
    if not self.built:
      return
    for l, ws, s in zip(self.layers, self.ref, self.specs):
      mine = self.weights(l)
      if s["kind"] == "Conv2DMPO":
        bias = s["kw"]["use_bias"]
        ker = (ws[:-1] if bias else ws) if s["kw"].get(
            "kernel_regularizer") else []
        if bias and s["kw"].get("bias_regularizer"):
          ker = ker + [ws[-1]]
        self.same(np.sum([np.asarray(x) for x in l.losses]).astype(
            ws[0].dtype), np.asarray(sum(0.01 * np.sum(w**2) for w in ker),
                                     ws[0].dtype), "regularization", 1e-5)
      if len(mine) != len(ws):
        raise Violation("weights-changed", "%s: %d weights, expected %d" % (
            what, len(mine), len(ws)))
      for a, b in zip(mine, ws):
        self.same(a, b, "weights after " + what)

  def armed(self, op, fn):
    """Run fn with the k-th backend call failing."""
    if "fault" not in op or self.faults is None:
      return fn()
    self.faults.arm(op["fault"])
    try:
      res = fn()
    except Exception as e:  # pylint: disable=broad-except
      site = self.faults.disarm()
      chain, x = [], e
      while x is not None:
        chain.append(x)
        x = x.__cause__ or x.__context__
      if site is None or not any(isinstance(c, (SimOOM, SimLinAlgError))
                                 for c in chain):
        if site is not None and "injected" in str(e):
          pass                # Keras re-raises with its own message
        else:
          raise
      self.ctx.fault("oom")
      self.ctx.probe("fault in " + op["op"])
      self.ctx.log("fault", site)
      return None
    self.faults.disarm()
    return res

  # -- operations ----------------------------------------------------------------
  def step(self, op):
    self.ctx.op(op["op"])
    self.ctx.ticks += 1
    if not self.built and op["op"] != "call":
      return "skip"
    try:
      res = getattr(self, "op_" + op["op"])(op, op["r"])
    except SkipOp:
      return "skip"
    self.check_weights(op["op"])
    self.ctx.log("ok", op["op"])
    self.ctx.state([[list(w.shape) for w in ws] for ws in self.ref or []] +
                   [op["op"], self.saved is not None])
    return res

  def op_call(self, op, r):
    x = self.batch(r[0])
    y = self.armed(op, lambda: self.run(self.tf.constant(x)))
    if not self.built:
      if y is None:
        return "fault"
      self.adopt()
      for l, ws in zip(self.layers, self.ref):
        if l.count_params() != sum(w.size for w in ws):
          raise Violation("count_params", str(l.count_params()))
    if y is None:
      y = self.run(self.tf.constant(x))       # the next call works
    self.same(y, self.reference(self.tf_ref(), x), "call")
    return "ok"

  def tf_ref(self):
    return [[self.tf.constant(w) for w in ws] for ws in self.ref]

  def op_split_batch(self, op, r):
    """Each sample alone gives what it gives in the batch."""
    x = self.batch(r[0])
    y = np.asarray(self.run(self.tf.constant(x)))
    one = np.concatenate([np.asarray(self.run(self.tf.constant(x[i:i + 1])))
                          for i in range(x.shape[0])])
    self.same(one, y, "single samples")
    perm = list(range(x.shape[0]))
    core.prng(r[1]).shuffle(perm)
    self.same(self.run(self.tf.constant(x[perm])), y[perm], "permuted batch")
    return "ok"

  def op_graph(self, op, r):
    """Compiled, with a batch size that is not known beforehand."""
    x = self.batch(r[0])
    tf = self.tf
    spec = [None] + list(x.shape[1:])
    fn = tf.function(self.run, input_signature=[
        tf.TensorSpec(spec, self.plan["dtype"])])
    y = self.armed(op, lambda: fn(tf.constant(x)))
    if y is None:
      y = fn(tf.constant(x))
    self.same(y, self.reference(self.tf_ref(), x), "graph mode")
    return "ok"

  def op_shape(self, op, r):
    x = self.batch(r[0])
    sh = tuple(x.shape)
    for l in self.layers:
      sh = tuple(l.compute_output_shape(sh))
    y = self.run(self.tf.constant(x))
    if tuple(int(d) for d in sh) != tuple(y.shape):
      raise Violation("output-shape", "compute_output_shape %s, output %s" % (
          sh, y.shape))
    return "ok"

  def op_train(self, op, r):
    """One step of gradient descent."""
    tf = self.tf
    if any("dilation_rate" in s["kw"] for s in self.specs):
      raise SkipOp()           # TensorFlow has no gradient of these on a CPU
    x = self.batch(r[0])
    rate = (0.1, 0.03, 0.3)[r[1] % 3]
    ref = [[tf.Variable(w) for w in ws] for ws in self.ref]
    with tf.GradientTape() as tape:
      y = self.reference(ref, x)
      target = self.npr.standard_normal(y.shape).astype(self.plan["dtype"])
      loss = tf.reduce_mean((y - target)**2)
    want = tape.gradient(loss, [w for ws in ref for w in ws])

    def grads():
      with tf.GradientTape() as tape2:
        loss2 = tf.reduce_mean((self.run(tf.constant(x)) - target)**2)
      return tape2.gradient(loss2, [w for l in self.layers
                                    for w in l.trainable_weights])

    fn = tf.function(grads) if r[2] % 3 == 0 else grads
    got = self.armed(op, fn)
    if got is None:
      self.check_weights("failed step")
      got = grads()
    if len(got) != len(want):
      raise Violation("gradients", "%d trainable weights, expected %d" % (
          len(got), len(want)))
    k = 0
    for l, ws in zip(self.layers, self.ref):
      tw = l.trainable_weights
      order = self.order(l)
      for j, i in enumerate(order):
        g, w = got[k + j], want[k + i]
        g = np.zeros(tw[j].shape, self.plan["dtype"]) if g is None else g
        w = np.zeros(tw[j].shape, self.plan["dtype"]) if w is None else w
        self.same(g, w, "gradient")
        tw[j].assign_sub(rate * g)
      for i in range(len(ws)):
        if want[k + i] is not None:
          ws[i] = ws[i] - (rate * np.asarray(want[k + i])).astype(ws[i].dtype)
      k += len(ws)
    return "ok"

  def order(self, l):
    """Position of every trainable weight in get_weights()."""
    allw = l.weights
    return [[i for i, w in enumerate(allw) if w is t][0]
            for t in l.trainable_weights]

  def op_checkpoint(self, op, r):
    ser = self.tf.keras.layers.serialize
    self.saved = (json.dumps([ser(l) if (r[1] >> i) % 2 else
                              [type(l).__name__, l.get_config()]
                              for i, l in enumerate(self.layers)]),
                  [[np.array(w) for w in l.get_weights()]
                   for l in self.layers],
                  [[np.array(w) for w in ws] for ws in self.ref],
                  [tuple(l.input_spec.shape) if getattr(
                      l, "input_spec", None) is not None else None
                   for l in self.layers])
    return "ok"

  def restore(self, saved, call_first, r):
    conf, weights, ref, _ = saved
    self.layers = []
    configs = []
    for c in json.loads(conf):
      if isinstance(c, dict):
        self.layers.append(self.tf.keras.layers.deserialize(c))
        configs.append((c["class_name"], c["config"]))
      else:
        self.layers.append(getattr(self.mod, c[0]).from_config(c[1]))
        configs.append(c)
    # build in a new process: by a call, or from the input shape alone
    x = self.batch(r[1])
    if call_first:
      self.run(self.tf.constant(x))
    else:
      sh = tuple([None] + list(x.shape[1:]))
      for l in self.layers:
        if not l.built:
          l.build(sh)
        sh = tuple(l.compute_output_shape(sh))
    for l, ws in zip(self.layers, weights):
      l.set_weights(ws)
    self.ref = [[np.array(w) for w in ws] for ws in ref]
    for l, (name, c) in zip(self.layers, configs):
      if json.loads(json.dumps(l.get_config())) != c:
        raise Violation("config", "%s: %s after restoring %s" % (
            name, l.get_config(), c))
    self.same(self.run(self.tf.constant(x)),
              self.reference(self.tf_ref(), x), "restored layer")

  def op_crash(self, op, r):
    """The process dies; only the last checkpoint is left."""
    if self.saved is None:
      raise SkipOp()
    self.ctx.fault("crash")
    self.restore(self.saved, r[0] % 2, r)
    return "ok"

  def op_rebuild(self, op, r):
    """The same layers from their configuration and weights, in place."""
    keep = self.saved
    self.op_checkpoint(op, r)
    self.restore(self.saved, r[0] % 2, r)
    self.saved = keep
    return "ok"

  def op_bad_input(self, op, r):
    """A wrong last dimension is refused and changes nothing."""
    if self.plan["in_dim"] == 1:
      raise SkipOp()           # a grouped convolution takes any channels
    x = self.batch(r[0])
    ax = 1 if self.first() else -1
    bad = np.concatenate([x, np.take(x, [0], axis=ax)], axis=ax)
    try:
      self.run(self.tf.constant(bad))
    except Exception as e:  # pylint: disable=broad-except
      self.ctx.log("refused", type(e).__name__)
    else:
      raise Violation("not-rejected:input", "%s accepted an input of %d "
                      "instead of %d" % ([s["kind"] for s in self.specs],
                                         bad.shape[ax], x.shape[ax]))
    self.same(self.run(self.tf.constant(x)),
              self.reference(self.tf_ref(), x), "call after a refused one")
    return "ok"
