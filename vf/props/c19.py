"""Gradients seen by training code are the derivatives of the references."""

import copy
import numpy as np
from vf import gen, lay, nets, oracle
from vf.core import Skip


def variables(layer, kind):
  """{name of the reference parameter: variable}"""
  if kind == 'mc':
    d = {('weights', k): w for k, w in enumerate(layer._weights_tf)}
    d.update({('biases', k): w for k, w in enumerate(layer._bias_tf)})
    d[('final', None)] = layer._final_weights_tf
    return d
  if kind == 'pointconv':
    return {('axis', None): layer._basis_axis_tf,
            ('bias', None): layer._basis_bias_tf,
            ('weights', None): layer._weights,
            ('w1', None): layer._weights_pdf[0],
            ('w2', None): layer._weights_pdf[1],
            ('b1', None): layer._biases_pdf[0],
            ('b2', None): layer._biases_pdf[1]}
  d = {('weights', None): layer._weights}
  if kind == 'kpdef':
    d[('offsets', None)] = layer._kernel_offsets_weights
  return d


def params(layer, kind):
  if kind == 'mc':
    p = lay.mc_params(layer)
  elif kind == 'pointconv':
    p = lay.pc_params(layer)
  else:
    p = lay.kp_params(layer, kind == 'kpdef')
  return {k: [oracle.f64(a) for a in v] if isinstance(v, list) else
          (None if v is None else oracle.f64(v)) for k, v in p.items()}


def put(p, key, delta):
  q = dict(p)
  name, k = key
  if k is None:
    q[name] = p[name] + delta
  else:
    q[name] = list(p[name])
    q[name][k] = p[name][k] + delta
  return q


def compare(ctx, what, f, grad, arg, rng, rel, directions=2):
  """Directional derivatives of f at arg against `grad`."""
  grad = np.zeros(arg.shape) if grad is None else oracle.f64(grad)
  ctx.check(np.isfinite(grad).all(), f'{what}: finite')
  ctx.same_shape(grad, arg.shape, what)
  for k in range(directions):
    d = rng.normal(size=arg.shape)
    if k and arg.size:
      # a single row
      r = int(rng.integers(0, len(arg)))
      e = np.zeros(arg.shape)
      e[r] = d[r]
      d = e
    scale = 1.0
    h = 1e-5 * scale
    f1 = (f(h * d) - f(-h * d)) / (2 * h)
    f2 = (f(h / 8 * d) - f(-h / 8 * d)) / (h / 4)
    size = np.abs(grad * d).sum() + abs(f1)
    f0 = f(0 * d)
    forward, backward = (f(h / 8 * d) - f0) * 8 / h, \
        (f0 - f(-h / 8 * d)) * 8 / h
    if abs(f1 - f2) > 1e-4 * size + 1e-7 or \
        abs(forward - backward) > 1e-3 * size + 1e-6:
      ctx.count('kinks')
      continue
    got = float((grad * d).sum())
    ctx.close(got, f2, rel * size + 1e-5, what)
    ctx.count('derivatives')
    if abs(f2) > 1e-4:
      ctx.count('nonzero_derivatives')


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc import PointCloud
  from pylib.pc.layers import GlobalMaxPooling, GlobalAveragePooling
  kind = ['mc', 'pointconv', 'kp', 'kpdef', 'avg', 'max', 'density',
          'conv1x1'][i % 8]
  s = lay.scene(ctx, rng, max_per=12)
  spec, D = s.spec, s.spec.D
  if s.coord > 300:
    raise Skip('coordinates much larger than the radius')
  rel = 2e-3 + 3e-5 * s.coord
  if kind == 'density':
    density(ctx, rng, s, rel)
    return
  net = nets.make(rng, kind, s.C, D)
  pts = tf.constant(s.pts)
  cpts = tf.constant(s.cpts)
  x = tf.constant(s.x)
  var = variables(net.layer, kind) if kind not in (
      'avg', 'max', 'conv1x1') else {}
  with tf.GradientTape() as tape:
    tape.watch([pts, cpts, x])
    a = PointCloud(pts, batch_ids=s.ids, batch_size=spec.B)
    b = a if s.same else PointCloud(cpts, batch_ids=s.cids,
                                    batch_size=spec.B)
    y = net.call(x, a, b, s.radius)
    R = rng.normal(size=y.shape)
    have = s.nb.any(1) if net.spatial else np.ones(len(s.ids), bool)
    R[~have] = 0
    yy = tf.where(have[:, None], y, 0)
    loss = tf.reduce_sum(yy * tf.constant(R, tf.float32))
    if kind == 'conv1x1':
      wrt = [net.layer._weights_tf, net.layer._bias_tf]
    else:
      wrt = list(var.values())
    grads = tape_gradient(tape, loss, [x, pts, cpts] + wrt)
  gx, gp, gc = grads[:3]
  R0 = R

  def val(out):
    return float((np.where(have[:, None], out, 0) * R0).sum())
  if kind == 'conv1x1':
    W, bb = [oracle.f64(v.numpy()) for v in wrt]
    X = oracle.f64(s.x)
    compare(ctx, 'Conv1x1: features', lambda d: val((X + d) @ W + bb), gx, X,
            rng, rel)
    compare(ctx, 'Conv1x1: weights', lambda d: val(X @ (W + d) + bb),
            grads[3], W, rng, rel)
    compare(ctx, 'Conv1x1: bias', lambda d: val(X @ W + bb + d), grads[4], bb,
            rng, rel)
    pool(ctx, rng, s, rel)
    ctx.sig(kind, spec.sizes)
    return
  P, Q, X = oracle.f64(s.pts), oracle.f64(s.cpts), oracle.f64(s.x)
  if kind in ('avg', 'max'):
    def ref(X):
      out = np.zeros((len(Q), s.C))
      for c in np.nonzero(have)[0]:
        out[c] = X[s.nb[c]].mean(0) if kind == 'avg' else X[s.nb[c]].max(0)
      return val(out)
    compare(ctx, f'{kind}: features', lambda d: ref(X + d), gx, X, rng, rel, 3)
    ctx.sig(kind, spec.sizes, int(s.nb.sum()))
    return
  par = params(net.layer, kind)
  bw = np.full(D, 0.2)

  def ref(X=X, P=P, Q=Q, par=par):
    if kind in ('mc', 'pointconv'):
      pdf = oracle.kde(P, s.ids, s.radii, bw, s.own)
    if kind == 'mc':
      out = oracle.mcconv(par, P, s.ids, Q, s.nb, s.radius, X, pdf,
                          net.act)[0]
    elif kind == 'pointconv':
      out = oracle.pointconv(par, P, s.ids, Q, s.nb, X, pdf, net.act)[0]
    else:
      out = oracle.kpconv(par, P, Q, s.nb, s.radius, X, 1 / 2.5,
                          net.act)['out']
    return val(out)
  compare(ctx, f'{kind}: features', lambda d: ref(X=X + d), gx, X, rng, rel)
  for (key, v), g in zip(var.items(), grads[3:]):
    v0 = oracle.f64(v.numpy())
    compare(ctx, f'{kind}: {key[0]}', lambda d: ref(par=put(par, key, d)), g,
            v0, rng, rel, 1)
  if kind == 'kpdef' and s.nb.any(1).all():
    # regularization loss of the deformable kernel points
    w = net.layer._kernel_offsets_weights
    with tf.GradientTape() as tape:
      tape.watch(x)
      net.call(x, a, b, s.radius)
      loss = net.layer.regularization_loss()
    g = tape_gradient(tape, loss, [w, x])

    def reg(X=X, par=par):
      r = oracle.kpconv(par, P, Q, s.nb, s.radius, X, 1 / 2.5, net.act)
      return float(r['fit'] + r['rep'])
    compare(ctx, 'regularization: offset weights',
            lambda d: reg(par=put(par, ('offsets', None), d)), g[0],
            oracle.f64(w.numpy()), rng, rel)
    compare(ctx, 'regularization: features', lambda d: reg(X=X + d), g[1], X,
            rng, rel)
    ctx.count('regularization_gradients')
  # points: coordinates relative to the radius
  u = s.radius
  if s.same:
    compare(ctx, f'{kind}: points', lambda d: ref(P=P + u * d, Q=Q + u * d),
            None if gp is None else gp.numpy() * u, P, rng, rel * 3)
  else:
    compare(ctx, f'{kind}: input points', lambda d: ref(P=P + u * d),
            None if gp is None else gp.numpy() * u, P, rng, rel * 3)
    compare(ctx, f'{kind}: output points', lambda d: ref(Q=Q + u * d),
            None if gc is None else gc.numpy() * u, Q, rng, rel * 3)
  ctx.count('point_gradients')
  ctx.sig(kind, spec.style, D, spec.sizes, len(Q), int(s.nb.sum()), net.act)


def tape_gradient(tape, loss, wrt):
  import tensorflow as tf
  return [None if g is None else tf.convert_to_tensor(g)
          for g in tape.gradient(loss, wrt)]


def density(ctx, rng, s, rel):
  import tensorflow as tf
  from pylib.pc import PointCloud, Grid, Neighborhood, KDEMode
  D = s.spec.D
  bw = rng.uniform(0.15, 0.6, D).astype(np.float32)
  pts = tf.constant(s.pts)
  with tf.GradientTape() as tape:
    tape.watch(pts)
    pc = PointCloud(pts, batch_ids=s.ids, batch_size=s.spec.B)
    nb = Neighborhood(Grid(pc, s.radii), s.radii, pc)
    nb.compute_pdf(bw, KDEMode.constant)
    pdf = nb.get_pdf()
    # the pdf is given per neighbor, in the order of the pairs
    ids = nb._original_neigh_ids
    R = rng.normal(size=(s.spec.N,)).astype(np.float32)
    first = tf.gather(tf.constant(R), ids[:, 0]) / tf.constant(
        s.own.sum(0).astype(np.float32)[ids[:, 0].numpy()])
    loss = tf.reduce_sum(pdf * first)
  g = tape_gradient(tape, loss, [pts])[0]
  P = oracle.f64(s.pts)
  u = s.radius
  compare(ctx, 'density: points',
          lambda d: float((oracle.kde(P + u * d, s.ids, s.radii, bw, s.own)
                           * R).sum()),
          None if g is None else g.numpy() * u, P, rng, rel * 3, 4)
  ctx.count('density_gradients')
  ctx.sig('density', s.spec.style, D, s.spec.sizes, int(s.own.sum()))


def pool(ctx, rng, s, rel):
  import tensorflow as tf
  from pylib.pc.layers import GlobalMaxPooling, GlobalAveragePooling
  full = np.nonzero(s.spec.sizes > 0)[0]
  X = oracle.f64(s.x)
  for cls, op in ((GlobalMaxPooling, np.max), (GlobalAveragePooling, np.mean)):
    x = tf.constant(s.x)
    R = rng.normal(size=(len(full), s.C))
    with tf.GradientTape() as tape:
      tape.watch(x)
      y = tf.gather(cls()(x, s.pc), full)
      loss = tf.reduce_sum(y * tf.constant(R, tf.float32))
    g = tape_gradient(tape, loss, [x])[0]

    def ref(d):
      return float(sum((op((X + d)[s.ids == b], 0) * R[k]).sum()
                       for k, b in enumerate(full)))
    compare(ctx, f'{cls.__name__}: features', ref, g, X, rng, rel, 3)
