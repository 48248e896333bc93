"""Traced functions (tf.function) give the results of eager execution."""

import numpy as np
from vf import gen, lay, mon, nets, oracle
from vf.core import Skip

KINDS = ['cloud', 'neighbors', 'pdf', 'poisson', 'cell', 'hierarchy', 'mc',
         'pointconv', 'kp', 'kpdef', 'conv1x1', 'max', 'avg', 'globals',
         'resnet', 'padded']
FUNCS = {}


def pipeline(kind, D, C, B, rng):
  """python function of (points, ids, centers, center ids, features, r)."""
  import tensorflow as tf
  from pylib.pc import (PointCloud, Grid, Neighborhood, KDEMode,
                        PointHierarchy)
  from pylib.pc import sampling as smp
  from pylib.pc.layers import (GlobalMaxPooling, GlobalAveragePooling,
                               PointResNet)

  def clouds(p, i, q, j):
    return (PointCloud(p, batch_ids=i, batch_size=B),
            PointCloud(q, batch_ids=j, batch_size=B))

  if kind == 'cloud':
    def f(p, i, q, j, x, r):
      a, _ = clouds(p, i, q, j)
      box = a.get_AABB()
      x0 = a.get_points()
      one = a.get_points(id=0)
      a.set_batch_shape([1, B])
      return (x0, one, a.get_sizes(), a.get_points(id=[0, B - 1]),
              a.get_points(max_num_points=20), box._aabb_min, box._aabb_max)
  elif kind == 'neighbors':
    def f(p, i, q, j, x, r):
      a, b = clouds(p, i, q, j)
      n = Neighborhood(Grid(a, tf.fill([D], r)), tf.fill([D], r), b)
      return n._neighbors, n._original_neigh_ids, n._samples_neigh_ranges
  elif kind == 'pdf':
    def f(p, i, q, j, x, r):
      a, b = clouds(p, i, q, j)
      n = Neighborhood(Grid(a, tf.fill([D], r)), tf.fill([D], r), b)
      n.compute_pdf(0.3, KDEMode.constant)
      first = n.get_pdf()
      n.compute_pdf(0.3, KDEMode.num_points, normalize=True)
      return first, n.get_pdf(), n._original_neigh_ids
  elif kind in ('poisson', 'cell'):
    def f(p, i, q, j, x, r):
      a, _ = clouds(p, i, q, j)
      if kind == 'cell':
        s = smp.cell_average_sampling(a, r)
        return s._points, s._batch_ids
      s = smp.sample(Neighborhood(Grid(a, tf.fill([D], r)), tf.fill([D], r)),
                     'poisson')
      return s[0]._points, s[0]._batch_ids, s[1]
  elif kind == 'hierarchy':
    def f(p, i, q, j, x, r):
      a, _ = clouds(p, i, q, j)
      h = PointHierarchy(a, [tf.fill([D], r), tf.fill([D], 2 * r)],
                         'cell average')
      out = []
      for level in h._point_clouds:
        out += [level._points, level._batch_ids]
      return tuple(out)
  elif kind == 'globals':
    def f(p, i, q, j, x, r):
      a, _ = clouds(p, i, q, j)
      return GlobalMaxPooling()(x, a), GlobalAveragePooling()(x, a)
  elif kind == 'resnet':
    net = PointResNet(C, 1, D, num_mlps=1)

    def f(p, i, q, j, x, r):
      a, _ = clouds(p, i, q, j)
      return (net(x, a, r, False),)
  elif kind == 'padded':
    # padded clouds and features, flat result; sizes instead of ids
    net = nets.make(rng, 'conv1x1', C, D)

    def f(p, sizes, x):
      a = PointCloud(p, sizes=sizes)
      y = net.layer(x, a)
      return y, a._points, a._batch_ids, net.layer(x, a, return_padded=True)
  else:
    net = nets.make(rng, kind, C, D)

    def f(p, i, q, j, x, r):
      a, b = clouds(p, i, q, j)
      return (net.call(x, a, b, r),
              net.call(x, a, b, r, return_sorted=True),
              net.call(x, a, b, r, return_padded=True))
  return f


def case(ctx, rng, i):
  import tensorflow as tf
  kind = KINDS[i % len(KINDS)]
  D, B, C = 3, int(rng.choice([1, 2, 3])), 2
  frng = np.random.default_rng(i)
  f = pipeline(kind, D, C, B, frng)
  t = tf.TensorSpec
  if kind == 'padded':
    sig = [t([B, None, D], tf.float32), t([B], tf.int32),
           t([B, None, C], tf.float32)]
  else:
    # KPConv stores numbers of points: fixed numbers of rows
    sig = [t([None, D], tf.float32), t([None], tf.int32),
           t([None, D], tf.float32), t([None], tf.int32),
           t([None, C], tf.float32), t([], tf.float32)]
  static = rng.random() < 0.4
  g = tf.function(f) if static else tf.function(f, input_signature=sig)
  for k in range(3):
    spec = gen.cloud(rng, D=D, B=B, max_per=15, offset=False,
                     allow_empty=kind not in ('globals',))
    r = float(np.float32(gen.radius_for(rng, spec, 0.3).mean()))
    cs = mon.centers_for(rng, spec, np.full(D, r), 'subset')
    x = rng.normal(size=(spec.N, C)).astype(np.float32)
    radii = np.full(D, r)
    m1, m2 = oracle.neighbors(spec.points, spec.ids, cs.points, cs.ids, radii)
    m3, m4 = oracle.neighbors(spec.points, spec.ids, spec.points, spec.ids,
                              radii)
    if (m1 != m2).any() or (m3 != m4).any():
      continue
    if kind == 'padded':
      order = np.argsort(spec.ids, kind='stable')
      p, sizes = gen.padded(rng, spec.points[order], spec.ids[order], (B,))
      y, _ = gen.padded(rng, x[order], spec.ids[order], (B,), V=p.shape[1])
      args = [tf.constant(p), tf.constant(sizes, tf.int32), tf.constant(y)]
    else:
      args = [tf.constant(spec.points), tf.constant(spec.ids),
              tf.constant(cs.points), tf.constant(cs.ids), tf.constant(x),
              tf.constant(r)]
    ctx.describe(kind=kind, static=static, **spec.describe())
    want = f(*args)
    got = g(*args)
    ctx.check(len(got) == len(want), f'{kind}: number of results')
    for n, (a, b) in enumerate(zip(got, want)):
      a, b = a.numpy(), b.numpy()
      if kind == 'poisson' or (lay.OPS and kind in ('cell', 'hierarchy')):
        continue
      if lay.OPS and kind == 'neighbors' and a.ndim == 2:
        # the order inside of a neighborhood depends on the schedule
        a, b = [v[np.lexsort((v[:, 0], v[:, 1]))] for v in (a, b)]
      if lay.OPS and kind == 'pdf':
        continue
      if b.dtype.kind == 'f':
        ok = np.isfinite(b) & (np.abs(b) < 1e30)
        ctx.same_shape(a, b.shape, f'{kind}: result {n}')
        ctx.close(np.where(ok, a, 0), np.where(ok, b, 0),
                  1e-4 * (np.abs(b[ok]).max() if ok.any() else 0) + 1e-6,
                  f'{kind}: result {n} in graph mode')
      else:
        ctx.equal(a, b, f'{kind}: result {n} in graph mode')
      ctx.count('results')
    if kind == 'poisson':
      ids = got[2].numpy()
      ctx.equal(got[0].numpy(), spec.points[ids], 'poisson: points of the ids')
      ctx.equal(got[1].numpy(), spec.ids[ids], 'poisson: batch ids')
      mon.check_poisson(ctx, 'poisson in graph mode', spec.points, spec.ids,
                        got[0].numpy(), got[1].numpy(), radii)
      ctx.count('results', 3)
    ctx.sig(kind, static, spec.style, spec.sizes, len(cs.points))
    ctx.count('calls')
    ctx.count(f'calls of {kind}')
  ctx.count('traces', g.experimental_get_tracing_count())
