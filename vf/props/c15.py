"""Global and local pooling."""

import numpy as np
from vf import gen, lay, oracle


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc.layers import GlobalMaxPooling, GlobalAveragePooling, \
      MaxPooling, AveragePooling
  s = lay.scene(ctx, rng, max_per=25)
  x64 = oracle.f64(s.x)
  full = s.spec.sizes > 0
  for cls, op in ((GlobalMaxPooling, np.max), (GlobalAveragePooling, np.mean)):
    want = np.stack([op(x64[s.ids == b], 0) if full[b] else np.zeros(s.C)
                     for b in range(s.spec.B)])
    got = cls()(lay.features_arg(rng, s), s.pc).numpy()
    ctx.same_shape(got, want.shape, cls.__name__)
    ctx.close(got[full], want[full], 1e-5, cls.__name__)
    got = cls()(lay.features_arg(rng, s), s.pc, return_padded=True).numpy()
    ctx.same_shape(got, s.spec.cur_shape + (s.C,), f'{cls.__name__} padded')
    ctx.close(got.reshape(want.shape)[full], want[full], 1e-5,
              f'{cls.__name__} padded')
    f64 = cls()(tf.constant(s.x, tf.float64), s.pc)
    ctx.check(f64.dtype == tf.float64, f'{cls.__name__} keeps the type')
    ctx.close(f64.numpy()[full], want[full], 1e-6, f'{cls.__name__} float64')
    ctx.count('pooled', int(full.sum()))
  n, c = oracle.edges(s.nb)
  have = s.nb.any(1)
  mx = np.full((len(s.cpts), s.C), -np.inf)
  np.maximum.at(mx, c, x64[n])
  av = np.zeros((len(s.cpts), s.C))
  np.add.at(av, c, x64[n])
  av /= np.maximum(s.nb.sum(1), 1)[:, None]
  rad = s.radius
  k = int(rng.integers(0, 3))
  if k == 1:
    rad = s.radii
  elif k == 2:
    rad = tf.constant([s.radius])
  order = np.argsort(s.cids, kind='stable')
  for cls, want in ((MaxPooling, mx), (AveragePooling, av)):
    got = cls()(lay.features_arg(rng, s), s.pc, s.cpc, rad).numpy()
    ctx.same_shape(got, want.shape, cls.__name__)
    ctx.close(got[have], want[have], 1e-5, cls.__name__)
    got = cls()(lay.features_arg(rng, s), s.pc, s.cpc, rad,
                return_sorted=True).numpy()
    ctx.close(got[have[order]], want[order][have[order]], 1e-5,
              f'{cls.__name__} sorted')
    got = cls()(lay.features_arg(rng, s), s.pc, s.cpc, rad,
                return_padded=True).numpy()
    V = got.shape[-2]
    w = oracle.to_padded(want, s.cids, s.cspec.cur_shape, V)
    h = oracle.to_padded((1 - have[:, None]).astype(float), s.cids,
                         s.cspec.cur_shape, V)[..., 0] == 0
    ctx.same_shape(got, w.shape, f'{cls.__name__} padded')
    ctx.close(got[h], w[h], 1e-5, f'{cls.__name__} padded')
    ctx.count('pooled', int(have.sum()))
  # anisotropic pooling region
  r = (s.radii * rng.uniform(0.6, 1.4, s.spec.D)).astype(np.float32)
  must, may = oracle.neighbors(s.pts, s.ids, s.cpts, s.cids, r)
  if (must == may).all():
    got = MaxPooling()(s.x, s.pc, s.cpc, r).numpy()
    h = must.any(1)
    want = np.stack([x64[must[k]].max(0) if h[k] else np.zeros(s.C)
                     for k in range(len(h))])
    ctx.close(got[h], want[h], 1e-5, 'MaxPooling with a radius per dimension')
  ctx.sig(s.spec.style, s.spec.D, s.spec.sizes, len(s.cpts), int(s.nb.sum()))
