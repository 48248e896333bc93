"""KPConv, rigid and deformable, and its regularization loss."""

import numpy as np
from vf import lay


def case(ctx, rng, i):
  D = 3 if rng.random() < 0.7 else None
  s = lay.scene(ctx, rng, D=D)
  layer, kind, deformable, kp = lay.make_kp(rng, s.C, s.spec.D)
  if kp is not None:
    ctx.close(np.asarray(layer._kernel_points), 0.75 * kp.astype(np.float64),
              1e-6, 'kernel points are placed at 0.75 of the radius')
  else:
    r = np.linalg.norm(np.asarray(layer._kernel_points), axis=1)
    ctx.check(abs(r.max() - 0.75) < 1e-4 and r[0] < 1e-5,
              'kernel points in a sphere of 0.75 radii', radii=r)
  kw, sigma = {}, 1 / 2.5
  if rng.random() < 0.6:
    sigma = float(rng.uniform(0.3, 1.3))
    kw['kernel_influence_dist'] = sigma * s.radius
  # the latest call defines the regularization loss
  for c in ['internal', 'given']:
    x = s.x if c == 'internal' else rng.normal(size=s.x.shape).astype(
        np.float32)
    if c == 'given':
      kw['neighborhood'] = lay.neighborhood(s, rng.uniform(1, 2))
    ref = lay.ref_kp(s, layer, kind, deformable, x, sigma)
    t = (lay.rel_tol(s) / sigma) * (5 if deformable else 1) * 2
    got = layer(lay.features_arg(rng, s, x), s.pc, s.cpc, s.radius, **kw)
    got = got.numpy()
    ctx.close(got, ref['out'], t * ref['mag'] + 1e-6,
              f'KPConv with {c} neighborhood')
    ctx.check((got[s.nb.sum(1) == 0] == 0).all(),
              'no neighbors, zero features')
    ctx.count('layer_outputs', got.size)
    if deformable:
      if s.nb.any(1).all():
        want = ref['fit'] + ref['rep']
        ctx.close(layer.regularization_loss().numpy(), want,
                  t * (1 + want), f'regularization loss, {c}')
        ctx.count('losses')
      ctx.count('deformable')
  ctx.sig(s.spec.style, s.spec.D, s.spec.N, len(s.cpts), int(s.nb.sum()),
          kind, deformable, layer._num_kernel_points)
  if i % 15 == 0:
    from pylib.pc.layers import KPConv
    ctx.raises(ValueError, lambda: KPConv(2, 2, num_dims=2),
               'two dimensions without kernel points')
    ctx.raises(ValueError, lambda: KPConv(2, 2, num_kernel_points=6),
               'unknown number of kernel points')
