"""PointConv: density-reweighted convolution over the neighborhood."""

import numpy as np
from vf import lay


def case(ctx, rng, i):
  s = lay.scene(ctx, rng)
  layer, act = lay.make_pointconv(rng, s.C, s.spec.D,
                                  positive=rng.random() < 0.8)
  kw, bw = {}, 0.2
  if rng.random() < 0.6:
    bw = kw['bandwidth'] = float(rng.uniform(0.12, 0.9))
  want, mag, least = lay.ref_pointconv(s, layer, act, s.x, bw)
  if least < 5e-3:
    ctx.count('ill_conditioned')
    return
  tol = lay.rel_tol(s, bw) * mag * (1 + 3 / least) + 1e-6
  for c in ['internal', 'given']:
    if c == 'given':
      kw['neighborhood'] = lay.neighborhood(s, rng.uniform(1, 2))
    got = layer(lay.features_arg(rng, s), s.pc, s.cpc, s.radius, **kw).numpy()
    ctx.close(got, want, tol, f'PointConv with {c} neighborhood')
    ctx.check((got[s.nb.sum(1) == 0] == 0).all(),
              'no neighbors, zero features')
    ctx.count('layer_outputs', got.size)
  n2 = lay.neighborhood(s)
  bw2 = float(rng.uniform(0.12, 0.9))
  n2.compute_pdf(bandwidth=bw2)
  kw['neighborhood'] = n2
  want, mag, least = lay.ref_pointconv(s, layer, act, s.x, bw2)
  if least > 5e-3:
    got = layer(s.x, s.pc, s.cpc, s.radius, **kw).numpy()
    ctx.close(got, want, lay.rel_tol(s, bw2) * mag * (1 + 3 / least) + 1e-6,
              'PointConv with the pdf of the neighborhood')
  ctx.sig(s.spec.style, s.spec.D, s.spec.N, len(s.cpts), int(s.nb.sum()), act,
          layer._size_hidden)
