"""MCConv is the Monte-Carlo convolution over the neighborhood."""

import numpy as np
from vf import lay, oracle


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc.layers import MCConv
  from pylib.pc.custom_ops import basis_proj
  s = lay.scene(ctx, rng)
  D = s.spec.D
  # feature aggregation
  nb = lay.neighborhood(s, rng.uniform(1, 1.5))
  pairs = nb._original_neigh_ids.numpy()
  H = int(rng.choice([lay.OPS or 1, lay.OPS or 3, 8, 16]))
  basis = rng.normal(size=(len(pairs), H)).astype(np.float32)
  got = basis_proj(tf.constant(basis), tf.constant(s.x), nb).numpy()
  want = oracle.aggregate(basis.astype(np.float64), oracle.f64(s.x),
                          pairs[:, 0], pairs[:, 1], len(s.cpts))
  mag = oracle.aggregate(np.abs(basis).astype(np.float64),
                         np.abs(oracle.f64(s.x)), pairs[:, 0], pairs[:, 1],
                         len(s.cpts))
  ctx.close(got, want, 1e-5 * mag + 1e-7, 'weighted latent features')
  # the layer
  layer, act = lay.make_mc(rng, s.C, D)
  kw, bw = {}, 0.2
  if rng.random() < 0.6:
    bw = kw['bandwidth'] = float(rng.uniform(0.12, 0.9))
  want, mag = lay.ref_mc(s, layer, act, s.x, bw)
  tol = lay.rel_tol(s, bw) * mag + 1e-6
  calls = ['internal', 'given']
  for c in calls:
    if c == 'given':
      kw['neighborhood'] = lay.neighborhood(s, rng.uniform(1, 2))
    got = layer(lay.features_arg(rng, s), s.pc, s.cpc, s.radius, **kw).numpy()
    ctx.close(got, want, tol, f'MCConv with {c} neighborhood')
    ctx.check((got[s.nb.sum(1) == 0] == 0).all(),
              'no neighbors, zero features')
    ctx.count('layer_outputs', got.size)
  # a neighborhood which already has a pdf keeps it
  n2 = lay.neighborhood(s)
  bw2 = float(rng.uniform(0.12, 0.9))
  n2.compute_pdf(bandwidth=bw2)
  kw['neighborhood'] = n2
  want, mag = lay.ref_mc(s, layer, act, s.x, bw2)
  got = layer(s.x, s.pc, s.cpc, s.radius, **kw).numpy()
  ctx.close(got, want, lay.rel_tol(s, bw2) * mag + 1e-6,
            'MCConv with the pdf of the neighborhood')
  ctx.sig(s.spec.style, D, s.spec.N, len(s.cpts), int(s.nb.sum()), act,
          layer._mlp_size, layer._num_mlps)
  if i % 15 == 0:
    ctx.raises(ValueError, lambda: MCConv(2, 5, D, 4),
               'output features not divisible by the number of MLPs')
    ctx.raises((ValueError, tf.errors.InvalidArgumentError),
               lambda: layer(np.concatenate([s.x, s.x], 1), s.pc, s.cpc,
                             s.radius), 'wrong number of features')
    ctx.raises((ValueError, tf.errors.InvalidArgumentError),
               lambda: layer(np.concatenate([s.x, s.x], 0), s.pc, s.cpc,
                             s.radius), 'more features than points')
