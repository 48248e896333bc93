"""ResNet blocks are the documented composition of their layers."""

import copy
import numpy as np
from vf import lay, nets, oracle
from vf.core import Skip


def sub(s, pts, ids, cpts, cids, radius):
  """The reference view of a pair of clouds."""
  t = copy.copy(s)
  t.pts, t.ids, t.cpts, t.cids, t.radius = pts, ids, cpts, cids, radius
  t.radii = np.full(pts.shape[1], radius, np.float32)
  t.nb, may = oracle.neighbors(pts, ids, cpts, cids, t.radii)
  t.own, may2 = oracle.neighbors(pts, ids, pts, ids, t.radii)
  if (t.nb != may).any() or (t.own != may2).any():
    raise Skip('pairs on the radius')
  return t


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc import Grid, Neighborhood
  from pylib.pc.layers import (PointResNet, PointResNetBottleNeck,
                               PointResNetSpatialBottleNeck)
  model = i % 3
  conv = ['mc', 'kp', 'pointconv'][(i // 3) % 3]
  spelled = {'mc': ['MCConv', 'mc', 'mc_conv'],
             'kp': ['KPConv', 'kp', 'kp_conv'],
             'pointconv': ['PointConv', 'point_conv', 'pointconv']}[conv]
  D = 3 if conv == 'kp' else None
  s = lay.scene(ctx, rng, same=model != 2, D=D, max_per=18,
                center_kind='subset')
  D = s.spec.D
  C = int(rng.integers(2, 6))
  blocks = int(rng.choice([1, 2, 2]))
  proj = bool(rng.random() < 0.5)
  act = [tf.nn.relu, tf.nn.elu, tf.nn.leaky_relu][int(rng.integers(0, 3))]
  args = dict(layer_type=str(rng.choice(spelled)), projection_shortcuts=proj)
  if conv == 'mc':
    C = int(rng.choice([2, 4]))
    args['num_mlps'] = int(rng.choice([1, 2]))
  nact = oracle.ACT['relu']
  if rng.random() < 0.6:
    args['activation'] = act
    nact = oracle.ACT[{'relu': 'relu', 'elu': 'elu',
                       'leaky_relu': 'leaky_relu'}[act.__name__]]
  if model == 1:
    net = PointResNetBottleNeck(C, 2, blocks, D, **args)
  else:
    net = [PointResNet, None, PointResNetSpatialBottleNeck][model](
        C, blocks, D, **args)
  per = 2 if model == 0 else 3
  ctx.check(len(net._batch_norm_layers) == per * blocks,
            'number of batch normalizations')
  convs = list(net._conv_layers)
  for lst in ('_upsampling_layers', '_downsampling_layers'):
    convs += getattr(net, lst, []) if model == 2 else []
  for L in convs:
    if conv == 'mc':
      lay.randomize(rng, L._weights_tf, 0.7)
      lay.randomize(rng, L._bias_tf, 0.4)
    elif conv == 'pointconv':
      lay.randomize(rng, [L._basis_axis_tf, L._basis_bias_tf])
      for v in L._weights_pdf:
        v.assign(rng.uniform(0.1, 0.6, v.shape).astype(np.float32))
      L._biases_pdf[0].assign(
          rng.uniform(0, 0.3, (1, 16)).astype(np.float32))
      L._biases_pdf[1].assign([[float(rng.uniform(0.2, 1.0))]])
  dense = []
  if model == 1:
    dense += net._upsampling_layers + net._downsampling_layers
  if proj:
    dense += net._projection_layers
  for L in dense:
    lay.randomize(rng, [L._weights_tf, L._bias_tf], 0.5)
  # state of the normalizations
  for k, L in enumerate(net._batch_norm_layers):
    width = 2 if model == 1 and k % 3 else C
    L.build((None, width))
    L.gamma.assign(rng.uniform(0.5, 1.5, width).astype(np.float32))
    L.beta.assign(rng.normal(size=width, scale=.3).astype(np.float32))
    L.moving_mean.assign(rng.normal(size=width, scale=.3).astype(np.float32))
    L.moving_variance.assign(rng.uniform(.5, 2, width).astype(np.float32))
  norms = [nets.Norm(L) for L in net._batch_norm_layers]
  # reference convolutions
  if model == 2:
    r = np.float32(s.radius * np.array([1, rng.uniform(1, 1.6), 1]))
    k = rng.random()
    if k < 0.7:
      r[2] *= np.float32(rng.uniform(1.05, 1.5))
    if k < 0.3:
      r[1] = r[0]
    elif k < 0.45:
      r[1] = r[2]
    elif k > 0.9:
      r[1] = r[0]
    views = [sub(s, s.pts, s.ids, s.cpts, s.cids, float(r[0])),
             sub(s, s.cpts, s.cids, s.cpts, s.cids, float(r[1])),
             sub(s, s.cpts, s.cids, s.pts, s.ids, float(r[2]))]
    refs = [[nets.Conv(a[k], conv, v) for a, v in zip(
        (net._downsampling_layers, net._conv_layers, net._upsampling_layers),
        views)] for k in range(blocks)]
  elif model == 1:
    refs = [[nets.dense(net._downsampling_layers[k]),
             nets.Conv(net._conv_layers[k], conv, s),
             nets.dense(net._upsampling_layers[k])] for k in range(blocks)]
  else:
    refs = [[nets.Conv(net._conv_layers[2 * k], conv, s),
             nets.Conv(net._conv_layers[2 * k + 1], conv, s)]
            for k in range(blocks)]
  x = rng.normal(size=(s.spec.N, C)).astype(np.float32)

  def forward(x, norms, training, noise=None):
    f = x.astype(np.float64)
    j = 0
    for k in range(blocks):
      skip = f
      for layer in refs[k]:
        f = layer(nact(norms[j](f, training)))
        if noise is not None:
          f = f + noise.normal(size=f.shape) * 1e-5 * np.abs(f).max()
        j += 1
      skip = nets.dense(net._projection_layers[k])(skip) if proj else skip
      f = f + skip
    return f

  for training in [False, True, False]:
    kw = {}
    given = rng.random() < 0.5
    if model == 2:
      if given:
        kw['neighborhoods'] = [
            Neighborhood(Grid(s.pc, views[0].radii), views[0].radii, s.cpc),
            Neighborhood(Grid(s.cpc, views[1].radii), views[1].radii, s.cpc),
            Neighborhood(Grid(s.cpc, views[2].radii), views[2].radii, s.pc)]
    elif given:
      kw['neighborhood'] = lay.neighborhood(s)
    probe = [copy.copy(n) for n in norms]
    base = forward(x, [copy.copy(n) for n in norms], training)
    change = 0
    for _ in range(3):
      change = max(change, np.abs(forward(
          x, [copy.copy(n) for n in probe], training, rng) - base).max())
    rel = lay.rel_tol(s, None if conv == 'kp' else 0.2)
    tol = (5 + rel / 1e-5) * change * 2 + 1e-5 * (1 + np.abs(base).max())
    want = forward(x, norms, training)
    if tol > 0.2 * np.abs(want).max() + 1e-3:
      ctx.count('ill_conditioned')
      return
    layout = str(rng.choice(['flat', 'sorted', 'padded']))
    if layout != 'flat':
      kw['return_' + layout] = True
    xin = lay.features_arg(rng, s, x)
    if model == 2:
      got = net(xin, s.pc, s.cpc, r, training, **kw).numpy()
    else:
      got = net(xin, s.pc, s.radius, training, **kw).numpy()
    if layout == 'sorted':
      want = want[np.argsort(s.ids, kind='stable')]
    elif layout == 'padded':
      want = oracle.to_padded(want, s.ids, s.spec.cur_shape, got.shape[-2])
    name = type(net).__name__
    ctx.close(got, want, tol, f'{name} with {conv}, training={training}')
    for k, (n, L) in enumerate(zip(norms, net._batch_norm_layers)):
      scale = 1 + np.abs(n.mean).max() + np.abs(n.var).max()
      t = 5e-4 * scale + tol * 0.1
      ctx.close(L.moving_mean.numpy(), n.mean, t,
                f'{name}: moving mean {k}, training={training}')
      ctx.close(L.moving_variance.numpy(), n.var, t * 3,
                f'{name}: moving variance {k}, training={training}')
    ctx.count('forward_passes')
    ctx.count('training_passes' if training else 'inference_passes')
    ctx.count('given_neighborhoods', int(given))
  ctx.sig(model, conv, D, s.spec.sizes, blocks, proj, int(s.nb.sum()))
  if i % 20 == 0:
    ctx.raises((KeyError, ValueError), lambda: PointResNet(
        C, 1, D, layer_type='unknown'), 'unknown layer type')
