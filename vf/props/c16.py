"""Layouts of features: flat, sorted and padded agree in every layer."""

import numpy as np
from vf import gen, lay, nets, oracle


def check_layouts(ctx, what, call, ids, shape):
  """call(**layout) on one output cloud; returns the flat result."""
  flat = call().numpy().astype(np.float64)
  ctx.check(flat.ndim == 2 and len(flat) == len(ids),
            f'{what}: flat shape {flat.shape}')
  mag = np.abs(flat).max() if flat.size else 0.0
  tol = 1e-5 * mag + 1e-7
  got = call(return_sorted=True).numpy()
  ctx.close(got, flat[np.argsort(ids, kind='stable')], tol, f'{what}: sorted')
  got = call(return_padded=True).numpy()
  want = oracle.to_padded(flat, ids, shape, got.shape[-2]
                          if got.ndim > 1 and got.shape[-2] >= np.bincount(
                              ids).max() else int(np.bincount(ids).max()))
  ctx.close(got, want, tol, f'{what}: padded')
  got = call(return_padded=True, return_sorted=True).numpy()
  ctx.close(got, want, tol, f'{what}: padded and sorted')
  ctx.count('layouts', 3)
  return flat, tol


def case(ctx, rng, i):
  import tensorflow as tf
  s = lay.scene(ctx, rng, max_per=18)
  kind = nets.KINDS[i % len(nets.KINDS)]
  net = nets.make(rng, kind, s.C, s.spec.D)
  cids, shape = (s.cids, s.cspec.cur_shape) if net.spatial else \
      (s.ids, s.spec.cur_shape)
  if not s.nb.any(1).all() and kind == 'max':
    # the maximum of nothing is not specified
    s.cpc, s.cpts, cids, shape = s.pc, s.pts, s.ids, s.spec.cur_shape

  def call(x=s.x, **kw):
    return net.call(tf.constant(x), s.pc, s.cpc, s.radius, **kw)
  flat, tol = check_layouts(ctx, kind, call, cids, shape)
  if kind == 'conv1x1':
    want = nets.dense(net.layer)(s.x.astype(np.float64))
    ctx.close(flat, want, 1e-5 * (1 + np.abs(want).max()), 'Conv1x1 values')
    ctx.count('conv1x1')
  # input layouts
  for pad in ('zero', 'garbage', 'nan'):
    p, _ = gen.padded(rng, s.x, s.ids, s.spec.cur_shape, pad=pad)
    want = flat
    if len(s.ids) and s.spec.order == 'shuffled' and s.spec.form == 'ids':
      ctx.count('shuffled_padded_inputs')
    got = call(p).numpy()
    ctx.close(got, want, tol, f'{kind}: input padded with {pad}')
    ctx.count('padded_inputs')
  # numpy and python lists are documented-equivalent inputs
  got = net.call(s.x, s.pc, s.cpc, s.radius).numpy()
  ctx.close(got, flat, tol, f'{kind}: numpy input')
  ctx.sig(kind, s.spec.form, s.spec.order, s.spec.D, s.spec.sizes, cids,
          s.spec.cur_shape, shape)
