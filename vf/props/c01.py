"""Point clouds keep exactly the given points, per batch element."""

import numpy as np
from vf import gen, oracle


def case(ctx, rng, i):
  from pylib.pc import PointCloud
  from pylib.pc.utils import _flatten_features
  if i % 10 == 9:
    return rejects(ctx, rng)
  spec = gen.cloud(rng, max_per=int(rng.choice([3, 12, 40])))
  pc, pts, ids = gen.build(rng, spec, with_shape=rng.random() < 0.8)
  shape, B, D = spec.cur_shape, spec.B, spec.D
  ctx.describe(**spec.describe())
  ctx.count('points', spec.N)
  ctx.count('empty_elements', int((spec.sizes == 0).sum()))
  ctx.sig(spec.form, spec.style, spec.order, D, spec.sizes, shape)
  # one element at a time, in input order
  order = rng.permutation(B)
  for b in order:
    got = pc.get_points(int(b)).numpy()
    ctx.equal(got, pts[ids == b], f'points of element {b}')
    ctx.count('elements_read')
    if len(shape) >= 1 and (spec.form != 'ids' or spec.cur_shape ==
                            spec.shape):
      idx = [int(k) for k in np.unravel_index(b, shape)]
      if spec.form != 'ids' or hasattr(pc, '_get_segment_id'):
        got = pc.get_points(idx).numpy()
        ctx.equal(got, pts[ids == b], f'points of element {idx}')
  # sizes
  if rng.random() < 0.5:
    ctx.equal(pc.get_sizes().numpy(), spec.sizes.reshape(shape), 'sizes')
  # all elements, zero padded
  m = int(spec.sizes.max())
  V0 = spec.V if spec.V is not None else m
  for V in rng.permutation(np.array([0, m, m + 1 + int(rng.integers(0, 5))])):
    if V == 0:
      got, want_V = pc.get_points().numpy(), V0
    else:
      got, want_V = pc.get_points(max_num_points=int(V)).numpy(), int(V)
    ctx.equal(got, oracle.to_padded(pts, ids, shape, want_V),
              f'padded points (rows {want_V})')
    ctx.count('padded_reads')
  # features follow their points in both directions
  C = int(rng.integers(1, 4))
  f = rng.normal(size=(spec.N, C)).astype(np.float32)
  ctx.equal(pc.get_unflatten()(f).numpy(),
            oracle.to_padded(f, ids, shape, V0), 'unflattened features')
  kind = str(rng.choice(['zero', 'garbage', 'nan']))
  fp, _ = gen.padded(rng, f, ids, shape, pad=kind)
  import tensorflow as tf
  ctx.equal(_flatten_features(tf.constant(fp), pc).numpy(), f,
            'flattened padded features')
  ctx.equal(_flatten_features(tf.constant(f), pc).numpy(), f,
            'flat features')
  ctx.count('feature_rows', spec.N)
  ctx.equal(pc.get_sizes().numpy(), spec.sizes.reshape(shape), 'sizes')
  # explicit batch size larger than the largest used id
  if spec.form == 'ids':
    extra = int(rng.integers(1, 3))
    pc = PointCloud(spec.points, batch_ids=spec.ids, batch_size=B + extra)
    want = np.concatenate([spec.sizes, np.zeros(extra, int)])
    ctx.equal(pc.get_sizes().numpy(), want, 'sizes with unused elements')
    ctx.equal(pc.get_points().numpy(),
              oracle.to_padded(spec.points, spec.ids, (B + extra,), m),
              'padded points with unused elements')
    # without a batch size the ids define it
    pc = PointCloud(spec.points, batch_ids=spec.ids)
    b2 = int(spec.ids.max()) + 1
    ctx.equal(pc.get_sizes().numpy(), spec.sizes[:b2], 'sizes without size')
    ctx.equal(pc.get_points().numpy(),
              oracle.to_padded(spec.points, spec.ids, (b2,), m),
              'padded points without batch size')
  # index checks
  ctx.raises(IndexError, lambda: pc.get_points(B + 5), 'element index B+5')
  top = int(pc.get_sizes().shape.num_elements())
  ctx.raises(IndexError, lambda: pc.get_points(top), 'element index B')


def rejects(ctx, rng):
  from pylib.pc import PointCloud
  spec = gen.cloud(rng, min_total=3)
  ctx.describe(**spec.describe())
  ctx.sig('reject', spec.N, spec.D)
  ctx.raises(ValueError, lambda: PointCloud(spec.points),
             'flat points without segmentation')
  ctx.raises(ValueError, lambda: PointCloud(spec.points[:, 0],
                                            batch_ids=spec.ids),
             'one-dimensional points')
  k = int(rng.integers(1, spec.N))
  ctx.raises(AssertionError,
             lambda: PointCloud(spec.points, batch_ids=spec.ids[:k]),
             'fewer batch ids than points')
  ctx.raises(AssertionError,
             lambda: PointCloud(spec.points[:k], batch_ids=spec.ids),
             'more batch ids than points')
