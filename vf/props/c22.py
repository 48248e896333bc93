"""CUDA operations: keys, grids and neighbor search."""

import numpy as np
from vf import gen, mon, oracle
from vf.gpu import scenes, wrap


def case(ctx, rng, i):
  k = i % 10
  if k == 7:
    wrap.on_device(ctx, rng, lambda: rejects(ctx, rng))
  elif i % 480 == 4:
    wrap.on_device(ctx, rng, lambda: huge(ctx, rng),
                   dict(seed=i + 1, mps=3, per=3, mode=0, lazy=1, resident=1))
  elif i % 40 == 13:
    wrap.on_device(ctx, rng, lambda: spread(ctx, rng),
                   dict(seed=i + 1, mps=2, per=2, mode=0, lazy=1, resident=1))
  elif k == 8 or k == 3:
    wrap.on_device(ctx, rng, lambda: many(ctx, rng))
  else:
    wrap.part(ctx, rng, ['c05', 'c06', 'c04', 'c10', 'c05', 'c06', 'c02'],
              i // 10 * 7 + i % 10)


def many(ctx, rng):
  """More points and centers than a block, one warp, or 512 have."""
  from pylib.pc import Grid, Neighborhood, PointCloud
  D = int(rng.choice([2, 3, 3, 4]))
  n = int(rng.choice([40, 300, 700, 1500, 3000]))
  m = int(rng.choice([1, 511, 512, 513, 600, 1024, 1025, 1800]))
  if D == 4:
    n, m = min(n, 700), min(m, 600)
  pts, ids, B, r = scenes.big(rng, n, D)
  k = rng.integers(0, n, m)
  cpts = (pts[k] + rng.normal(size=(m, D)) * r * 0.5).astype(np.float32)
  cids = ids[k]
  if rng.random() < 0.5:
    cids = rng.integers(0, B, m).astype(np.int32)
  limit = int(rng.choice([0, 0, 1, 3, 9]))
  ctx.describe(n=n, m=m, D=D, B=B, radius=r, limit=limit)
  check(ctx, pts, ids, cpts, cids, B, r, limit)
  ctx.sig('many', D, n, m, B, limit)
  ctx.count('large_clouds')


def check(ctx, pts, ids, cpts, cids, B, r, limit):
  from pylib.pc import Grid, Neighborhood, PointCloud
  n, m = len(pts), len(cpts)
  sure, may = scenes.pairs_by_bins(pts, ids, cpts, cids, r)
  a, b = PointCloud(pts, ids, B), PointCloud(cpts, cids, B)
  nb = Neighborhood(Grid(a, r), r, b, max_neighbors=limit)
  p = nb._original_neigh_ids.numpy().astype(np.int64)
  mon.check_ranges(ctx, 'large cloud', nb._samples_neigh_ranges.numpy(), p, m)
  ctx.check(((p >= 0) & (p < [n, m])).all(), 'ids in range')
  c = np.sort(p[:, 1] * n + p[:, 0])
  ctx.check((np.diff(c) > 0).all(), 'pairs are listed once')
  s, y = scenes.code(sure, n), scenes.code(may, n)
  ctx.check(np.isin(c, y).all(), 'only points inside the radius are listed')
  if limit:
    num = np.bincount(p[:, 1], minlength=m)
    lo = np.minimum(np.bincount(sure[:, 0], minlength=m), limit)
    hi = np.minimum(np.bincount(may[:, 0], minlength=m), limit)
    ctx.check(((num >= lo) & (num <= hi)).all(), 'number of limited neighbors')
  else:
    ctx.check(np.isin(s, c).all(), 'all points inside the radius are listed')
  ctx.count('pairs', len(p))
  ctx.count('centers', m)


def spread(ctx, rng):
  """A limited search selects at random, not the points it meets first."""
  from pylib.pc import Grid, Neighborhood, PointCloud
  D = int(rng.choice([2, 3]))
  n, m, limit = int(rng.integers(100, 140)), 30, int(rng.integers(5, 9))
  pts = rng.uniform(0, 0.1, (n, D)).astype(np.float32)
  cpts = pts[rng.choice(n, m, replace=False)]
  r = np.full(D, 0.5, np.float32)
  ctx.describe(n=n, D=D, limit=limit)
  nb = Neighborhood(Grid(PointCloud(pts, np.zeros(n, np.int32), 1), r), r,
                    PointCloud(cpts, np.zeros(m, np.int32), 1),
                    max_neighbors=limit)
  p = nb._original_neigh_ids.numpy()
  ctx.check(len(p) == m * limit, 'number of limited neighbors')
  # a fair selection keeps about 60 to 90 of the points in one of the 30 lists;
  # one replaced neighbor per list gives at most limit + 30
  kept = len(np.unique(p[:, 0]))
  ctx.check(kept >= limit + 32, 'a limited search keeps the same points for '
            f'all centers: {kept} of {n} points in {m} lists of {limit}')
  ctx.count("random_selections")
  ctx.sig('spread', n, D, limit)


def huge(ctx, rng):
  """More centers than two levels of the parallel scan add up."""
  m = 262144 + int(rng.integers(1, 5000))
  pts = np.array([[0, 0], [1, 0.5], [1, 1]], np.float32)
  ids = np.zeros(3, np.int32)
  cpts = np.full((m, 2), 9, np.float32)
  some = rng.choice(m, 400, replace=False)
  some[:2] = [m - 1, 262144]
  cpts[some] = pts[rng.integers(0, 3, 400)] + 0.01
  ctx.describe(centers=m)
  check(ctx, pts, ids, cpts, np.zeros(m, np.int32), 1,
        np.full(2, 0.3, np.float32), 0)
  ctx.sig('huge', m)
  ctx.count('huge_scans')


def rejects(ctx, rng):
  """Inconsistent inputs are rejected before a kernel reads them."""
  import tensorflow as tf
  import tfg_custom_ops as ops
  n, D = int(rng.integers(2, 9)), int(rng.choice([2, 3, 4]))
  f = lambda *s: tf.constant(rng.uniform(0, 1, s), tf.float32)
  z = lambda *s: tf.zeros(s, tf.int32)
  one = tf.ones([D], tf.int32)
  bad = tf.errors.InvalidArgumentError
  keys = dict(p=f(n, D), b=z(n), a=f(1, D), c=one, s=f(D))
  ds = dict(k=tf.zeros([n], tf.int64), c=one, d=one)
  find = dict(q=f(n, D), b=z(n), p=f(n, D), k=tf.zeros([n], tf.int64),
              g=z(1, 1, 1, 2), c=one, a=f(1, D), s=f(D), r=f(D))
  E = D + 1
  tests = [
      (keys, ops.compute_keys, (), [
          dict(p=f(n, 1), a=f(1, 1), c=one[:1], s=f(1)),
          dict(p=f(n, 7), a=f(1, 7), c=tf.ones([7], tf.int32), s=f(7)),
          dict(b=z(n - 1)), dict(a=f(1, E)), dict(c=z(E)), dict(s=f(E))]),
      (ds, ops.build_grid_ds, (1,), [
          dict(c=one[:1], d=one[:1]), dict(d=tf.ones([E], tf.int32))]),
      (find, ops.find_neighbors, (0,), [
          dict(b=z(n - 1)), dict(p=f(n, E)), dict(k=tf.zeros([n + 1], tf.int64)),
          dict(g=z(1, 1, 2)), dict(g=z(1, 1, 1, 3)), dict(c=z(E)),
          dict(a=f(1, E)), dict(s=f(E)), dict(r=f(E)), dict(r=f(D - 1))])]
  for args, op, more, wrong in tests:
    for w in wrong:
      a = dict(args, **w)
      ctx.raises((bad, ValueError), lambda: op(*a.values(), *more),
                 f'{op.__name__} with {list(w)} of shape '
                 f'{[tuple(v.shape) for v in w.values()]}')
  ctx.sig('rejects', n, D)
