"""CUDA operations: Poisson disk and cell average sampling."""

import numpy as np
from vf import mon, oracle
from vf.gpu import scenes, wrap
from vf.props import c09


def case(ctx, rng, i):
  k = i % 8
  if k == 7:
    wrap.on_device(ctx, rng, lambda: rejects(ctx, rng))
  elif k in (2, 5):
    wrap.on_device(ctx, rng, lambda: many(ctx, rng))
  else:
    wrap.part(ctx, rng, ['c08', 'c09', 'c08', 'c10'], i // 8 * 5 + i % 8)


def many(ctx, rng):
  from pylib.pc import Grid, Neighborhood, PointCloud, sample
  D = int(rng.choice([2, 3, 3, 4]))
  n = int(rng.choice([300, 513, 1025, 2000]))
  if D == 4:
    n = min(n, 513)
  pts, ids, B, r = scenes.big(rng, n, D)
  pc = PointCloud(pts, ids, B)
  g = Grid(pc, r)
  nb = Neighborhood(g, r)
  mode = str(rng.choice(['poisson', 'cell average']))
  ctx.describe(n=n, D=D, B=B, radius=r, mode=mode)
  out, sel = sample(nb, mode)
  spts, sids = mon.cloud_rows(out)
  if mode == 'poisson':
    sel = sel.numpy()
    ctx.equal(pts[sel], spts, 'points of the sampled ids')
    ctx.equal(ids[sel], sids, 'elements of the sampled ids')
    # separation and coverage, each pair once
    both, may = scenes.pairs_by_bins(spts, sids, spts, sids, r)
    ctx.check((both[:, 0] == both[:, 1]).all(), 'samples are apart')
    sure, may = scenes.pairs_by_bins(spts, sids, pts, ids, r)
    have = np.zeros(n, bool)
    have[may[:, 0]] = True
    ctx.check(have.all(), 'every point has a sample in its radius')
    ctx.count('samples_checked', len(spts))
  else:
    keys = np.zeros(n, np.int64)
    keys[g._sorted_indices.numpy()] = g._sorted_keys.numpy()
    u, inv = np.unique(keys, return_inverse=True)
    ctx.check(len(spts) == len(u), 'one sample per occupied cell')
    sums = np.zeros((len(u), D))
    np.add.at(sums, inv, pts.astype(np.float64))
    mean = sums / np.bincount(inv)[:, None]
    el = np.zeros(len(u), np.int64)
    el[inv] = ids
    # nearest mean of the same element, one to one
    s1, s2 = scenes.pairs_by_bins(
        mean.astype(np.float32), el.astype(np.int32), spts, sids,
        np.full(D, 1e-4, np.float32))
    ctx.check(len(set(s1[:, 0])) == len(spts) and
              len(set(s1[:, 1])) == len(u), 'samples are the means of cells')
    ctx.count('cell_means', len(spts))
  ctx.count('large_clouds')
  ctx.sig('many', D, n, B, mode)


def rejects(ctx, rng):
  import tensorflow as tf
  import tfg_custom_ops as ops
  n, D = int(rng.integers(2, 9)), int(rng.choice([2, 3, 4]))
  f = lambda *s: tf.constant(rng.uniform(0, 1, s), tf.float32)
  z = lambda *s: tf.zeros(s, tf.int32)
  one = tf.ones([D], tf.int32)
  a = dict(p=f(n, D), b=z(n), k=tf.zeros([n], tf.int64), c=one, q=z(n, 2),
           r=z(n))
  for w in (dict(b=z(n + 1)), dict(k=tf.zeros([n - 1], tf.int64)),
            dict(c=tf.ones([D + 1], tf.int32)), dict(q=z(n, 3)),
            dict(q=z(n)), dict(r=z(n - 1)), dict(p=f(n, 7)),
            dict(p=f(n, 1))):
    x = dict(a, **w)
    ctx.raises((tf.errors.InvalidArgumentError, ValueError),
               lambda: ops.sampling(*x.values(), int(rng.integers(0, 2))),
               f'sampling with {list(w)} of shape '
               f'{[tuple(v.shape) for v in w.values()]}')
  for mode in (-1, 2):
    ctx.raises((tf.errors.InvalidArgumentError, ValueError),
               lambda: ops.sampling(*a.values(), mode), f'mode {mode}')
  ctx.sig('rejects', n, D)
