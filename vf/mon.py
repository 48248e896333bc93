"""Monitors shared by several properties."""

import numpy as np
from vf import gen, oracle


def cast(x):
  return np.asarray(x.numpy() if hasattr(x, 'numpy') else x)


def centers_for(rng, spec, radii, kind=None):
  """A second cloud with the same batch size, as (Spec)."""
  if kind is None:
    kind = str(rng.choice(['near', 'near', 'subset', 'same', 'far', 'few']))
  B, D = spec.B, spec.D
  if kind == 'same':
    pts, ids = spec.points.copy(), spec.ids.copy()
  elif kind == 'subset':
    k = max(1, spec.N // 2)
    sel = rng.permutation(spec.N)[:k]
    pts, ids = spec.points[sel], spec.ids[sel]
  else:
    n = int(rng.integers(1, 25)) if kind != 'few' else 1
    ids = rng.integers(0, B, n).astype(np.int32)
    base = spec.points[rng.integers(0, spec.N, n)]
    spread = {'near': 1.2, 'far': 30.0, 'few': 0.7}[kind]
    # anchored at points of the same element where there are some
    for k in range(n):
      own = np.nonzero(spec.ids == ids[k])[0]
      if len(own):
        base[k] = spec.points[rng.choice(own)]
    pts = base + rng.uniform(-spread, spread, (n, D)) * radii
  if rng.random() < 0.5:
    p = rng.permutation(len(ids))
    pts, ids = pts[p], ids[p]
  s = gen.Spec(pts, ids, B, spec.shape, 'centers-' + kind)
  s.order = 'any'
  return s


def check_pairs(ctx, what, pairs, num_n, num_c, must, may):
  """`pairs` [M, 2] (neighbor, center) against sure / possible neighbors."""
  pairs = np.asarray(pairs)
  ctx.check(pairs.ndim == 2 and pairs.shape[1] == 2,
            f'{what}: shape {pairs.shape}')
  n, c = pairs[:, 0].astype(np.int64), pairs[:, 1].astype(np.int64)
  ctx.check(((n >= 0) & (n < num_n)).all(), f'{what}: neighbor ids in range',
            pairs=pairs)
  ctx.check(((c >= 0) & (c < num_c)).all(), f'{what}: center ids in range',
            pairs=pairs)
  got = np.zeros((num_c, num_n), np.int64)
  np.add.at(got, (c, n), 1)
  if (got > 1).any():
    k = np.argwhere(got > 1)[0]
    ctx.fail(f'{what}: neighbor {k[1]} of center {k[0]} listed {got[tuple(k)]}'
             ' times')
  got = got > 0
  bad = got & ~may
  if bad.any():
    k = np.argwhere(bad)[0]
    ctx.fail(f'{what}: point {k[1]} is listed for center {k[0]} but is not '
             f'in its radius or batch element ({int(bad.sum())} such pairs)')
  bad = must & ~got
  if bad.any():
    k = np.argwhere(bad)[0]
    ctx.fail(f'{what}: neighbor {k[1]} of center {k[0]} is missing '
             f'({int(bad.sum())} such pairs)')
  ctx.count('assertions', 5)
  ctx.count('pairs', int(got.sum()))
  ctx.count('gray_pairs', int((may & ~must).sum()))
  return got


def check_ranges(ctx, what, ranges, pairs, num_c):
  """Range ends per center select exactly the rows of that center."""
  ranges = np.asarray(ranges).astype(np.int64)
  pairs = np.asarray(pairs)
  ctx.same_shape(ranges, (num_c,), f'{what}: ranges')
  start = np.concatenate([[0], ranges[:-1]])
  ctx.check((ranges >= start).all(), f'{what}: ranges do not decrease',
            ranges=ranges)
  ctx.check((ranges[-1] if num_c else 0) == len(pairs),
            f'{what}: the last range ends at the number of pairs',
            ranges=ranges, pairs=len(pairs))
  want = np.repeat(np.arange(num_c), ranges - start)
  ctx.equal(pairs[:, 1].astype(np.int64), want, f'{what}: centers of the ranges')
  ctx.count('ranges', num_c)


def check_poisson(ctx, what, pts, ids, spts, sids, radii):
  """Separation and coverage of a Poisson disk sample."""
  g = oracle.gray(pts, pts, radii)
  d = oracle.pair_dist(spts, sids, spts, sids, radii)
  np.fill_diagonal(d, np.inf)
  if d.size and d.min() < 1 - g:
    k = np.unravel_index(np.argmin(d), d.shape)
    ctx.fail(f'{what}: samples {k[0]} and {k[1]} have distance {d.min():.6g} '
             'radii')
  if len(pts):
    d = oracle.pair_dist(spts, sids, pts, ids, radii)
    cover = d.min(1) if d.shape[1] else np.full(len(pts), np.inf)
    if cover.max() > 1 + g:
      ctx.fail(f'{what}: point {int(np.argmax(cover))} is {cover.max():.6g} '
               'radii away from the next sample')
  ctx.count('assertions', 2)
  ctx.count('samples_checked', len(spts))


def rows_in(ctx, what, rows, ids, pool, pool_ids):
  """Every row (bitwise) occurs in the pool under the same element."""
  have = {}
  for k in range(len(pool)):
    have.setdefault((int(pool_ids[k]), pool[k].tobytes()), k)
  for k in range(len(rows)):
    if (int(ids[k]), np.ascontiguousarray(rows[k]).tobytes()) not in have:
      ctx.fail(f'{what}: sample {k} {rows[k].tolist()} of element {ids[k]} is '
               'not a point of that element')
  ctx.count('assertions')


def cell_means(keys, pts, ids):
  """{key: (mean, element, count, max abs)} of the points of each cell."""
  out = {}
  for k in np.unique(keys):
    x = pts[keys == k].astype(np.float64)
    out[int(k)] = (x.mean(0), int(ids[keys == k][0]), len(x),
                   float(np.abs(x).max()))
  return out


def check_means(ctx, what, spts, sids, means):
  """The samples are exactly one mean per occupied cell (any order)."""
  ctx.check(len(spts) == len(means),
            f'{what}: {len(spts)} samples for {len(means)} occupied cells')
  left = [list(m) for m in means.values()]
  for k in range(len(spts)):
    x = spts[k].astype(np.float64)
    for j, (mu, b, n, big) in enumerate(left):
      if b == int(sids[k]) and np.all(np.abs(mu - x) <= 1e-6 * big * (
          2 + 0.2 * n) + 1e-9):
        left.pop(j)
        break
    else:
      ctx.fail(f'{what}: sample {k} {x.tolist()} of element {int(sids[k])} is '
               'not the mean of a cell of that element')
  ctx.count('assertions', 1 + len(spts))
  ctx.count('cell_means', len(spts))


def cloud_rows(pc):
  """Points and ids as stored by a PointCloud."""
  return pc._points.numpy(), pc._batch_ids.numpy()
