"""Cell average sampling: one mean per occupied cell and element."""

import numpy as np
from vf import gen, mon


def oracle_cells(pts, ids, cs):
  """Cells by float64 geometry; None when a point is on a cell face."""
  cells = np.zeros(pts.shape, np.int64)
  ext = np.zeros(pts.shape[1])
  los = {}
  for b in np.unique(ids):
    x = pts[ids == b].astype(np.float64)
    los[b] = x.min(0)
    ext = np.maximum(ext, x.max(0) - x.min(0))
  num = np.maximum(np.ceil(ext / cs), 1)
  big = np.abs(pts).max()
  tol = 1e-6 * (1 + ext / cs) + 4e-7 * big / cs + 4e-9 / cs
  for b in los:
    m = ids == b
    x = (pts[m].astype(np.float64) - los[b]) / cs
    near = np.abs(x - np.round(x)) <= tol
    near &= (np.round(x) >= 1) & (np.round(x) <= num - 1)
    if near.any():
      return None
    cells[m] = np.minimum(np.floor(x), num - 1).astype(np.int64)
  return np.unique(np.concatenate([ids[:, None], cells], 1), axis=0,
                   return_inverse=True)[1].reshape(-1)


def wide(rng):
  """A few points in a grid with 2^32 cells or more per element.

  Cells of different elements, or the first dimensions, differ by multiples
  of large powers of two, so that keys cut to fewer bits would agree.
  """
  D = int(rng.choice([4, 4, 5]))
  B = int(rng.choice([1, 2, 3]))
  # two dimensions which are listed in memory stay small
  num = np.array([8, 8] + [2 ** int(rng.integers(9, 14))
                           for _ in range(D - 2)])
  n = int(rng.integers(2, 10))
  cells = rng.integers(0, num, (n, D))
  cells[0], cells[1] = 0, num - 1
  cells = cells[rng.integers(0, n, 2 * n)]
  cells[0], cells[1] = 0, num - 1
  pts = np.concatenate([cells + rng.choice([0.25, 0.5, 0.75], cells.shape)
                        for _ in range(B)])
  ids = np.repeat(np.arange(B), len(cells))
  lo = np.zeros((B, D))
  pts[::len(cells)] = lo
  pts[1::len(cells)] = num - 0.5
  s = gen.Spec(pts, ids, B, gen.factor_shape(rng, B), 'wide')
  s.scale = 1.0
  if rng.random() < 0.5:
    p = rng.permutation(s.N)
    s.points, s.ids = s.points[p], s.ids[p]
  return s, np.ones(D, np.float32)


def case(ctx, rng, i):
  from pylib.pc import Grid, Neighborhood, sample, cell_average_sampling
  if i % 8 == 5:
    spec, cs = wide(rng)
    ctx.count('wide_grids')
  else:
    spec = gen.cloud(rng, max_per=int(rng.choice([3, 15, 50])))
    cs = gen.radius_for(rng, spec)
  pc, pts, ids = gen.build(rng, spec)
  ctx.describe(cell_sizes=cs, **spec.describe())
  grid = Grid(pc, cs)
  kind = int(rng.integers(0, 3))
  if kind == 0:
    arg = float(cs[0]) if np.all(cs == cs[0]) else cs
    out = cell_average_sampling(pc, arg)
  elif kind == 1:
    out = cell_average_sampling(pc, grid=grid)
  else:
    mode = str(rng.choice(['cell average', 'average', 'cell_average',
                           'Cell Average']))
    rad = (cs * rng.uniform(0.5, 1.0)).astype(np.float32)
    out, none = sample(Neighborhood(grid, rad), mode)
    ctx.check(none is None, 'no ids for cell averages')
  spts, sids = mon.cloud_rows(out)
  ctx.same_shape(spts, (len(sids), spec.D), 'sampled points')
  ctx.check(int(out._batch_size) == spec.B, 'batch size of the samples')
  # the cells of the real grid (their geometry is decided by C04)
  keys = np.zeros(spec.N, np.int64)
  keys[grid._sorted_indices.numpy()] = grid._sorted_keys.numpy()
  mon.check_means(ctx, 'cell averages', spts, sids,
                  mon.cell_means(keys, pts, ids))
  own = oracle_cells(pts, ids, cs.astype(np.float64))
  if own is not None:
    mon.check_means(ctx, 'cell averages (own cells)', spts, sids,
                    mon.cell_means(own, pts, ids))
    ctx.count('own_cells')
  have = np.bincount(sids, minlength=spec.B) > 0
  ctx.equal(have, spec.sizes > 0, 'elements with samples')
  ctx.equal(out.get_sizes().numpy().reshape(-1),
            np.bincount(sids, minlength=spec.B), 'sizes of the samples')
  ctx.count('points_merged', spec.N - len(spts))
  ctx.sig(spec.style, spec.D, spec.N, spec.sizes, len(spts))
  if i % 20 == 0:
    ctx.raises(ValueError, lambda: cell_average_sampling(pc),
               'neither cell sizes nor grid')
