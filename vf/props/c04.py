"""The grid partitions the points of every batch element."""

import numpy as np
from vf import gen


def case(ctx, rng, i):
  from pylib.pc import Grid, PointCloud
  from pylib.pc.custom_ops import compute_keys, build_grid_ds
  if i == 0:
    return probe_aabb(ctx, rng)
  if i % 12 == 11:
    return big_keys(ctx, rng)
  spec = gen.cloud(rng, max_per=int(rng.choice([2, 15, 60])))
  pc, pts, ids = gen.build(rng, spec)
  cs = gen.radius_for(rng, spec)
  if spec.style == 'lattice' and rng.random() < 0.7:
    cs = np.full(spec.D, 0.25 * spec.scale, np.float32)
  ctx.describe(cell_sizes=cs, **spec.describe())
  arg = float(cs[0]) if np.all(cs == cs[0]) and rng.random() < 0.5 else cs
  g = Grid(pc, arg)
  ctx.equal(g._cell_sizes.numpy(), cs, 'cell sizes')
  num = g._num_cells.numpy().astype(np.int64)
  ctx.same_shape(num, (spec.D,), 'number of cells')
  ctx.sig(spec.style, spec.D, spec.sizes, num)
  # enough, and no superfluous cells
  lo = np.stack([pts[ids == b].min(0) if (ids == b).any() else
                 np.zeros(spec.D) for b in range(spec.B)]).astype(np.float64)
  hi = np.stack([pts[ids == b].max(0) if (ids == b).any() else
                 np.zeros(spec.D) for b in range(spec.B)]).astype(np.float64)
  big = np.abs(pts).max() + 1e-9
  # float32 rounding of a coordinate, in cells
  tol = 1e-6 * (1 + (hi - lo).max(0) / cs) + 4e-7 * big / cs + 4e-9 / cs
  need = ((hi - lo) / cs.astype(np.float64)).max(0)
  ctx.check((num >= 1).all() and (num + tol >= need).all(),
            'the cells cover the bounding boxes', num_cells=num, needed=need)
  ctx.check((num - 1 <= need + tol).all(), 'no superfluous cells',
            num_cells=num, needed=need)
  # keys of the points, in input order
  keys = compute_keys(pc, g._num_cells, g._cell_sizes).numpy().astype(np.int64)
  ctx.same_shape(keys, (spec.N,), 'keys')
  cells = check_keys(ctx, keys, pts, ids, num, cs, lo, tol)
  si = check_sorted(ctx, g, keys, pts, ids)
  # fast access structure
  for k in range(2):
    ds = g.get_DS().numpy()
    check_ds(ctx, ds, spec.B, num, ids[si], cells[si])
  ds = build_grid_ds(g._sorted_keys, g._num_cells, spec.B).numpy()
  check_ds(ctx, ds, spec.B, num, ids[si], cells[si])


def check_sorted(ctx, g, keys, pts, ids):
  """The sorted view of the points; returns the permutation."""
  si = g._sorted_indices.numpy()
  ctx.equal(np.sort(si), np.arange(len(pts)),
            'sorted indices are a permutation')
  ctx.equal(g._sorted_points.numpy(), pts[si], 'sorted points')
  ctx.equal(g._sorted_batch_ids.numpy(), ids[si], 'sorted batch ids')
  sk = g._sorted_keys.numpy().astype(np.int64)
  ctx.equal(sk, keys[si], 'sorted keys')
  step = np.diff(sk)
  ctx.check((step <= 0).all() or (step >= 0).all(), 'keys are sorted')
  return si


def check_keys(ctx, keys, pts, ids, num, cs, lo, tol):
  per = int(np.prod([int(n) for n in num]))
  b = keys // per
  ctx.equal(b, ids.astype(np.int64), 'batch element of the keys')
  rest = keys % per
  cells = np.stack(np.unravel_index(rest, tuple(int(n) for n in num)), 1)
  x = (pts.astype(np.float64) - lo[ids]) / cs.astype(np.float64)
  low, high = cells, cells + 1
  ok = ((x >= low - tol) | (cells == 0)) & \
      ((x < high + tol) | (cells == num - 1))
  # the last cell is closed
  ok &= (x <= num + tol)
  if not ok.all():
    k = np.argwhere(~ok)[0]
    ctx.fail(f'point {k[0]} is in cell {cells[k[0]].tolist()} but has cell '
             f'coordinates {x[k[0]].tolist()}', num_cells=num)
  ctx.count('points_in_cells', len(pts))
  ctx.count('assertions', len(pts))
  return cells


def check_ds(ctx, ds, B, num, ids, cells):
  ds = ctx.same_shape(ds, (B, num[0], num[1], 2), 'fast access structure')
  ctx.check((ds >= 0).all() and (ds <= len(ids)).all(), 'ranges in bounds')
  col = (ids.astype(np.int64) * num[0] + cells[:, 0]) * num[1] + cells[:, 1]
  r = ds.reshape(-1, 2)
  size = np.bincount(col, minlength=len(r))
  ctx.equal(r[:, 1] - r[:, 0], size, 'number of points in the grid columns')
  occupied = np.nonzero(size)[0]
  for c in occupied:
    if not (col[r[c, 0]:r[c, 1]] == c).all():
      ctx.fail(f'range {r[c].tolist()} holds points of other columns')
  ctx.count('columns', len(r))
  ctx.count('occupied_columns', len(occupied))


def big_keys(ctx, rng):
  """More cells than 32 bit integers, few columns."""
  from pylib.pc import Grid, PointCloud
  from pylib.pc.custom_ops import compute_keys
  D = int(rng.choice([3, 4, 5]))
  B = int(rng.integers(1, 5))
  n = int(rng.integers(2, 30)) * B
  pts = rng.uniform(0, 1, (n, D)).astype(np.float32)
  pts[:2] = [[0] * D, [1] * D]
  ids = rng.integers(0, B, n).astype(np.int32)
  ids[:2] = B - 1
  deep = (3.3e9) ** (1 / (D - 2)) * rng.uniform(0.8, 2.0)
  deep = min(deep, 4e4)
  cs = np.array([0.3, 0.26] + [1 / deep] * (D - 2), np.float32)
  if D == 3:
    cs[2] = 1 / 4e4
    cs[:2] = 1 / np.array([220.0, 260.0])
  pc = PointCloud(pts, batch_ids=ids, batch_size=B)
  g = Grid(pc, cs)
  num = g._num_cells.numpy().astype(np.int64)
  ctx.describe(D=D, B=B, n=n, cell_sizes=cs, num_cells=num)
  ctx.sig('big', D, B, num)
  lo = np.stack([pts[ids == b].min(0) if (ids == b).any() else
                 np.zeros(D) for b in range(B)]).astype(np.float64)
  keys = compute_keys(pc, g._num_cells, g._cell_sizes).numpy().astype(np.int64)
  si = check_sorted(ctx, g, keys, pts, ids)
  tol = 1e-6 * (1 + 1 / cs)
  cells = check_keys(ctx, keys, pts, ids, num, cs, lo, tol)
  check_ds(ctx, g.get_DS().numpy(), B, num, ids[si], cells[si])
  ctx.count('keys_beyond_int32', int((keys > 2 ** 31).sum()))


def probe_aabb(ctx, rng):
  """Known finding: the `aabb` argument of Grid."""
  from pylib.pc import Grid, PointCloud
  pts = rng.uniform(0, 1, (20, 3)).astype(np.float32)
  pc = PointCloud(pts, batch_ids=np.zeros(20, int), batch_size=1)
  big = PointCloud(np.array([[-2, -2, -2], [3, 3, 3]], np.float32),
                   batch_ids=[0, 0], batch_size=1)
  g = Grid(pc, 0.5, aabb=big.get_AABB())
  num = g._num_cells.numpy()
  ctx.check((num >= 10).all(), 'Grid(aabb=...) uses the bounding box of the '
            'point cloud instead of the given one', num_cells=num,
            finding='grid-aabb-ignored')
