"""Neighborhoods are exactly the points inside the radius."""

import numpy as np
from vf import gen, mon, oracle


def setup_case(ctx, rng, max_per=40):
  """A cloud, its grid, radii not larger than the cells, and centers."""
  from pylib.pc import Grid
  spec = gen.cloud(rng, max_per=max_per)
  pc, pts, ids = gen.build(rng, spec)
  radii = gen.radius_for(rng, spec)
  kind = int(rng.integers(0, 4))
  if kind == 0:
    cells = radii
  elif kind == 1:
    cells = (radii * rng.uniform(1.0, 1.6, spec.D)).astype(np.float32)
  elif kind == 2:
    cells = (radii * rng.uniform(1.6, 8)).astype(np.float32)
  else:
    # only the first two dimensions are looked up by cells; all are larger
    cells = (radii * rng.choice([1.0, 1.3, 3.0], spec.D)).astype(np.float32)
  if spec.style == 'lattice' and rng.random() < 0.5:
    # points on the cell faces
    cells = np.full(spec.D, 0.5 * spec.scale, np.float32)
    radii = (cells * rng.uniform(0.55, 0.95)).astype(np.float32)
  grid = Grid(pc, cells)
  ctx.describe(radii=radii, cells=cells, **spec.describe())
  return spec, pc, pts, ids, radii, cells, grid


def case(ctx, rng, i):
  from pylib.pc import Neighborhood
  spec, pc, pts, ids, radii, cells, grid = setup_case(ctx, rng)
  si = grid._sorted_indices.numpy()
  if i % 3 == 0:
    nb = Neighborhood(grid, radii)
    cpts, cids = pts[si], ids[si]
    ctx.equal(nb._point_cloud_sampled._points.numpy(), cpts,
              'default centers are the sorted points')
    cstyle = 'self'
  else:
    cspec = mon.centers_for(rng, spec, radii)
    cpc, cpts, cids = gen.build(rng, cspec)
    cstyle = cspec.style
    nb = Neighborhood(grid, radii, cpc)
  ctx.describe(centers=cstyle, center_points=cpts[:5])
  must, may = oracle.neighbors(pts, ids, cpts, cids, radii)
  orig = nb._original_neigh_ids.numpy()
  got = mon.check_pairs(ctx, 'neighbors', orig, len(pts), len(cpts), must, may)
  srt = nb._neighbors.numpy()
  mon.check_ranges(ctx, 'neighborhood', nb._samples_neigh_ranges.numpy(), srt,
                   len(cpts))
  ctx.equal(si[srt[:, 0]], orig[:, 0], 'sorted and original neighbor ids')
  ctx.equal(srt[:, 1], orig[:, 1], 'centers of sorted and original ids')
  ctx.equal(grid._sorted_points.numpy()[srt[:, 0]], pts[orig[:, 0]],
            'points of sorted and original ids')
  ctx.count('centers', len(cpts))
  ctx.count('centers_without_neighbors', int((got.sum(1) == 0).sum()))
  ctx.sig(spec.style, spec.D, spec.N, cstyle, len(cpts), int(got.sum()))
