"""All ways to ask for neighborhoods agree."""

import numpy as np
from vf import gen, mon, oracle
from vf.props.c05 import setup_case


def pair_set(p):
  return set(map(tuple, np.asarray(p).astype(np.int64).tolist()))


def far(ctx, rng, spec, pts, ids, cpts, cids, s):
  """Clouds far away from the origin; differences of floats are exact."""
  from pylib.pc import PointCloud, Grid, Neighborhood
  from pylib.pc.custom_ops.custom_ops_tf import find_neighbors_no_grid
  off = (rng.choice([-1.0, 1.0], spec.D) *
         2.0 ** rng.integers(3, 10, spec.D) * s).astype(np.float32)
  p, c = pts + off, cpts + off
  must, may = oracle.neighbors(p, ids, c, cids, np.full(spec.D, s))
  if (must != may).sum() > 0.2 * must.sum():
    return
  a, b = PointCloud(p, ids, spec.B), PointCloud(c, cids, spec.B)
  r, q = find_neighbors_no_grid(a, b, s)
  # float32 differences of near coordinates are exact
  d = oracle.pair_dist(p, ids, c, cids, np.full(spec.D, s))
  mon.check_pairs(ctx, 'find_neighbors_no_grid far from the origin',
                  q.numpy(), len(p), len(c), d < 1 - 1e-5, d < 1 + 1e-5)
  mon.check_ranges(ctx, 'find_neighbors_no_grid', r.numpy(), q.numpy(), len(c))
  rad = np.full(spec.D, s, np.float32)
  q = Neighborhood(Grid(a, rad), rad, b)._original_neigh_ids.numpy()
  mon.check_pairs(ctx, 'Neighborhood far from the origin', q, len(p), len(c),
                  must, may)
  ctx.count('far_from_origin')


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc import Neighborhood, Grid
  from pylib.pc.Neighborhood import compute_neighborhoods
  from pylib.pc.custom_ops import find_neighbors
  from pylib.pc.custom_ops.custom_ops_tf import find_neighbors_no_grid
  spec, pc, pts, ids, radii, cells, grid = setup_case(ctx, rng, 25)
  si = grid._sorted_indices.numpy()
  own = i % 3 == 0
  if own:
    cpc, cpts, cids = None, pts[si], ids[si]
  else:
    cspec = mon.centers_for(rng, spec, radii)
    cpc, cpts, cids = gen.build(rng, cspec)
  must, may = oracle.neighbors(pts, ids, cpts, cids, radii)
  nb = Neighborhood(grid, radii, cpc)
  base = nb._original_neigh_ids.numpy()
  got = mon.check_pairs(ctx, 'Neighborhood', base, len(pts), len(cpts), must,
                        may)
  ctx.sig(spec.style, spec.D, own, len(cpts), int(got.sum()))
  ctx.count('distinct_relations')
  want = pair_set(base)
  # functional form, both id conventions
  p = compute_neighborhoods(grid, radii, cpc).numpy()
  ctx.check(pair_set(p) == want and len(p) == len(want),
            'compute_neighborhoods lists the same pairs')
  p, r = compute_neighborhoods(grid, radii, cpc, return_ranges=True)
  ctx.check(pair_set(p.numpy()) == want, 'pairs returned with the ranges')
  mon.check_ranges(ctx, 'compute_neighborhoods', r.numpy(), p.numpy(),
                   len(cpts))
  p = compute_neighborhoods(grid, radii, cpc, return_sorted_ids=True).numpy()
  ctx.check(len(p) == len(want) and pair_set(np.stack(
      [si[p[:, 0]], p[:, 1]], 1)) == want,
            'pairs with respect to the sorted points')
  # a scalar radius is the same as equal radii
  if rng.random() < 0.5:
    s = float(radii.min())
    m1, m2 = oracle.neighbors(pts, ids, cpts, cids, np.full(spec.D, s))
    arg = [s, [s], np.float32(s), tf.constant([s])][int(rng.integers(0, 4))]
    for name, q in (
        ('Neighborhood', lambda: Neighborhood(
            grid, arg, cpc)._original_neigh_ids),
        ('compute_neighborhoods', lambda: compute_neighborhoods(
            grid, arg, cpc))):
      mon.check_pairs(ctx, f'{name} with a scalar radius', q().numpy(),
                      len(pts), len(cpts), m1, m2)
    ctx.count('scalar_radii')
  # limited number of neighbors
  for k in set(int(x) for x in rng.choice([1, 2, 3, 5, 8, 1000], 2)):
    lim = Neighborhood(grid, radii, cpc, max_neighbors=k)
    p = lim._original_neigh_ids.numpy()
    n = np.bincount(p[:, 1], minlength=len(cpts))
    ctx.check(pair_set(p) <= want and len(pair_set(p)) == len(p),
              f'max_neighbors={k} selects distinct neighbors')
    ctx.equal(n, np.minimum(got.sum(1), k), f'neighbors for max_neighbors={k}')
    mon.check_ranges(ctx, f'max_neighbors={k}',
                     lim._samples_neigh_ranges.numpy(),
                     lim._neighbors.numpy(), len(cpts))
    p = compute_neighborhoods(grid, radii, cpc, max_neighbors=k).numpy()
    ctx.equal(np.bincount(p[:, 1], minlength=len(cpts)),
              np.minimum(got.sum(1), k),
              f'compute_neighborhoods for max_neighbors={k}')
    ctx.check(pair_set(p) <= want, 'limited pairs')
    ctx.count('limited')
    ctx.count('limit_effective', int((got.sum(1) > k).sum()))
  # without a grid (isotropic radius)
  s = float(radii.min())
  m1, m2 = oracle.neighbors(pts, ids, cpts, cids, np.full(spec.D, s))
  from pylib.pc import PointCloud
  c2 = cpc if cpc is not None else PointCloud(cpts, cids, spec.B)
  r, p = find_neighbors_no_grid(pc, c2, s)
  mon.check_pairs(ctx, 'find_neighbors_no_grid', p.numpy(), len(pts),
                  len(cpts), m1, m2)
  mon.check_ranges(ctx, 'find_neighbors_no_grid', r.numpy(), p.numpy(),
                   len(cpts))
  if i % 4 == 1 and len(c2._points):
    far(ctx, rng, spec, pts, ids, cpts, cids, s)
  # transposition
  for again in range(2):
    t = nb.transpose()
    if own:
      q = t._neighbors.numpy()
      o = nb._neighbors.numpy()
    else:
      q = t._original_neigh_ids.numpy()
      o = base
    sure = {(int(b), int(a)) for a, b in zip(*np.nonzero(must))}
    maybe = {(int(b), int(a)) for a, b in zip(*np.nonzero(may))}
    if own:
      ctx.check(pair_set(q) == {(b, a) for a, b in pair_set(o)} or
                len(sure) != len(maybe),
                'transposed neighborhood of the points to themselves')
    else:
      tq = {(b, a) for a, b in pair_set(q)}
      ctx.check(sure <= tq <= maybe and len(q) == len(tq),
                'transposed neighborhood is the converse relation',
                missing=sorted(sure - tq)[:5], extra=sorted(tq - maybe)[:5])
      mon.check_ranges(ctx, 'transposed', t._samples_neigh_ranges.numpy(),
                       t._neighbors.numpy(), len(pts))
      ctx.equal(cpts[q[:, 0]],
                t.get_grid()._sorted_points.numpy()[t._neighbors.numpy()[:, 0]],
                'points of transposed ids')
      tt = t.transpose()._original_neigh_ids.numpy()
      ctx.check(sure <= pair_set(tt) <= maybe, 'transposing twice')
    ctx.count('transposed')
  ctx.check(pair_set(nb._original_neigh_ids.numpy()) == want,
            'transposing leaves the neighborhood as it was')
  # any larger grid gives the same neighbors
  g2 = Grid(pc, (cells * rng.uniform(1, 3)).astype(np.float32))
  p = Neighborhood(g2, radii, c2)._original_neigh_ids.numpy()
  mon.check_pairs(ctx, 'larger cells', p, len(pts), len(cpts), must, may)
