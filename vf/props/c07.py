"""Kernel density estimates."""

import numpy as np
from vf import gen, mon, oracle
from vf.props.c05 import setup_case
from vf.core import Skip


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc import Neighborhood, KDEMode, Grid
  from pylib.pc.custom_ops import compute_pdf
  from pylib.pc.custom_ops.custom_ops_tf import \
      compute_pdf_inside_neighborhoods_tf
  from pylib.pc.Neighborhood import density_estimation, \
      density_estimation_in_neighborhoods
  spec, pc, pts, ids, radii, cells, grid = setup_case(ctx, rng, 25)
  # the estimate uses all neighbors inside the radius, not the cell size
  must, may = oracle.neighbors(pts, ids, pts, ids, radii)
  D = spec.D
  if rng.random() < 0.5:
    bw = np.full(D, rng.uniform(0.1, 1.0), np.float32)
    bw_arg = float(bw[0]) if rng.random() < 0.5 else bw
  else:
    bw = rng.uniform(0.1, 1.0, D).astype(np.float32)
    bw_arg = bw
  num_bw = np.full(D, 1 / np.sqrt(len(pts)))
  if (must != may).any() and (bw.max() > 0.25 or num_bw.max() > 0.25):
    raise Skip('pairs on the radius')
  const = oracle.kde(pts, ids, radii, bw, must)
  byn = oracle.kde(pts, ids, radii, num_bw, must)
  # float32 rounding of the coordinates in units of the bandwidth
  coord = np.abs(pts.astype(np.float64) / radii).max()

  def tol(bw, ref):
    # derivative of the kernel times the rounding error of the coordinates
    e = coord / np.min(bw) * 1.2e-7 * 4
    nb = must.sum(1)
    peak = (2 * np.pi) ** (-D / 2) / np.prod(np.asarray(bw, np.float64))
    return 2e-5 * ref + peak * nb * e * 1.0

  si = grid._sorted_indices.numpy()
  kind = i % 3
  if kind == 0:
    nb, cpts = Neighborhood(grid, radii), pts[si]
  else:
    cspec = mon.centers_for(rng, spec, radii)
    cpc, cpts, _ = gen.build(rng, cspec)
    nb = Neighborhood(grid, radii, cpc)
    if kind == 2 and rng.random() < 0.5:
      # the density of a point does not depend on how many are listed
      nb = Neighborhood(grid, radii, cpc,
                        max_neighbors=int(rng.choice([1, 2, 4])))
      ctx.count('limited_neighborhoods')
  pairs = nb._original_neigh_ids.numpy()
  ctx.describe(bandwidth=bw, centers=len(cpts))
  ctx.sig(spec.style, D, spec.N, len(pairs), kind, bw[:1])
  ctx.count('pairs', len(pairs))
  # densities of the points, in the order of the grid
  own = nb if kind == 0 else Neighborhood(grid, radii)
  ctx.close(compute_pdf(own, tf.constant(bw), 0).numpy(), const[si],
            tol(bw, const[si]), 'density per point')
  ctx.close(compute_pdf(own, tf.constant(bw), 1).numpy(), byn[si],
            tol(num_bw, byn[si]), 'density per point, bandwidth by number')
  # history of computations on one neighborhood: the latest one counts
  count = np.bincount(pairs[:, 1].astype(int), minlength=len(cpts))
  first = True
  for step in range(int(rng.integers(2, 5))):
    mode = KDEMode([0, 1, 2][int(rng.integers(0, 3))])
    norm = bool(rng.random() < 0.4)
    if mode == KDEMode.constant:
      ref, b = const, bw
    elif mode == KDEMode.num_points:
      ref, b = byn, num_bw
    else:
      ref, b = np.ones(len(pts)), np.ones(D)
    want = ref[pairs[:, 0]]
    t = tol(b, ref)[pairs[:, 0]]
    if norm:
      want, t = want / count[pairs[:, 1]], t / count[pairs[:, 1]]
    if first and rng.random() < 0.5:
      got = nb.get_pdf(bandwidth=bw_arg, mode=mode, normalize=norm)
    else:
      nb.compute_pdf(bandwidth=bw_arg, mode=mode, normalize=norm)
      got = nb.get_pdf()
    first = False
    ctx.close(got.numpy(), want, t, f'pdf of the neighbors ({mode.name}, '
              f'normalize={norm}, step {step})')
    ctx.close(nb.get_pdf().numpy(), want, t, 'pdf asked again')
    if len(pairs):
      ctx.check((got.numpy() > 0).all(), 'densities are positive')
    ctx.count('pdf_computations')
  # density of a cloud, in input order
  s_arg = radii if rng.random() < 0.6 or not np.all(radii == radii[0]) \
      else float(radii[0])
  got = density_estimation(pc, bw_arg, s_arg)
  ctx.close(got.numpy(), const, tol(bw, const), 'density_estimation')
  got = density_estimation(pc, bw_arg, s_arg, mode=KDEMode.num_points)
  ctx.close(got.numpy(), byn, tol(num_bw, byn),
            'density_estimation, bandwidth by number')
  ctx.equal(density_estimation(pc, bw_arg, s_arg, mode=KDEMode.no_pdf).numpy(),
            np.ones(len(pts), np.float32), 'density_estimation without pdf')
  got = density_estimation_in_neighborhoods(
      pc, tf.constant(pairs), bw_arg, s_arg)
  ctx.close(got.numpy(), const[pairs[:, 0]], tol(bw, const)[pairs[:, 0]],
            'density_estimation_in_neighborhoods')
  if len(pairs):
    got = density_estimation_in_neighborhoods(
        pc, tf.constant(pairs), bw_arg, s_arg, normalize=True)
    k = count[pairs[:, 1]]
    ctx.close(got.numpy(), const[pairs[:, 0]] / k,
              tol(bw, const)[pairs[:, 0]] / k,
              'density_estimation_in_neighborhoods, normalized')
  # densities inside each neighborhood
  n, c = pairs[:, 0], pairs[:, 1]
  if len(pairs) and len(pairs) < 1500:
    p = pts.astype(np.float64)
    x = (p[n][:, None] - p[n][None]) / (bw.astype(np.float64) * radii)
    k = np.prod(np.exp(-x ** 2 / 2) / np.sqrt(2 * np.pi), -1)
    want = (k * (c[:, None] == c[None])).sum(1) / np.prod(
        bw.astype(np.float64))
    got = compute_pdf_inside_neighborhoods_tf(nb, tf.constant(bw), 0)
    peak = (2 * np.pi) ** (-D / 2) / np.prod(bw.astype(np.float64))
    ctx.close(got.numpy(), want, 2e-5 * want + peak * count[c] * coord /
              bw.min() * 5e-7, 'density inside the neighborhoods')
    ctx.count('inside')
