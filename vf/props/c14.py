"""Geometry of the kernel points and their rotations."""

import numpy as np


def dists(p):
  return np.sort(np.linalg.norm(p[:, None] - p[None], axis=-1), axis=1)


def reference(n):
  """The dispositions of Appendix B of the KPConv paper, up to rotation."""
  if n == 5:
    v = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) / 3 ** .5
  elif n == 7:
    v = np.concatenate([np.eye(3), -np.eye(3)])
  elif n == 13:
    f = (1 + 5 ** .5) / 2
    v = np.array([[0, a, b * f] for a in (-1, 1) for b in (-1, 1)])
    v = np.concatenate([v, v[:, [1, 2, 0]], v[:, [2, 0, 1]]])
    v = v / np.linalg.norm(v[0])
  else:
    return None
  return np.concatenate([np.zeros((1, 3)), v])


def rings(ctx, p, n):
  """15: poles and two hexagons, 18: poles and three pentagons."""
  z = p[3:, 2] if n in (15, 18) else None
  m, count = (6, 2) if n == 15 else (5, 3)
  h = {15: [-3 ** .5 / 2, 3 ** .5 / 2], 18: [-.5, 0, .5]}[n]
  radii = []
  for k in range(count):
    r = p[3:][np.abs(z - h[k]) < 1e-5]
    ctx.check(len(r) == m, f'{n} kernel points: ring {k} at height {h[k]:.3f}'
              f' has {len(r)} of {m} points', points=p)
    d = np.linalg.norm(r[:, :2], axis=1)
    ctx.close(d, np.full(m, d[0]), 1e-5, f'{n} kernel points: ring {k}')
    radii.append(d[0])
    a = np.sort(np.arctan2(r[:, 1], r[:, 0]))
    gaps = np.diff(np.concatenate([a, [a[0] + 2 * np.pi]]))
    ctx.close(gaps, np.full(m, 2 * np.pi / m), 1e-4,
              f'{n} kernel points: angles of ring {k}')
    yield float(np.mod(a[0], 2 * np.pi / m))
  ctx.close(radii[0], radii[-1], 1e-5, f'{n} kernel points: two halves')


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc.layers import spherical_kernel_points, cube_kernel_points
  from pylib.pc.layers.utils import random_rotation
  tf.random.set_seed(int(rng.integers(0, 2 ** 31)))
  n = int(rng.choice([5, 7, 13, 15, 18]))
  p = np.asarray(spherical_kernel_points(n, rotate=False), np.float64)
  ctx.same_shape(p, (n, 3), 'kernel points')
  norm = np.linalg.norm(p, axis=1)
  ctx.check(norm[0] < 1e-5 and (norm <= 1 + 1e-5).all(),
            'first kernel point in the center, all in the unit sphere')
  if n != 18:
    ctx.close(norm, [0.0] + [1.0] * (n - 1), 1e-5,
              'the outer kernel points are on the unit sphere')
  d = dists(p)
  ctx.check((d[:, 1] > 0.45).all(), 'kernel points are apart', distances=d[:, 1])
  ctx.close(p.sum(0), np.zeros(3), 1e-4, 'kernel points are balanced')
  ref = reference(n)
  if ref is not None:
    ctx.close(d, dists(ref), 1e-4, f'distances of {n} kernel points')
  else:
    phase = list(rings(ctx, p, n))
    step = 2 * np.pi / (6 if n == 15 else 5)
    off = [abs(np.mod(phase[k + 1] - phase[k] + step / 4, step) - step * 3 / 4)
           < 1e-3 for k in range(len(phase) - 1)]
    # the paper only draws the disposition of 18 points
    ctx.check(all(off) or n == 18, 'neighboring rings are staggered', phases=phase)
  # rotations
  q = np.asarray(spherical_kernel_points(n), np.float64)
  q2 = np.asarray(spherical_kernel_points(n, rotate=True), np.float64)
  ctx.check(np.abs(q - q2).max() > 1e-5, 'rotations are random')
  for name, a, b in (('rotated kernel points', p, q),
                     ('rotated kernel points', p, q2)):
    rigid(ctx, name, a, b)
  m = int(rng.integers(4, 12))
  x = rng.normal(size=(m, 3)).astype(np.float32)
  y = np.asarray(random_rotation(x), np.float64)
  rigid(ctx, 'random_rotation', x.astype(np.float64), y)
  # cube
  k = int(rng.integers(2, 7))
  c = np.asarray(cube_kernel_points(k), np.float64)
  ctx.same_shape(c, (k ** 3, 3), 'cube kernel points')
  idx = c * (k - 1)
  ctx.check((np.abs(idx - np.round(idx)) < 1e-4).all() and c.min() >= 0 and
            c.max() <= 1 and len(np.unique(np.round(idx), axis=0)) == k ** 3,
            'regular lattice in the unit cube')
  ctx.sig(n, k, m, np.round(y[0], 5))
  ctx.count('point_sets', 6)
  ctx.describe(num_points=n, rotated=q[:3], cube=k)
  bad = int(rng.choice([0, 1, 4, 6, 8, 14, 16, 20]))
  ctx.raises(ValueError, lambda: spherical_kernel_points(bad),
             f'{bad} kernel points')


def rigid(ctx, name, a, b):
  ctx.same_shape(b, a.shape, name)
  ctx.close(b @ b.T, a @ a.T, 1e-4 * (1 + np.abs(a @ a.T).max()),
            f'{name}: lengths and angles')
  u, s, vt = np.linalg.svd(a.T @ b)
  ctx.check(np.linalg.det(u @ vt) > 0, f'{name}: orientation')
  ctx.count('rotations')
