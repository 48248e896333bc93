"""Clouds that need many blocks, and raw calls of the operations."""

import numpy as np
from vf import gen, oracle


def big(rng, n, D=3, B=None):
  """n points in B elements, roughly uniform; radius for ~`deg` neighbors."""
  B = B or int(rng.choice([1, 2, 5]))
  ids = rng.integers(0, B, n).astype(np.int32)
  if rng.random() < 0.5:
    ids = np.sort(ids)
  pts = rng.uniform(0, 1, (n, D)).astype(np.float32)
  if rng.random() < 0.3:
    pts += rng.uniform(-2, 2, D).astype(np.float32)
  deg = float(rng.choice([2, 6, 15]))
  vol = np.pi if D == 2 else 4.2 if D == 3 else 4.9
  r = (deg * B / n / vol) ** (1 / D)
  return pts, ids, B, np.full(D, max(r, 1 / 120), np.float32)


def pairs_by_bins(pts, ids, cpts, cids, radii):
  """Sorted (center, neighbor) pairs in float64: sure and possible ones."""
  from scipy.spatial import cKDTree
  sure, may = [], []
  g = oracle.gray(pts, cpts, radii)
  for b in np.unique(cids):
    m, k = np.nonzero(ids == b)[0], np.nonzero(cids == b)[0]
    if not len(m):
      continue
    t = cKDTree(pts[m].astype(np.float64) / radii)
    u = cKDTree(cpts[k].astype(np.float64) / radii)
    d = u.sparse_distance_matrix(t, 1 + g, output_type='ndarray')
    c, n = k[d['i']], m[d['j']]
    may.append(np.stack([c, n], 1))
    s = d['v'] < 1 - g
    sure.append(np.stack([c[s], n[s]], 1))

  def cat(x):
    return np.concatenate(x) if x else np.zeros((0, 2), np.int64)
  return cat(sure), cat(may)


def code(p, n):
  return np.sort(p[:, 0].astype(np.int64) * n + p[:, 1])
