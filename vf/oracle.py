"""Reference semantics in numpy float64, written from the documentation."""

import numpy as np


def pair_dist(pts, ids, cpts, cids, radii):
  """[C, N] scaled distances, inf across batch elements."""
  p = pts.astype(np.float64)
  c = cpts.astype(np.float64)
  r = np.asarray(radii, np.float64).reshape(1, 1, -1)
  d = np.sqrt((((p[None] - c[:, None]) / r) ** 2).sum(-1))
  d[cids[:, None] != ids[None, :]] = np.inf
  return d


def gray(pts, cpts, radii):
  """Width around distance 1 in which float32 may decide either way."""
  m = 1.0
  for x in (pts, cpts):
    if x.size:
      m = max(m, float(np.max(np.abs(x) / np.asarray(radii, np.float64))))
  return 1e-5 + 4 * 6e-8 * m


def neighbors(pts, ids, cpts, cids, radii):
  """(must, may): boolean [C, N] sure neighbors / possible neighbors."""
  d = pair_dist(pts, ids, cpts, cids, radii)
  g = gray(pts, cpts, radii)
  return d < 1 - g, d < 1 + g


def kde(pts, ids, radii, bandwidth, nb):
  """Density per point (input order); nb: boolean [N, N] neighbors."""
  p = pts.astype(np.float64)
  bw = np.asarray(bandwidth, np.float64)
  r = np.asarray(radii, np.float64)
  x = (p[None] - p[:, None]) / (bw * r)
  k = np.prod(np.exp(-x ** 2 / 2) / np.sqrt(2 * np.pi), -1)
  return (k * nb).sum(1) / np.prod(bw)


ACT = {
    'relu': lambda x: np.maximum(x, 0),
    'leaky_relu': lambda x: np.where(x > 0, x, 0.2 * x),
    'lrelu': lambda x: np.where(x > 0, x, 0.2 * x),
    'leakyrelu': lambda x: np.where(x > 0, x, 0.2 * x),
    'elu': lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))),
}


def f64(x):
  return np.asarray(x, np.float64)


def edges(nb):
  """boolean [C, N] -> (neighbor ids, center ids), sorted by center."""
  c, n = np.nonzero(nb)
  return n, c


def aggregate(basis, feats, n, c, num_out):
  """sum over neighbors of feature x basis: [num_out, C, H]."""
  out = np.zeros((num_out, feats.shape[1], basis.shape[1]))
  np.add.at(out, c, feats[n][:, :, None] * basis[:, None, :])
  return out


def mcconv(layer, pts, ids, cpts, nb, radius, feats, pdf, act):
  """Monte-Carlo convolution (Hermosilla et al. 2018)."""
  n, c = edges(nb)
  delta = (f64(pts)[n] - f64(cpts)[c]) / radius
  feats = f64(feats)
  W = [f64(w) for w in layer['weights']]
  Bs = [f64(b) for b in layer['biases']]
  F = f64(layer['final'])
  outs = []
  mag = 0.0
  num_out = cpts.shape[0]
  for m in range(W[0].shape[0]):
    h = delta
    for w, b in zip(W, Bs):
      h = ACT[act](h @ w[m] + b[m])
    h = h / pdf[n][:, None]
    lat = aggregate(h, feats, n, c, num_out)
    outs.append(lat.reshape(num_out, -1) @ F[m])
    lat_a = aggregate(np.abs(h), np.abs(feats), n, c, num_out)
    mag = max(mag, float((lat_a.reshape(num_out, -1) @ np.abs(F[m])).max())
              if num_out else 0.0)
  return np.concatenate(outs, 1), mag


def pointconv(layer, pts, ids, cpts, nb, feats, pdf, act):
  """PointConv (Wu et al. 2019). Returns (value, magnitude, min |scale|)."""
  n, c = edges(nb)
  num_out = cpts.shape[0]
  delta = f64(pts)[n] - f64(cpts)[c]
  h = ACT[act](delta @ f64(layer['axis']) + f64(layer['bias']))
  mx = np.zeros(num_out)
  np.maximum.at(mx, c, pdf[n])
  q = (pdf[n] / mx[c])[:, None]
  q = np.maximum(q @ f64(layer['w1']) + f64(layer['b1']), 0)
  q = q @ f64(layer['w2']) + f64(layer['b2'])
  least = float(np.abs(q).min()) if q.size else 1.0
  h = h / q
  feats = f64(feats)
  W = f64(layer['weights'])
  out = aggregate(h, feats, n, c, num_out).reshape(num_out, -1) @ W
  mag = aggregate(np.abs(h), np.abs(feats), n, c, num_out) \
      .reshape(num_out, -1) @ np.abs(W)
  return out, float(mag.max()) if mag.size else 0.0, least


def kp_weight(dist, sigma, kind):
  if kind == 'linear':
    return np.maximum(1 - dist / sigma, 0)
  return np.exp(-(dist / (sigma / 3)) ** 2)


def kpconv(layer, pts, cpts, nb, radius, feats, sigma, kind):
  """KPConv (Thomas et al. 2019), rigid or deformable.

  sigma: influence distance relative to the radius. Returns a dict.
  """
  n, c = edges(nb)
  num_out = cpts.shape[0]
  delta = (f64(pts)[n] - f64(cpts)[c]) / radius
  feats = f64(feats)
  K = f64(layer['kernel_points'])
  k, D = K.shape
  W = f64(layer['weights'])
  offsets = np.zeros((num_out, k, D))
  if layer.get('offsets') is not None:
    d0 = np.sqrt(((delta[:, None] - K[None]) ** 2).sum(-1))
    lat = aggregate(kp_weight(d0, sigma, kind), feats, n, c, num_out)
    offsets = (lat.reshape(num_out, -1) @ f64(layer['offsets'])) \
        .reshape(num_out, k, D)
  pos = K[None] + offsets
  d = np.sqrt(((delta[:, None] - pos[c]) ** 2).sum(-1))
  w = kp_weight(d, sigma, kind)
  lat = aggregate(w, feats, n, c, num_out)
  out = lat.reshape(num_out, -1) @ W
  mag = aggregate(w, np.abs(feats), n, c, num_out).reshape(num_out, -1) \
      @ np.abs(W)
  # regularization: fitting and repulsive terms
  fit = np.full((num_out, k), np.inf)
  np.minimum.at(fit, c, (d / sigma) ** 2)
  kd = np.sqrt(((pos[:, :, None] - pos[:, None]) ** 2).sum(-1))
  rep = kp_weight(kd, sigma, kind)
  rep[:, np.arange(k), np.arange(k)] = 0
  return {'out': out, 'mag': float(mag.max()) if mag.size else 0.0,
          'offsets': offsets, 'fit': fit.sum(), 'rep': rep.sum()}


def to_padded(rows, ids, shape, V):
  """Rows in cloud order -> zero padded [.., V, C]."""
  B = int(np.prod(shape))
  out = np.zeros((B, V) + rows.shape[1:], rows.dtype)
  for b in range(B):
    r = rows[ids == b]
    out[b, :len(r)] = r
  return out.reshape(tuple(shape) + (V,) + rows.shape[1:])
