"""CUDA operations: densities, feature aggregation, and their gradients."""

import numpy as np
from vf import oracle
from vf.gpu import scenes, wrap


def case(ctx, rng, i):
  k = i % 8
  if k == 7:
    wrap.on_device(ctx, rng, lambda: rejects(ctx, rng))
  elif k in (0, 3, 5):
    wrap.on_device(ctx, rng, lambda: aggregation(ctx, rng))
  elif k in (1, 4):
    wrap.on_device(ctx, rng, lambda: density(ctx, rng))
  else:
    wrap.part(ctx, rng, ['c07', 'c19'], i // 8 * 2 + (k == 6))


def aggregation(ctx, rng):
  """basis_proj and both of its gradients on arbitrary lists of pairs."""
  import tensorflow as tf
  import tfg_custom_ops as ops
  K = int(rng.choice([8, 16, 32, 64]))
  C = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 40]))
  n = int(rng.choice([1, 3, 20, 200]))
  m = int(rng.choice([1, 2, 17, 40, 130]))
  kind = str(rng.choice(['few', 'mixed', 'dense']))
  num = {'few': rng.integers(0, 3, m), 'dense': rng.integers(20, 60, m),
         'mixed': rng.choice([0, 1, 2, 7, 8, 9, 31, 32, 33], m)}[kind]
  if m > 100:
    num = np.minimum(num, 20)
  ends = np.cumsum(num)
  M = int(ends[-1])
  if M == 0:
    num[0] = 1
    ends = np.cumsum(num)
    M = int(ends[-1])
  pairs = np.stack([rng.integers(0, n, M), np.repeat(np.arange(m), num)], 1)
  basis = rng.normal(size=(M, K)).astype(np.float32)
  feats = rng.normal(size=(n, C)).astype(np.float32)
  ctx.describe(K=K, C=C, points=n, samples=m, pairs=M, kind=kind)
  up = rng.normal(size=(m, C, K)).astype(np.float32)
  b, f = tf.constant(basis), tf.constant(feats)
  # the registered gradient is the one training code sees
  import pylib.pc.custom_ops  # registers it
  with tf.GradientTape() as tape:
    tape.watch([b, f])
    y = ops.basis_proj(b, f, tf.constant(pairs, tf.int32),
                       tf.constant(ends, tf.int32))
    loss = tf.reduce_sum(y * up)
  gb, gf = tape.gradient(loss, [b, f])
  B, F, U = oracle.f64(basis), oracle.f64(feats), oracle.f64(up)
  q, s = pairs[:, 0], pairs[:, 1]
  want = oracle.aggregate(B, F, q, s, m)
  mag = oracle.aggregate(np.abs(B), np.abs(F), q, s, m)
  ctx.close(y.numpy(), want, 4e-6 * mag + 1e-6, 'aggregated features')
  want = np.einsum('pc,pck->pk', F[q], U[s])
  mag = np.einsum('pc,pck->pk', np.abs(F[q]), np.abs(U[s]))
  ctx.close(gb.numpy(), want, 4e-6 * mag + 1e-6, 'gradient of the basis')
  want, mag = np.zeros((n, C)), np.zeros((n, C))
  np.add.at(want, q, np.einsum('pk,pck->pc', B, U[s]))
  np.add.at(mag, q, np.einsum('pk,pck->pc', np.abs(B), np.abs(U[s])))
  ctx.close(gf.numpy(), want, 1e-5 * mag + 1e-6, 'gradient of the features')
  ctx.count('aggregations')
  ctx.count('pairs', M)
  ctx.sig('agg', K, C, n, m, kind)


def density(ctx, rng):
  """KDE and its gradient with respect to the points."""
  import tensorflow as tf
  from pylib.pc import Grid, Neighborhood, PointCloud
  from pylib.pc.custom_ops import compute_pdf
  D = int(rng.choice([2, 3, 3, 4]))
  n = int(rng.choice([1, 2, 30, 200, 600]))
  if D == 4:
    n = min(n, 200)
  pts, ids, B, r = scenes.big(rng, n, D)
  if rng.random() < 0.2:
    pts[n // 2:] = pts[:n - n // 2]       # duplicates
  r = (r * rng.uniform(0.7, 1.4, D)).astype(np.float32)
  bw = rng.uniform(0.15, 0.8, D).astype(np.float32)
  mode = int(rng.integers(0, 2))
  p = tf.constant(pts)
  up = rng.normal(size=n).astype(np.float32)
  with tf.GradientTape() as tape:
    tape.watch(p)
    nb = Neighborhood(Grid(PointCloud(p, ids, B), r), r)
    y = compute_pdf(nb, tf.constant(bw), mode)
    loss = tf.reduce_sum(y * up)
  g = tf.convert_to_tensor(tape.gradient(loss, p)).numpy()
  si = nb._grid._sorted_indices.numpy()
  sp = pts[si].astype(np.float64)
  q, c = nb._neighbors.numpy().astype(np.int64).T
  h = bw.astype(np.float64) if mode == 0 else np.full(D, 1 / np.sqrt(n))
  sc = h * r
  x = (sp[q] - sp[c]) / sc
  k = np.prod(np.exp(-x ** 2 / 2) / np.sqrt(2 * np.pi), 1) / np.prod(h)
  want = np.zeros(n)
  np.add.at(want, c, k)
  coord = np.abs(pts / r).max() / h.min()
  num = np.bincount(c, minlength=n)
  peak = (2 * np.pi) ** (-D / 2) / np.prod(h)
  err = peak * (4e-7 * coord + 4e-6)
  ctx.describe(n=n, D=D, B=B, radii=r, bandwidth=bw, mode=mode)
  ctx.close(y.numpy(), want, 2e-5 * want + err * num, 'densities')
  dk = k[:, None] * -x / sc
  G = np.zeros((n, D))
  w = up.astype(np.float64)[c][:, None]
  np.add.at(G, q, w * dk)
  np.add.at(G, c, -w * dk)
  Gin = np.zeros((n, D))
  Gin[si] = G
  A = np.zeros((n, D))
  np.add.at(A, q, np.abs(w) * err / sc + 2e-5 * np.abs(w * dk))
  np.add.at(A, c, np.abs(w) * err / sc + 2e-5 * np.abs(w * dk))
  Ain = np.zeros((n, D))
  Ain[si] = A
  ctx.close(g, Gin, Ain * 3 + 1e-6, 'gradient of the densities')
  ctx.count('density_gradients')
  ctx.count('pairs', len(q))
  ctx.sig('kde', n, D, B, mode)


def rejects(ctx, rng):
  import tensorflow as tf
  import tfg_custom_ops as ops
  n, D = int(rng.integers(2, 9)), int(rng.choice([2, 3, 4]))
  f = lambda *s: tf.constant(rng.uniform(0, 1, s), tf.float32)
  z = lambda *s: tf.zeros(s, tf.int32)
  r = tf.range(1, n + 1)
  bad = (tf.errors.InvalidArgumentError, ValueError)
  q = tf.stack([tf.range(n)] * 2, 1)
  pdf = dict(p=f(n, D), q=q, r=r, b=f(D), s=f(D))
  for w in (dict(r=r[:-1]), dict(b=f(D + 1)), dict(s=f(D - 1)),
            dict(q=z(n, 3)), dict(p=f(n, 7)), dict(p=f(n, 1))):
    a = dict(pdf, **w)
    text = f'with {list(w)} of shape {[tuple(v.shape) for v in w.values()]}'
    ctx.raises(bad, lambda: ops.compute_pdf_with_pt_grads(*a.values(), 0),
               'compute_pdf ' + text)
    ctx.raises(bad, lambda: ops.compute_pdf_pt_grads(*a.values(), f(n), 0),
               'compute_pdf_pt_grads ' + text)
  ctx.raises(bad, lambda: ops.compute_pdf_with_pt_grads(*pdf.values(), 2),
             'mode 2')
  ctx.raises(bad, lambda: ops.compute_pdf_pt_grads(*pdf.values(), f(n + 1), 0),
             'gradients of another number of points')
  pr = dict(b=f(n, 8), f=f(n, 4), q=q, r=r)
  for w in (dict(b=f(n, 7)), dict(b=f(n, 128)), dict(f=f(n, 9)),
            dict(b=f(n + 1, 8)), dict(q=z(n, 3))):
    a = dict(pr, **w)
    ctx.raises(bad, lambda: ops.basis_proj(*a.values()),
               f'basis_proj with {list(w)} of shape '
               f'{[tuple(v.shape) for v in w.values()]}')
  for g in (f(n, 4, 16), f(n, 5, 8), f(n + 1, 4, 8), f(n, 32)):
    ctx.raises(bad, lambda: ops.basis_proj_grads(*pr.values(), g),
               f'basis_proj_grads of shape {tuple(g.shape)}')
  ctx.sig('rejects', n, D)
