"""CUDA operations: safe, and independent of device and schedule."""

import numpy as np
from vf import mon, oracle
from vf.gpu import scenes, wrap

CONFIGS = [dict(mps=1, per=1), dict(mps=1, per=3), dict(mps=2, per=2),
           dict(mps=3, per=5), dict(mps=40, per=8)]


def pipeline(pts, ids, B, r, bw, limit, K, C, feats, m):
  """All operations after one another; returns canonical results."""
  import tensorflow as tf
  from pylib.pc import Grid, Neighborhood, PointCloud
  from pylib.pc.custom_ops import basis_proj, compute_pdf, sampling
  pc = PointCloud(pts, ids, B)
  g = Grid(pc, r)
  nb = Neighborhood(g, r)
  out = {'keys': g._sorted_keys.numpy(), 'ds': g.get_DS().numpy()}
  p = nb._neighbors.numpy().astype(np.int64)
  order = np.lexsort((p[:, 0], p[:, 1]))
  out['pairs'] = p[order]
  out['ends'] = nb._samples_neigh_ranges.numpy()
  out['~pdf'] = compute_pdf(nb, tf.constant(bw), 0).numpy()
  x = tf.constant(pts)
  with tf.GradientTape() as tape:
    tape.watch(x)
    n2 = Neighborhood(Grid(PointCloud(x, ids, B), r), r)
    loss = tf.reduce_sum(compute_pdf(n2, tf.constant(bw), 0) ** 2)
  out['~pdf gradient'] = tf.convert_to_tensor(
      tape.gradient(loss, x)).numpy()
  # basis values which depend on the pair, not on its position in the list
  o = nb._original_neigh_ids.numpy().astype(np.int64)
  basis = tf.constant(np.stack(
      [np.cos((k + 1) * 0.7 * o[:, 0] + k * o[:, 1]) for k in range(K)], 1),
      tf.float32)
  f = tf.constant(feats)
  with tf.GradientTape() as tape:
    tape.watch([basis, f])
    y = basis_proj(basis, f, nb)
    loss = tf.reduce_sum(y ** 2)
  gb, gf = tape.gradient(loss, [basis, f])
  out['~features'], out['~feature gradient'] = y.numpy(), gf.numpy()
  out['~basis gradient'] = gb.numpy()[order]
  lim = Neighborhood(g, r, max_neighbors=limit)
  out['limited ends'] = lim._samples_neigh_ranges.numpy()
  q = lim._neighbors.numpy().astype(np.int64)
  sub = set(map(tuple, out['pairs'].tolist()))
  sel = set(map(tuple, q.tolist()))
  out['limited'] = np.array([sel <= sub, len(sel) == len(q)])
  a, b, c = sampling(nb, 1)
  k = np.lexsort(np.round(a.numpy().T.astype(np.float64), 3))
  out['number of cells'] = np.array(len(a))
  out['~mean of cells'] = a.numpy().astype(np.float64).mean(0)
  a, b, c = sampling(nb, 0)
  return out, (a.numpy(), b.numpy(), c.numpy(),
               g._sorted_points.numpy(), g._sorted_batch_ids.numpy())


def case(ctx, rng, i):
  import tensorflow as tf
  D = int(rng.choice([2, 3, 3, 4]))
  n = int(rng.choice([1, 2, 31, 33, 65, 130, 257, 600]))
  if D == 4:
    n = min(n, 200)
  pts, ids, B, r = scenes.big(rng, n, D)
  if rng.random() < 0.2:
    pts[n // 2:] = pts[:n - n // 2]
  K = int(rng.choice([8, 16, 32]))
  C = int(rng.choice([1, 3, 7, 8, 16]))
  bw = rng.uniform(0.2, 0.8, D).astype(np.float32)
  feats = rng.normal(size=(n, C)).astype(np.float32)
  limit = int(rng.choice([1, 2, 5]))
  ctx.describe(n=n, D=D, B=B, radii=r, K=K, C=C, limit=limit)
  first = None
  picks = rng.permutation(len(CONFIGS))[:2]
  for j, k in enumerate([int(x) for x in picks] + [2]):
    mode = [int(rng.integers(0, 2)), 2, 3][j]
    cfg = dict(CONFIGS[k], seed=int(rng.integers(1, 2 ** 40)), mode=mode,
               lazy=int(rng.random() < 0.8),
               resident=int(rng.choice([1, 2, 5])))
    out, smp = wrap.on_device(ctx, rng, lambda: pipeline(
        pts, ids, B, r, bw, limit, K, C, feats, None), cfg)
    ctx.check(out['limited'].all(), 'limited neighbors are distinct neighbors')
    spts, sids, sel, gp, gi = smp
    ctx.equal(gp[sel], spts, 'sampled points')
    ctx.equal(gi[sel], sids, 'elements of sampled points')
    mon.check_poisson(ctx, 'sample', pts, ids, spts, sids, r)
    if first is None:
      first = out
    for name, want in first.items():
      what = f'{name} depends on the device or schedule'
      if name[0] != '~':
        ctx.equal(out[name], want, what)
      else:
        big = np.abs(want).max() if want.size else 0
        ctx.close(out[name], want, 2e-5 * big + 1e-6, what)
    ctx.count('executions')
  ctx.sig(n, D, B, K, C, limit, [int(x) for x in picks])
