"""Bounding boxes are tight around each batch element."""

import numpy as np
from vf import gen


def case(ctx, rng, i):
  from pylib.pc import PointCloud
  spec = gen.cloud(rng, max_per=int(rng.choice([1, 4, 30])))
  pc, pts, ids = gen.build(rng, spec)
  ctx.describe(**spec.describe())
  ctx.sig(spec.form, spec.style, spec.D, spec.sizes, spec.points[:1])
  box = pc.get_AABB()
  lo, hi = box._aabb_min.numpy(), box._aabb_max.numpy()
  ctx.same_shape(lo, (spec.B, spec.D), 'box minimum')
  ctx.same_shape(hi, (spec.B, spec.D), 'box maximum')
  for b in range(spec.B):
    x = pts[ids == b].astype(np.float64)
    if not len(x):
      ctx.count('empty_elements')
      continue
    ctx.count('boxes')
    tol = 2e-7 * np.abs(x).max() + 2e-9
    l, h = lo[b].astype(np.float64), hi[b].astype(np.float64)
    ctx.check((x >= l - 0).all() and (x <= h).all(),
              f'box of element {b} contains its points', box=[l, h])
    ctx.close(l, x.min(0), tol, f'minimum of element {b}')
    ctx.close(h, x.max(0), tol, f'maximum of element {b}')
    for p in [1, 2, np.inf, 'euclidean', 3.0, 1.5]:
      d = box.get_diameter(ord=p).numpy()
      ctx.same_shape(d, spec.cur_shape, f'diameters ({p})')
      want = np.linalg.norm(x.max(0) - x.min(0),
                            ord=2 if p == 'euclidean' else p)
      ctx.close(d.reshape(-1)[b], want, 1e-5 * want + 8 * tol,
                f'diameter ({p}) of element {b}')
    d = box.get_diameter().numpy()
    ctx.close(d.reshape(-1)[b], np.linalg.norm(x.max(0) - x.min(0)),
              1e-5 * np.linalg.norm(x.max(0) - x.min(0)) + 8 * tol,
              'default diameter')
  # independent of the order of the points and of other elements
  perm = rng.permutation(spec.N)
  q = PointCloud(pts[perm], batch_ids=ids[perm], batch_size=spec.B).get_AABB()
  full = spec.sizes > 0
  ctx.equal(q._aabb_min.numpy()[full], lo[full], 'minimum after permutation')
  ctx.equal(q._aabb_max.numpy()[full], hi[full], 'maximum after permutation')
  b = int(rng.choice(np.nonzero(full)[0]))
  x = pts[ids == b]
  q = PointCloud(x, batch_ids=np.zeros(len(x), int), batch_size=1).get_AABB()
  ctx.equal(q._aabb_min.numpy()[0], lo[b], 'minimum of a single element')
  ctx.equal(q._aabb_max.numpy()[0], hi[b], 'maximum of a single element')
  # flat points without a batch shape: one diameter per element
  q = PointCloud(pts, batch_ids=ids, batch_size=spec.B).get_AABB()
  ctx.same_shape(q.get_diameter().numpy(), (spec.B,), 'flat diameters')
