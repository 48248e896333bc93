"""Invariances of the layers: order, batch isolation, translation, scale."""

import numpy as np
from vf import gen, lay, mon, nets, oracle
from vf.core import Skip


class Cloud:
  def __init__(self, pts, ids, B):
    self.pts, self.ids, self.B = pts, ids, B

  def real(self, rng):
    from pylib.pc import PointCloud
    if rng.random() < 0.5:
      return PointCloud(self.pts, batch_ids=self.ids, batch_size=self.B), None
    order = np.argsort(self.ids, kind='stable')
    return PointCloud(self.pts[order], sizes=np.bincount(
        self.ids, minlength=self.B)), order


def run(rng, net, a, b, x, radius):
  """Output rows in the order of cloud b."""
  pa, oa = a.real(rng)
  pb, ob = b.real(rng)
  y = net.call(x if oa is None else x[oa], pa, pb, radius).numpy()
  if ob is None:
    return y.astype(np.float64)
  out = np.zeros(y.shape)
  out[ob] = y
  return out


def dyadic(p, step):
  return (np.round(p / step) * step).astype(np.float32)


def case(ctx, rng, i):
  kind = ['mc', 'pointconv', 'kp', 'kpdef', 'max', 'avg'][i % 6]
  D = int(rng.choice([2, 3, 3, 4]))
  spec = gen.cloud(rng, D=D, max_per=20, offset=False,
                   B=int(rng.choice([1, 2, 3, 4])))
  step = 2.0 ** -9 * spec.scale
  step = 2.0 ** np.floor(np.log2(step))
  pts = dyadic(spec.points, step)
  spec.points = pts
  radius = float(np.float32(gen.radius_for(rng, spec).mean()))
  cs = mon.centers_for(rng, spec, np.full(D, radius, np.float32),
                       str(rng.choice(['near', 'subset', 'same', 'few'])))
  a = Cloud(pts, spec.ids, spec.B)
  b = Cloud(dyadic(cs.points, step), cs.ids, spec.B)
  radii = np.full(D, radius)
  for p, q in ((a, b), (a, a)):
    must, may = oracle.neighbors(p.pts, p.ids, q.pts, q.ids, radii)
    if (must != may).any():
      raise Skip('pairs on the radius')
  # everything below is exact in float32, hence no pair changes sides
  must, _ = oracle.neighbors(a.pts, a.ids, b.pts, b.ids, radii)
  C = int(rng.integers(1, 4))
  net = nets.make(rng, kind, C, D)
  if kind in ('kp', 'kpdef') and rng.random() < 0.6:
    net.influence = float(rng.uniform(0.3, 1.2))
  x = rng.normal(size=(spec.N, C)).astype(np.float32)
  ctx.describe(kind=kind, radius=radius, **spec.describe())
  ref = run(rng, net, a, b, x, radius)
  ok = must.any(1)
  ref[~ok] = 0
  mag = np.abs(ref).max() if ref.size else 0
  # conditioning: rounding of differences relative to the small bandwidth
  big = max(1.0, float(np.abs(pts).max() / radius))
  rel = 2e-5 + 4e-6 * big
  tol = rel * (mag + np.abs(x).max()) * 5 + 1e-6

  def same(what, got, want, where=ok):
    got = np.where(where[:, None], got, 0)
    want = np.where(where[:, None], want, 0)
    ctx.close(got, want, tol, f'{kind}: {what}')
    ctx.count('relations')
    ctx.count('rows', int(where.sum()))

  # order of points
  p, q = rng.permutation(len(a.pts)), rng.permutation(len(b.pts))
  a2 = Cloud(a.pts[p], a.ids[p], a.B)
  b2 = Cloud(b.pts[q], b.ids[q], b.B)
  same('order of input points', run(rng, net, a2, b, x[p], radius), ref)
  same('order of output points', run(rng, net, a, b2, x, radius), ref[q],
       ok[q])
  # translation of single batch elements, far away from each other
  t = rng.integers(-4, 5, (a.B, D)) * step * 2.0 ** 9
  a3 = Cloud((a.pts + t[a.ids]).astype(np.float32), a.ids, a.B)
  b3 = Cloud((b.pts + t[b.ids]).astype(np.float32), b.ids, b.B)
  if np.array_equal(a3.pts - t[a.ids], a.pts) and np.array_equal(
      b3.pts - t[b.ids], b.pts):
    m3, n3 = oracle.neighbors(a3.pts, a3.ids, b3.pts, b3.ids, radii)
    m4, n4 = oracle.neighbors(a3.pts, a3.ids, a3.pts, a3.ids, radii)
    if (m3 == n3).all() and (m4 == n4).all():
      same('translation of batch elements', run(rng, net, a3, b3, x, radius),
           ref)
      ctx.count('translations')
  # isolation: other elements change completely
  if a.B > 1:
    k = int(rng.integers(0, a.B))
    keep, keepb = a.ids == k, b.ids == k
    if keepb.any():
      other = a.pts.copy()
      other[~keep] += rng.normal(size=other[~keep].shape).astype(
          np.float32) * radius * 2
      y = x.copy()
      y[~keep] = rng.normal(size=y[~keep].shape) * 100
      bo = b.pts.copy()
      bo[~keepb] += np.float32(radius) * 3
      drop = (~keep) & (rng.random(len(keep)) < 0.4)
      same('other batch elements change',
           run(rng, net, Cloud(other[~drop], a.ids[~drop], a.B),
               Cloud(bo, b.ids, b.B), y[~drop], radius), ref, ok & keepb)
      ctx.count('isolation')
      if keep.any():
        got = run(rng, net,
                  Cloud(a.pts[keep], np.zeros(keep.sum(), np.int32), 1),
                  Cloud(b.pts[keepb], np.zeros(keepb.sum(), np.int32), 1),
                  x[keep], radius)
        same('batch element on its own', got, ref[keepb], ok[keepb])
        ctx.count('single_elements')
  # linearity in the features
  if net.linear:
    y = rng.normal(size=x.shape).astype(np.float32)
    u, v = 0.5, -2.0
    got = run(rng, net, a, b, u * x + v * y, radius)
    fy = run(rng, net, a, b, y, radius)
    tl = tol * 4 + 4e-5 * np.abs(fy).max()
    ctx.close(np.where(ok[:, None], got, 0),
              np.where(ok[:, None], u * ref + v * fy, 0), tl,
              f'{kind}: linear in the features')
    ctx.count('linear')
  if kind in ('max', 'avg'):
    got = run(rng, net, a, b, 2 * x + 3, radius)
    same('affine features', got, 2 * ref + 3)
  # scale
  if kind != 'pointconv':
    f = float(rng.choice([0.25, 4.0, 2.0]))
    got = run(rng, net, Cloud(a.pts * np.float32(f), a.ids, a.B),
              Cloud(b.pts * np.float32(f), b.ids, b.B), x, radius * f)
    same('scale of points and radius', got, ref)
    ctx.count('scales')
  ctx.sig(kind, spec.style, D, spec.sizes, len(b.pts), int(must.sum()))
