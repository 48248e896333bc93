"""Answers depend on the points and the current batch shape only."""

import numpy as np
from vf import gen, oracle


class Model:
  """What the cloud has to answer, from its points and current shape."""

  def __init__(self, pts, ids, B, shape, V):
    self.pts, self.ids, self.B, self.shape, self.V = pts, ids, B, shape, V
    self.sizes = np.bincount(ids, minlength=B)

  def default_V(self):
    return self.V if self.V is not None else int(self.sizes.max())


def read(ctx, rng, pc, m, what):
  """One random query, compared with the model."""
  import tensorflow as tf
  q = int(rng.integers(0, 7))
  if q == 0:
    ctx.equal(pc.get_sizes().numpy(), m.sizes.reshape(m.shape),
              f'{what}: sizes')
  elif q == 1:
    ctx.equal(pc.get_points().numpy(),
              oracle.to_padded(m.pts, m.ids, m.shape, m.default_V()),
              f'{what}: padded points')
  elif q == 2:
    V = int(m.sizes.max()) + int(rng.integers(0, 6))
    ctx.equal(pc.get_points(max_num_points=V).numpy(),
              oracle.to_padded(m.pts, m.ids, m.shape, V),
              f'{what}: points padded to {V}')
  elif q == 3:
    b = int(rng.integers(0, m.B))
    ctx.equal(pc.get_points(b).numpy(), m.pts[m.ids == b],
              f'{what}: points of element {b}')
  elif q == 4:
    V = int(rng.choice([0, int(m.sizes.max()) + 2]))
    f = rng.normal(size=(len(m.ids), 2)).astype(np.float32)
    un = pc.get_unflatten(max_num_points=V) if V else pc.get_unflatten()
    ctx.equal(un(f).numpy(), oracle.to_padded(f, m.ids, m.shape,
                                              V or m.default_V()),
              f'{what}: unflatten({V})')
  elif q == 5:
    p = [1, 2, np.inf, 'euclidean', 3.0][int(rng.integers(0, 5))]
    d = pc.get_AABB().get_diameter(ord=p).numpy()
    ctx.same_shape(d, m.shape, f'{what}: diameters')
    order = 2 if p == 'euclidean' else p
    for b in range(m.B):
      if m.sizes[b]:
        x = m.pts[m.ids == b].astype(np.float64)
        want = np.linalg.norm(x.max(0) - x.min(0), ord=order)
        ctx.close(d.reshape(-1)[b], want, 1e-5 * (want + np.abs(x).max())
                  + 1e-6, f'{what}: diameter {p} of element {b}')
  else:
    idx = [int(k) for k in np.unravel_index(int(rng.integers(0, m.B)),
                                            m.shape)]
    b = int(np.ravel_multi_index(idx, m.shape))
    if getattr(m, 'indexed', True):
      ctx.equal(pc.get_points(idx).numpy(), m.pts[m.ids == b],
                f'{what}: points of element {idx}')
  ctx.count('queries')
  return q


def case(ctx, rng, i):
  import tensorflow as tf
  if i % 6 == 5:
    return hierarchy(ctx, rng)
  spec = gen.cloud(rng, max_per=10, B=int(rng.choice([1, 2, 4, 6, 12])))
  pc, pts, ids = gen.build(rng, spec)
  if spec.form == 'ids' and rng.random() < 0.5:
    from pylib.pc import PointCloud
    pc = PointCloud(spec.points, batch_ids=spec.ids, batch_size=spec.B)
    spec.cur_shape = (spec.B,)
    indexed = False
  else:
    indexed = True
  m = Model(pts, ids, spec.B, spec.cur_shape, spec.V)
  m.indexed = indexed
  trace = []
  ctx.describe(**spec.describe(), trace=trace)
  for step in range(int(rng.integers(6, 18))):
    act = rng.random()
    if act < 0.25:
      shape = gen.factor_shape(rng, spec.B)
      trace.append(['set_batch_shape', list(shape)])
      pc.set_batch_shape(list(shape))
      m.shape, m.indexed = shape, True
      ctx.count('shape_changes')
    elif act < 0.32:
      bad = list(gen.factor_shape(rng, spec.B + 1 + int(rng.integers(0, 3))))
      trace.append(['bad set_batch_shape', bad])
      ctx.raises((ValueError, tf.errors.InvalidArgumentError),
                 lambda: pc.set_batch_shape(bad), 'incompatible batch shape')
    else:
      trace.append(['query'])
      trace[-1].append(read(ctx, rng, pc, m, f'step {step}'))
  for q in range(3):
    read(ctx, rng, pc, m, 'end')
  ctx.sig(spec.form, spec.N, [tuple(map(str, t)) for t in trace])


def hierarchy(ctx, rng):
  """The levels of a hierarchy follow the same rule."""
  from pylib.pc import PointHierarchy
  spec = gen.cloud(rng, D=3, max_per=15, B=int(rng.choice([1, 2, 4, 6])),
                   allow_empty=False)
  pc, pts, ids = gen.build(rng, spec)
  r = float(gen.radius_for(rng, spec).max())
  mode = str(rng.choice(['poisson', 'cell average']))
  h = PointHierarchy(pc, [r, 2 * r], mode)
  models = []
  for lvl in range(len(h)):
    c = h[lvl]
    # the stored points of the level, grouped by element
    p = [c.get_points(b).numpy() for b in range(spec.B)]
    models.append(Model(np.concatenate(p), np.repeat(
        np.arange(spec.B), [len(x) for x in p]), spec.B, spec.cur_shape,
                        spec.V if lvl == 0 else None))
  trace = []
  ctx.describe(**spec.describe(), trace=trace, mode=mode, cells=[r, 2 * r])
  for step in range(int(rng.integers(5, 12))):
    act = rng.random()
    shape = models[0].shape
    if act < 0.3:
      shape = gen.factor_shape(rng, spec.B)
      h.set_batch_shape(list(shape))
      for m in models:
        m.shape = shape
      trace.append(['set', list(shape)])
      ctx.count('shape_changes')
    elif act < 0.6:
      V = int(rng.choice([0, models[0].sizes.max() + 1]))
      got = h.get_points(max_num_points=V) if V else h.get_points()
      for k, m in enumerate(models):
        want = oracle.to_padded(m.pts, m.ids, m.shape, V or m.default_V())
        if k == 0:
          ctx.equal(got[k].numpy(), want, f'level {k} padded points')
        else:
          ctx.equal(got[k].numpy(), want, f'level {k} padded points')
      trace.append(['points', V])
    elif act < 0.8:
      got = h.get_sizes()
      for k, m in enumerate(models):
        ctx.equal(got[k].numpy(), m.sizes.reshape(m.shape),
                  f'level {k} sizes')
      trace.append(['sizes'])
    else:
      b = int(rng.integers(0, spec.B))
      got = h.get_points(b)
      for k, m in enumerate(models):
        ctx.equal(got[k].numpy(), m.pts[m.ids == b], f'level {k} element {b}')
      trace.append(['element', b])
    ctx.count('queries')
  ctx.sig('hierarchy', mode, spec.N, [tuple(map(str, t)) for t in trace])
