"""Poisson disk sampling: subset, separation, coverage, ids, termination."""

import numpy as np
from vf import gen, mon, oracle
from vf.core import Violation


class Steps:
  """Counts the random draws; more draws than points means no progress."""

  def __init__(self, limit):
    self.limit, self.n = limit, 0

  def __enter__(self):
    import tensorflow as tf
    self.tf, self.orig = tf, tf.random.categorical

    def draw(*a, **k):
      self.n += 1
      if self.n > self.limit:
        raise Violation(f'sampling made {self.n} draws from {self.limit} '
                        'points without an end')
      return self.orig(*a, **k)
    tf.random.categorical = draw
    return self

  def __exit__(self, *a):
    self.tf.random.categorical = self.orig


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc import Grid, Neighborhood, sample, poisson_disk_sampling
  tf.random.set_seed(int(rng.integers(0, 2 ** 31)))
  spec = gen.cloud(rng, max_per=int(rng.choice([3, 15, 40])))
  pc, pts, ids = gen.build(rng, spec)
  radii = gen.radius_for(rng, spec)
  if rng.random() < 0.3 or spec.style == 'lattice':
    radii = (radii * 0.3).astype(np.float32) + np.float32(1e-3 * spec.scale)
    radii = np.maximum(radii, (pts.max(0) - pts.min(0)).max() / 80)
  ctx.describe(radii=radii, **spec.describe())
  draws = Steps(spec.N)
  with draws:
    kind = int(rng.integers(0, 4))
    grid = Grid(pc, radii if rng.random() < 0.5 else
                (radii * 1.5).astype(np.float32))
    if kind == 0:
      arg = float(radii[0]) if np.all(radii == radii[0]) else radii
      out, sel = poisson_disk_sampling(pc, arg, return_ids=True)
    elif kind == 1:
      nb = Neighborhood(grid, radii)
      out, sel = poisson_disk_sampling(pc, neighborhood=nb, return_ids=True)
    elif kind == 2:
      mode = str(rng.choice(['poisson', 'Poisson', 'poisson disk',
                             'poisson_disk', 'POISSON_DISK']))
      out, sel = sample(Neighborhood(grid, radii), mode)
    else:
      out, sel = poisson_disk_sampling(pc, radii), None
  spts, sids = mon.cloud_rows(out)
  ctx.same_shape(spts, (len(sids), spec.D), 'sampled points')
  ctx.check(int(out._batch_size) == spec.B, 'batch size of the samples')
  mon.rows_in(ctx, 'Poisson sample', spts, sids, pts, ids)
  if sel is not None:
    sel = sel.numpy()
    ctx.equal(pts[sel], spts, 'points of the sampled ids')
    ctx.equal(ids[sel], sids, 'elements of the sampled ids')
    ctx.check(len(set(sel.tolist())) == len(sel), 'sampled ids are distinct')
    ctx.count('ids_checked', len(sel))
  mon.check_poisson(ctx, 'Poisson sample', pts, ids, spts, sids, radii)
  have = np.bincount(sids, minlength=spec.B) > 0
  ctx.equal(have, spec.sizes > 0, 'elements with samples')
  # the sampled cloud can be read like any other
  sz = out.get_sizes().numpy().reshape(-1)
  ctx.equal(sz, np.bincount(sids, minlength=spec.B), 'sizes of the samples')
  ctx.count('draws', draws.n)
  ctx.count('points_removed', spec.N - len(spts))
  ctx.sig(spec.style, spec.D, spec.N, spec.sizes, len(spts))
  if i % 20 == 0:
    ctx.raises(ValueError, lambda: poisson_disk_sampling(pc),
               'neither radius nor neighborhood')
