"""Generators of hostile point clouds and features."""

import numpy as np


class Spec:
  """A generated cloud: flat points (input order) with batch ids."""

  def __init__(self, points, ids, batch_size, batch_shape, style):
    self.points = np.asarray(points, np.float32)
    self.ids = np.asarray(ids, np.int32)
    self.B = int(batch_size)
    self.shape = tuple(int(s) for s in batch_shape)
    self.style = style
    self.form = None

  @property
  def D(self):
    return self.points.shape[1]

  @property
  def N(self):
    return self.points.shape[0]

  @property
  def sizes(self):
    return np.bincount(self.ids, minlength=self.B).astype(np.int64)

  def describe(self):
    return dict(style=self.style, form=self.form, N=self.N, D=self.D,
                batch_shape=self.shape, sizes=self.sizes.tolist(),
                points=self.points[:8], ids=self.ids[:20])


def factor_shape(rng, B):
  """A random batch shape with product B."""
  shape, rest = [], B
  while rest > 1 and rng.random() < 0.7:
    divs = [d for d in range(1, rest + 1) if rest % d == 0]
    d = int(rng.choice(divs))
    shape.append(d)
    rest //= d
    if len(shape) == 3:
      break
  shape.append(rest)
  if rng.random() < 0.2:
    shape.insert(int(rng.integers(0, len(shape) + 1)), 1)
  return tuple(shape)


def raw_points(rng, n, D, style, scale, offset):
  if style == 'uniform':
    p = rng.uniform(0, 1, (n, D))
  elif style == 'normal':
    p = rng.normal(0, 0.4, (n, D))
  elif style == 'clusters':
    c = rng.uniform(0, 1, (max(1, n // 8), D))
    p = c[rng.integers(0, len(c), n)] + rng.normal(0, 0.03, (n, D))
  elif style == 'lattice':
    p = rng.integers(0, 5, (n, D)) * 0.25
  elif style == 'duplicates':
    q = rng.uniform(0, 1, (max(1, n // 3), D))
    p = q[rng.integers(0, len(q), n)]
  elif style == 'flat':       # degenerate extent in some dimensions
    p = rng.uniform(0, 1, (n, D))
    k = int(rng.integers(0, D))
    p[:, k] = 0.3
    if rng.random() < 0.3:
      p[:, :2] = 0.5
  elif style == 'line':
    p = rng.uniform(0, 1, (n, 1)) * rng.normal(0, 1, (1, D))
  elif style == 'outlier':
    p = rng.uniform(0, 1, (n, D))
    if n:
      p[int(rng.integers(0, n))] += rng.uniform(2, 6, D)
  elif style == 'aniso':
    p = rng.uniform(0, 1, (n, D)) * (10.0 ** rng.uniform(-1, 0.7, D))
  else:
    raise ValueError(style)
  return (p * scale + offset).astype(np.float32)


STYLES = ['uniform', 'normal', 'clusters', 'lattice', 'duplicates', 'flat',
          'line', 'outlier', 'aniso']


def cloud(rng, D=None, max_per=40, allow_empty=True, B=None, styles=STYLES,
          min_total=1, offset=True, order=None):
  """A random cloud with batch structure; points in random or batch order."""
  if D is None:
    D = int(rng.choice([2, 3, 3, 3, 4, 5]))
  if B is None:
    B = int(rng.choice([1, 1, 2, 3, 4, 6]))
  style = str(rng.choice(styles))
  scale = float(rng.choice([1.0, 1.0, 1.0, 0.05, 20.0]))
  off = np.zeros(D)
  if offset and rng.random() < 0.4:
    off = rng.uniform(-8, 8, D) * scale
  sizes = rng.integers(1, max_per + 1, B)
  if rng.random() < 0.3:
    sizes[:] = sizes[0]
  if rng.random() < 0.25:
    sizes[int(rng.integers(0, B))] = 1
  if allow_empty and B > 1 and rng.random() < 0.4:
    k = int(rng.integers(1, B))
    sizes[rng.permutation(B)[:k]] = 0
    if rng.random() < 0.4:
      sizes[-1] = 0
  if sizes.sum() < min_total:
    sizes[int(rng.integers(0, B))] = min_total
  pts, ids = [], []
  for b in range(B):
    pts.append(raw_points(rng, int(sizes[b]), D, style, scale,
                          off + (rng.uniform(-1, 1, D) * scale
                                 if rng.random() < 0.5 else 0)))
    ids += [b] * int(sizes[b])
  pts = np.concatenate(pts, 0)
  ids = np.array(ids, np.int32)
  if order is None:
    order = str(rng.choice(['batch', 'shuffled']))
  if order == 'shuffled':
    p = rng.permutation(len(ids))
    pts, ids = pts[p], ids[p]
  s = Spec(pts, ids, B, factor_shape(rng, B), style)
  s.scale = scale
  s.order = order
  return s


def padded(rng, values, ids, shape, V=None, pad='zero'):
  """Flat rows -> [A1, .., An, V, C] with padding rows of kind `pad`."""
  B = int(np.prod(shape))
  sizes = np.bincount(ids, minlength=B)
  if V is None:
    V = int(sizes.max()) + int(rng.integers(0, 4))
  C = values.shape[1]
  out = np.zeros((B, V, C), np.float32)
  if pad == 'garbage':
    out[:] = rng.normal(0, 1e3, out.shape)
  elif pad == 'nan':
    out[:] = np.nan
  for b in range(B):
    out[b, :sizes[b]] = values[ids == b]
  return out.reshape(tuple(shape) + (V, C)), sizes.reshape(shape)


def build(rng, spec, form=None, with_shape=True):
  """Constructs the real PointCloud in one of the documented forms.

  Returns (cloud, points, ids): `points`, `ids` are in the order in which the
  cloud is documented to hold them (input order for flat input, batch order
  for padded input). Sets spec.form.
  """
  from pylib.pc import PointCloud
  if form is None:
    form = str(rng.choice(['ids', 'sizes', 'padded', 'padded', 'full']))
  if form == 'full' and len(set(spec.sizes.tolist())) != 1:
    form = 'padded'
  if form == 'full' and spec.sizes[0] == 0:
    form = 'padded'
  spec.form = form
  order = np.argsort(spec.ids, kind='stable')
  if form == 'ids':
    pc = PointCloud(spec.points, batch_ids=spec.ids, batch_size=spec.B)
    spec.cur_shape = (spec.B,)
    if with_shape:
      pc.set_batch_shape(list(spec.shape))
      spec.cur_shape = spec.shape
    spec.V = None
    return pc, spec.points, spec.ids
  pts, ids = spec.points[order], spec.ids[order]
  spec.cur_shape = spec.shape
  if form == 'sizes':
    pc = PointCloud(pts, sizes=spec.sizes.reshape(spec.shape))
    spec.V = None
    return pc, pts, ids
  if form == 'full':
    x, _ = padded(rng, pts, ids, spec.shape, V=int(spec.sizes[0]))
    spec.V = x.shape[-2]
    return PointCloud(x), pts, ids
  x, sizes = padded(rng, pts, ids, spec.shape,
                    pad=str(rng.choice(['zero', 'garbage', 'nan'])))
  spec.V = x.shape[-2]
  return PointCloud(x, sizes=sizes), pts, ids


def radius_for(rng, spec, frac=None):
  """Per-dimension radii that give small, non-trivial neighborhoods."""
  ext = spec.points.max(0) - spec.points.min(0)
  base = float(np.max(ext)) if np.max(ext) > 0 else spec.scale
  f = frac if frac is not None else float(
      rng.choice([0.08, 0.15, 0.23, 0.37, 0.7, 1.3]))
  r = base * f * rng.uniform(0.8, 1.2)
  # bounds the number of cells
  floor = base / 60.0
  r = max(r, floor)
  if rng.random() < 0.4:
    return (r * rng.uniform(0.6, 1.7, spec.D)).astype(np.float32)
  return np.full(spec.D, r, np.float32)
