"""Loaders return the contents of the files, batches are zero padded."""

import os
import pathlib
import shutil
import tempfile
import types

import numpy as np
from vf import gen


def number(rng, v, style):
  if style == 'repr':
    return str(np.float32(v))
  if style == 'exp':
    return np.format_float_scientific(np.float32(v), unique=True)
  if style == 'plus':
    return '%+.4f' % v
  return '%d' % int(round(float(v) * 100))


def write(rng, path, n, D, F, delim, style, newline):
  scale = 10.0 ** rng.uniform(-3, 3)
  v = (rng.normal(size=(n, D + F)) * scale).astype(np.float32)
  txt = [[number(rng, x, style) for x in row] for row in v]
  want = np.array([[float(t) for t in row] for row in txt]).reshape(n, D + F)
  data = '\n'.join(delim.join(r) for r in txt) + ('\n' if newline else '')
  with open(path, 'w') as f:
    f.write(data)
  return want


def close(ctx, got, want, dtype, what):
  want = want.astype(dtype)
  eps = 1e-6 if dtype == np.float32 else 1e-14
  ctx.close(got, want.astype(np.float64), eps * np.abs(want.astype(
      np.float64)), what)
  ctx.count('values', want.size)


def case(ctx, rng, i):
  d = tempfile.mkdtemp(prefix='io_', dir=os.environ.get('VF_WORK'))
  try:
    files(ctx, rng, i, d)
    meshes(ctx, rng, d)
  finally:
    shutil.rmtree(d)


def files(ctx, rng, i, d):
  import tensorflow as tf
  from pylib import io
  from pylib.pc import PointCloud
  delim = str(rng.choice([',', ' ', ';', '\t', ', ']))
  D = int(rng.choice([1, 2, 3, 3, 4, 5]))
  F = int(rng.choice([0, 1, 2, 3, 3, 6]))
  style = str(rng.choice(['repr', 'exp', 'plus', 'int']))
  B = int(rng.choice([1, 2, 3, 4, 6]))
  sizes = rng.integers(1, 30, B)
  if rng.random() < 0.25:
    sizes[:] = sizes[0]
  paths, want = [], []
  for b in range(B):
    p = os.path.join(d, 'cloud %d.txt' % b)
    want.append(write(rng, p, int(sizes[b]), D, F, delim, style,
                      bool(rng.random() < 0.5)))
    paths.append(p)
  ctx.describe(delimiter=delim, dimension=D, features=F, numbers=style,
               sizes=sizes)
  kw = {}
  if delim != ',' or rng.random() < 0.3:
    kw['delimiter'] = delim
  dim = dict(dimension=D) if D != 3 or rng.random() < 0.3 else {}
  for tdt, ndt in ((tf.float32, np.float32), (tf.float64, np.float64)):
    dt = {} if tdt == tf.float32 and rng.random() < 0.5 else {'dtype': tdt}
    x, f = io.load_points_from_file_to_tensor(paths[0], **kw, **dim, **dt)
    ctx.check(x.dtype == tdt and f.dtype == tdt, 'type of the tensors')
    close(ctx, x.numpy(), want[0][:, :D], ndt, 'points of a file')
    close(ctx, f.numpy(), want[0][:, D:], ndt, 'features of a file')
    dt = {} if tdt == tf.float32 and rng.random() < 0.5 else {'dtype': ndt}
    for m in (None, 1, int(rng.integers(1, 40)), int(sizes[0])):
      mx = {} if m is None else {'max_num_points': m}
      x, f = io.load_points_from_file_to_numpy(paths[0], **kw, **dim, **mx,
                                               **dt)
      ctx.check(x.dtype == ndt and f.dtype == ndt, 'type of the arrays')
      k = len(want[0]) if m is None else min(m, len(want[0]))
      close(ctx, x, want[0][:k, :D], ndt, f'points, at most {m}')
      close(ctx, f, want[0][:k, D:], ndt, f'features, at most {m}')
      ctx.count('files')
  # batches
  shape = [-1] if rng.random() < 0.3 else [
      int(k) for k in gen.factor_shape(rng, B)]
  full = [B] if shape == [-1] else shape
  bs = {} if shape == [-1] and rng.random() < 0.5 else {'batch_shape': shape}
  pd = dict(point_dimension=D) if dim else {}
  x, f, n = io.load_batch_of_points(paths, **bs, **kw, **pd)
  V = int(sizes.max())
  wx, wf = np.zeros((B, V, D)), np.zeros((B, V, F))
  for b in range(B):
    wx[b, :sizes[b]] = want[b][:, :D]
    wf[b, :sizes[b]] = want[b][:, D:]
  ctx.equal(n.numpy(), sizes.reshape(full), 'sizes of the batch')
  close(ctx, x.numpy(), wx.reshape(full + [V, D]), np.float32,
        'points of the batch')
  close(ctx, f.numpy(), wf.reshape(full + [V, F]), np.float32,
        'features of the batch')
  ctx.count('batches')
  if D >= 2:
    pc = PointCloud(x, sizes=n)
    for b in range(B):
      got = pc.get_points(id=[int(k) for k in np.unravel_index(b, full)])
      close(ctx, got.numpy(), want[b][:, :D], np.float32,
            'cloud of a loaded batch')
  ctx.raises(ValueError, lambda: io.load_batch_of_points(
      paths, batch_shape=[B + 1], **kw, **pd), 'batch shape of another size')
  bad = [None, 3, pathlib.Path(paths[0]), ['a'], b'x'][i % 5]
  for fn in (io.load_points_from_file_to_tensor,
             io.load_points_from_file_to_numpy):
    ctx.raises(TypeError, lambda: fn(bad), f'file name {bad!r}')
    ctx.raises(FileNotFoundError, lambda: fn(os.path.join(d, 'none.txt')),
               'missing file')
  k = int(rng.integers(0, B))
  ctx.raises(FileNotFoundError, lambda: io.load_batch_of_points(
      paths[:k] + [os.path.join(d, 'none.txt')] + paths[k + 1:], **kw, **pd),
      'missing file in a batch')
  ctx.sig(delim, D, F, style, sizes, shape)


def meshes(ctx, rng, d):
  import tensorflow as tf
  from pylib.io import points as mod
  B = int(rng.choice([1, 2, 4, 6]))
  verts = {}
  for b in range(B):
    verts['mesh%d.obj' % b] = rng.normal(size=(int(rng.integers(1, 12)), 3))
  seen = []

  def stand_in(filename, file_type=None, **kwargs):
    seen.append((filename, file_type, kwargs))
    return types.SimpleNamespace(vertices=verts[filename])
  names = list(verts)
  shape = [-1] if rng.random() < 0.4 else [
      int(k) for k in gen.factor_shape(rng, B)]
  full = [B] if shape == [-1] else shape
  kw = {} if rng.random() < 0.5 else {'file_type': 'obj', 'process': False}
  real = mod.load_mesh
  mod.load_mesh = stand_in
  try:
    dt = tf.float64 if rng.random() < 0.3 else tf.float32
    x, n = mod.load_batch_of_meshes(names, batch_shape=shape, dtype=dt, **kw)
  finally:
    mod.load_mesh = real
  sizes = np.array([len(v) for v in verts.values()])
  V = sizes.max()
  want = np.zeros((B, V, 3))
  for b, v in enumerate(verts.values()):
    want[b, :len(v)] = v
  ctx.equal(n.numpy(), sizes.reshape(full), 'sizes of the meshes')
  ctx.check(x.dtype == dt, 'type of the vertices')
  close(ctx, x.numpy(), want.reshape(full + [V, 3]),
        np.float64 if dt == tf.float64 else np.float32, 'vertices')
  ctx.check(seen == [(f, kw.get('file_type'),
                      {k: v for k, v in kw.items() if k != 'file_type'})
                     for f in names], 'each mesh is loaded once', calls=seen)
  ctx.count('mesh_batches')
