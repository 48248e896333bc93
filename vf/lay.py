"""Set-up and references for the layers."""

import os
import numpy as np
from vf import gen, mon, oracle
from vf.core import Skip

# the CUDA operations exist for some numbers of basis functions
OPS = 8 if os.environ.get('VF_GPU') else 0
ACTS = ['relu', 'ReLU', 'leaky_relu', 'lReLU', 'LeakyReLU', 'elu', 'ELU']


class Scene:
  """An input cloud, an output cloud, a radius and features."""


def scene(ctx, rng, same=None, max_per=20, D=None, allow_empty=True,
          features=None, B=None, center_kind=None):
  s = Scene()
  dense = max_per > 12 and rng.random() < 0.1   # many neighbors
  if dense:
    max_per = 80
  s.spec = gen.cloud(rng, D=D, max_per=max_per, allow_empty=allow_empty,
                     offset=rng.random() < 0.3, B=B)
  s.pc, s.pts, s.ids = gen.build(rng, s.spec)
  r = gen.radius_for(rng, s.spec, frac=float(
      rng.choice([0.15, 0.25, 0.4, 0.7])) if not dense else 1.5)
  s.radius = float(np.float32(r.mean()))
  s.radii = np.full(s.spec.D, s.radius, np.float32)
  if same is None:
    same = rng.random() < 0.3
  if same:
    s.cspec, s.cpc, s.cpts, s.cids = s.spec, s.pc, s.pts, s.ids
  else:
    s.cspec = mon.centers_for(rng, s.spec, s.radii, center_kind)
    s.cpc, s.cpts, s.cids = gen.build(rng, s.cspec)
  s.same = same
  must, may = oracle.neighbors(s.pts, s.ids, s.cpts, s.cids, s.radii)
  own, own2 = oracle.neighbors(s.pts, s.ids, s.pts, s.ids, s.radii)
  if (must != may).any() or (own != own2).any():
    raise Skip('pairs on the radius')
  s.nb, s.own = must, own
  s.coord = float(np.abs(s.pts / s.radius).max())
  s.C = features or int(rng.integers(1, 5))
  s.x = rng.normal(size=(s.spec.N, s.C)).astype(np.float32)
  ctx.describe(radius=s.radius, centers=s.cspec.style,
               num_centers=len(s.cpts), C=s.C, **s.spec.describe())
  ctx.count('pairs', int(must.sum()))
  ctx.count('centers', len(s.cpts))
  ctx.count('centers_with_over_32_neighbors', int((must.sum(1) > 32).sum()))
  ctx.count('centers_without_neighbors', int((must.sum(1) == 0).sum()))
  return s


def neighborhood(s, cells=1.0):
  from pylib.pc import Grid, Neighborhood
  return Neighborhood(Grid(s.pc, s.radii * np.float32(cells)), s.radii, s.cpc)


def randomize(rng, variables, scale=0.7):
  for v in variables:
    v.assign(rng.normal(size=v.shape, scale=scale).astype(np.float32))


def mc_params(layer):
  return dict(weights=[w.numpy() for w in layer._weights_tf],
              biases=[w.numpy() for w in layer._bias_tf],
              final=layer._final_weights_tf.numpy())


def make_mc(rng, C, D, out=None):
  from pylib.pc.layers import MCConv
  mlps = int(rng.choice([1, 2, 4]))
  out = out or mlps * int(rng.integers(1, 4))
  while out % mlps:
    mlps = int(rng.choice([1, 2, 4]))
  kw = {}
  if rng.random() < 0.6:
    kw['mlp_size'] = [[8], [4, 8], [16], [OPS or 3], [5, 4, OPS or 6]][
        int(rng.integers(0, 5))]
  act = 'leaky_relu'
  if rng.random() < 0.7:
    act = kw['non_linearity_type'] = str(rng.choice(ACTS))
  layer = MCConv(C, out, D, mlps, **kw)
  randomize(rng, layer._weights_tf)
  randomize(rng, layer._bias_tf, 0.5)
  return layer, act.lower()


def ref_mc(s, layer, act, x, bw):
  pdf = oracle.kde(s.pts, s.ids, s.radii, np.full(s.spec.D, bw), s.own)
  return oracle.mcconv(mc_params(layer), s.pts, s.ids, s.cpts, s.nb, s.radius,
                       x, pdf, act)


def pc_params(layer):
  return dict(axis=layer._basis_axis_tf.numpy(),
              bias=layer._basis_bias_tf.numpy(),
              weights=layer._weights.numpy(),
              w1=layer._weights_pdf[0].numpy(),
              w2=layer._weights_pdf[1].numpy(),
              b1=layer._biases_pdf[0].numpy(),
              b2=layer._biases_pdf[1].numpy())


def make_pointconv(rng, C, D, out=None, positive=True):
  from pylib.pc.layers import PointConv
  kw = {}
  if rng.random() < 0.6:
    kw['size_hidden'] = int(rng.choice([8, 16, 32, OPS or 5]))
  act = 'relu'
  if rng.random() < 0.6:
    act = kw['non_linearity_type'] = str(rng.choice(ACTS))
  layer = PointConv(C, out or int(rng.integers(1, 5)), D, **kw)
  randomize(rng, [layer._basis_axis_tf, layer._basis_bias_tf, layer._weights])
  if positive:
    # keeps the transformed density away from zero
    for v in layer._weights_pdf:
      v.assign(rng.uniform(0.1, 0.6, v.shape).astype(np.float32))
    layer._biases_pdf[0].assign(
        rng.uniform(-0.05, 0.3, (1, 16)).astype(np.float32))
    layer._biases_pdf[1].assign([[float(rng.uniform(0.2, 1.0))]])
  else:
    randomize(rng, layer._weights_pdf + layer._biases_pdf)
  return layer, act.lower()


def ref_pointconv(s, layer, act, x, bw):
  pdf = oracle.kde(s.pts, s.ids, s.radii, np.full(s.spec.D, bw), s.own)
  return oracle.pointconv(pc_params(layer), s.pts, s.ids, s.cpts, s.nb, x,
                          pdf, act)


def make_kp(rng, C, D, out=None, deformable=None, custom=None):
  from pylib.pc.layers import KPConv
  kw = {}
  if custom is None:
    custom = D != 3 or rng.random() < 0.3
  if custom:
    k = int(rng.choice([1, 4, 8, 9, 16, 20, 40]))
    kp = rng.uniform(-1, 1, (k, D)).astype(np.float32)
    kw.update(custom_kernel_points=kp, num_kernel_points=k, num_dims=D)
  else:
    kp = None
    if rng.random() < 0.8:
      kw['num_kernel_points'] = int(rng.choice([5, 7, 13, 15, 18]))
  if deformable is None:
    deformable = bool(rng.random() < 0.5)
  kind = 'linear'
  if rng.random() < 0.6:
    kind = kw['kp_interpolation'] = str(rng.choice(['linear', 'gaussian']))
  layer = KPConv(C, out or int(rng.integers(1, 5)), deformable=deformable,
                 **kw)
  randomize(rng, [layer._weights])
  if deformable:
    # offsets of at most about half a radius
    layer._kernel_offsets_weights.assign(
        (rng.normal(size=layer._kernel_offsets_weights.shape) * 0.06).astype(
            np.float32))
  return layer, kind, deformable, kp


def kp_params(layer, deformable):
  return dict(kernel_points=np.asarray(layer._kernel_points),
              weights=layer._weights.numpy(),
              offsets=layer._kernel_offsets_weights.numpy()
              if deformable else None)


def ref_kp(s, layer, kind, deformable, x, sigma):
  return oracle.kpconv(kp_params(layer, deformable), s.pts, s.cpts, s.nb,
                       s.radius, x, sigma, kind)


def features_arg(rng, s, x=None):
  """The features in a random documented layout."""
  import tensorflow as tf
  x = s.x if x is None else x
  if rng.random() < 0.6:
    return tf.constant(x)
  p, _ = gen.padded(rng, x, s.ids, s.spec.cur_shape,
                    pad=str(rng.choice(['zero', 'garbage', 'nan'])))
  return tf.constant(p)


def rel_tol(s, bw=None):
  t = 2e-4 + 3e-6 * s.coord
  if bw is not None:
    t += s.coord / bw ** 2 * 6e-7 * 2
  return t
