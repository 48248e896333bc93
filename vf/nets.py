"""All layers behind one interface, and references for the ResNet blocks."""

import numpy as np
from vf import lay, oracle

KINDS = ['mc', 'pointconv', 'kp', 'kpdef', 'conv1x1', 'max', 'avg']


class Net:
  """A layer with call(features, in, out, radius, **layout)."""

  def __init__(self, kind, layer, spatial, linear, act=None, cout=None):
    self.kind, self.layer, self.spatial, self.linear = (
        kind, layer, spatial, linear)
    self.act, self.cout = act, cout
    self.influence = None     # of KPConv, relative to the radius

  def call(self, x, pc, cpc, radius, neighborhood=None, **kw):
    if self.kind == 'conv1x1':
      return self.layer(x, pc, **kw)
    if self.kind in ('max', 'avg'):
      return self.layer(x, pc, cpc, radius, **kw)
    if neighborhood is not None:
      kw['neighborhood'] = neighborhood
    if self.influence is not None:
      kw['kernel_influence_dist'] = self.influence * radius
    return self.layer(x, pc, cpc, radius, **kw)


def make(rng, kind, C, D, cout=None):
  from pylib.pc.layers import Conv1x1, MaxPooling, AveragePooling
  if kind == 'mc':
    layer, act = lay.make_mc(rng, C, D, cout)
    return Net(kind, layer, True, True, act)
  if kind == 'pointconv':
    layer, act = lay.make_pointconv(rng, C, D, cout)
    return Net(kind, layer, True, True, act)
  if kind in ('kp', 'kpdef'):
    layer, k, d, kp = lay.make_kp(rng, C, D, cout, deformable=kind == 'kpdef')
    return Net(kind, layer, True, kind == 'kp', k)
  if kind == 'conv1x1':
    layer = Conv1x1(C, cout or int(rng.integers(1, 6)))
    lay.randomize(rng, [layer._weights_tf, layer._bias_tf])
    return Net(kind, layer, False, False)
  layer = MaxPooling() if kind == 'max' else AveragePooling()
  return Net(kind, layer, True, kind == 'avg')


# ---- references of whole networks ------------------------------------------
class Conv:
  """float64 reference of a convolution layer between two clouds."""

  def __init__(self, layer, kind, s, bw=0.2, sigma=1 / 2.5):
    self.layer, self.kind, self.s = layer, kind, s
    if kind != 'kp':
      self.pdf = oracle.kde(s.pts, s.ids, s.radii, np.full(s.spec.D, bw),
                            s.own)
    self.sigma = sigma

  def __call__(self, x):
    s, L = self.s, self.layer
    if self.kind == 'mc':
      return oracle.mcconv(lay.mc_params(L), s.pts, s.ids, s.cpts, s.nb,
                           s.radius, x, self.pdf, 'leaky_relu')[0]
    if self.kind == 'pointconv':
      return oracle.pointconv(lay.pc_params(L), s.pts, s.ids, s.cpts, s.nb, x,
                              self.pdf, 'relu')[0]
    return oracle.kpconv(lay.kp_params(L, L._deformable), s.pts, s.cpts, s.nb,
                         s.radius, x, self.sigma, 'linear')['out']


class Norm:
  """float64 reference of batch normalization, with its state."""

  def __init__(self, layer):
    self.layer = layer
    self.gamma = layer.gamma.numpy().astype(np.float64)
    self.beta = layer.beta.numpy().astype(np.float64)
    self.mean = layer.moving_mean.numpy().astype(np.float64)
    self.var = layer.moving_variance.numpy().astype(np.float64)

  def __call__(self, x, training):
    if training:
      m, v = x.mean(0), x.var(0)
      k = self.layer.momentum
      self.mean = k * self.mean + (1 - k) * m
      self.var = k * self.var + (1 - k) * v
    else:
      m, v = self.mean, self.var
    return (x - m) / np.sqrt(v + self.layer.epsilon) * self.gamma + self.beta


def dense(layer):
  W = layer._weights_tf.numpy().astype(np.float64)
  b = layer._bias_tf.numpy().astype(np.float64)
  return lambda x: x @ W + b
