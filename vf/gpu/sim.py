"""Drives the monitored CUDA runtime (vfcuda.cpp) from the checks."""

import ctypes
import json
import os

from vf.core import Violation


def prepare(work):
  """Compiles the operations of the tree under test; before the workers."""
  from vf.gpu import build
  out = os.path.join(work, 'vfgpu')
  build.build(os.environ['VERIF_REPO'], out)
  os.environ['PYTHONPATH'] = os.environ['PYTHONPATH'] + ':' + out
  os.environ['VF_GPU'] = out


class Sim:
  """One per worker: configures the device and reads the monitors."""

  def __init__(self):
    self.lib = ctypes.CDLL(os.path.join(os.environ['VF_GPU'],
                                        'libvfcuda.so'), ctypes.RTLD_GLOBAL)
    self.buf = ctypes.create_string_buffer(1 << 20)

  def config(self, rng, mode=None):
    """A random device: processors, resident blocks, schedule, stream."""
    mode = int(rng.integers(0, 4)) if mode is None else mode
    c = dict(seed=int(rng.integers(1, 2 ** 40)), mps=int(rng.choice([1, 2, 3])),
             per=int(rng.choice([1, 2, 3])), mode=mode,
             lazy=int(rng.random() < 0.8), resident=int(rng.choice([1, 2, 5])))
    self.set(**c)
    return c

  def set(self, seed=1, mps=1, per=1, mode=0, lazy=1, resident=2):
    self.lib.vf_config(ctypes.c_uint64(seed), mps, per, mode, lazy, resident)

  def report(self):
    n = self.lib.vf_report(self.buf, len(self.buf), 1)
    assert n > 0, 'report too long'
    return json.loads(self.buf.value.decode(errors='replace'))

  def observe(self, ctx):
    """Counts what ran; a report of the monitors is a violation."""
    r = self.report()
    s = r['stats']
    for k in ('ops', 'launches', 'blocks', 'threads', 'reads', 'writes',
              'atomics', 'barriers', 'switches', 'unset'):
      ctx.count('gpu_' + k, s[k])
    for k, n in r['kernels'].items():
      ctx.count('kernel ' + k.split('<')[0], n)
    if r['violations']:
      raise Violation(r['violations'][0], all=r['violations'][:12])
