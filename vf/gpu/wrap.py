"""Runs cases of other properties on the monitored CUDA operations."""

import importlib
from vf.core import Violation
from vf.gpu import sim

SIM = []


def the_sim():
  if not SIM:
    SIM.append(sim.Sim())
    import pylib.pc.custom_ops as ops
    import tfg_custom_ops
    assert 'vfgpu' in tfg_custom_ops.__file__, tfg_custom_ops.__file__
    # the package picks the CUDA operations where they are installed
    for f in (ops.compute_keys, ops.find_neighbors, ops.basis_proj):
      if not f.__module__.endswith('custom_ops_wrapper'):
        raise Violation(f'{f.__name__} of the package is {f.__module__}, not '
                        'the operation of the installed tfg_custom_ops')
  return SIM[0]


def on_device(ctx, rng, fn, config=None):
  """fn() on a random device; reports of the monitors are violations."""
  s = the_sim()
  s.report()
  if config is None:
    config = s.config(rng)
  else:
    s.set(**config)
  ctx.describe(device=config)
  ctx.sig('device', sorted(config.items()))
  try:
    return fn()
  finally:
    s.observe(ctx)


def part(ctx, rng, names, i):
  """Case of one of the property modules."""
  name = names[i % len(names)]
  mod = importlib.import_module('vf.props.' + name)
  ctx.count('cases as ' + name.upper())
  # case 0 of some modules probes known findings
  k = i // len(names) + 1
  return on_device(ctx, rng, lambda: mod.case(ctx, rng, k))
