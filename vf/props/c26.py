"""Layers, networks and graph mode on the CUDA operations."""

from vf.gpu import wrap

PARTS = ['c11', 'c12', 'c13', 'c16', 'c17', 'c18', 'c15', 'c21', 'c11', 'c12',
         'c19', 'c16', 'c17', 'c13']


def case(ctx, rng, i):
  wrap.part(ctx, rng, PARTS, i)
