"""Runs a share of the cases of one property in a fresh process."""

import importlib
import json
import os
import sys
import time


def main():
  prop, out, start, step, total, budget = sys.argv[1:7]
  extra = sys.argv[7:]
  from vf import core
  mod = importlib.import_module('vf.props.' + prop.lower())
  ctx = core.Ctx(prop, int(os.environ['VERIF_SEED']),
                 os.environ['VERIF_TIER'])
  if hasattr(mod, 'setup'):
    mod.setup(ctx)
  t0 = time.time()
  cases = [int(extra[0])] if extra else range(int(start), int(total),
                                              int(step))
  done = 0
  for i in cases:
    if time.time() - t0 > float(budget):
      ctx.count('stopped_by_time')
      break
    ctx.run_case(mod, i)
    done += 1
    if len(ctx.violations) >= 3 or len(ctx.errors) >= 3:
      break
    if done % 10 == 0:
      _dump(ctx, out)
  _dump(ctx, out)


def _dump(ctx, out):
  with open(out + '.tmp', 'w') as f:
    json.dump(ctx.result(), f)
  os.replace(out + '.tmp', out)


if __name__ == '__main__':
  main()
