"""Hierarchies: every level is a sample of the one before."""

import numpy as np
from vf import gen, mon, oracle
from vf.props.c08 import Steps
from vf.props.c09 import oracle_cells


def case(ctx, rng, i):
  import tensorflow as tf
  from pylib.pc import Grid, Neighborhood, PointCloud, PointHierarchy
  tf.random.set_seed(int(rng.integers(0, 2 ** 31)))
  spec = gen.cloud(rng, max_per=int(rng.choice([4, 15, 30])),
                   D=int(rng.choice([2, 3, 3, 4])))
  if i % 5 == 4:
    pc = PointCloud(spec.points, batch_ids=spec.ids, batch_size=spec.B)
    pts, ids, spec.form, spec.cur_shape = spec.points, spec.ids, 'ids', \
        (spec.B,)
  else:
    pc, pts, ids = gen.build(rng, spec)
  mode = str(rng.choice(['poisson', 'cell average', 'average',
                         'poisson_disk']))
  levels = int(rng.integers(1, 4))
  r0 = gen.radius_for(rng, spec, frac=float(rng.choice([0.1, 0.2, 0.35])))
  cells, full = [], []
  for l in range(levels):
    r = (r0 * 1.7 ** l).astype(np.float32)
    kind = int(rng.integers(0, 4))
    if kind == 0:
      cells.append(float(r[0]))
      full.append(np.full(spec.D, r[0], np.float32))
    elif kind == 1:
      cells.append([float(r[0])])
      full.append(np.full(spec.D, r[0], np.float32))
    elif kind == 2 and spec.D > 2:
      # the last given size is used for the remaining dimensions
      cells.append(r[:2])
      full.append(np.concatenate([r[:1], np.full(spec.D - 1, r[1])])
                  .astype(np.float32))
    else:
      cells.append(r)
      full.append(r)
  ctx.describe(mode=mode, cells=cells, **spec.describe())
  with Steps(10 * spec.N + 10):
    h = PointHierarchy(pc, cells, mode)
  ctx.check(len(h) == levels + 1, 'number of levels')
  ctx.check(h[0] is pc or np.array_equal(h[0]._points.numpy(), pts),
            'first level is the given cloud')
  cur, cids = pts, ids
  sizes = []
  for l in range(levels):
    nxt = h[l + 1]
    spts, sids = mon.cloud_rows(nxt)
    ctx.check(int(nxt._batch_size) == spec.B, f'batch size of level {l + 1}')
    if 'poisson' in mode:
      mon.rows_in(ctx, f'level {l + 1}', spts, sids, cur, cids)
      mon.check_poisson(ctx, f'level {l + 1}', cur, cids, spts, sids, full[l])
    else:
      own = oracle_cells(cur, cids, full[l].astype(np.float64))
      if own is None:
        g = Grid(PointCloud(cur, cids, spec.B), full[l])
        own = np.zeros(len(cur), np.int64)
        own[g._sorted_indices.numpy()] = g._sorted_keys.numpy()
      mon.check_means(ctx, f'level {l + 1}', spts, sids,
                      mon.cell_means(own, cur, cids))
    have = np.bincount(sids, minlength=spec.B) > 0
    ctx.equal(have, spec.sizes > 0, f'elements of level {l + 1}')
    # batch shape and sizes follow the given cloud
    want = np.bincount(sids, minlength=spec.B).reshape(spec.cur_shape)
    ctx.equal(nxt.get_sizes().numpy(), want, f'sizes of level {l + 1}')
    sizes.append(want)
    # neighborhoods between the levels
    must, may = oracle.neighbors(cur, cids, spts, sids, full[l])
    neg = l - levels if rng.random() < 0.5 else l
    nb = h.get_neighborhood(neg)
    ctx.check(isinstance(nb, Neighborhood),
              f'neighborhood of levels {l}, {l + 1}: a {type(nb).__name__}')
    p = nb._original_neigh_ids.numpy()
    mon.check_pairs(ctx, f'neighborhood of levels {l}, {l + 1}', p, len(cur),
                    len(spts), must, may)
    if rng.random() < 0.7:
      p = h.get_neighborhood(neg, transposed=True)._original_neigh_ids.numpy()
      mon.check_pairs(ctx, f'neighborhood of levels {l + 1}, {l}', p,
                      len(spts), len(cur), must.T, may.T)
    ctx.count('levels')
    cur, cids = spts, sids
  for t in (False, True):
    lst = h.get_neighborhood(transposed=t)
    ctx.check(len(lst) == levels, 'list of neighborhoods')
    for l in range(levels):
      a = h.get_neighborhood(l, transposed=t)._original_neigh_ids.numpy()
      ctx.equal(lst[l]._original_neigh_ids.numpy(), a,
                f'neighborhood {l} of the list')
  got = h.get_sizes()
  ctx.check(len(got) == levels + 1, 'sizes of all levels')
  for l in range(levels):
    ctx.equal(got[l + 1].numpy(), sizes[l], f'listed sizes of level {l + 1}')
  b = int(rng.integers(0, spec.B))
  rows = h.get_points(b)
  pad = h.get_points()
  ctx.check(len(rows) == len(pad) == levels + 1, 'points of all levels')
  for l in range(levels + 1):
    p, q = mon.cloud_rows(h[l])
    ctx.equal(rows[l].numpy(), p[q == b], f'element {b} of level {l}')
    V = spec.V if l == 0 and spec.form != 'ids' and spec.V else \
        int(np.bincount(q, minlength=spec.B).max())
    ctx.equal(pad[l].numpy(), oracle.to_padded(p, q, spec.cur_shape, V),
              f'padded level {l}')
  ctx.sig(mode, spec.style, spec.D, spec.sizes, [s.tolist() for s in sizes])
  if i % 10 == 0:
    ctx.raises((ValueError, tf.errors.InvalidArgumentError, AssertionError),
               lambda: PointHierarchy(pc, [np.ones(spec.D + 1)], mode),
               'more cell sizes than dimensions')
