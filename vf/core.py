"""Monitor core: cases, verdicts, event counters.

A property module (vf/props/cXX.py) defines
  TITLE, RULE, ASSUMPTIONS   texts for the evidence file
  QUICK, THOROUGH            number of cases
  MIN_EVENTS                 {counter: minimum} reached by a deciding run
  def case(ctx, rng, i)      runs the real code on case `i`, observes it and
                             reports with ctx.check / ctx.fail
and optionally
  def probes(ctx)            re-runs the listed known findings
"""

import collections
import hashlib
import json
import os
import time
import traceback

import numpy as np

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))


class Violation(Exception):
  """The observed execution breaks the property."""

  def __init__(self, what, **witness):
    super().__init__(what)
    self.what = what
    self.witness = witness


class Skip(Exception):
  """The case decides nothing (counted, never a verdict)."""


def jsonable(x, limit=60):
  if isinstance(x, dict):
    return {str(k): jsonable(v, limit) for k, v in list(x.items())[:limit]}
  if isinstance(x, (list, tuple)):
    return [jsonable(v, limit) for v in list(x)[:limit]]
  if hasattr(x, 'numpy'):
    x = x.numpy()
  if isinstance(x, np.ndarray):
    if x.size > limit:
      return {'shape': list(x.shape), 'head': jsonable(x.reshape(-1)[:limit])}
    return x.tolist() if x.dtype.kind != 'f' else \
        [repr(float(v)) if not np.isfinite(v) else float(v)
         for v in x.reshape(-1)]
  if isinstance(x, np.generic):
    return jsonable(x.item())
  if isinstance(x, float) and not np.isfinite(x):
    return repr(x)
  if isinstance(x, (int, float, str, bool)) or x is None:
    return x
  return repr(x)[:200]


class Ctx:
  """Collects what the monitors of one worker observe."""

  def __init__(self, prop, seed, tier):
    self.prop, self.seed, self.tier = prop, seed, tier
    self.counts = collections.Counter()
    self.sigs = set()
    self.samples = []
    self.violations = []
    self.errors = []
    self.cur = None
    self.desc = {}

  # ---- observation -------------------------------------------------------
  def count(self, name, n=1):
    self.counts[name] += int(n)

  def describe(self, **kw):
    self.desc.update(kw)

  def sig(self, *parts):
    """Registers the abstract shape of a non-trivial case."""
    h = hashlib.sha1(repr(jsonable(parts)).encode()).hexdigest()[:16]
    self.sigs.add(h)

  # ---- verdicts ----------------------------------------------------------
  def fail(self, what, **witness):
    raise Violation(what, **witness)

  def check(self, ok, what, **witness):
    self.counts['assertions'] += 1
    if not ok:
      raise Violation(what, **witness)

  def same_shape(self, got, want, what):
    got = np.asarray(got)
    self.check(tuple(got.shape) == tuple(want),
               f'{what}: shape {tuple(got.shape)} instead of {tuple(want)}')
    return got

  def equal(self, got, want, what, **w):
    """Exact equality of arrays (same shape)."""
    want = np.asarray(want)
    got = self.same_shape(got, want.shape, what)
    ok = np.array_equal(got, want)
    if not ok:
      bad = np.argwhere(~(got == want))[:3].tolist()
      self.fail(f'{what}: differs at {bad}', got=got, want=want, **w)
    self.counts['assertions'] += 1

  def close(self, got, want, tol, what, **w):
    """|got - want| <= tol elementwise, NaN never accepted."""
    want = np.asarray(want, dtype=np.float64)
    got = self.same_shape(got, want.shape, what).astype(np.float64)
    tol = np.broadcast_to(np.asarray(tol, np.float64), want.shape)
    with np.errstate(invalid='ignore'):
      ok = (np.abs(got - want) <= tol) | (got == want)
    self.counts['assertions'] += 1
    self.counts['values_compared'] += int(want.size)
    if not ok.all():
      idx = np.argwhere(~ok)
      j = tuple(idx[0])
      self.fail(f'{what}: {len(idx)} of {want.size} values differ, first at '
                f'{list(j)}: got {got[j]!r}, expected {want[j]!r} '
                f'(tolerance {tol[j]:.3g})', got=got, want=want, **w)

  def raises(self, types, fn, what):
    """`fn()` must be rejected with one of `types`."""
    self.counts['assertions'] += 1
    try:
      r = fn()
    except types:
      self.counts['rejections'] += 1
      return
    except Exception as e:  # pylint: disable=broad-except
      self.fail(f'{what}: rejected with {type(e).__name__} ({e}) instead of '
                f'{types}')
    self.fail(f'{what}: accepted', result=r)

  # ---- running one case --------------------------------------------------
  def run_case(self, mod, i):
    ss = np.random.SeedSequence(
        [self.seed, int(hashlib.sha1(self.prop.encode()).hexdigest()[:8], 16),
         i])
    rng = np.random.default_rng(ss)
    self.cur, self.desc = i, {}
    t0 = time.time()
    before = len(self.sigs)
    try:
      mod.case(self, rng, i)
      if os.environ.get('VF_TIMES'):   # log of the costs of the cases
        with open(os.environ['VF_TIMES'], 'a') as f:
          print(round(time.time() - t0, 2), self.prop, i, self.desc, file=f)
      self.counts['cases'] += 1
      if len(self.samples) < 2 and self.desc and len(self.sigs) > before:
        self.samples.append({'case': i, **jsonable(self.desc, 40)})
    except Skip as e:
      self.counts['skipped'] += 1
      self.counts[f'skipped: {e}'] += 1
    except Violation as v:
      self.counts['cases'] += 1
      self.violations.append(
          {'case': i, 'what': v.what, 'witness': jsonable(v.witness),
           'description': jsonable(self.desc)})
    except Exception as e:  # pylint: disable=broad-except
      tb = traceback.extract_tb(e.__traceback__)
      in_repo = [f for f in tb if os.path.realpath(f.filename).startswith(
          REPO + os.sep)]
      text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
      # operations of a traced function list the frames in their message
      traced = REPO + os.sep in str(e) or (
          '__autograph_generated_file' in text and REPO in text)
      if (in_repo or traced) and not (
          isinstance(e, AttributeError) and not in_repo):
        self.counts['cases'] += 1
        last = in_repo[-1] if in_repo else None
        self.violations.append(
            {'case': i,
             'what': f'valid use ends in {type(e).__name__}: '
                     f'{str(e)[:300]}' + (f' at {last.filename}:{last.lineno}'
                                          if last else ''),
             'witness': {'traceback': text[-3000:]},
             'description': jsonable(self.desc)})
      else:
        self.errors.append({'case': i, 'traceback': text[-3000:],
                            'description': jsonable(self.desc)})

  def result(self):
    return {'counts': dict(self.counts), 'sigs': sorted(self.sigs),
            'samples': self.samples, 'violations': self.violations,
            'errors': self.errors}


def load_findings():
  """Entries of /verif/known_findings.txt: (property, key, text)."""
  path = os.path.join(os.path.dirname(os.path.dirname(
      os.path.abspath(__file__))), 'known_findings.txt')
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('finding:'):
        # finding: property=<id> key=<key> <text>
        _, rest = line.split(':', 1)
        f = rest.split(None, 2)
        out.append((f[0].split('=')[1], f[1].split('=')[1], f[2]))
  return out
