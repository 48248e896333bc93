"""Runs the check of one property: workers, verdict, evidence, replays."""

import argparse
import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--cases', type=int)
  ap.add_argument('--replay')
  ap.add_argument('--jobs', type=int, default=8)
  a = ap.parse_args()
  prop = a.prop
  t0 = time.time()
  tier = os.environ['VERIF_TIER']
  extra = []
  if a.replay:
    rep = json.load(open(a.replay))
    os.environ['VERIF_SEED'] = str(rep['seed'])
    os.environ['VERIF_TIER'] = tier = rep['tier']
    extra = [str(rep['case'])]
  seed = int(os.environ['VERIF_SEED'])
  from vf import meta, core
  info = meta.META[prop]
  total = a.cases or info[tier]
  budget = info.get('budget', {}).get(tier, 240 if tier == 'quick' else 780)
  jobs = 1 if a.replay else min(a.jobs, total)
  work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
  outs, procs, logs = [], [], []
  rc_bad = []
  try:
    os.environ['TMPDIR'] = work
    os.environ['VF_WORK'] = work
    if info.get('prepare'):
      m, f = info['prepare'].split(':')
      getattr(importlib.import_module(m), f)(work)
    for j in range(jobs):
      out = os.path.join(work, 'out%d.json' % j)
      log = open(os.path.join(work, 'log%d' % j), 'w')
      cmd = [sys.executable, '-m', 'vf.worker', prop, out, str(j), str(jobs),
             str(total), str(budget)] + extra
      procs.append(subprocess.Popen(cmd, stdout=log, stderr=log, cwd=ROOT))
      outs.append(out)
      logs.append(log.name)
    deadline = time.time() + budget + 60
    for j, p in enumerate(procs):
      try:
        rc = p.wait(timeout=max(1, deadline - time.time()))
      except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = 'watchdog'
      if rc != 0:
        rc_bad.append((j, rc))
    res = []
    for o in outs:
      if os.path.exists(o):
        res.append(json.load(open(o)))
    counts = collections.Counter()
    sigs, samples, viol, errs = set(), [], [], []
    for r in res:
      counts.update(r['counts'])
      sigs.update(r['sigs'])
      samples += r['samples']
      viol += r['violations']
      errs += r['errors']
    tails = {}
    for j, rc in rc_bad:
      tails[j] = (rc, open(logs[j], errors='replace').read()[-2500:])
  finally:
    shutil.rmtree(work, ignore_errors=True)

  # ---- known findings -----------------------------------------------------
  findings = {(k): t for p, k, t in core.load_findings() if p == prop}
  known = collections.Counter()
  rest = []
  for v in viol:
    key = (v.get('witness') or {}).get('finding')
    if key in findings:
      known[key] += 1
    else:
      rest.append(v)
  viol = rest
  for k in sorted(known):
    print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, findings[k]))

  # ---- verdict --------------------------------------------------------------
  problems = []
  if errs:
    problems.append('harness error: ' + errs[0]['traceback'])
  for j, (rc, tail) in tails.items():
    # a crash of the interpreter under the code being tested
    problems.append('worker %d ended with %s\n%s' % (j, rc, tail))
  if not a.replay and not a.cases:
    for name, least in info.get('min_events', {}).items():
      if counts[name] < least:
        problems.append('only %d %s observed, %d needed'
                        % (counts[name], name, least))
    if counts['cases'] < 0.5 * total:
      problems.append('only %d of %d cases ran' % (counts['cases'], total))
  wall = time.time() - t0
  if not a.replay:
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': info.get('level', 'exploration'),
        'coverage': {
            'evaluations': int(counts['cases']),
            'distinct_nontrivial': len(sigs),
            'rule': info['rule'],
            'samples': samples[:6],
            'observed': {k: int(v) for k, v in sorted(counts.items())},
            'known_findings_seen': dict(known),
            'inconclusive': problems,
        },
        'assumptions': info.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(viol)}
    path = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
      json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)
  print('%s %s seed=%d: %d cases, %d distinct, %d violations, %.1f s; %s'
        % (prop, tier, seed, counts['cases'], len(sigs), len(viol), wall,
           ', '.join('%s=%d' % kv for kv in sorted(counts.items()))))
  if viol:
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    for v in sorted(viol, key=lambda v: v['case'])[:5]:
      path = os.path.join(ROOT, 'replays', '%s-s%d-c%d.json'
                          % (prop, seed, v['case']))
      with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'tier': tier, **v,
                   'rerun': 'bin/check %s --replay %s' % (prop, path)}, f,
                  indent=1)
      print('  case %d: %s' % (v['case'], v['what']))
      print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.exit(1)
  if problems:
    for p in problems[:5]:
      print('INCONCLUSIVE:', p)
    sys.exit(2)
  sys.exit(0)


if __name__ == '__main__':
  main()
