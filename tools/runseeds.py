#!/usr/bin/env python3
"""Runs the check of each planted bug's property against it (by hand only; no check uses this).
  runseeds.py [ID...]     one line per planted bug on stdout"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip()
for id in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + id
    prop = json.load(open(d + '/meta.json'))['property']
    r = sh('git', '-C', '/repo', 'apply', d + '/patch.diff')
    try:
        t = time.time()
        r = sh('python3', 'check.py', prop, cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        good = r.returncode == 1 and any('property=' + prop in l for l in v)
        print('%-7s %s %-36s rc=%d %3.0fs %s' % ('CAUGHT' if good else 'MISSED', prop, id, r.returncode, time.time() - t, v[0] if v else r.stdout.strip().splitlines()[-1:]), flush=True)
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
