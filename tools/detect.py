#!/usr/bin/env python3
"""Runs the check of a planted bug's property (or those given with --with C01,C02) with the bug applied. No check uses this."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w = [a.split('=')[1].split(',') for a in sys.argv if a.startswith('--with=')]
for sid in [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(V + '/seeded')):
    d = f'{V}/seeded/{sid}'
    prop = json.load(open(d + '/meta.json'))['property']
    for p in (w[0] if w else [prop]):
        assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], stdout=subprocess.PIPE, text=True).stdout
        subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
        t = time.time()
        try:
            r = subprocess.run(['python3', 'bin/check.py', p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + p)]
        print('CAUGHT' if r.returncode == 1 and v else 'MISSED', sid, p, 'exit', r.returncode, f'{time.time() - t:.0f}s', v[:1], '' if r.returncode in (0, 1) else r.stdout[-500:], flush=True)
