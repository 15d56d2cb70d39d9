#!/usr/bin/env python3
"""For each planted change: apply it to a scratch copy is not possible (checks read /repo), so apply
to /repo, run the check of its property, undo at once. Usage: score.py [ids...]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = '%s/seeded/%s' % (V, i)
    p = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        r = subprocess.run(['python3-vt', V + '/check.py', p], capture_output=True, text=True, timeout=900,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), cwd=V)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print('%-32s rc=%d %s' % (i, r.returncode, (v or r.stdout.strip().splitlines()[-1:] + r.stderr.strip().splitlines()[-1:])[0][:140]), flush=True)
