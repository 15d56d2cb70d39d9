#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from the specs in specs.py after confirming, in a scratch copy of
/repo, that the change compiles, passes the tests, and is told apart by its demonstration."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
import specs
PY = '/opt/venv/bin/python'
ONLY = sys.argv[1:]
S = '/tmp/ncdiff-seed'


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def one(s):
    i = s['id']
    d = '%s/%s' % (S, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    sh(['cp', '-a', '/repo', d], '/')
    dst = '%s/demo-%s' % (S, i)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    if s.get('lib', True):
        shutil.copy(HERE + '/lib.py', dst)
        for y in ('vt', 'vu', 'vi'):
            shutil.copy('%s/harness/yang/%s.yang' % (VERIF, y), dst)
    open(dst + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(dst + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(dst + '/demo.sh', 0o755)
    try:
        rc, o = sh(['bash', dst + '/demo.sh'], d)
        if rc != 0:
            return i, 'DEMO FAILS ON CLEAN TREE\n' + o[-1500:]
        for f, old, new in s['edits']:
            p = d + '/src/ncdiff/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return i, 'edit of %s matches %d times: %r' % (f, t.count(old), old[:80])
            open(p, 'w').write(t.replace(old, new))
        rc, o = sh(['bash', dst + '/demo.sh'], d)
        if rc == 0:
            return i, 'demo does not see the change'
        demo_out = o.strip().splitlines()[-1:]
        rc, o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', 'src'], d, {'PYTHONPATH': d + '/src'})
        if rc != 0:
            return i, 'TESTS CATCH IT\n' + '\n'.join(x for x in o.splitlines() if x.startswith('FAILED'))[:600]
        rc, patch = sh(['git', 'diff', '--', 'src/ncdiff'], d)
        out = VERIF + '/seeded/' + i
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dst, out, ignore=shutil.ignore_patterns('__pycache__'))
        open(out + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return i, 'ok %s' % demo_out
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    L = [s for s in specs.SPECS if not ONLY or s['id'] in ONLY]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, L):
            print('%s: %s' % r, flush=True)
    shutil.rmtree(S, ignore_errors=True)
