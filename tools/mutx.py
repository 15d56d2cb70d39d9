"""mutx.py PID FILTER FILE OLD NEW: obligations that fail with the text replaced in /repo (undone afterwards)"""
import subprocess, sys
pid, flt, f, old, new = sys.argv[1:6]
p = '/repo/src/ncdiff/' + f
s = open(p).read()
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
assert s.count(old) >= 1, 'text not found'
n = int(sys.argv[6]) if len(sys.argv) > 6 else 0
parts = s.split(old)
try:
    open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
    out = subprocess.run(['python3-vt', '-m', 'pyvc.runner', pid, flt], capture_output=True, text=True, cwd='/verif').stdout
    bad = [l[:170] for l in out.splitlines() if l.startswith('failed')]
    und = [l[:170] for l in out.splitlines() if l.startswith(('unsup', 'unknown'))]
    print('FAILED %d UNDECIDED %d' % (len(bad), len(und)))
    print('\n'.join((bad + und)[:4]))
finally:
    open(p, 'w').write(s)
