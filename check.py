#!/usr/bin/env python3
"""Check of one property:  python3-vt check.py C01 [--tier quick|thorough] [--replay FILE]

1. contracts/<id>.py: obligations generated from /repo's current source by pyvc (symbolic execution of the
   real functions against contracts) and discharged by z3.
2. bounded/<id>.py: the bounded stand-in for the functions outside pyvc's reach, run on the real code; it
   is also the search for a concrete failing input when an obligation fails.
Exit 0: held. Exit 1 + "VIOLATION property=<id> replay=<path>": broken. Exit 2: the check itself failed.
"""
import argparse, importlib, json, multiprocessing as mp, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)


def optional(name):
    try:
        return importlib.import_module(name)
    except ModuleNotFoundError as e:
        if e.name == name:
            return None
        raise


# ------------------------------------------------------------------ bounded stand-in
def _bounded_worker(args):
    pid, tier, seed, k, n, budget = args
    import random
    from bounded import fw
    mod = importlib.import_module('bounded.' + pid.lower())
    rng = random.Random(seed * 7919 + 17)
    t0 = time.time()
    i = cnt = 0
    fails, seen, samples = [], set(), []
    complete = True
    for case in mod.cases(tier, rng):
        i += 1
        if (i - 1) % n != k:
            continue
        cnt += 1
        seen.add(hash(json.dumps(case, sort_keys=True, default=str)))
        if k == 0 and len(samples) < 3:
            samples.append(json.loads(json.dumps(case, default=str)))
        msg = fw.guarded(mod, case)
        if msg:
            fails.append((case, msg))
            break
        if time.time() - t0 > budget:
            complete = False
            break
    return cnt, fails, complete, seen, samples


def run_bounded(pid, tier, seed, budget):
    n = min(8, os.cpu_count() or 1)
    with mp.get_context('fork').Pool(n) as pool:
        res = pool.map(_bounded_worker, [(pid, tier, seed, k, n, budget) for k in range(n)], chunksize=1)
    fails = [f for r in res for f in r[1]]
    fails.sort(key=lambda f: len(json.dumps(f[0])))
    return {'cases': sum(r[0] for r in res), 'distinct': len(set().union(*[r[3] for r in res])), 'samples': res[0][4], 'fails': fails, 'complete': all(r[2] for r in res)}


def write_replay(pid, kind, payload):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, kind))
    with open(p, 'w') as f:
        json.dump(payload, f, indent=1, default=str)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--no-bounded', action='store_true')
    ap.add_argument('--no-contracts', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    known = json.load(open('known_findings.json'))
    bmod = optional('bounded.' + pid.lower())
    if a.replay:
        return replay(pid, a.replay)
    viol, lines, ob = [], [], []
    for k in known['known']:
        if k['property'] == pid:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # ---- contracts
    cmod = None if a.no_contracts else optional('contracts.' + pid.lower())
    stats = {}
    if cmod is not None:
        from pyvc import runner
        ob, stats = runner.run(pid, a.tier, a.seed)
        if not ob:
            print('check error: %s generated no obligations' % pid)
            return 2
        bad = [o for o in ob if o['status'] == 'vacuous']
        if bad:
            print('check error: vacuous obligations: ' + ', '.join(o['name'] for o in bad))
            return 2
    failed = [o for o in ob if o['status'] == 'failed']
    # ---- bounded stand-in
    b = None
    if bmod is not None and not a.no_bounded:
        b = run_bounded(pid, a.tier, a.seed, 120 if a.tier == 'quick' else 7200)
        if b['cases'] == 0:
            print('check error: bounded stand-in explored no case')
            return 2
        if b['fails']:
            case, msg = b['fails'][0]
            p = write_replay(pid, 'input', {'property': pid, 'case': case, 'failure': msg,
                                            'obligations': [o['name'] for o in failed]})
            viol.append('VIOLATION property=%s replay=%s' % (pid, p))
            lines += ['failing input: ' + msg.splitlines()[0][:300]]
    for o in failed:
        lines.append('FAILED obligation %s of %s: %s' % (o['name'], o['function'], str(o.get('detail', ''))[:400]))
    if failed and not viol:
        found = None
        for o in failed:                                  # counterexamples replayed by the contract itself
            if o.get('replayed'):
                found = o
                break
        if found:
            p = write_replay(pid, 'input', {'property': pid, 'obligation': found['name'], 'case': found.get('case'),
                                            'failure': found['replayed'], 'verifier': found.get('detail')})
            viol.append('VIOLATION property=%s replay=%s' % (pid, p))
        else:
            wide = None
            if bmod is not None and not a.no_bounded and a.tier == 'quick':
                wide = run_bounded(pid, 'thorough', a.seed, 150)
            if wide and wide['fails']:
                case, msg = wide['fails'][0]
                p = write_replay(pid, 'input', {'property': pid, 'case': case, 'failure': msg,
                                                'obligations': [o['name'] for o in failed]})
                viol.append('VIOLATION property=%s replay=%s' % (pid, p))
                lines.append('failing input: ' + msg.splitlines()[0][:300])
            else:
                p = write_replay(pid, 'obligation', {'property': pid, 'failed': failed})
                viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    # ---- evidence
    proved = [o for o in ob if o['status'] == 'proved']
    bnd = [o for o in ob if o['status'] == 'bounded']
    other = [o for o in ob if o['status'] not in ('proved', 'failed', 'bounded')]
    from contracts import notes
    note, level = notes.N[pid], notes.level(pid)
    cov = {'obligations': len(ob) - len(bnd), 'discharged': len(proved),
           'checker_cmd': 'python3-vt check.py %s --tier %s --seed %d' % (pid, a.tier, a.seed),
           'functions_under_contract': sorted({o['function'] for o in ob}),
           'obligations_by_function': {f: {s: len([o for o in ob if o['function'] == f and o['status'] == s])
                                           for s in sorted({o['status'] for o in ob if o['function'] == f})}
                                       for f in sorted({o['function'] for o in ob})},
           'bounded_obligations': [{'name': o['name'], 'bound': str(o.get('detail', ''))[:200]} for o in bnd],
           'undecided': [{'name': o['name'], 'why': str(o.get('detail', ''))[:300]} for o in other],
           'back_end': stats.get('backend', {}), 'solver_s': stats.get('solver_s', 0),
           'paths': stats.get('paths', 0), 'queries': stats.get('queries', 0),
           'trusted_base': notes.ENGINE + note['assume'], 'proof_scope': note['scope']}
    if b is not None:
        cov['bounded'] = {'label': 'bounded stand-in, never counted as proved', 'bound': bmod.BOUND, 'complete': b['complete'],
                          'for': note['bounded']}
        cov['evaluations'] = b['cases']
        cov['distinct_nontrivial'] = b['distinct']
        cov['rule'] = 'generated by bounded/%s.py (%s); every case is judged against the oracle; distinct by content' % (pid.lower(), bmod.BOUND)
        cov['samples'] = b['samples']
    ev = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': level, 'coverage': cov,
          'assumptions': notes.ENGINE + note['assume'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs('evidence', exist_ok=True)
    with open('evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v:
        for o in ob:
            print('%-9s %-60s %s' % (o['status'], o['function'] + ' :: ' + o['name'], str(o.get('detail', ''))[:200]))
    print('%s: %d/%d obligations discharged over %d functions (%d bounded, %d undecided), %s bounded cases, %.1fs' % (
        pid, len(proved), len(ob), len({o['function'] for o in ob}), len(bnd), len(other), b['cases'] if b else 0, time.time() - t0))
    for l in lines + viol:
        print(l)
    return 1 if viol else 0


def replay(pid, path):
    from bounded import fw
    d = json.load(open(path))
    if d.get('case') is not None and 'obligation' not in d:
        msg = fw.guarded(importlib.import_module('bounded.' + pid.lower()), d['case'])
    else:
        from pyvc import runner
        msg = runner.replay(pid, d)
    print('replay: ' + (msg or 'the property holds on this input'))
    if msg:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if msg else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
