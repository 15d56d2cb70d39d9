"""Runs the harnesses of a contract module in parallel and aggregates their obligations."""
import importlib, multiprocessing as mp, os, sys, time, traceback, z3
from . import core


def _one(args):
    modname, i, tier, seed, deadline = args
    from . import contract
    sys.setrecursionlimit(3000)
    mod = importlib.import_module(modname)
    fn, name, f, limits = contract.HARNESSES[modname][i]
    lim = {'max_paths': 6000, 'max_time': 100 if tier == 'quick' else 900, 'solver_ms': 5000 if tier == 'quick' else 30000}
    lim.update({k: v for k, v in limits.items() if k in lim})
    lim['max_time'] = max(1, min(lim['max_time'], deadline - time.time()))
    try:
        c = core.explore(name, f, **lim)
    except BaseException as e:
        return fn, name, [], {}, {}, {'engine error %s: %s' % (type(e).__name__, traceback.format_exc()[-600:]): 1}, {}, None, (0, 0, 0.0, 0.0)
    recs, rep = [], {}
    for n, r in c.records.items():
        for x in r['failed'][:3]:
            if f.replay and x.get('inputs') is not None:
                try:
                    msg = contract.replay(f, dict(x['inputs']), x['choices'])
                except Exception as e:
                    msg = None
                    x['replay error'] = '%s: %s' % (type(e).__name__, e)
                if msg:
                    rep[n] = (msg, {'harness': name, 'inputs': x['inputs'], 'choices': x['choices']})
                    r['failed'].remove(x)
                    r['failed'].insert(0, x)
                    break
        recs.append((n, r['proved'], r['failed'], r['unknown']))
    return fn, name, recs, c.covers, getattr(f, 'covers', ()), c.unsupported, rep, f.bound, (c.paths, c.queries, c.solver_s, time.time() - c.t0)


def run(pid, tier='quick', seed=1, only=None):
    from . import contract
    modname = 'contracts.' + pid.lower()
    mod = importlib.import_module(modname)
    hs = contract.HARNESSES.get(modname, [])
    idx = [i for i, h in enumerate(hs) if only is None or only in h[1] or only in h[0]]
    deadline = time.time() + (400 if tier == 'quick' else 3000)
    jobs = [(modname, i, tier, seed, deadline) for i in idx]
    for pid2, names in getattr(mod, 'ALSO', ()):
        # contracts of callees that are assumed above: discharged in this check too
        mod2 = 'contracts.' + pid2.lower()
        importlib.import_module(mod2)
        jobs += [(mod2, i, tier, seed, deadline) for i, h in enumerate(contract.HARNESSES[mod2])
                 if (names is None or h[1] in names) and (only is None or only in h[1] or only in h[0])]
    n = min(8, len(jobs)) or 1
    if len(jobs) == 1 or os.environ.get('PYVC_SERIAL'):
        res = [_one(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(n, maxtasksperchild=1) as pool:
            res = pool.map(_one, jobs, chunksize=1)
    obs, paths, queries, solver = [], 0, 0, 0.0
    for fn, name, recs, covers, want, unsup, rep, bound, st in res:
        paths += st[0]
        queries += st[1]
        solver += st[2]
        if os.environ.get('PYVC_V'):
            print('   %s %s: %d paths, %d queries, %.1fs solver, %.1fs, unsupported %s' % (fn, name, st[0], st[1], st[2], st[3], dict(list(unsup.items())[:4])))
        for n, proved, failed, unknown in recs:
            o = {'name': '%s: %s' % (name, n), 'function': fn}
            if failed and 'inferred invariants' in failed[0]['approx']:
                # the invariants found may be too weak for this code: no verdict
                o['status'], o['detail'] = 'unknown', 'refuted under the loop invariants inferred: %s' % str(failed[0])[:300]
            elif failed:
                o['status'], o['detail'] = 'failed', failed[0]
                o['replayed'], o['case'] = rep.get(n, (None, None))
            elif unsup:
                o['status'], o['detail'] = 'unsupported', '; '.join(list(unsup)[:3])
            elif unknown:
                o['status'], o['detail'] = 'unknown', '%d queries without answer' % unknown
            else:
                o['status'], o['detail'] = 'bounded' if bound else 'proved', (bound + ', ' if bound else '') + '%d paths' % proved
            obs.append(o)
        if not recs:
            obs.append({'name': '%s: (obligations)' % name, 'function': fn, 'status': 'unsupported',
                        'detail': 'no obligation reached; ' + '; '.join(list(unsup)[:3])})
        for w in want:
            if not covers.get(w):
                obs.append({'name': '%s: reachable: %s' % (name, w), 'function': fn, 'status': 'unsupported',
                            'detail': 'never reached (vacuity guard)'})
    return obs, {'backend': 'pyvc (symbolic execution of the real source) + z3 %s' % z3.get_version_string(),
                 'solver_s': round(solver, 2), 'paths': paths, 'queries': queries}


def replay(pid, d):
    """re-run the obligation named in a replay file"""
    case = d.get('case')
    if case:
        from . import contract
        mod = importlib.import_module('contracts.' + pid.lower())
        for p2, _ in getattr(mod, 'ALSO', ()):
            importlib.import_module('contracts.' + p2.lower())
        for fn, name, f, _ in [h for k in ('contracts.' + x.lower() for x in [pid] + [q for q, _ in getattr(mod, 'ALSO', ())]) for h in contract.HARNESSES[k]]:
            if name == case['harness'] and f.replay:
                return contract.replay(f, dict(case['inputs']), case['choices'])
    obs, _ = run(pid)
    names = [f['name'] for f in d.get('failed', [])] or [d.get('obligation')]
    for o in obs:
        if o['name'] in names and o['status'] == 'failed':
            return 'obligation %s of %s still fails: %s' % (o['name'], o['function'], str(o['detail'])[:400])
    return None


if __name__ == '__main__':
    obs, st = run(sys.argv[1], 'quick', 1, sys.argv[2] if len(sys.argv) > 2 else None)
    for o in obs:
        print('%-11s %-70s %s' % (o['status'], o['function'] + ' :: ' + o['name'], str(o['detail'])[:int(os.environ.get('W', 160))]))
    print(st)
