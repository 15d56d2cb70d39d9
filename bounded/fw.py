"""Framework of the bounded stand-ins: a property module provides

  cases(tier, rng)  -> iterator of JSON-serialisable cases (systematic ones first)
  check(case)       -> None, or a string describing how the property fails
  BOUND             -> text stating the bound

Failures are replayable: `python3-vt check.py <id> --replay FILE`.
"""
import time, traceback
from harness import base


class Fail(Exception):
    pass


def run(mod, tier, seed, budget, stop_after=1, known=None):
    import random
    rng = random.Random(seed * 7919 + 17)
    t0 = time.time()
    n, fails, knowns = 0, [], []
    for case in mod.cases(tier, rng):
        n += 1
        msg = guarded(mod, case)
        if msg:
            k = known(case, msg) if known else None
            if k:
                knowns.append(k)
            else:
                fails.append((case, msg))
                if len(fails) >= stop_after:
                    break
        if time.time() - t0 > budget:
            break
    return {'cases': n, 'fails': fails, 'knowns': knowns, 'wall': time.time() - t0}


def guarded(mod, case):
    try:
        if mod.__name__[-3:] in ('c01', 'c02', 'c03', 'c04', 'c05', 'c07', 'c17'):
            base.need_valid(*[case[k] for k in ('a', 'b', 'c') if isinstance(case.get(k), str) and case[k][:1] == '<'])
        return mod.check(case)
    except base.Skip:
        return None
    except Fail as e:
        return str(e)
    except Exception as e:                     # an unexpected exception is itself a failure of the property
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
