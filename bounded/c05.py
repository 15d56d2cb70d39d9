"""C05: operands are never modified and never shared with results."""
import itertools, operator
from harness.base import *
from bounded.c01 import wrap, small_bodies, idr_family, mutate, OPTS, TYPES
from bounded.c02 import sprinkle
BOUND = 'random operands (valid and failing edits), every public operation and option, exact before/after comparison and result mutation'
OTHER = [dict(diff_type='minimum-replace', replace_depth=1), dict(diff_type='minimum-replace', replace_depth=0),
         dict(diff_type='minimum-replace', replace_xpath='/nc:config/vt:top'), dict(random_depth=0), dict(random_depth=1), dict(random_depth=2)]
XP = ["/nc:config/vt:top/vt:a", "//vt:lst[vt:name='p']", '//vt:v', '/nc:config', '//vt:usr', '//nosuch', 'count(//vt:a)', '//vt:np/vt:deep', '//vt:lst/vt:v | //vt:top/vt:a']


def cases(tier, rng):
    fams = [[wrap(b) for b in f] for f in small_bodies()] + [idr_family()]
    allb = [x for f in fams for x in f]
    opts = [dict(o, **t) for o in OPTS for t in TYPES] + OTHER
    i = 0
    for f in fams:
        for a, b in itertools.permutations(f[:7], 2):
            i += 1
            yield {'a': a, 'b': b, 'e': f[(i * 5) % len(f)], 'opts': opts[(i * 7) % len(opts)], 'x': XP[i % len(XP)]}
    g = Gen(rng, p=.4, vals=STR[:3])
    for n in range(700 if tier == 'quick' else 6000):
        g.skip = {'inst'} if n % 2 else set()
        a = g.config()
        b = mutate(a, rng) if n % 2 else g.config()
        e = etree.fromstring(g.config() if n % 3 else mutate(a, rng))
        sprinkle(e, rng)
        if n % 5 == 0:
            for x in e.iter():
                if x.tag in ('{urn:vt}usr', '{urn:vt}ulst') and rng.random() < .5:
                    x.set(INS, rng.choice(['first', 'after', 'before']))
        yield {'a': a, 'b': b, 'e': ser(e), 'opts': opts[n % len(opts)], 'x': XP[n % len(XP)]}


def poke(e):
    for x in list(e.iter()):
        if not isinstance(x.tag, str):
            continue
        x.text = 'POKED'
        x.set('poked', '1')
    for x in list(e):
        e.remove(x)


def comments(e, n):
    """comments and processing instructions among the nodes"""
    for i, x in enumerate(list(e.iter())):
        if (i + n) % 3 == 0 and x.getparent() is not None:
            y = etree.Comment('note') if (i + n) % 2 else etree.ProcessingInstruction('pi', 'x')
            (x.addprevious if n % 4 else x.addnext)(y)
            if not len(x) and not (i % 5):
                x.append(etree.Comment('inside'))


def check(case):
    m = device()
    A, B = Config(m, case['a']), Config(m, case['b'])
    e = etree.fromstring(case['e'])
    src = etree.fromstring(case['b'])
    if len(case['e']) % 2:
        comments(e, len(case['a']))
        comments(src, len(case['b']))
    watch = {'A': A.ele, 'B': B.ele, 'edit element': e, 'source element': src}
    before = {k: exact(v) for k, v in watch.items()}
    ids = {k: v for k, v in watch.items()}
    opts = dict(case['opts'])
    seed = opts.get('random_depth') is not None

    def delta():
        d = ConfigDelta(A, B, **opts)
        if seed:
            d.random_seed = 77
        return d
    ops = {
        'A + B': lambda: (A + B).ele, 'A + element': lambda: (A + e).ele, 'A - B': lambda: (A - B).nc, 'B - A': lambda: (B - A).nc,
        'delta.nc': lambda: delta().nc, 'str(delta)': lambda: str(delta()), '-delta': lambda: (-delta()).nc, 'bool(delta)': lambda: bool(delta()),
        'A + delta': lambda: (A + delta()).ele, 'delta + A': lambda: (delta() + A).ele, 'B - delta': lambda: (B - delta()).ele,
        'delta.ns': lambda: delta().ns, 'delta.models': lambda: delta().models, 'delta twice': lambda: [delta().nc for _ in (1, 2)][0],
        'ConfigDelta(delta=element)': lambda: ConfigDelta(A, delta=e, **opts).nc, 'ConfigDelta(delta=str)': lambda: ConfigDelta(A, delta=case['e']).nc,
        'le': lambda: A <= B, 'lt': lambda: A < B, 'ge': lambda: A >= B, 'gt': lambda: A > B, 'eq': lambda: A == B, 'ne': lambda: A != B, 'bool': lambda: bool(A),
        'filter': lambda: A.filter(case['x']).ele, 'str': lambda: str(A), 'repr': lambda: repr(A), 'xml': lambda: A.xml, 'ns': lambda: A.ns,
        'models': lambda: A.models, 'roots': lambda: A.roots, 'xpath': lambda: len(str(A.xpath(case['x']))),
        'Config(element)': lambda: Config(m, src).ele, 'extract_config': lambda: m.extract_config(src).ele,
        'Config(element, no validate)': lambda: Config(m, src, validate=False).ele,
    }
    for name, f in ops.items():
        try:
            r = f()
        except Exception:
            r = None
        for k, v in watch.items():
            if exact(v) != before[k]:
                return '%s modified %s' % (name, k)
        if A.ele is not ids['A'] or B.ele is not ids['B']:
            return '%s rebinds an operand' % name
        if etree.iselement(r):
            if any(r is v or r.getroottree().getroot() is v for v in watch.values()):
                return '%s returns an operand' % name
            poke(r)
            for k, v in watch.items():
                if exact(v) != before[k]:
                    return 'result of %s shares nodes with %s' % (name, k)
    d = delta()
    x1, x2 = ser(d.nc), ser(d.nc)
    if x1 != x2:
        return 'computing the delta twice gives different results'
    if +d is not d:
        return '+delta is not the delta'
    return None
