"""C07: filtering."""
import itertools
from harness.base import *
from bounded.c01 import wrap, sn_of
BOUND = 'random configs x a grammar of node-set, attribute, text and scalar expressions (axes, unions, predicates, nested matches)'
NAMES = ['vt:top', 'vt:a', 'vt:lst', 'vt:v', 'vt:np', 'vt:name', 'vt:in', 'vt:k1', 'vt:usr', 'vt:ulst', 'vt:uin', 'vt:deep', 'vt:sys', 'pu:aug', 'pu:np', 'pu:utop', 'vt:two', 'vt:rootll', 'vt:c', 'vt:pres', 'vt:idk', 'vt:t', 'pu:l', 'vt:mlst', 'vt:opt']


def exprs(rng, n):
    fixed = ['/nc:config', '//*', '/nc:config/*', '//vt:nosuch', '//vt:lst', '//vt:lst/vt:v', '//vt:name', "//vt:lst[vt:name='p']", '//vt:np', '//vt:np/vt:deep | //vt:a',
             '//vt:lst | //vt:v', '//vt:in/vt:v', '//vt:uin', '//vt:a/text()', 'count(//*)', 'string(//vt:a)', 'true()', '//vt:top', '//vt:top/vt:lst[1]', '//vt:top/*[last()]', '//vt:k2',
             '//vt:lst[1]/vt:in[1]', '/nc:config/vt:top/vt:np | /nc:config/vt:top', '//vt:lst/*', '//pu:*', '//vt:usr[. = "q"]', '//vt:v/..', '//vt:v/ancestor::*', '/nc:config/vt:two',
             '//vt:a/@x', '//vt:lst[vt:in]', '//vt:lst[not(vt:in)]/vt:name', '//vt:mlst/vt:opt', '//vt:mlst', '//vt:mand']
    for f in fixed:
        yield f
    for _ in range(n):
        parts = ['//' + rng.choice(NAMES) + rng.choice(['', '', '[1]', '[last()]', '[position()>1]', '/*', '[*]', "[.='p']", "[*='q']", '/..']) for _ in range(rng.choice([1, 1, 2, 3]))]
        yield ' | '.join(parts)


def cases(tier, rng):
    g = Gen(rng, p=.5, maxn=3, vals=STR[:3], ns_variants=True)
    docs = [g.config() for _ in range(50 if tier == 'quick' else 300)] + [wrap('')]
    for d in docs:
        for x in exprs(rng, 80 if tier == 'quick' else 200):
            yield {'a': d, 'x': x, 'n': rng.random() < .5}


def expected(e, hits):
    """Reference: copy of e keeping hits whole, ancestors, and keys of list entries on the way."""
    hs = set(hits)
    anc = set()
    for h in hits:
        anc.update(h.iterancestors())

    def rec(n):
        if n in hs:
            return exact0(n)
        kids = []
        s = sn_of(n) if n is not e else None
        for c in n:
            if c in hs or c in anc:
                kids.append(rec(c))
            elif s is not None and s.kw == 'list' and c.tag in s.key_tags():
                kids.append(exact0(c))
        return (n.tag, n.text, tuple(kids))
    return rec(e)


def exact0(n):
    return (n.tag, n.text, tuple(exact0(c) for c in n))


def check(case):
    m = device()
    A = Config(m, case['a'])
    ns = {i[1]: i[2] for i in m.namespaces}
    ns['nc'] = NC
    raw = exact(A.ele)
    try:
        res = A.ele.xpath(case['x'], namespaces=ns)
    except etree.XPathError:
        return None
    F = A.filter(case['x'], namespaces=ns) if case.get('n') or 'nc:' in case['x'] else A.filter(case['x'])
    if exact(A.ele) != raw:
        return 'filter modified the config'
    if F.ele is A.ele:
        return 'filter returned the same tree'
    if not isinstance(res, list):
        return None                              # not a node-set expression
    hits = [h for h in res if etree.iselement(h)]
    if not hits:
        return None if len(F.ele) == 0 and F.ele.tag == CONFIG else 'no match, but the result is not empty:\n%s' % F
    want = expected(A.ele, hits)
    got = exact0(F.ele)
    if got != want:
        return 'filter %s:\n--- got\n%s\n--- want\n%s' % (case['x'], got, want)
    if not F <= A:
        return 'filter result is not included in the original'
    return None
