"""C10: identityref and instance-identifier values."""
import itertools, random
from harness.base import *
BOUND = 'generated instance-identifiers (<= 4 steps, <= 3 predicates, literals with quotes/slashes/brackets/escapes, positional and leaf-list predicates) and identities x all prefix declarations on both nodes'
NSMAPS = [{'vt': 'urn:vt', 'vu': 'urn:vu'}, {'a': 'urn:vt', 'b': 'urn:vu'}, {'vt': 'urn:vu', 'vu': 'urn:vt'}, {None: 'urn:vt', 'vu': 'urn:vu'},
          {None: 'urn:vu', 'vt': 'urn:vt'}, {None: 'urn:vt', 'vt': 'urn:vt', 'b': 'urn:vu'}, {'vt': 'urn:vt'}, {'x': 'urn:vt', 'y': 'urn:vt', 'vu': 'urn:vu'}, {}]
U = ['urn:vt', 'urn:vu']
IDS = [('urn:vt', 'id-one'), ('urn:vt', 'id-two'), ('urn:vu', 'id-three'), ('urn:vu', 'id-one')]
LITS = ['x', '', "it's", 'say "hi"', 'a/b', 'a[1]=b', "vt:a='b'", 'x y', '.', "''", "'", '"', 'a=b', "]['", '//', "mixed ' and \" both"]


def spell_id(rng, url, name, nsm, force=None):
    """All spellings of an identity in the scope of nsm (module names are accepted as prefixes too)."""
    out = [p + ':' + name for p, u in nsm.items() if p and u == url]
    if nsm.get(None) == url:
        out.append(name)
    mod = {'urn:vt': 'vt', 'urn:vu': 'vu'}[url]
    if mod not in nsm:
        out.append(mod + ':' + name)
    return out


def quote(rng, v):
    out = ["'" + v.replace("'", "''") + "'", '"' + v.replace('"', '""') + '"']
    return rng.choice(out)


def gen_path(rng):
    steps = []
    for i in range(rng.randint(1, 4)):
        preds = []
        k = rng.random()
        if k < .4:
            for _ in range(rng.randint(1, 3)):
                preds.append(('key', (rng.choice(U), rng.choice(['name', 'k1', 'k-2'])), rng.choice(LITS)))
        elif k < .5:
            preds.append(('pos', str(rng.randint(1, 20))))
        elif k < .6:
            preds.append(('val', rng.choice(LITS)))
        steps.append(((rng.choice(U), rng.choice(['top', 'lst', 'in', 'a-b', 'np', 'x.y'])), preds))
    return steps


def spell_path(rng, steps, nsm):
    """one spelling, or None if a namespace has no prefix there"""
    def pfx(u):
        c = [p for p, x in nsm.items() if p and x == u]
        mod = {'urn:vt': 'vt', 'urn:vu': 'vu'}[u]
        if mod not in nsm:
            c.append(mod)
        return rng.choice(c) if c else None
    o, cur = '', None
    for (u, n), preds in steps:
        p = pfx(u)
        if p is None:
            return None
        if cur == u and rng.random() < .4:
            o += '/' + n
        else:
            o += '/%s:%s' % (p, n)
        cur = u
        for q in preds:
            if q[0] == 'pos':
                o += '[%s]' % q[1]
            elif q[0] == 'val':
                o += '[.=%s]' % quote(rng, q[1])
            else:
                k = pfx(q[1][0])
                if k is None:
                    return None
                o += '[%s:%s=%s]' % (k, q[1][1], quote(rng, q[2]))
    return o


def mutate_path(rng, steps):
    s = [(x, list(p)) for x, p in steps]
    i = rng.randrange(len(s))
    k = rng.random()
    (u, n), preds = s[i]
    if k < .3:
        s[i] = ((U[1 - U.index(u)], n), preds)
    elif k < .5:
        s[i] = ((u, n + 'x'), preds)
    elif preds:
        j = rng.randrange(len(preds))
        q = preds[j]
        if q[0] == 'pos':
            preds[j] = ('pos', q[1] + '1')
        elif q[0] == 'val':
            preds[j] = ('val', q[1] + rng.choice(['', 'z', "'", '"']))
        else:
            preds[j] = rng.choice([('key', q[1], q[2] + 'z'), ('key', (U[1 - U.index(q[1][0])], q[1][1]), q[2]), ('key', q[1], q[2] + "'")])
    else:
        s.append(((u, 'more'), []))
    return s


def cases(tier, rng):
    for (a, na), (b, nb) in itertools.product(itertools.product(IDS, range(len(NSMAPS))), repeat=2):
        yield {'k': 'id', 'x': a, 'y': b, 'nx': na, 'ny': nb, 'seed': 0}
    for bad in ('zz:id-one', 'id-one'):
        yield {'k': 'badid', 'v': bad}
    for bad in ('/zz:top', "/vt:top[vt:a='x", '/vt:top[', 'top', '/top/vt:a', "/vt:top[zz:a='x']", "/vt:top[vt:a=x]"):
        yield {'k': 'badinst', 'v': bad}
    for i in range(15000 if tier == 'quick' else 60000):
        yield {'k': 'inst', 'seed': rng.randrange(10 ** 9)}
    for i in range(500 if tier == 'quick' else 1000):
        yield {'k': 'plain', 'seed': rng.randrange(10 ** 9)}


def node(tag, nsm, text):
    e = etree.Element(CONFIG, nsmap={'nc': NC})
    t = etree.SubElement(e, '{urn:vt}top', nsmap={'q': 'urn:vt'} if 'urn:vt' not in nsm.values() else nsm)
    if not set(nsm) <= set(t.nsmap):
        t = etree.SubElement(e, '{urn:vt}top', nsmap=dict(nsm, q='urn:vt'))
    n = etree.SubElement(t, tag)
    n.text = text
    return n


def calc(m, a, b):
    from ncdiff.calculator import BaseCalculator
    return BaseCalculator(m, a, b)


def scopes(nsm, n):
    """prefixes really in scope of the node built"""
    return {p: u for p, u in n.nsmap.items()}


def check(case):
    from ncdiff.errors import ConfigError
    m = device()
    sn = schema().roots['{urn:vt}top']
    k = case['k']
    rng = random.Random(case.get('seed', 0))
    if k == 'id':
        tag, s = '{urn:vt}ref', sn.kids['{urn:vt}ref']
        a0, b0 = node(tag, NSMAPS[case['nx']], None), node(tag, NSMAPS[case['ny']], None)
        xs = spell_id(rng, *case['x'], scopes(None, a0))
        ys = spell_id(rng, *case['y'], scopes(None, b0))
        for x, y in itertools.product(xs, ys):
            a, b = node(tag, NSMAPS[case['nx']], x), node(tag, NSMAPS[case['ny']], y)
            same = tuple(case['x']) == tuple(case['y'])
            for got in (calc(m, a, b)._same_text(a, b), calc(m, b, a)._same_text(b, a)):
                if got is not same:
                    return 'identityref %r (%s) and %r (%s) compare %r' % (x, a.nsmap, y, b.nsmap, got)
            r = move(m, a, b, s, list(case['x']))
            if r:
                return r
        return None
    if k in ('badid', 'badinst'):
        tag = '{urn:vt}ref' if k == 'badid' else '{urn:vt}inst'
        a = node(tag, {'vt': 'urn:vt'}, case['v'])
        b = node(tag, {'vt': 'urn:vt'}, 'vt:id-one' if k == 'badid' else '/vt:top')
        for f in (lambda: calc(m, a, b)._same_text(a, b), lambda: calc(m, a, b)._merge_text(a, b)):
            try:
                r = f()
            except ConfigError:
                continue
            return '%r did not raise a config error: %r' % (case['v'], r)
        return None
    if k == 'inst':
        tag, s = '{urn:vt}inst', sn.kids['{urn:vt}inst']
        p = gen_path(rng)
        q = mutate_path(rng, p) if rng.random() < .5 else p
        na, nb = rng.choice(NSMAPS), rng.choice(NSMAPS)
        x, y = spell_path(rng, p, scopes(None, node(tag, na, None))), spell_path(rng, q, scopes(None, node(tag, nb, None)))
        if x is None or y is None:
            return None
        a, b = node(tag, na, x), node(tag, nb, y)
        same = canon(s, x, a.nsmap) == canon(s, y, b.nsmap)
        for got in (calc(m, a, b)._same_text(a, b), calc(m, b, a)._same_text(b, a)):
            if got is not same:
                return 'instance-identifier %s and %s compare %r (%s / %s)' % (x, y, got, a.nsmap, b.nsmap)
        return move(m, a, b, s, None)
    # ordinary values
    tag = '{urn:vt}a'
    vals = [None, '', 'p', 'vt:p', 'vu:p', "/vt:top", ' p', 'P', 'p ', "'p'"]
    x, y = rng.choice(vals), rng.choice(vals)
    a, b = node(tag, rng.choice(NSMAPS), x), node(tag, rng.choice(NSMAPS), y)
    if (x or None) == (y or None):
        same = True
    else:
        same = x == y
    if (x or None) != (y or None) and calc(m, a, b)._same_text(a, b) is not False or x == y and calc(m, a, b)._same_text(a, b) is not True:
        return 'plain values %r and %r compare %r' % (x, y, calc(m, a, b)._same_text(a, b))
    calc(m, a, b)._merge_text(a, b)
    if (b.text or None) != (x or None):
        return 'plain value %r moved as %r' % (x, b.text)
    return None


def move(m, a, b, s, _):
    from ncdiff.errors import ConfigError
    want = canon(s, a.text, a.nsmap)
    urls = {w[1] for w in want[1:] if isinstance(w, tuple) and w[0] == 'q'} if want[0] == 'inst' else {want[1]}
    have = {u for p, u in b.nsmap.items() if p is not None or want[0] == 'id'}
    t = etree.Element(b.tag)
    before = b.text
    src = a.text
    try:
        calc(m, a, b)._merge_text(a, b)
    except ConfigError:
        b.text = before
        if urls <= have:
            return 'moving %s to a node with prefixes %s raised' % (src, b.nsmap)
        return None
    got = canon(s, b.text, {p: u for p, u in b.nsmap.items()})
    txt, b.text = b.text, before
    if a.text != src:
        return 'moving modified the source'
    if not urls <= have:
        return 'moving %s to a node with prefixes %s gave %s instead of an error' % (src, b.nsmap, txt)
    # the rewritten value must use the target's own prefixes, not module names
    if got != want:
        return 'moving %s gave %s, which denotes something else' % (src, txt)
    import re as _re
    used = set(_re.findall(r'''(?:^|[/\[])([A-Za-z_.][-\w.]*):''', _re.sub(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"", "''", txt)))
    if not used <= {p for p in b.nsmap if p}:
        return 'moving %s gave %s with prefixes outside the target %s' % (src, txt, b.nsmap)
    return None
