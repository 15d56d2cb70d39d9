"""C09: tag and namespace conversion."""
import itertools, random
from harness.base import *
BOUND = 'tables of two folders of at most 3 modules scanned in turn; all six notations on both sides x every module, special and unknown namespace x every default, on several module tables (distinct, duplicate prefix, duplicate URL)'
NCURL = NC
TABLES = {
    'plain': [('m-a', 'a', 'urn:a'), ('m-b', 'b', 'urn:b'), ('m.c', 'c.c', 'http://x.y/c')],
    'prefix-is-name': [('a', 'b', 'urn:a'), ('b', 'a', 'urn:b')],
    'dup-prefix': [('m-a', 'p', 'urn:a'), ('m-b', 'p', 'urn:b'), ('m-c', 'c', 'urn:c')],
    'dup-url': [('m-a', 'a', 'urn:a'), ('m-b', 'b', 'urn:a'), ('m-c', 'c', 'urn:c')],
    'colon-url': [('m-a', 'a', 'urn:a:b:c'), ('m-b', 'b', 'urn:a')],
}
TYPES = ['YTOOL', 'XPATH', 'LXML_XPATH', 'LXML_ETREE', 'JSON_NAME', 'JSON_PREFIX']
SPECIAL = [('nc', NC), ('yang', YN), ('tailf', 'http://tail-f.com/ns/netconf/params/1.1'), ('ncEvent', 'urn:ietf:params:xml:ns:netconf:notification:1.0')]


def cases(tier, rng):
    for t in TABLES:
        for s, d in itertools.product(TYPES, TYPES):
            yield {'k': 'tag', 't': t, 's': s, 'd': d}
        yield {'k': 'ns', 't': t}
    for i in range(6 if tier == 'quick' else 40):
        yield {'k': 'scan', 'seed': rng.randrange(10 ** 9)}
    for i in range(600 if tier == 'quick' else 5000):
        yield {'k': 'map', 'seed': rng.randrange(10 ** 9)}


def dev(table):
    m = device()
    d = type('D', (), {})()
    cls = type(m)
    n = object.__new__(cls)
    n.compiler = m.compiler
    n._namespaces = list(table)
    n.models = {}
    n.nodes = {}
    return n


def check(case):
    from ncdiff.composer import Tag
    from ncdiff.errors import ModelError
    k = case['k']
    if k == 'map':
        return check_map(case)
    if k == 'scan':
        return check_scan(case)
    table = TABLES[case['t']]
    m = dev(table)
    if k == 'ns':
        for a, b in itertools.product(range(3), range(3)):
            for v in {r[a] for r in table} | {'zz', ''}:
                hit = [r for r in table if r[a] == v]
                try:
                    got = m.convert_ns(v, src=a, dst=b)
                except ValueError:
                    if len(hit) == 1:
                        return 'convert_ns(%r, %d, %d) raised' % (v, a, b)
                    continue
                if len(hit) != 1 or got != hit[0][b]:
                    return 'convert_ns(%r, %d, %d) = %r' % (v, a, b, got)
        return None
    src, dst = getattr(Tag, case['s']), getattr(Tag, case['d'])

    def spell(ty, ns, name):
        return ('{%s}%s' % (ns, name) if ty[2] is Tag.BRACE else '%s:%s' % (ns, name)) if ns else name
    rows = [(n, p, u, False) for n, p, u in table] + [(None, p, u, True) for p, u in SPECIAL]
    sk, dk = src[0], dst[0]
    # kinds: NAME 0, PREFIX 1, NAMESPACE 2
    vals = [r for r in rows if r[sk] is not None]
    defaults = [''] + [r[sk] for r in vals]
    for name in ('x', 'a-b.c', '_q'):
        tags = [(r[sk], spell(src, r[sk], name)) for r in vals] + [('', name), ('zz', spell(src, 'zz', name))]
        for ns, tag in tags:
            for dflt in defaults:
                eff = ns or dflt
                hit = [r for r in rows if r[sk] == eff and not r[3]]
                sp = [r for r in rows if r[sk] == eff and r[3]]
                err = None
                want = None
                if ns == 'zz':
                    err = 'unknown'
                elif src[1] == Tag.NO_OMIT and not ns:
                    err = 'no namespace'
                elif dst[1] != Tag.NO_OMIT and dflt == eff:
                    want = name
                elif len(hit) > 1:
                    err = 'ambiguous'
                elif len(hit) == 1:
                    want = spell(dst, hit[0][dk], name)
                elif len(sp) == 1 and sp[0][dk] is not None and sk != 0 and dk != 0:
                    want = spell(dst, sp[0][dk], name)
                else:
                    err = 'cannot be written'
                try:
                    got = m.convert_tag(dflt, tag, src=src, dst=dst)
                except (ValueError, ModelError):
                    if err is None:
                        return 'convert_tag(%r, %r, %s, %s) raised, expected %r' % (dflt, tag, case['s'], case['d'], want)
                    continue
                if err:
                    return 'convert_tag(%r, %r, %s, %s) = %r, expected an error (%s)' % (dflt, tag, case['s'], case['d'], got, err)
                if got != (eff, want):
                    return 'convert_tag(%r, %r, %s, %s) = %r, expected %r' % (dflt, tag, case['s'], case['d'], got, (eff, want))
                # there and back
                if dst[1] == Tag.NO_OMIT and len([r for r in rows if r[dk] == hit_or(hit, sp)[dk]]) == 1 and src[1] == Tag.NO_OMIT:
                    back = m.convert_tag('', got[1], src=dst, dst=src)
                    if back[1] != tag:
                        return 'there and back: %r -> %r -> %r' % (tag, got[1], back[1])
    return None


def check_scan(case):
    """the table is that of the folder scanned last, modules with a prefix only"""
    import os, shutil, tempfile
    rng = random.Random(case['seed'])
    m = dev([])
    m._namespaces = None
    m._models_loadable = None
    m.compiler = None
    root = tempfile.mkdtemp(prefix='c09')
    try:
        for rnd in range(2):
            d = os.path.join(root, str(rnd))
            os.mkdir(d)
            want = []
            for i in range(rng.randint(1, 3)):
                t = ('n%d' % i, rng.choice(['p', 'q']) + str(i), 'urn:%d:%d' % (rng.randrange(3), i))
                want.append(t)
                with open(os.path.join(d, t[0] + '.yang'), 'w') as f:
                    f.write('module %s { namespace "%s"; prefix %s; %s }' % (t[0], t[2], t[1], 'include s;' if i == 0 else ''))
            with open(os.path.join(d, 's.yang'), 'w') as f:
                f.write('submodule s { belongs-to n0 { prefix x; } }')
            m.scan_models(folder=d, download='ignore')
            got = sorted(m.namespaces)
            # a submodule may be listed, with the prefix and namespace it has (none)
            if [t for t in got if t[0] != 's'] != sorted(want) or any(t[0] == 's' and t[2] for t in got):
                return 'scan %d: table %s, modules %s' % (rnd, got, sorted(want))
            if rng.random() < .5:
                m.namespaces
    finally:
        shutil.rmtree(root)
    return None


def hit_or(hit, sp):
    return hit[0] if hit else sp[0]


def check_map(case):
    rng = random.Random(case['seed'])
    urls = ['urn:%d' % i for i in range(5)]
    table = [('m%d' % i, 'p%d' % i, u) for i, u in enumerate(urls[:rng.randint(0, 5)])]
    if rng.random() < .3 and table:
        table[0] = (table[0][0], rng.choice(['ns00', 'ns01']), table[0][2])
        if rng.random() < .6 and len(table) > 1:
            table[1] = (table[1][0], 'ns01' if table[0][1] == 'ns00' else 'ns00', table[1][2])
        if rng.random() < .3 and len(table) > 2:
            table[2] = (table[2][0], 'ns02', table[2][2])
    m = dev(table)
    used = urls + [NC, YN, 'urn:other', 'urn:another']
    e = etree.Element('{%s}config' % NC, nsmap={'nc': NC})
    cur = [e]
    seen = {NC}
    for _ in range(rng.randint(0, 8)):
        u = rng.choice(used)
        seen.add(u)
        pfx = rng.choice(['q%d' % rng.randrange(4), None, 'p0', 'nc2'])
        cur.append(etree.SubElement(rng.choice(cur), '{%s}n' % u, nsmap={pfx: u}))
        if rng.random() < .3:
            v = rng.choice(used)
            cur.append(etree.SubElement(rng.choice(cur), '{%s}m' % u, nsmap={'r%d' % rng.randrange(3): v}))
    allu = set()
    for x in e.iter():
        allu |= set(x.nsmap.values())
    got = m._get_ns(rng.choice(cur))
    if sorted(got.values()) != sorted(allu):
        return 'prefix map %s does not cover %s exactly once' % (got, sorted(allu))
    for n, p, u in table:
        if u in allu and got.get(p) != u:
            return 'prefix %s of %s is not used: %s' % (p, u, got)
    for p, u in SPECIAL:
        if u in allu and got.get(p) != u:
            return 'well-known prefix %s is not used' % p
    return None
