import itertools, random
from harness.base import *
BOUND = 'random and hand-shaped config pairs over the mini models (depth <= 5, <= 3-4 entries per list), all option combinations'
OPTS = [dict(preferred_create=c, preferred_replace=r, preferred_delete=d)
        for c in ('merge', 'create', 'replace') for r in ('merge', 'replace') for d in ('delete', 'remove')]
TYPES = [dict(diff_type='minimum'), dict(diff_type='replace', replace_depth=0), dict(diff_type='replace', replace_depth=1),
         dict(diff_type='replace', replace_depth=2), dict(diff_type='replace', replace_depth=3)]


def wrap(body, ns=None):
    ns = ns or 'xmlns:vt="urn:vt" xmlns:vu="urn:vu"'
    return '<nc:config xmlns:nc="%s" %s>%s</nc:config>' % (NC, ns, body)


def small_bodies():
    """Systematic families: every pair inside a family is compared."""
    ll = lambda vs, t='usr': ''.join('<vt:%s>%s</vt:%s>' % (t, v, t) for v in vs)
    fam = []
    perms = [p for n in range(0, 4) for p in itertools.permutations('abc', n)]
    fam.append(['<vt:top>%s</vt:top>' % ll(p) for p in perms])
    fam.append([ll(p, 'rootul') for p in perms])
    fam.append(['<vt:top>%s</vt:top>' % ''.join('<vt:ulst><vt:name>%s</vt:name></vt:ulst>' % x for x in p) for p in perms])
    sets = [p for n in range(0, 4) for p in itertools.combinations('abc', n)]
    fam.append(['<vt:top>%s</vt:top>' % ll(p, 'sys') for p in sets])
    fam.append([ll(p, 'rootll') for p in sets])
    ch = ['', '<vt:c1a>p</vt:c1a>', '<vt:c1a>q</vt:c1a>', '<vt:c1a>p</vt:c1a><vt:c1b>p</vt:c1b>', '<vt:c1c><vt:z>p</vt:z></vt:c1c>',
          '<vt:c2a>p</vt:c2a>', '<vt:c2l>p</vt:c2l><vt:c2l>q</vt:c2l>', '<vt:c3>p</vt:c3>', '<vt:c2a>p</vt:c2a><vt:c2l>q</vt:c2l>',
          '<vt:c4>p</vt:c4>', '<vt:n1a>p</vt:n1a>', '<vt:n1a>p</vt:n1a><vt:n1b>p</vt:n1b>', '<vt:n2a>p</vt:n2a>',
          '<vt:n2c><vt:z>p</vt:z></vt:n2c>', '<vt:n1a>p</vt:n1a><vt:c4>p</vt:c4>', '<vt:n2c><vt:z>p</vt:z></vt:n2c><vt:c4>q</vt:c4>']
    fam.append(['<vt:top>%s</vt:top>' % c for c in ch])
    chd = ['', '<vt:d1>p</vt:d1>', '<vt:d2>p</vt:d2>', '<vt:d2x>p</vt:d2x>', '<vt:d2>p</vt:d2><vt:d2x>q</vt:d2x>']
    fam.append(['<vt:top>%s</vt:top>' % c for c in chd])
    con = ['', '<vt:pres/>', '<vt:pres><vt:c>p</vt:c></vt:pres>', '<vt:np><vt:c>p</vt:c></vt:np>', '<vt:np><vt:c>q</vt:c></vt:np>',
           '<vt:np><vt:d>q</vt:d></vt:np>', '<vt:np><vt:deep><vt:c>p</vt:c><vt:sys>p</vt:sys></vt:deep></vt:np>',
           '<vt:np><vt:c>p</vt:c><vt:deep><vt:c>q</vt:c></vt:deep></vt:np>', '<vu:np><vu:c>p</vu:c></vu:np>',
           '<vt:np><vt:c>p</vt:c></vt:np><vu:np><vu:c>p</vu:c></vu:np>', '<vt:e/>', '<vt:a>p</vt:a>', '<vt:a>q</vt:a><vt:b>p</vt:b>']
    fam.append(['<vt:top>%s</vt:top>' % c for c in con])
    dnp = lambda *xs: '<vt:dnp>%s</vt:dnp>' % ''.join('<vt:%s>%s</vt:%s>' % (x[0], x[1:], x[0]) for x in xs)
    fam.append(['<vt:top>%s</vt:top>' % c for c in
                ['', dnp('ada'), dnp('bx', 'fx', 'eq'), dnp('eq'), dnp('cdc', 'cdd', 'bdb', 'fdf'), dnp('cx', 'adb'),
                 '<vt:dnp><vt:in><vt:d>x</vt:d><vt:q1>y</vt:q1></vt:in></vt:dnp>', '<vt:dnp><vt:in><vt:q1>q</vt:q1><vt:q2>y</vt:q2></vt:in><vt:f>x</vt:f></vt:dnp>', '<vt:dnp><vt:in><vt:q3>y</vt:q3></vt:in></vt:dnp>', '<vt:dnp><vt:dp><vt:x>y</vt:x></vt:dp></vt:dnp>', '<vt:dnp><vt:dp/></vt:dnp>', '<vt:dnp><vt:dp/><vt:a>x</vt:a></vt:dnp>']])
    k3 = lambda x, y, z, b='', n='k3': '<vt:%s><vt:x>%s</vt:x><vt:y>%s</vt:y><vt:z>%s</vt:z>%s</vt:%s>' % (n, x, y, z, b, n)
    K = [k3(*k) for k in ('abc', 'acb', 'cba', 'aab')]
    fam.append(['<vt:two>%s</vt:two>' % c for c in ['', K[0], K[0] + K[1] + K[2], K[3] + K[2], k3('a', 'b', 'c', '<vt:v>p</vt:v><vt:w>q</vt:w>'), k3('a', 'b', 'c', '<vt:w>r</vt:w>') + K[2]]])
    U = lambda *es: '<vt:two>%s</vt:two>' % ''.join(k3(e[0], e[1], e[2], e[3:] and '<vt:v>%s</vt:v><vt:u>x</vt:u><vt:u>%s</vt:u>' % (e[3:], e[3:]), 'uk3') for e in es)
    fam.append([U('abc', 'acb', 'cba'), U('cba', 'abc'), U('cbap', 'aab', 'abcq'), U('abcp'), '', U('aab', 'acb', 'abc', 'cbaq')])
    fam.append(['', '<vt:pbox/>', '<vt:pbox><vt:np><vt:c>p</vt:c></vt:np></vt:pbox>', '<vt:pbox><vt:np><vt:deep><vt:a>p</vt:a></vt:deep></vt:np></vt:pbox>',
                '<vt:pbox><vt:a>p</vt:a></vt:pbox>', '<vt:rootleaf>p</vt:rootleaf>', '<vt:rootleaf>q</vt:rootleaf>'])
    e = lambda n, x='': '<vt:lst><vt:name>%s</vt:name>%s</vt:lst>' % (n, x)
    i = lambda a, b, v='': '<vt:in><vt:k1>%s</vt:k1><vt:k2>%s</vt:k2>%s</vt:in>' % (a, b, v)
    fam.append(['<vt:top>%s</vt:top>' % c for c in
                ['', e('x'), e('y'), e('x') + e('y'), e('x', '<vt:v>p</vt:v>'), e('x', '<vt:v>q</vt:v>'), e('x', '<vt:w>q</vt:w>'),
                 e('x', '<vt:np><vt:c>p</vt:c></vt:np>'), e('x', i('a', 'b')), e('x', i('b', 'a')), e('x', i('a', 'b') + i('b', 'a')),
                 e('x', i('a', 'b', '<vt:v>p</vt:v>')), e('x', '<vu:augv>p</vu:augv>'), e("i's"), e('a b]c')]])
    u = lambda n, x='': '<vt:ulst><vt:name>%s</vt:name>%s</vt:ulst>' % (n, x)
    ui = lambda a, b, v='': '<vt:uin><vt:k1>%s</vt:k1><vt:k2>%s</vt:k2>%s</vt:uin>' % (a, b, v)
    fam.append(['<vt:top>%s</vt:top>' % c for c in
                ['', u('x', '<vt:v>p</vt:v>') + u('y'), u('y') + u('x', '<vt:v>q</vt:v>'), u('x', ui('a', 'b') + ui('b', 'a')),
                 u('x', ui('b', 'a') + ui('a', 'b')), u('y') + u('x', ui('b', 'a', '<vt:v>p</vt:v>') + ui('a', 'b')), u('z') + u("i's") + u('x'),
                 u("i's") + u('x') + u('z'), u('x') + u('y') + u('z'), u('z') + u('w') + u('x')]])
    # unusual texts: empty, leading, trailing and inner quotes, brackets, blanks
    odd = ["'a", "a'", "'", "''", 'a"b', 'a]b', '[k=1]', '/a/b', 'a  b', 'no', '-', 'vt:x', '{urn:vt}a', 'A', '\u00e9']
    for n in range(len(odd)):
        x, y, z = odd[n], odd[(n + 1) % len(odd)], odd[(n + 4) % len(odd)]
        fam.append(['<vt:top>%s</vt:top>' % ''.join(u(q) for q in p) for p in ((x, y, z), (z, x), (y, x, z), (x,))])
        fam.append(['<vt:top>%s</vt:top>' % ll(p) for p in ((x, y, z), (z, x), (y, x, z), (x,), (x, ''), ('', x), ('',), ())])
        fam.append(['<vt:top>%s</vt:top>' % u('k', ''.join(ui(*q) for q in p)) for p in (((x, y), (y, x)), ((y, x), (x, y)), ((x, z), (y, x), (x, y)))])
        fam.append(['<vt:top>%s</vt:top>' % c for c in (ll((x, y), 'sys'), ll((x, ''), 'sys'), ll((x,), 'sys'), ll(('',), 'sys'), ll((y, z, x), 'sys'))])
        fam.append(['<vt:top><vt:a>%s</vt:a></vt:top>' % x, '<vt:top><vt:a>%s</vt:a></vt:top>' % y, '<vt:top><vt:a/></vt:top>', '<vt:top/>'])
    # keys whose joined texts look alike
    for sep in ('', ' ', ',', '|', '/', ':', '_', '-', '][', "', '"):
        k1, k2 = ('a', 'b%sc' % sep), ('a%sb' % sep, 'c')
        for w in (lambda es: u('k', ''.join(ui(*q) for q in es)),
                  lambda es: '<vt:lst><vt:name>k</vt:name>%s</vt:lst>' % ''.join('<vt:in><vt:k1>%s</vt:k1><vt:k2>%s</vt:k2><vt:v>%s</vt:v></vt:in>' % (q + (q[0],)) for q in es)):
            fam.append(['<vt:top>%s</vt:top>' % w(es) for es in ((k1, k2), (k2, k1), (k1,), (k2,))])
    return fam


NSALT = 'xmlns:a="urn:vt" xmlns:b="urn:vu"'


def idr_family():
    f = []
    for ns, t, u in (('xmlns:vt="urn:vt" xmlns:vu="urn:vu"', 'vt', 'vu'), (NSALT, 'a', 'b'), ('xmlns:vt="urn:vu" xmlns:vu="urn:vt"', 'vu', 'vt')):
        f += [wrap(x.format(t=t, u=u), ns) for x in (
            '<{t}:top><{t}:ref>{t}:id-one</{t}:ref></{t}:top>', '<{t}:top><{t}:ref>{u}:id-one</{t}:ref></{t}:top>',
            '<{t}:top><{t}:idk><{t}:t>{u}:id-one</{t}:t></{t}:idk></{t}:top>', '<{t}:top><{t}:idk><{t}:t>{t}:id-one</{t}:t></{t}:idk></{t}:top>', '<{t}:top><{t}:ref>{u}:id-three</{t}:ref></{t}:top>',
            '<{t}:top><{t}:inst>/{t}:top/{t}:a</{t}:inst></{t}:top>', '<{t}:top><{t}:idl>{t}:id-one</{t}:idl><{t}:idl>{u}:id-three</{t}:idl></{t}:top>',
            '<{t}:top><{t}:idk><{t}:t>{t}:id-one</{t}:t><{t}:v>p</{t}:v></{t}:idk><{t}:idk><{t}:t>{u}:id-three</{t}:t></{t}:idk></{t}:top>',
            '<{t}:top><{t}:uidl>{t}:id-one</{t}:uidl><{t}:uidl>{u}:id-three</{t}:uidl></{t}:top>',
            '<{t}:top><{t}:uidl>{u}:id-three</{t}:uidl><{t}:uidl>{t}:id-one</{t}:uidl><{t}:uidl>{t}:id-two</{t}:uidl></{t}:top>',
            '<{t}:top><{t}:uidk><{t}:t>{t}:id-one</{t}:t></{t}:uidk><{t}:uidk><{t}:t>{u}:id-three</{t}:t></{t}:uidk></{t}:top>',
            '<{t}:top><{t}:uidk><{t}:t>{u}:id-three</{t}:t></{t}:uidk><{t}:uidk><{t}:t>{t}:id-one</{t}:t></{t}:uidk></{t}:top>')]
    return f


def pairs(tier, rng):
    fams = [[wrap(b) for b in f] for f in small_bodies()] + [idr_family()]
    for f in fams:
        for a, b in itertools.permutations(f, 2):
            yield a, b
    g = Gen(rng, vals=STR[:3])
    g2 = Gen(rng, p=.6, maxn=4)
    n = 0
    while True:
        gg = g if n % 3 else g2
        gg.skip = {'inst'} if n % 4 < 2 else set()
        a = gg.config()
        b = gg.config() if n % 2 else mutate(a, rng)
        yield a, b
        n += 1
        if n >= (1500 if tier == 'quick' else 30000):
            return


def mutate(xml, rng):
    """A config near `xml`: drop, reorder or change a few nodes."""
    e = etree.fromstring(xml)
    els = [x for x in e.iter() if x is not e]
    for _ in range(rng.randint(1, 4)):
        if not els:
            break
        x = rng.choice(els)
        if x.getparent() is None:
            continue
        k = rng.random()
        sn = sn_of(x)
        if sn is None or sn.is_key:
            continue
        if k < .4:
            if x.getparent() is not None:
                x.getparent().remove(x)
        elif k < .7 and sn.kw == 'leaf' and sn.dtype == 'string':
            x.text = rng.choice(STR)
        else:
            p = x.getparent()
            sibs = [c for c in p if c.tag == x.tag]
            if len(sibs) > 1 and sn.kw in ('list', 'leaf-list'):
                p.remove(x)
                sibs.remove(x)
                sibs[0].addprevious(x) if rng.random() < .5 else sibs[-1].addnext(x)
    return ser(e)


def sn_of(x):
    path = [a.tag for a in x.iterancestors()][::-1][1:] + [x.tag]
    s = None
    for t in path:
        s = schema().child(s, t)
        if s is None:
            return None
    return s


def cases(tier, rng):
    combos = [dict(o, **t) for o in OPTS for t in TYPES]
    i = 0
    for a, b in pairs(tier, rng):
        for k in range(3 if tier == 'quick' else len(combos)):
            # rotate through all option combinations
            yield {'a': a, 'b': b, 'opts': combos[(i * 7 + k * 11) % len(combos)]}
            i += 1


def check(case):
    m = device()
    A, B = Config(m, case['a']), Config(m, case['b'])
    tA, tB = tree(A.ele), tree(B.ele)
    d = ConfigDelta(config_src=A, config_dst=B, **case['opts'])
    C = A + d
    if tree(C.ele) != tB:
        return 'A + (B - A) differs from B\n--- delta\n%s\n--- result\n%s' % (d, C)
    if not (C == B):
        return 'A + (B - A) == B is reported False although the trees agree'
    if bool(d) != (tA != tB):
        return 'bool(delta) is %s but A %s B' % (bool(d), '==' if tA == tB else '!=')
    back = B + (-d)
    if tree(back.ele) != tA:
        return 'B + -(B - A) differs from A\n%s' % back
    if tree((B - d).ele) != tA:
        return 'B - (B - A) differs from A'
    # the opposite side of the same computation must undo it as well
    return None
