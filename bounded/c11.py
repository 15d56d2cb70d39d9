"""C11: running-config diff accounting."""
import itertools, random, re
from collections import Counter
from harness import base                                        # noqa: F401  (sys.path)
BOUND = ('all pairs of flat configs of <= 4 distinct lines from 2 order-sensitive + 2 order-insensitive commands; random trees '
         'of depth <= 4, <= 6 lines per section, with comments, blank lines and varying indentation')

# (line, levels at which the published table declares the command order-insensitive)
ORDERLESS = [('ntp server 1.1.1.1', 0), ('ntp server 2.2.2.2', 0), ('username bob', 0), ('router bgp 1', 0), ('router ospf 2', 0),
             ('ip route 1.0.0.0 255.0.0.0 Null0', 0), ('logging host 1.2.3.4', 0),
             ('neighbor 1.1.1.1 activate', 1), ('neighbor 2.2.2.2 activate', 1), ('neighbor 2.2.2.2 activate', 2), ('redistribute static', 1),
             ('redistribute connected', 2), ('redistribute connected', 3), ('match ipv4 tos', 1), ('option 1 ip 2', 1), ('area 1 stub', 1)]
ORDERED = ['hostname r1', 'interface Gi1', 'interface Gi2', 'vlan 10', 'address-family ipv4', 'address-family ipv6', 'permit ip any any', 'deny ip any any',
           'no shutdown', 'shutdown', 'description x', 'no ip http server', 'policy-map p', 'class c', 'mtu 1500', 'a', 'b', 'banner 50% done', 'snmp location a!b', 'alert at 9 % used', 'c!', 'd%']


PREFIXES = [('ntp server ', 0), ('username ', 0), ('router ', 0), ('ip route ', 0), ('logging host ', 0), ('neighbor ', 1), ('neighbor ', 2),
            ('redistribute ', 1), ('redistribute ', 2), ('redistribute ', 3), ('match ipv4 ', 1), ('option ', 1), ('area ', 1)]


def orderless(line, depth):
    return any(line.startswith(p) and depth == d for p, d in PREFIXES)


def gen(rng, depth=0, dup=False, special=True):
    """[(line, children|None)]"""
    n = rng.choice([0, 1, 2, 3, 4, 6]) if depth else rng.choice([1, 2, 3, 4, 6])
    pool = [l for l, d in ORDERLESS if d == depth] + rng.sample(ORDERED, 5) + ([l for l, d in ORDERLESS if d != depth] if rng.random() < .2 else [])
    out, seen = [], set()
    for _ in range(n):
        l = rng.choice(pool)
        if l in seen and not dup:
            continue
        seen.add(l)
        kids = gen(rng, depth + 1, dup) if depth < 3 and rng.random() < .4 else None
        out.append((l, kids or None))
    return out


def mutate(rng, t, depth=0):
    t = [(l, mutate(rng, k, depth + 1) or None if k and rng.random() < .7 else k) for l, k in t]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        r = rng.random()
        if r < .3 and t:
            del t[rng.randrange(len(t))]
        elif r < .6:
            for x in gen(rng, depth)[:1]:
                if x[0] not in [l for l, _ in t]:
                    t.insert(rng.randrange(len(t) + 1), x)
        elif r < .85 and len(t) > 1:
            x = t.pop(rng.randrange(len(t)))
            t.insert(rng.randrange(len(t) + 1), x)
        elif t:
            i = rng.randrange(len(t))
            t[i] = (t[i][0], gen(rng, depth + 1) or None if depth < 3 and t[i][1] is None else None)
    return t


def text(t, rng=None, ind=0, step=1):
    out = []
    for l, k in t:
        if rng is not None and rng.random() < .1:
            out.append(rng.choice(['', '!', '   ', ' ' * ind + '! comment', ' ' * ind + '% warning']))
        out.append(' ' * ind + l + (' ' * rng.randrange(3) if rng is not None else ''))
        if k:
            s = step if rng is None else rng.choice([1, 2, 3])
            out += text(k, rng, ind + s, step)
    return out


def cases(tier, rng):
    lines = ['ntp server 1.1.1.1', 'ntp server 2.2.2.2', 'a', 'b']
    perms = [list(p) for n in range(5) for p in itertools.permutations(lines, n)]
    for a in perms:
        for b in perms:
            yield {'a': [[l, None] for l in a], 'b': [[l, None] for l in b], 'r': None}
    lines = ['ntp server 1.1.1.1', 'ntp server 2.2.2.2', 'username bob', 'a']
    perms = [list(p) for p in itertools.permutations(lines, 4)]
    for a in perms:
        for b in perms:
            yield {'a': [[l, None] for l in a], 'b': [[l, None] for l in b], 'r': None}
    for a in range(4):                                           # repeated order-sensitive lines
        for pa in itertools.product('ab', repeat=a):
            for b in range(4):
                for pb in itertools.product('ab', repeat=b):
                    yield {'a': [[l, None] for l in pa], 'b': [[l, None] for l in pb], 'r': None}
    below = [['neighbor 1.1.1.1 activate', None], ['neighbor 2.2.2.2 activate', None], ['redistribute static', None], ['a', None]]
    for d in range(4):                                           # order-insensitive lines below lone lines
        for pa in itertools.permutations(below, 4):
            a, b = below, list(pa)
            for l in ('class c', 'address-family ipv4', 'interface Gi1')[3 - d:]:
                a, b = [[l, a]], [[l, b]]
            yield {'a': a, 'b': b, 'r': None}
    for i in range(25000 if tier == 'quick' else 120000):
        a = gen(rng, dup=i % 3 == 0)
        b = mutate(rng, a) if rng.random() < .8 else gen(rng, dup=i % 3 == 0)
        yield {'a': a, 'b': b, 'r': rng.choice([None, rng.randrange(10 ** 9)])}


def counts(t, path=(), c=None):
    c = Counter() if c is None else c
    for l, k in t:
        c[path + (l,)] += 1
        counts(k or [], path + (l,), c)
    return c


def diffcounts(d, path=(), sign='', add=None, rem=None):
    add = Counter() if add is None else add
    rem = Counter() if rem is None else rem
    for k, v, i in d or []:
        s = sign or i
        if s not in ('', '+', '-'):
            raise ValueError('marker %r' % (s,))
        if s == '+':
            add[path + (k,)] += 1
        elif s == '-':
            rem[path + (k,)] += 1
        diffcounts(v, path + (k,), s, add, rem)
    return add, rem


def norm(t, depth=0):
    """order-sensitive lines in order, runs of order-insensitive lines between them as sets"""
    out, run = [], []
    for l, k in t:
        x = (l, norm(k or [], depth + 1))
        if orderless(l, depth):
            run.append(x)
        else:
            out.append(tuple(sorted(run)))
            run = []
            out.append(x)
    out.append(tuple(sorted(run)))
    return tuple(out)


def loose(t, depth=0):
    """order-insensitive lines collected wherever they are"""
    x = [(l, loose(k or [], depth + 1)) for l, k in t]
    return (tuple(sorted(i for i, (l, k) in zip(x, t) if orderless(l, depth))), tuple(i for i, (l, k) in zip(x, t) if not orderless(l, depth)))


def has_dup(t):
    ls = [l for l, _ in t]
    return len(set(ls)) < len(ls) or any(has_dup(k) for _, k in t if k)


def render(d, depth=0, sign=''):
    out = []
    for k, v, i in d or []:
        s = sign or i
        out.append((s or ' ') + ' ' + '  ' * depth + k)
        out += render(v, depth + 1, s)
    return out


def check(case):
    from ncdiff.runningconfig import RunningConfigDiff
    rng = random.Random(case['r']) if case['r'] is not None else None
    a, b = case['a'], case['b']
    ta, tb = '\n'.join(text(a, rng)), '\n'.join(text(b, rng))
    if rng is not None:
        ta = 'Building configuration...\n\nCurrent configuration : 9 bytes\n' + ta
    ca, cb = counts(a), counts(b)
    r = RunningConfigDiff(ta, tb)
    for nm, d, c1, c2 in (('diff', r.diff, ca, cb), ('diff_reverse', r.diff_reverse, cb, ca)):
        add, rem = diffcounts(d)
        for p in set(add) | set(rem) | set(c1) | set(c2):
            if add[p] - rem[p] != c2[p] - c1[p]:
                return '%s: line %r: %d added, %d removed, but it occurs %d times in the first and %d times in the second config\n%s\n--\n%s\n--\n%s' % (nm, p, add[p], rem[p], c1[p], c2[p], ta, tb, d)
            if rem[p] > c1[p] or add[p] > c2[p]:
                return '%s: line %r is reported more often than it occurs' % (nm, p)
        if d is None:
            if loose(a) != loose(b):
                return '%s is empty for different configs\n%s\n--\n%s' % (nm, ta, tb)
        elif not has_dup(a) and not has_dup(b) and norm(a) == norm(b):
            return '%s is not empty for configs that differ only in the order of order-insensitive lines\n%s\n--\n%s\n%s' % (nm, ta, tb, d)
        elif not add and not rem:
            return '%s is not empty but reports no change' % nm
    if bool(r) != bool(r.diff):
        return 'truth value differs from the diff'
    if [x for x in str(r).splitlines()] != render(r.diff):
        return 'rendering differs from the diff:\n%s\n--\n%s' % (str(r), '\n'.join(render(r.diff)))
    r2 = RunningConfigDiff(tb, ta)
    if bool(r2) != bool(r) and not has_dup(a) and not has_dup(b):
        return 'a diff is empty in one direction only'
    return None
