"""C13: ModelDiff."""
import random, re
from harness.base import *
BOUND = 'random pairs of schema trees of depth <= 4, <= 4 children per node, all node kinds, two namespaces, attribute and structure edits'
NS = {'p': 'urn:p', 'q': 'urn:q'}
KINDS = ['container', 'list', 'choice', 'case', 'leaf', 'leaf-list', 'anyxml', 'rpc', 'notification', 'input', 'output']


def genkids(rng, depth, kind):
    out, seen = [], set()
    for _ in range(rng.choice([0, 1, 2, 3, 4]) + (depth == 0)):
        if kind == 'choice':
            k = 'case'
        elif kind == 'rpc':
            k = rng.choice(['input', 'output'])
        elif depth == 0:
            k = rng.choice(['container', 'list', 'leaf', 'leaf-list', 'choice', 'rpc', 'notification'])
        else:
            k = rng.choice(['container', 'list', 'leaf', 'leaf', 'leaf-list', 'choice', 'anyxml'])
        n = k if k in ('input', 'output') else rng.choice('abcdef')
        p = 'p' if rng.random() < .8 else 'q'
        if (p, n) in seen:
            continue
        seen.add((p, n))
        out.append(node(rng, depth, k, p, n))
    return out


def attrs(rng, k):
    a = {'type': k, 'access': rng.choice(['read-write', 'read-only'])}
    if k in ('leaf', 'leaf-list'):
        a['datatype'] = rng.choice(['string', 'uint8', 'identityref:b'])
        if rng.random() < .2:
            a['default'] = rng.choice(['1', '2'])
        if rng.random() < .2:
            a['mandatory'] = 'true'
        if rng.random() < .2:
            a['is_key'] = 'true'
    if k == 'list':
        a['key'] = rng.choice(['a', 'a b', 'b'])
    if k == 'container' and rng.random() < .3:
        a['presence'] = 'true'
    if rng.random() < .1:
        a['if-feature'] = rng.choice(['f', 'g'])
    if rng.random() < .1:
        a['status'] = rng.choice(['deprecated', 'obsolete'])
    return a


def node(rng, depth, k, p, n):
    kids = genkids(rng, depth + 1, k) if depth < 3 and k not in ('leaf', 'leaf-list', 'anyxml') else []
    return [p, n, attrs(rng, k), kids]


def mutate(rng, kids, depth, kind):
    out = []
    for p, n, a, ks in kids:
        r = rng.random()
        if r < .12:
            continue
        a = dict(a)
        if r < .3:
            b = attrs(rng, a['type'])
            if rng.random() < .5:
                a = b
            else:
                a['if-feature'] = 'h'
        elif r < .36 and depth and a['type'] in ('container', 'list', 'leaf', 'leaf-list') and rng.random() < .5:
            out.append(node(rng, depth, rng.choice(['container', 'leaf', 'leaf-list', 'list']), p, n))
            continue
        out.append([p, n, a, mutate(rng, ks, depth + 1, a['type']) if a['type'] not in ('leaf', 'leaf-list', 'anyxml') and rng.random() < .7 else ks])
    if rng.random() < .3 and depth < 4 and kind not in ('leaf', 'leaf-list', 'anyxml'):
        for x in genkids(rng, depth, kind)[:1]:
            if (x[0], x[1]) not in [(y[0], y[1]) for y in out]:
                out.append(x)
    if rng.random() < .2:
        rng.shuffle(out)
    return out


def cases(tier, rng):
    # single-node differences below every kind
    for k in ['container', 'list', 'choice', 'case', 'rpc', 'notification', 'input', 'output']:
        leaf = ['p', 'x', {'type': 'leaf', 'access': 'read-write', 'datatype': 'string'}, []]
        leaf2 = ['p', 'x', {'type': 'leaf', 'access': 'read-write', 'datatype': 'uint8'}, []]
        for l1, l2 in (([leaf], []), ([], [leaf]), ([leaf], [leaf2]), ([leaf], [leaf])):
            mk = lambda ks: [['p', 'n', {'type': k, 'access': 'read-write'}, ks]]
            yield {'a': mk(l1), 'b': mk(l2)}
            yield {'a': mk(l1), 'b': mk(l2) + [['p', 'e', {'type': 'container', 'access': 'read-write'}, []]]}
        yield {'a': [], 'b': [['p', 'n', {'type': k, 'access': 'read-write'}, []]]}
        yield {'b': [], 'a': [['p', 'n', {'type': k, 'access': 'read-write'}, []]]}
    for i in range(20000 if tier == 'quick' else 60000):
        a = genkids(rng, 0, None)
        yield {'a': a, 'b': mutate(rng, a, 0, None) if rng.random() < .9 else genkids(rng, 0, None)}


def build(kids, name='m'):
    from ncdiff.model import Model
    r = etree.Element(name, type='module', prefix='p')
    for p, u in NS.items():
        etree.register_namespace(p, u)                         # as ModelCompiler.compile does
        x = etree.SubElement(r, 'namespace', prefix=p)
        x.text = u

    def rec(e, ks):
        for p, n, a, k in ks:
            rec(etree.SubElement(e, '{%s}%s' % (NS[p], n), attrib=a), k)
    rec(r, kids)
    return Model(r)


def flat(kids, pre=(), out=None):
    out = {} if out is None else out
    for p, n, a, k in kids:
        x = pre + ((n if p == 'p' else p + ':' + n),)
        out[x] = a
        flat(k, x, out)
    return out


LINE = re.compile(r'^( (?:[ |]  )+)\+--(.*)$')


def report(text):
    """{path: mark} of a rendered report"""
    out, stack = {}, []
    for l in (text or '').splitlines():
        m = LINE.match(l)
        if not m:
            if l and not l.startswith('module:') and l.strip() not in ('rpcs:', 'notifications:'):
                raise ValueError('line %r' % l)
            continue
        depth = (len(m.group(1)) - 1) // 3 - 1
        rest = m.group(2)
        if not rest.startswith(':'):
            rest = rest[2:].strip()
        mk = re.search(r'\s(added|deleted|modified)$', rest)
        name = re.sub(r'\s+(added|deleted|modified)$', '', rest)
        name = re.sub(r'\*?( \[[^]]*\])?$', '', name.strip()).strip()
        name = name.rstrip('?*')
        m2 = re.match(r'^:?\((.*)\)$', name)
        if m2:
            name = m2.group(1)
        stack = stack[:depth] + [name]
        if tuple(stack) in out:
            raise ValueError('listed twice %s' % (stack,))
        out[tuple(stack)] = mk.group(1) if mk else None
    return out


def check(case):
    from ncdiff.model import ModelDiff
    a, b = case['a'], case['b']
    fa, fb = flat(a), flat(b)
    m1, m2 = build(a), build(b)
    s1, s2 = etree.tostring(m1.tree), etree.tostring(m2.tree)
    d = ModelDiff(m1, m2)
    if bool(d) != (fa != fb):
        return 'truth value %s for %s models' % (bool(d), 'equal' if fa == fb else 'different')
    want = {}
    for p in fb:
        if p not in fa:
            want[p] = 'added'
        elif fa[p] != fb[p] and fb[p]['type'] in ('leaf', 'leaf-list'):
            want[p] = 'modified'
    for p in fa:
        if p not in fb and not any(want.get(p[:i]) == 'modified' for i in range(1, len(p))):
            want[p] = 'deleted'
    want = {p: w for p, w in want.items() if not any(want.get(p[:i]) == 'modified' for i in range(1, len(p)))}
    differing = set(want) | {p for p in fb if p in fa and fa[p] != fb[p]}
    for nm in ('added', 'deleted', 'modified'):
        got = report(getattr(d, nm))
        w = {p for p, x in want.items() if x == nm}
        g = {p for p, x in got.items() if x == nm}
        if w != g:
            return 'report %s lists %s, expected %s\n%s' % (nm, sorted(g - w), sorted(w - g), getattr(d, nm))
        if any(x not in (None, nm) for x in got.values()):
            return 'report %s lists nodes that are not %s\n%s' % (nm, nm, getattr(d, nm))
        for p in got:
            if p not in w and not any(q[:len(p)] == p for q in w):
                return 'report %s lists %s which is neither such a node nor an ancestor of one\n%s' % (nm, p, getattr(d, nm))
    full = report(str(d))
    for p, x in full.items():
        if x != want.get(p):
            return 'diff marks %s as %s, expected %s' % (p, x, want.get(p))
        if p not in differing and not any(q[:len(p)] == p for q in differing):
            return 'diff lists identical node %s' % (p,)
    for p in want:
        if p not in full:
            return 'diff does not list %s (%s)' % (p, want[p])
    if (etree.tostring(m1.tree), etree.tostring(m2.tree)) != (s1, s2):
        return 'a model was changed'
    try:
        ModelDiff(m1, build(b, 'other'))
        return 'diff of different modules does not raise'
    except ValueError:
        pass
    return None
