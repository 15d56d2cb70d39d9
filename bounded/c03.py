"""C03: placement of user-ordered entries."""
import itertools
from harness.base import *
from bounded.c01 import wrap
from bounded.c02 import classify
BOUND = 'all sequences of up to 4 existing entries (5 in thorough), all insert kinds, all references (valid, missing, absent), leaf-list and one/two-key lists, at root and nested'
V = 'abcd'
KINDS = ['usr', 'rootul', 'ulst', 'uin', 'l', 'uidl', 'uidk']
IDS = {'a': 'vt:id-one', 'b': 'vt:id-two', 'c': 'vu:id-three', 'd': 'vt:base-id', 'n': 'vu:new', 'z': 'vt:zz'}


T = {}                                         # texts used for the values, if not the letters themselves
ODD = [{'b': ''}, {'a': '', 'z': 'y'}, {'a': 'x y', 'b': 'x  y', 'c': 'x'}, {'a': 'é', 'b': '-', 'c': '1.0'}, {'a': '01', 'b': '1', 'c': '1.0', 'z': '1.00'},
       {'a': 'A', 'n': 'B'}, {'a': 'x]', 'b': '[x', 'c': 'k=x'}, {'a': ' x', 'b': 'x', 'c': 'x '}, {'a': '  ', 'b': ' ', 'c': ''}]


def ent(kind, k, attr='', body=''):
    k = k if kind in ('uidl', 'uidk') else T.get(k, k)
    if kind in ('usr', 'rootul'):
        return '<vt:%s%s>%s</vt:%s>' % (kind, attr, k, kind)
    if kind == 'uidl':
        return '<vt:uidl%s>%s</vt:uidl>' % (attr, IDS[k])
    if kind == 'ulst':
        return '<vt:ulst%s><vt:name>%s</vt:name>%s</vt:ulst>' % (attr, k, body)
    if kind == 'uidk':
        return '<vt:uidk%s><vt:t>%s</vt:t>%s</vt:uidk>' % (attr, IDS[k], body)
    if kind == 'uin':
        return '<vt:uin%s><vt:k1>%s</vt:k1><vt:k2>k</vt:k2>%s</vt:uin>' % (attr, k, body)
    return '<vu:l%s><vu:name>%s</vu:name></vu:l>' % (attr, k)


def ref(kind, k):
    q = {'usr': 'yang:value="%s"', 'rootul': 'yang:value="%s"', 'uidl': 'yang:value="%s"', 'ulst': "yang:key=\"[vt:name='%s']\"",
         'uin': "yang:key=\"[vt:k1='%s'][vt:k2='k']\"", 'l': "yang:key=\"[vu:name='%s']\"", 'uidk': "yang:key=\"[vt:t='%s']\""}[kind]
    return ' ' + q % (IDS[k] if kind in ('uidl', 'uidk') else T.get(k, k))


def box(kind, body, extra=''):
    if kind == 'rootul':
        return wrapy(extra + body)
    if kind == 'l':
        return wrapy('<vu:utop>%s</vu:utop>' % body)
    if kind == 'uin':
        return wrapy('<vt:top>%s<vt:ulst><vt:name>e</vt:name>%s</vt:ulst></vt:top>' % (extra, body))
    return wrapy('<vt:top>%s%s</vt:top>' % (extra, body))


def wrapy(b):
    return wrap(b, 'xmlns:vt="urn:vt" xmlns:vu="urn:vu" xmlns:yang="%s"' % YN)


def cases(tier, rng):
    vals = V[:3] if tier == 'quick' else V
    for kind in KINDS:
        for n in range(len(vals) + 1):
            for seq in itertools.permutations(vals, n) if n < 3 else [tuple(vals[:n]), tuple(vals[:n][::-1]), tuple(vals[1:n] + vals[:1])]:
                a = box(kind, ''.join(ent(kind, k) for k in seq))
                for k in list(seq) + ['n']:
                    for ins in ('first', 'last', 'before', 'after', None):
                        refs = [None]
                        if ins in ('before', 'after'):
                            refs = list(seq) + ['z', None]
                        for r in refs:
                            for op in (None, 'replace', 'create', 'merge') + (('delete', 'remove') if tier != 'quick' else ()):
                                at = ('' if op is None else ' nc:operation="%s"' % op) + ('' if ins is None else ' yang:insert="%s"' % ins) + ('' if r is None else ref(kind, r))
                                yield {'a': a, 'e': box(kind, ent(kind, k, at))}
    # other texts, the empty one included, and references written where not all namespaces of the entries are known
    for kind in KINDS:
        for txt in ODD:
            for ins, r in itertools.product(('before', 'after'), 'abcz'):
                for k in 'can':
                    T.update(txt)
                    a = box(kind, ''.join(ent(kind, x) for x in 'abc'))
                    e = box(kind, ent(kind, k, ' yang:insert="%s"' % ins + ref(kind, r)))
                    T.clear()
                    if kind in ('uidl', 'uidk') and 'vu:' not in e.split('>', 1)[1]:
                        e = e.replace(' xmlns:vu="urn:vu"', '')
                    yield {'a': a, 'e': e}
    for kind in ('uidl', 'uidk'):
        for seq in itertools.permutations('abc'):
            for ins, r, k in itertools.product(('before', 'after'), 'ab', 'ad'):
                yield {'a': box(kind, ''.join(ent(kind, x) for x in seq)),
                       'e': box(kind, ent(kind, k, ' yang:insert="%s"' % ins + ref(kind, r))).replace(' xmlns:vu="urn:vu"', '')}
    # several entries of one and of two lists in one edit, other nodes in between
    other = '<vt:a>p</vt:a>'
    for n in range(3000 if tier == 'quick' else 20000):
        kinds = rng.sample(['usr', 'ulst', 'uidl', 'uidk'], rng.choice([1, 2]))
        bodies, edits = [], []
        for kind in kinds:
            seq = list(vals[:rng.randint(0, len(vals))])
            rng.shuffle(seq)
            bodies += [ent(kind, k) for k in seq]
            cur = list(seq)
            ed = rng.sample(list(vals) + ['n'], rng.randint(1, 3))
            for k in ed:
                ins = rng.choice(['first', 'last', 'before', 'after', None])
                at = '' if ins is None else ' yang:insert="%s"' % ins
                if ins in ('before', 'after'):
                    c = [x for x in cur if x != k]
                    if not c:
                        at = ''
                    else:
                        at += ref(kind, rng.choice(c))
                op = rng.choice([None, 'replace'])
                edits.append(ent(kind, k, at + ('' if op is None else ' nc:operation="replace"')))
                cur = [x for x in cur if x != k] + [k]
        # interleave the two lists' entries (same relative order inside a list)
        if len(kinds) == 2 and rng.random() < .7:
            b0 = [b for b in bodies if ':%s' % kinds[0] in b]
            b1 = [b for b in bodies if b not in b0]
            bodies = []
            while b0 or b1:
                src = b0 if b0 and (not b1 or rng.random() < .5) else b1
                bodies.append(src.pop(0))
        bodies.insert(rng.randint(0, len(bodies)), other)
        yield {'a': wrapy('<vt:top>%s</vt:top>' % ''.join(bodies)), 'e': wrapy('<vt:top>%s</vt:top>' % ''.join(edits))}


def check(case):
    m = device()
    A = Config(m, case['a'])
    e = etree.fromstring(case['e'])
    t = tree(A.ele)
    try:
        want, werr = apply_edit(t.copy(), e), None
    except EditError as x:
        want, werr = None, x
    C, err = classify(lambda: A + e)
    if werr is not None:
        return None if err is not None else 'expected a ConfigDeltaError (%s), got\n%s' % (werr, C)
    if err is not None:
        return 'unexpected ConfigDeltaError: %s' % err
    got = tree(C.ele)
    if got != want:
        return 'placement differs\n--- got\n%s\n--- want\n%s' % (got.show(), want.show())
    if has_edit_attr(C.ele):
        return 'result carries attributes'
    return None
