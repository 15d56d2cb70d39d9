"""C04: comparison operators against inclusion of abstract trees."""
import itertools, operator
from harness.base import *
from bounded.c01 import wrap, small_bodies, idr_family, mutate
BOUND = 'all pairs inside the hand-shaped families, random configs with near copies (dropped, reordered, re-prefixed nodes)'


def reprefix(xml, rng):
    """Same config, children of system-ordered kinds shuffled, other prefixes."""
    e = etree.fromstring(xml)
    t = tree(e)
    return render(t, rng, shuffle=True)


def render(t, rng, shuffle=False):
    pre = rng.choice([{'urn:vt': 'vt', 'urn:vu': 'vu'}, {'urn:vt': 'x', 'urn:vu': 'y'}, {'urn:vt': 'vu', 'urn:vu': 'vt'}])
    nsm = {v: k for k, v in pre.items()}
    e = etree.Element(CONFIG, nsmap=dict(nsm, nc=NC))

    def val(s, v):
        if isinstance(v, tuple) and v[0] == 'id':
            return pre[v[1]] + ':' + v[2]
        if isinstance(v, tuple) and v[0] == 'inst':
            o = ''
            for k in v[1:]:
                o += pre[k[1]] + ':' + k[2] if k[0] == 'q' else (k[1] if k[0] != 'lit' else ("'%s'" % k[1]))
            return o
        return v

    def fill(e, t):
        ks = list(t.kids)
        if shuffle:
            # user-ordered entries keep their order; keys may move as well
            sh = ks[:]
            rng.shuffle(sh)
            out = []
            it = {}
            for u in ks:
                it.setdefault(u[0], []).append(u)
            for u in sh:
                s = schema().child(t.sn, u[0])
                if s.user and s.kw in ('list', 'leaf-list'):
                    out.append(it[u[0]].pop(0))
                else:
                    out.append(u)
            ks = out
        for u in ks:
            v = t.kids[u]
            s = schema().child(t.sn, u[0])
            x = etree.SubElement(e, u[0])
            if isinstance(v, T):
                fill(x, v)
            else:
                x.text = val(s, v)
    fill(e, t)
    return ser(e)


def cases(tier, rng):
    yield {'kind': 'types', 'a': wrap('<vt:top><vt:a>p</vt:a></vt:top>')}
    fams = [[wrap(b) for b in f] for f in small_bodies()] + [idr_family()]
    for f in fams:
        for a, b in itertools.product(f, f):
            yield {'a': a, 'b': b}
    # repeated lookups with other lists in between: order of one list while another is reordered
    g = Gen(rng, vals=STR[:3])
    for n in range(3000 if tier == 'quick' else 30000):
        g.skip = {'inst'} if n % 2 else set()
        a = g.config()
        k = rng.random()
        if k < .35:
            b = reprefix(a, rng)
        elif k < .8:
            b = mutate(a, rng)
            if rng.random() < .4:
                b = reprefix(b, rng)
        else:
            b = g.config()
        yield {'a': a, 'b': b}
        if rng.random() < .2:
            yield {'a': a, 'b': mutate(b, rng)}


OPS6 = [(operator.le, '<='), (operator.lt, '<'), (operator.ge, '>='), (operator.gt, '>'), (operator.eq, '=='), (operator.ne, '!=')]


def check(case):
    m = device()
    A = Config(m, case['a'])
    if case.get('kind') == 'types':
        D = ConfigDelta(A, A)
        for f, n in OPS6:
            for x in (None, 1, 'x', A.ele, D, object(), [A]):
                for l, r in ((A, x), (D, x)):
                    try:
                        v = f(l, r)
                    except TypeError:
                        continue
                    return '%s %s %r did not raise TypeError: %r' % (type(l).__name__, n, x, v)
        if bool(Config(m)) or not bool(A) or bool(Config(m, wrap('<vt:top/>'))):
            return 'truth value of an (empty) config is wrong'
        return None
    B = Config(m, case['b'])
    # the same document with insignificant whitespace, given as an element
    p = etree.fromstring(case['a'])
    etree.indent(p)
    A2 = Config(m, p)
    if not (A2 == A and A == A2 and A2 <= A and A <= A2) or A2 != A:
        return 'whitespace between elements changes the comparison'
    t, u = tree(A.ele), tree(B.ele)
    le, ge = t.le(u), u.le(t)
    want = {'<=': le, '<': le and not ge, '>=': ge, '>': ge and not le, '==': le and ge, '!=': not (le and ge)}
    for f, n in OPS6:
        v = f(A, B)
        if not isinstance(v, bool) or v != want[n]:
            return 'A %s B is %r, expected %r' % (n, v, want[n])
    if not (A <= A and A == A and not A != A and not A < A):
        return 'A compared with itself is inconsistent'
    if bool(A) != bool(t.kids):
        return 'bool(A) is %r' % bool(A)
    return None
