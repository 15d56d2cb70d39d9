"""C04: the order relation between configs."""
from pyvc.contract import *

ALSO = [('C10', ('_same_text', '_parse_text'))]          # callees whose contracts are assumed here

PARSED = z3.Function('parsed', z3.IntSort(), z3.IntSort())          # contract of _parse_text: a value per node (C10)
LE = z3.Function('le', z3.IntSort(), z3.IntSort(), z3.BoolSort())   # contract of _node_le on children


def node(label, tag=None, kids=(), **k):
    e = SymElem(tag, label=label, kids=kids, **k)
    e.ghost['id'] = SInt(core.CTX.fresh('node', z3.IntSort()))
    return e


class Dev:
    def get_schema_node(self, n):
        return SNode(n.tag)

    def get_xpath(self, n):
        return fstr('xpath')


def calc(M=None):
    M = M or module('calculator')
    c = M.BaseCalculator.__new__(M.BaseCalculator)
    c.device = Dev()
    c._parse_text = lambda n, s=None: SInt(PARSED(n.ghost['id'].e))
    c._same_text = lambda a, b: SBool(PARSED(a.ghost['id'].e) == PARSED(b.ghost['id'].e))
    return c


def kids_of(keytags):
    """children of a list entry: one for each key, and any others"""
    return [node('key', tag=k) for k in keytags] + [Seg(lambda: node('grandchild'), excl=[Pred(('tag', k), lambda x, k=k: eqv(x.tag, k)) for k in keytags])]


def children(parent, keytags):
    return Seg(lambda: node('child', parent=parent, kids=kids_of(keytags)))


def uid(n, ftype, keytags):
    """what identifies a child among its siblings: its tag; for a leaf-list entry also its value; for a list
    entry also the values of its keys"""
    if ftype == 'leaf-list':
        return SInt(PARSED(n.ghost['id'].e))
    if ftype == 'list':
        return tuple(SInt(PARSED(n.find(k).ghost['id'].e)) for k in keytags)
    return None


def pair_h(ftype, nkeys, second):
    def h(c):
        cal = calc()
        keytags = ['{urn:m}key%d' % i for i in range(nkeys)]
        patch(module('calculator').BaseCalculator, '_get_list_keys', lambda self, s: VList(keytags))
        A, B = node('A'), node('B')
        f = children(A, keytags).draw()
        A.kids.items = [children(A, keytags), f, children(A, keytags)]
        g = node('g', tag=f.tag, parent=B, kids=kids_of(keytags))
        B.kids.items = [children(B, keytags), g, children(B, keytags)] if second else [children(B, keytags)]
        assume(SNode(f.tag).is_('type', ftype))
        o = outcome(cal._pair_children, A, B)
        if not o.returned():
            prove('only config errors', o[1] == 'ConfigError', o[1:])
            return
        cover('returns')
        items = o.value.norm()
        mine = [p for p in items if not isinstance(p, Seg) and p[0] is f]
        prove('each child of the first node is in one pair', len(mine) == 1, len(mine))
        if second:
            if bool(eqv(uid(f, ftype, keytags), uid(g, ftype, keytags))):
                prove('children with the same identity are paired', mine[0][1] is g)
                cover('paired')
            else:
                prove('children with different identity are not paired', mine[0][1] is not g)
                cover('not paired')
        else:
            x = mine[0][1]
            if x is not None:
                prove('the peer is a child of the second node', x.parent is B)
                prove('the peer has the same tag', eqv(x.tag, f.tag))
                prove('the peer has the same identity', eqv(uid(x, ftype, keytags), uid(f, ftype, keytags)))
                cover('some peer')
            else:
                cover('no peer')
            other = [p for p in items if isinstance(p, Seg)]
            i = choose(*range(len(other) + 1))
            if i:
                prove('each child of the first node is in no other pair', other[i - 1].draw()[0] is not f)
    h.__module__ = __name__
    if second:
        h.covers = ('returns', 'paired') + (() if ftype in ('leaf', 'container') else ('not paired',))
    else:
        h.covers = ('some peer', 'no peer')
    harness('calculator.BaseCalculator._pair_children', 'pairing of a %s%s%s' % (ftype, ', %d keys' % nkeys if ftype == 'list' else '', ' with peer' if second else ''),
            max_paths=30000, max_time=280)(h)


for second in (True, False):
    for t, n in (('leaf', 1), ('leaf-list', 1), ('container', 1), ('list', 1), ('list', 2)):
        pair_h(t, n, second)


# ------------------------------------------------------------------ _node_le against the contracts of its callees
def fnode(label, parent=None, **k):
    e = node(label, parent=parent, **k)
    e.attrib = FnAttr(e.ghost['id'])
    return e


def loose(parent, tag=None):
    e = Loose(tag, label='child', parent=parent)
    e.ghost['id'] = SInt(core.CTX.fresh('node', z3.IntSort()))
    e.attrib = FnAttr(e.ghost['id'])
    e.like = lambda: loose(parent, e.tag)
    return e


def fkids(parent, excl=()):
    return Seg(lambda: loose(parent), excl=excl)


def peer(e, B):
    """contract of _pair_children / _get_peers: at most one child of B has the identity of e"""
    if 'peer' not in e.ghost:
        e.ghost['peer'] = loose(B, e.tag) if choose(True, False) else None
    return e.ghost['peer']


def le_setting(cal, A, B, good=None):
    le = type(cal)._node_le

    def pairs(self, a, b):
        if a is A and b is B:
            return VList([rt.mapseg(x, lambda m: (m, peer(m, B))) if isinstance(x, Seg) else (x, peer(x, B)) for x in A.kids.norm()]
                         + [Seg(lambda: (None, fkids(B).draw()))])
        raise Unsupported('pairs of other nodes')

    def node_le(self, a, b):
        if a is A and b is B:
            return le(self, a, b)
        prove('compares children with their peers', b is a.ghost.get('peer', 0))
        return SBool(LE(a.ghost['id'].e, b.ghost['id'].e))
    K = module('calculator').BaseCalculator
    patch(K, '_pair_children', pairs)
    patch(K, '_node_le', node_le)
    patch(K, '_get_peers', lambda self, e, b: VList([] if peer(e, b) is None else [peer(e, b)]))


def ident(e):
    return e.ghost['id'].e


def le_h(what):
    def h(c):
        cal = calc()
        A, B = fnode('A', text=LAZY, tail=LAZY), fnode('B', text=LAZY, tail=LAZY)
        f, g = fnode('f', parent=A), fnode('g', parent=B)
        g._tag = f._tag
        A.kids.items = [fkids(A), f, fkids(A)]
        B.kids.items = [fkids(B), g, fkids(B)]
        f.ghost['peer'] = g if what != 'child without peer' else None
        if what == 'attributes':
            a = fstr('attribute')
            A.attrib.focus(a)
            A.kids.items = B.kids.items = []
        if what in ('scalars',):
            A.kids.items = B.kids.items = []
        if what == 'order':
            e = fnode('e', parent=A)
            e._tag = f._tag
            e2 = fkids(A, excl=[Pred(('same tag',), lambda x: eqv(x.tag, f.tag))])
            A.kids.items = [fkids(A), e, e2, f, fkids(A)]
            assume(SNode(f.tag).is_('ordered-by', 'user'))
            assume(or_(SNode(f.tag).is_('type', 'list'), SNode(f.tag).is_('type', 'leaf-list')))
            where = choose('none', 'before', 'after')
            if where == 'none':
                e.ghost['peer'] = None
            else:
                x = e.ghost['peer'] = fnode('peer of e', parent=B)
                x._tag = f._tag
                B.kids.items = [fkids(B)] + ([x, fkids(B), g] if where == 'before' else [g, fkids(B), x]) + [fkids(B)]
        le_setting(cal, A, B)
        o = outcome(cal._node_le, A, B)
        prove('decides', o.returned(), o)
        r = bool(o.value)
        cover(str(r))
        if not r:
            return
        if what == 'scalars':
            prove('true only with the same tag', eqv(A.tag, B.tag))
            prove('true only with the same text', SBool(PARSED(ident(A)) == PARSED(ident(B))))
        elif what == 'attributes':
            prove('true only if each attribute is present on the other side', B.attrib.has(a))
            prove('true only if each attribute has the same value', eqv(A.attrib.val(a), B.attrib.val(a)))
        elif what == 'child without peer':
            prove('true only if each child has a peer', False)
        elif what == 'child':
            prove('true only if each child is less or equal its peer', SBool(LE(ident(f), ident(g))))
        elif what == 'order':
            prove('true only if each user-ordered entry follows the peer of its predecessor', where == 'before', where)
    h.__module__ = __name__
    h.covers = ('True', 'False') if what != 'child without peer' else ('False',)
    harness('calculator.BaseCalculator._node_le', 'le of a node, ' + what, max_paths=60000, max_time=850)(h)


for w in ('scalars', 'attributes', 'child', 'child without peer', 'order'):
    le_h(w)


# ------------------------------------------------------------------ completeness: nothing missing means less or equal
def complete_h(ordered):
    def h(c):
        cal = calc()
        A, B = fnode('A', text=None, tail=None), fnode('B', text=None, tail=None)
        B._tag = A._tag
        assume(SBool(PARSED(ident(A)) == PARSED(ident(B))))
        f, g = fnode('f', parent=A), fnode('g', parent=B)
        g._tag = f._tag

        def kids(p):
            def mk():
                e = loose(p)
                assume(SNode(e.tag).is_('ordered-by', None))
                if p is A:
                    b = e.ghost['peer'] = loose(B, e.tag)
                    assume(SBool(LE(ident(e), ident(b))))
                return e
            return Seg(mk)
        A.kids.items = [kids(A), f, kids(A)]
        B.kids.items = [kids(B), g, kids(B)]
        f.ghost['peer'] = g
        assume(SBool(LE(ident(f), ident(g))))
        if ordered:
            assume(SNode(f.tag).is_('ordered-by', 'user'))
            e, x = fnode('e', parent=A), fnode('x', parent=B)
            e._tag = x._tag = f._tag
            e.ghost['peer'] = x
            assume(SBool(LE(ident(e), ident(x))))
            A.kids.items = [kids(A), e, kids(A), f, kids(A)]
            B.kids.items = [kids(B), x, kids(B), g, kids(B)]
        n = fstr('name')

        def mk():
            n = fstr('attr')
            assume(A.attrib.has(n))
            assume(B.attrib.has(n))
            assume(eqv(A.attrib.val(n), B.attrib.val(n)))
            return n
        A.attrib.given = [Seg(mk)]
        le_setting(cal, A, B)
        o = outcome(cal._node_le, A, B)
        prove('decides', o.returned(), o)
        prove('a node whose whole content is in the other is less or equal', bool(o.value))
        cover('reached')
    h.__module__ = __name__
    h.covers = ('reached',)
    harness('calculator.BaseCalculator._node_le', 'nothing missing' + (', user-ordered' if ordered else ''), max_paths=30000)(h)


complete_h(False)
complete_h(True)


@harness('calculator.BaseCalculator._node_le', 'reflexive')
def reflexive(c):
    cal = calc()
    A = fnode('A', text=LAZY, tail=LAZY)
    mk = lambda: fnode('child', parent=A)
    A.kids.items = [Seg(mk)]
    le = type(cal)._node_le
    K = module('calculator').BaseCalculator
    patch(K, '_pair_children', lambda self, a, b: VList([rt.mapseg(x, lambda m: (m, m)) if isinstance(x, Seg) else (x, x) for x in a.kids.norm()]))
    patch(K, '_get_peers', lambda self, e, b: VList([e]))
    patch(K, '_node_le', lambda self, a, b: le(self, a, b) if a is A else True)          # induction hypothesis
    o = outcome(cal._node_le, A, A)
    prove('a node is less or equal itself', o.returned() and bool(o.value), o)
    cover('reached')


reflexive.covers = ('reached',)


@harness('calculator.BaseCalculator._node_le', 'lemma: order of user-ordered entries is transitive')
def order_lemma(c):
    """_node_le demands that neighbours of the first config keep their order in the second (contract above); by
    induction all entries do, so inclusion composes"""
    p = z3.Function('position', z3.IntSort(), z3.IntSort())
    i, j = core.CTX.fresh('i', z3.IntSort()), core.CTX.fresh('j', z3.IntSort())
    assume(SBool(z3.And(i < j, p(j) < p(j + 1))))
    prove('base: neighbours keep their order', SBool(z3.Implies(z3.And(i + 1 == j, p(i) < p(i + 1)), p(i) < p(j))))
    assume(SBool(p(i) < p(j)))
    prove('step: order of distant entries', SBool(p(i) < p(j + 1)))
    cover('reached')


# ------------------------------------------------------------------ peers
@harness('calculator.BaseCalculator._is_peer')
def is_peer(c):
    cal = calc()
    k = fstr('key')
    a, b = node('a', kids=[Seg(lambda: node('x'))]), node('b', kids=[Seg(lambda: node('y'))])
    o = outcome(cal._is_peer, VList([Seg(lambda: fstr('k')), k, Seg(lambda: fstr('k'))]), a, b)
    if o.returned():
        if bool(o.value):
            prove('peers have the same value for each key', SBool(PARSED(ident(a.find(k))) == PARSED(ident(b.find(k)))))
            cover('peer')
        else:
            cover('other')
    else:
        prove('only config errors', o[1] == 'ConfigError', o)


is_peer.covers = ('peer', 'other')


@harness('calculator.BaseCalculator._is_peer', 'complete')
def is_peer_complete(c):
    cal = calc()
    S = z3.Function('keyvalue', z3.StringSort(), z3.IntSort())

    def entry(label):
        def mk():
            e = node('x')
            assume(SBool(PARSED(ident(e)) == S(zstr(e.tag))))
            return e
        return node(label, kids=[Seg(mk)])
    o = outcome(cal._is_peer, VList([Seg(lambda: fstr('k'))]), entry('a'), entry('b'))
    if o.returned():
        prove('entries with the same key values are peers', bool(o.value))
        cover('returned')
    else:
        prove('only config errors', o[1] == 'ConfigError', o)


is_peer_complete.covers = ('returned',)


def get_peers_h(t):
    def h(c):
        cal = calc()
        PEER = z3.Function('ispeer', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        K = module('calculator').BaseCalculator
        keys = VList([])
        patch(K, '_get_list_keys', lambda self, s: keys)
        patch(K, '_is_peer', lambda self, ks, a, b: SBool(PEER(ident(a), ident(b))))
        P, Q = node('P'), node('Q')
        a, g = node('a', parent=P), node('g', parent=Q)
        mk = lambda: node('x', parent=Q)
        Q.kids.items = [Seg(mk), g, Seg(mk)]
        assume(SNode(a.tag).is_('type', t))
        o = outcome(cal._get_peers, a, Q)
        prove('decides', o.returned(), o)
        found = any(x is g for x in o.value.norm())
        same = eqv(a.tag, g.tag)
        if t == 'list':
            same = and_(same, SBool(PEER(ident(a), ident(g))))
        elif t == 'leaf-list':
            same = and_(same, SBool(PARSED(ident(a)) == PARSED(ident(g))))
        prove('exactly the children with the same identity', same if found else not_(same))
        cover(str(found))
    h.__module__ = __name__
    h.covers = ('True', 'False')
    harness('calculator.BaseCalculator._get_peers', 'peers of a ' + t)(h)


for t in ('leaf', 'container', 'leaf-list', 'list'):
    get_peers_h(t)


# ------------------------------------------------------------------ the operators
class Obj_:
    pass


def operators(c):
    M, K = module('config'), module('calculator').BaseCalculator
    A, B = node('A'), node('B')
    patch(K, '_node_le', lambda self, a, b: bool(SBool(LE(ident(a), ident(b)))))
    a, b = M.Config.__new__(M.Config), M.Config.__new__(M.Config)
    a.ele, b.ele, a.device, b.device = A, B, Dev(), Dev()
    ab, ba = SBool(LE(ident(A), ident(B))), SBool(LE(ident(B), ident(A)))
    return M, a, b, ab, ba


def op_h(op, spec):
    def h(c):
        M, a, b, ab, ba = operators(c)
        o = outcome(getattr(M.Config, op), a, b)
        prove('decides', o.returned(), o)
        r = bool(o.value)
        e = spec(ab, ba)
        prove('%s agrees with inclusion' % op, e if r else not_(e))
        for other in (None, 1, 'x', Obj_()):
            o = outcome(getattr(M.Config, op), a, other)
            prove('comparing with anything else raises TypeError', o[0] == 'raise' and o[1] == 'TypeError', o)
        cover(str(r))
    h.__module__ = __name__
    h.covers = ('True', 'False')
    harness('config.Config.' + op, 'operator ' + op)(h)


for _op, _sp in (('__le__', lambda x, y: x), ('__ge__', lambda x, y: y), ('__eq__', lambda x, y: and_(x, y)),
                 ('__ne__', lambda x, y: not_(and_(x, y))), ('__lt__', lambda x, y: and_(x, not_(y))), ('__gt__', lambda x, y: and_(y, not_(x)))):
    op_h(_op, _sp)


@harness('config.Config.__bool__')
def truth(c):
    M, K = module('config'), module('calculator').BaseCalculator
    a = M.Config.__new__(M.Config)
    a.device = Dev()
    a.ele = node('A', kids=[Seg(lambda: node('x'))])

    def init(self, device, config=None, validate=True):
        prove('compares with the empty config', config is None)
        self.device, self.ele = device, node('empty')
    patch(M.Config, '__init__', init)
    # contract of the comparison: a config equals the empty one exactly when it has no node
    patch(K, '_node_le', lambda self, x, y: not bool(x.kids))
    o = outcome(bool, a)
    prove('a config is falsy exactly when it has no node', o.returned() and o.value == bool(a.ele.kids), o)
    cover(str(o.value))


truth.covers = ('True', 'False')
