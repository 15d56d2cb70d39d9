"""C02: NETCONF operation semantics of applying an edit."""
from pyvc.contract import *

ALSO = [('C10', ('_same_text', '_parse_text', '_merge_text'))]          # callees whose contracts are assumed here
from contracts.c04 import node, ident, Dev, PARSED, loose
from contracts.c03 import calc, entry, members, copy, stubs, undisturbed, setting as place_setting, OP, INSERT

UNKNOWN = 'some unknown operation'


def op_h(t, peer):
    fn = '_node_add_%s_peer_%s' % ('with' if peer else 'without', t.replace('-', ''))

    def h(c):
        M, K, cal = calc()
        P, Q = node('parent'), node('edit')
        o = entry(Q, label='node of the edit', open=True)
        Q.kids.items = [o]
        assume(SNode(o.tag).is_('type', t))
        s = entry(P, o.tag, 'node of the config') if peer else None
        kids = [members(P), s, members(P)] if peer else [members(P)]
        P.kids.items = list(kids)
        if peer:
            op = choose(None, 'merge', 'replace', 'create', 'delete', 'remove', UNKNOWN)
        else:
            op = choose(None, 'merge', 'replace', 'create')
        if op == UNKNOWN:
            op = fstr('operation')
            for x in ('merge', 'replace', 'create', 'delete', 'remove'):
                assume(not_(eqv(op, x)))
        o.attrib.known[OP] = op
        o.attrib.known[INSERT] = None               # placement is C03
        log = []
        stubs(M, K, None, log)
        patch(K, '_get_list_keys', lambda self, sn: VList([]))
        r = outcome(getattr(cal, fn), *((s, o) if peer else (P, o)))
        now = P.kids.norm()
        if peer:
            if isinstance(op, SStr) or op == 'create':
                prove('creating an existing node or an unknown operation raises a config-delta error', r[0] == 'raise' and r[1] == 'ConfigDeltaError', r)
                cover('error')
                return
            prove('returns', r.returned(), r)
            if op in ('delete', 'remove'):
                prove('the node is taken away', not any(x is s for x in now))
                undisturbed('delete', P, kids, s)
                cover('deleted')
            elif t in ('leaf', 'leaf-list') or op != 'replace':
                prove('the node stays', len([x for x in now if x is s]) == 1)
                undisturbed('merge', P, kids)
                if t == 'leaf':
                    prove('the value is taken from the edit', ('text', o, s) in log, log)
                if t in ('container', 'list'):
                    prove('merges the content once', [x for x in log if x[0] == 'add'] == [('add', s, o)], log)
                cover('merged')
            else:
                cp = [x[2] for x in log if x[0] == 'copy']
                new = [x for x in now if x in cp]
                prove('the subtree is replaced by a copy of that of the edit', len(new) == 1 and new[0].ghost['copy of'] is o and not any(x is s for x in now))
                prove('the copy carries no edit attributes', ('clean', new[0]) in log)
                prove('values are carried over', ('texts', o, new[0]) in log)
                i, j = now.index(new[0]), kids.index(s)
                prove('at the place of the old one', i == j and len(now) == len(kids))
                undisturbed('replace', P, kids, s, new[0])
                cover('replaced')
        else:
            prove('returns', r.returned(), r)
            new = [x for x in now if isinstance(x, SymElem) and x.label != 'sibling']
            prove('the node is added once', len(new) == 1, new)
            e = new[0]
            prove('the new node has the name of the edited one', eqv(e.tag, o.tag))
            undisturbed('add', P, kids, e)
            if t in ('leaf', 'leaf-list') or op in ('replace', 'create'):
                prove('it is a copy of that of the edit', e.ghost.get('copy of') is o)
                prove('the copy carries no edit attributes', ('clean', e) in log)
                prove('values are carried over', ('texts', o, e) in log)
            else:
                prove('a merged subtree is built by adding the content of the edit', [x for x in log if x[0] == 'add'] == [('add', e, o)], log)
                prove('and starts without attributes', not e.attrib.names())
            cover('added')
    h.__module__ = __name__
    if peer:
        h.covers = ('error', 'deleted', 'merged') + (('replaced',) if t in ('container', 'list') else ())
    else:
        h.covers = ('added',)
    harness('netconf.NetconfCalculator.' + fn, 'operations on a ' + t)(h)


for _t in ('leaf', 'leaf-list', 'container', 'list'):
    for _p in (True, False):
        op_h(_t, _p)


# ------------------------------------------------------------------ node_add: one step per node of the edit
def add_h(peer, t):
    def h(c):
        M, K, cal = calc()
        cal.device.get_schema_node = lambda n: SNode(n.tag, concrete=True)
        P, Q = node('config'), node('edit')
        o = entry(Q, label='node of the edit', open=True)
        if peer:
            op = None
            o.attrib.known[OP] = None
        else:
            op = choose(None, 'merge', 'replace', 'create', 'delete', 'remove', UNKNOWN)
            if op == UNKNOWN:
                op = fstr('operation')
                for x in ('merge', 'replace', 'create', 'delete', 'remove'):
                    assume(not_(eqv(op, x)))
            o.attrib.known[OP] = op
        def edit():
            x = entry(Q, label='other node of the edit', open=True)
            assume(not_(eqv(x.ghost['id'], o.ghost['id'])))
            return x
        assume(SNode(o.tag).is_('type', t))
        s = entry(P, o.tag, 'node of the config', kids=[Seg(lambda: node('kid'))]) if peer else None
        g = entry(P, label='bystander')
        Q.kids.items = [Seg(edit), o, Seg(edit)]
        P.kids.items = [Seg(lambda: loose(P))] + [g] + ([s] if peer else []) + [Seg(lambda: loose(P))]
        calls = []
        handler = {}
        for x in ('leaf', 'leaflist', 'container', 'list'):
            def w(self, a, b, x=x):
                if b is o:
                    calls.append(('with', x, a))
            def wo(self, a, b, x=x):
                if b is o:
                    calls.append(('without', x, a))
            patch(K, '_node_add_with_peer_' + x, w)
            patch(K, '_node_add_without_peer_' + x, wo)
        cases = []
        patch(K, '_remove_other_cases', lambda self, a, b: cases.append((a, b)) if b is o else None)

        def group(self, a, b):
            prove('children of config and edit are matched', a is P and b is Q)
            def pair():
                x = edit()
                assume(not_(eqv(x.ghost['id'], o.ghost['id'])))
                return loose(P, x.tag), x
            both = [Seg(pair)]
            return (VList([g]), VList([Seg(edit)] + ([o] if not peer else [])), VList(both + ([(s, o)] if peer else [])))
        patch(K, '_group_kids', group)
        r = outcome(cal.node_add, P, Q)
        if not r.returned():
            prove('only config-delta errors', r[1] == 'ConfigDeltaError', r)
            cover('error')
            return
        kind = t.replace('-', '')
        if peer:
            prove('a node that exists is handled by the operation on it, once', calls == [('with', kind, s)], calls)
            there = any(x is s for x in P.kids.norm())
            empty = not bool(s.kids)
            np = and_(SNode(s.tag).is_('type', 'container'), SNode(s.tag).is_('presence', None))
            if there:
                prove('no empty non-presence container is left behind', or_(not empty, not_(np)))
            else:
                prove('only an empty non-presence container goes', and_(empty, np))
        elif isinstance(op, SStr) or op == 'delete':
            prove('deleting an absent node or an unknown operation raises a config-delta error', False)
        elif op == 'remove':
            prove('removing an absent node is a no-op', not calls, calls)
        else:
            prove('a node that does not exist is added, once', calls == [('without', kind, P)], calls)
        prove('the bystander stays', any(x is g for x in P.kids.norm()))
        prove('other cases of its choice are dealt with', cases == [(P, o)], cases)
        cover('returns')
    h.__module__ = __name__
    h.covers = ('returns',) + (('error',) if not peer else ())
    harness('netconf.NetconfCalculator.node_add', '%s %s' % ('existing' if peer else 'absent', t))(h)


for _t in ('leaf', 'leaf-list', 'container', 'list'):
    for _p in (True, False):
        add_h(_p, _t)



# ------------------------------------------------------------------ choices
class SN:
    """a node of the schema"""

    def __init__(self, type, parent=None):
        self.type, self.parent = type, parent

    def get(self, a, d=None):
        return self.type if a == 'type' else d

    def getparent(self):
        return self.parent


def places():
    """data nodes below one node: in none, one or two choices, one within the other"""
    top = SN('container')
    C = SN('choice', top)
    c1, c2 = SN('case', C), SN('case', C)
    E = SN('choice', top)
    e1 = SN('case', E)
    D = SN('choice', c1)
    d1, d2 = SN('case', D), SN('case', D)
    F = SN('choice', c2)
    f1 = SN('case', F)
    way = {'none': (top, {}), 'c1': (c1, {C: c1}), 'c2': (c2, {C: c2}), 'e1': (e1, {E: e1}), 'd1': (d1, {D: d1, C: c1}), 'd2': (d2, {D: d2, C: c1}), 'f1': (f1, {F: f1, C: c2})}
    return {k: (SN('leaf', p), w) for k, (p, w) in way.items()}


def cases_h(mine):
    def h(c):
        M, K, cal = calc()
        P = places()
        A = node('sum')
        f, o, g = node('focus', parent=A), node('edit'), node('other', parent=A)
        at = choose(*sorted(P))
        gat = choose('none', 'c1', 'c2')
        A.kids.items = [Seg(lambda: node('elder', parent=A)), g, f, Seg(lambda: node('younger', parent=A))]
        op = choose(None, 'merge', 'create', 'replace', 'delete', 'remove')
        if op is not None:
            o.set(OP, op)
        there = choose(False, True)

        class D:
            def get_schema_node(self, n):
                return P[mine][0] if n is o else P[at][0] if n is f else P[gat][0] if n is g else P['none'][0]
        cal.device = D()

        def peers(self, ch, parent):
            prove('the node of the edit is looked for in the result', ch is o and parent is A)
            return VList([f] if there else [])
        patch(K, '_get_peers', peers)
        r = outcome(cal._remove_other_cases, A, o)
        prove('returns', r.returned(), r)
        here = any(x is f for x in A.kids.norm())
        clash = any(k in P[at][1] and P[at][1][k] is not v for k, v in P[mine][1].items())
        gone = clash and there and op not in ('delete', 'remove')
        cover('taken away' if gone else 'stays')
        prove('a node is taken away exactly if it is of another case of a choice of the node added', here == (not gone), (mine, at, op, there, here))
        prove('no child is added', len([x for x in A.kids.norm() if not isinstance(x, Seg)]) <= 2)
    h.__module__ = __name__
    h.covers = ('stays',) + (('taken away',) if mine != 'none' and mine != 'e1' else ())
    harness('netconf.NetconfCalculator._remove_other_cases', 'other cases of a node in %s' % mine, bound='choices nested at most twice', max_paths=20000)(h)


for _m in ('none', 'c1', 'd1', 'f1', 'e1'):
    cases_h(_m)


@harness('calculator.BaseCalculator._del_attrib', 'attributes are removed', bound='a node with one child, any attributes')
def del_attrib(c):
    M, K, cal = calc()
    n = node('node')
    k = node('kid', parent=n)
    n.kids.items = [k]
    for e in (n, k):
        for a in (OP, '{urn:x}a', 'b'):
            if choose(False, True):
                e.set(a, fstr('v'))
    t = (n.tag, n.text, k.tag, k.text)
    r = outcome(cal._del_attrib, n)
    prove('returns the node', r.returned() and r.value is n, r)
    prove('no attribute is left', all(v is None for e in (n, k) for v in e.attrib.known.values()), (n.attrib.known, k.attrib.known))
    prove('nothing else changes', n.kids.norm() == [k] and all(x is y or bool(eqv(x, y)) for x, y in zip(t, (n.tag, n.text, k.tag, k.text))))


# ------------------------------------------------------------------ copies
@harness('netconf.NetconfCalculator._copy_node', 'a copy of a node of the edit', replay=False)
def copy_node(c):
    M, K, cal = calc()
    N = node('node of the edit', parent=node('edit'))
    log = []

    def copy_element(parent, e):
        x = node('copy', tag=e.tag)
        log.append((e, x))
        parent.append(x)
    patch(M, '_copy_element', copy_element)
    r = outcome(cal._copy_node, N)
    prove('copying returns', r.returned(), r)
    prove('the node itself is copied, once', len(log) == 1 and log[0][0] is N)
    prove('the copy is returned', r.value is log[0][1])


def texts_h(shape):
    @harness('netconf.NetconfCalculator._merge_texts', 'tree %s' % (shape,), bound='trees of at most 5 nodes', replay=False)
    def h(c):
        M, K, cal = calc()

        def build(s, other=None):
            e = node('node', tag=None if other is None else other.tag)
            kids = [build(k, None if other is None else list(other.kids.items)[i]) for i, k in enumerate(s)]
            for k in kids:
                k.parent = e
            e.kids.items = kids
            e.ghost['peer'] = other
            return e
        a = build(shape)
        b = build(shape, a)
        log = []
        patch(K, '_merge_text', lambda self, x, y: log.append((x, y)))
        r = outcome(cal._merge_texts, a, b)
        prove('carrying texts returns', r.returned(), r)
        size = lambda s: 1 + sum(size(k) for k in s)
        prove('every text is carried once, to the node copied from it', len(log) == size(shape) and all(y.ghost['peer'] is x for x, y in log) and len({id(y) for _, y in log}) == size(shape), log)


for _s in ((), ((),), ((), ()), (((),), ()), ((), ((), ()))):
    texts_h(_s)
