"""C13: the diff of two models."""
from pyvc.contract import *
from contracts.c04 import node, fnode, ident, LE

EQ = z3.Function('model_equal', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def MD():
    return module('model').ModelDiff


def kid(parent, not_tag=()):
    def mk():
        e = fnode('other', parent=parent)
        for t in not_tag:
            assume(not_(eqv(e.tag, t)))
        return e
    return Seg(mk, name='others')


# ------------------------------------------------------------------ when two nodes agree
def less_h(what):
    def h(c):
        D = MD()
        c.widen = True
        A, B = fnode('A', text=LAZY), fnode('B', text=LAZY)
        f, g = fnode('f', parent=A), fnode('g', parent=B)
        g._tag = f._tag
        real = D.node_less

        def less(a, b):
            if a is A and b is B:
                return real(a, b)
            prove('children are compared with children of the same tag', b.parent is B and bool(eqv(a.tag, b.tag)))
            return SBool(LE(ident(a), ident(b)))
        patch(D, 'node_less', staticmethod(less))
        if what == 'scalars':
            pass
        elif what == 'attributes':
            a = fstr('attribute')
            A.attrib.focus(a)
        else:
            A.kids.items = [kid(A, [f.tag]), f, kid(A, [f.tag])]
            B.kids.items = [kid(B, [f.tag])] + ([g] if what != 'child without peer' else []) + [kid(B, [f.tag])]
        r = outcome(D.node_less, A, B)
        if not r.returned():
            prove('only names that are not unique fail', r[1] == 'ModelError', r)
            return
        v = bool(r.value)
        cover(str(v))
        if not v:
            return
        if what == 'scalars':
            prove('true only with the same tag', eqv(A.tag, B.tag))
            prove('true only with the same text', same(A.text, B.text))
        elif what == 'attributes':
            prove('true only if each attribute is present on the other side', B.attrib.has(a))
            prove('true only if each attribute has the same value', eqv(A.attrib.val(a), B.attrib.val(a)))
        elif what == 'child without peer':
            prove('true only if each child has a peer', False)
        else:
            prove('true only if each child is less or equal its peer', SBool(LE(ident(f), ident(g))))
    h.__module__ = __name__
    h.covers = ('True', 'False') if what != 'child without peer' else ('False',)
    harness('model.ModelDiff.node_less', 'node_less, ' + what)(h)


for _w in ('scalars', 'attributes', 'child', 'child without peer'):
    less_h(_w)


@harness('model.ModelDiff.node_less', 'node_less, nothing missing')
def less_complete(c):
    D = MD()
    c.widen = True
    A, B = fnode('A', text=None), fnode('B', text=None)
    B._tag = A._tag
    f, g = fnode('f', parent=A), fnode('g', parent=B)
    g._tag = f._tag
    real = D.node_less
    patch(D, 'node_less', staticmethod(lambda a, b: real(a, b) if a is A and b is B else SBool(LE(ident(a), ident(b)))))
    assume(SBool(LE(ident(f), ident(g))))
    A.kids.items = [f]
    B.kids.items = [kid(B, [f.tag]), g, kid(B, [f.tag])]

    def mk():
        n = fstr('attr')
        assume(A.attrib.has(n))
        assume(B.attrib.has(n))
        assume(eqv(A.attrib.val(n), B.attrib.val(n)))
        return n
    A.attrib.given = [Seg(mk)]
    r = outcome(D.node_less, A, B)
    prove('a node whose content is in the other is less or equal', r.returned() and bool(r.value), r)
    cover('reached')


less_complete.covers = ('reached',)


@harness('model.ModelDiff.node_equal', 'node_equal')
def node_equal(c):
    D = MD()
    a, b = node('a'), node('b')
    patch(D, 'node_less', staticmethod(lambda x, y: SBool(LE(ident(x), ident(y)))))
    r = outcome(D.node_equal, a, b)
    prove('returns', r.returned(), r)
    prove('equal exactly if each has what the other has', SBool(zbool(r.value) == z3.And(LE(ident(a), ident(b)), LE(ident(b), ident(a)))), r)
    cover('reached')


node_equal.covers = ('reached',)


def get_peer_h(n):
    @harness('model.ModelDiff.get_peer', 'get_peer, %d of that name' % n)
    def h(c):
        t = fstr('tag')
        P = fnode('parent')
        ks = [fnode('k%d' % i, parent=P) for i in range(n)]
        P.kids.items = [kid(P, [t])]
        for k in ks:
            k._tag = t
            P.kids.items += [k, kid(P, [t])]
        r = outcome(MD().get_peer, t, P)
        if n > 1:
            prove('a name that is not unique raises a model error', r[:2] == ('raise', 'ModelError'), r)
        else:
            prove('the child of that name, if there is one', r.returned() and r.value is (ks[0] if n else None), r)
        cover('reached')
    h.covers = ('reached',)


for _n in (0, 1, 2):
    get_peer_h(_n)


# ------------------------------------------------------------------ what the diff lists
def setting(c, A, B, R, peers):
    D = MD()
    log = []
    real = D.compare_nodes

    def cmp(a, b, r):
        if a is A and b is B and r is R:
            return real(a, b, r)
        log.append(('compare', a, b, r))

    def get_peer(tag, n):
        prove('peers are looked for on the other side', n is A or n is B)
        for x, y in peers:
            for mine, other, side in ((x, y, B), (y, x, A)):
                if mine is not None and mine._tag is tag and n is (A if mine.parent is B else B):
                    return other
        p = fnode('peer', parent=n, tag=tag) if bool(fbool('has peer')) else None
        return p

    def sub(r, e, msg):
        x = fnode('copy of a subtree')
        log.append(('subtree', e, msg, r))
        return x

    def copy(r, e, msg):
        x = fnode('copy of a node')
        log.append(('node', e, msg, r, x))
        return x
    patch(D, 'compare_nodes', staticmethod(cmp))
    patch(D, 'get_peer', staticmethod(get_peer))
    patch(D, 'node_equal', staticmethod(lambda a, b: SBool(EQ(ident(a), ident(b)))))
    patch(D, 'copy_subtree', staticmethod(sub))
    patch(D, 'copy_node', staticmethod(copy))
    return D, log


def typed(p):
    def mk():
        e = fnode('other', parent=p)
        e.attrib = VAttr(e, known={'type': fstr('type')})
        return e
    return Seg(mk, name='others')


def compare_h(what):
    def h(c):
        c.widen = True
        A, B, R = fnode('old'), fnode('new'), fnode('diff')
        old, new = fnode('old node', parent=A), fnode('new node', parent=B)
        new._tag = old._tag
        t = fstr('type')
        for x in (old, new):
            x.attrib = VAttr(x, known={'type': t})
        if what == 'added':
            peers = [(new, None)]
        elif what == 'deleted':
            peers = [(old, None)]
        else:
            peers = [(old, new)]
        if what in ('added', 'both'):
            B.kids.items = [typed(B), new, typed(B)]
        else:
            B.kids.items = [typed(B)]
        if what in ('deleted', 'both'):
            A.kids.items = [typed(A), old, typed(A)]
        else:
            A.kids.items = [typed(A)]
        if what == 'both' and choose(True, False):
            new.attrib.known['type'] = fstr('other type')          # not the same kind of node
            t = new.attrib.known['type']
        D, log = setting(c, A, B, R, peers)
        r = outcome(D.compare_nodes, A, B, R)
        prove('returns', r.returned(), r)
        mine = [x for x in log if any(y is old or y is new for y in x[1:3] if not isinstance(y, str))]
        leaf = bool(or_(eqv(t, 'leaf'), eqv(t, 'leaf-list')))
        if what == 'added':
            prove('a subtree only in the newer model is listed as added, once', len(mine) == 1 and mine[0][0] == 'subtree' and mine[0][1] is new and mine[0][2] == 'added' and mine[0][3] is R, mine)
            cover('added')
        elif what == 'deleted':
            prove('a subtree only in the older model is listed as deleted, once', len(mine) == 1 and mine[0][0] == 'subtree' and mine[0][1] is old and mine[0][2] == 'deleted' and mine[0][3] is R, mine)
            cover('deleted')
        elif bool(SBool(EQ(ident(old), ident(new)))):
            prove('what is the same in both is not listed', not mine, mine)
            cover('same')
        elif leaf:
            prove('a leaf that differs is listed as modified, once', len(mine) == 1 and mine[0][0] == 'node' and mine[0][1] is new and mine[0][2] == 'modified' and mine[0][3] is R, mine)
            cover('modified')
        else:
            ok = len(mine) == 2 and mine[0][0] == 'node' and mine[0][1] is new and mine[0][2] == '' and mine[0][3] is R \
                and mine[1][0] == 'compare' and mine[1][1] is old and mine[1][2] is new and mine[1][3] is mine[0][4]
            prove('an inner node that differs is listed without a mark, and its children are compared below it', ok, mine)
            cover('inner')
    h.__module__ = __name__
    h.covers = {'both': ('same', 'modified', 'inner')}.get(what, (what,))
    harness('model.ModelDiff.compare_nodes', 'compare_nodes, a node ' + {'both': 'in both'}.get(what, 'that is ' + what))(h)


for _w in ('added', 'deleted', 'both'):
    compare_h(_w)


KNOWN = ('type', 'access', 'mandatory', 'presence', 'values', 'key', 'is_key', 'prefix', 'datatype', 'if-feature', 'ordered-by', 'default')


def attrib_h(msg):
    @harness('model.ModelDiff.process_attrib', 'process_attrib, ' + (msg or 'no mark'), bound='nodes with the attributes that models use and two others')
    def h(c):
        E = fnode('element')

        def mk():
            e = fnode('below')
            e.attrib = VAttr(e, known={'type': fstr('type')})
            return e
        x = fnode('a node of the subtree')
        vals = {k: fstr(k) for k in KNOWN}
        x.attrib = VAttr(x, known=dict(vals, status=fstr('status'), when=fstr('when')))
        E.iter = lambda *a, **k: VList([Seg(mk), x, Seg(mk)])
        r = outcome(MD().process_attrib, E, msg)
        prove('returns the element', r.returned() and r.value is E, r)
        for k in KNOWN:
            prove('what describes a node stays', x.attrib.get(k) is vals[k], k)
        prove('nothing else stays', x.attrib.get('status') is None and x.attrib.get('when') is None)
        prove('every node of the subtree is marked', x.attrib.get('diff') == (msg or None), x.attrib.get('diff'))
        cover('reached')
    h.covers = ('reached',)


for _m in ('added', 'deleted', 'modified', ''):
    attrib_h(_m)


@harness('model.ModelDiff.copy_subtree', 'copy_subtree and copy_node')
def copies(c):
    D, M = MD(), module('model')
    R, e = fnode('diff'), fnode('element')
    k0 = kid(R)
    R.kids.items = [k0]
    e.attrib = VAttr(e, known={'type': fstr('type')})
    dup = fnode('copy')
    seen = []

    def pa(x, msg):
        seen.append((x, msg))
        return x
    patch(D, 'process_attrib', staticmethod(pa))
    patch(M, 'deepcopy', lambda x: dup if x is e else None)
    msg = choose('added', 'deleted', 'modified', '')
    whole = choose(True, False)
    r = outcome(D.copy_subtree if whole else D.copy_node, R, e, msg)
    prove('returns', r.returned(), r)
    x = r.value
    prove('a copy is added at the end', len(R.kids.items) == 2 and R.kids.items[0] is k0 and R.kids.items[1] is x and x is not e, R.kids.items)
    prove('with the mark', seen == [(x, msg)], seen)
    if whole:
        prove('the whole subtree', x is dup)
        cover('subtree')
    else:
        prove('the node alone, with its attributes', and_(eqv(x.tag, e.tag), len(x.kids.items) == 0, x.attrib.get('type') is e.attrib.get('type')))
        cover('node')


copies.covers = ('subtree', 'node')


TRIMMED = z3.Function('nothing_left', z3.IntSort(), z3.BoolSort())


def trim_h(msg):
    def h(c):
        D = MD()
        c.widen = True
        P = fnode('parent')
        f = fnode('child', parent=P)
        mark = choose('added', 'deleted', 'modified', None)
        f.attrib = VAttr(f, known={} if mark is None else {'diff': mark})
        real = D.trim

        def mk():
            e = fnode('other', parent=P)
            return e
        P.kids.items = [Seg(mk), f, Seg(mk)]
        log = []

        def trim(n, m):
            if n is P:
                return real(n, m)
            prove('the same marks are looked for below', m == msg)
            log.append(n)
            return SBool(TRIMMED(ident(n)))
        patch(D, 'trim', staticmethod(trim))
        r = outcome(D.trim, P, msg)
        prove('returns', r.returned(), r)
        kept = any(x is f for x in P.kids.norm())
        want = mark == msg or (mark is None and not bool(SBool(TRIMMED(ident(f)))))
        prove('a node stays exactly if it has the mark, or has no mark and something left below', kept == want, (kept, want, mark))
        prove('tells whether anything is left', bool(r.value) == (not P.kids) if not kept else not bool(r.value), r)
        cover('kept' if kept else 'gone')
    h.__module__ = __name__
    h.covers = ('kept', 'gone')
    harness('model.ModelDiff.trim', 'trim, ' + msg)(h)


for _m in ('added', 'deleted', 'modified'):
    trim_h(_m)


@harness('model.ModelDiff.__init__', '__init__ and truth')
def init(c):
    D, M = MD(), module('model')

    class Mo:
        def __init__(self, tag):
            self.tree = fnode('tree', tag=tag)
    same = choose('same object', 'same tag', 'other tag')
    a = Mo('model')
    b = a if same == 'same object' else Mo('model' if same == 'same tag' else 'other')
    added = choose(True, False)
    log = []

    def cmp(x, y, r):
        log.append((x, y, r))
        if added:
            r.append(fnode('difference'))
    patch(D, 'compare_nodes', staticmethod(cmp))
    r = outcome(D, a, b)
    if same == 'other tag':
        prove('different modules raise a value error', r[:2] == ('raise', 'ValueError'), r)
        cover('error')
        return
    prove('returns', r.returned(), r)
    d = r.value
    if same == 'same object':
        prove('a model agrees with itself', not bool(d))
        cover('itself')
        return
    prove('the older model is compared with the newer one', len(log) == 1 and log[0][0] is a.tree and log[0][1] is b.tree and log[0][2] is d.tree, log)
    prove('true exactly if something is listed', bool(d) == added)
    cover('compared')


init.covers = ('error', 'itself', 'compared')


def listed_h(what):
    @harness('model.ModelDiff.' + what, what)
    def h(c):
        D, M = MD(), module('model')
        d = D.__new__(D)
        d.tree, dup = fnode('tree'), fnode('copy')
        empty = choose(True, False)
        text = fstr('text')
        patch(M, 'deepcopy', lambda x: dup if x is d.tree else None)

        def trim(n, m):
            prove('the copy is reduced to what is ' + what, n is dup and m == what, (n, m))
            return empty
        patch(D, 'trim', staticmethod(trim))
        patch(D, 'emit_tree', lambda self, t: text if t is dup else None)
        r = outcome(lambda: getattr(d, what))
        prove('nothing, or the reduced tree as text', r.returned() and r.value is (None if empty else text), r)
        cover('empty' if empty else 'text')
    h.covers = ('empty', 'text')


for _w in ('added', 'deleted', 'modified'):
    listed_h(_w)
