"""C07: filtering keeps the matches, their ancestors, the keys on the way, and nothing else."""
from pyvc.contract import *
from contracts.c04 import node, ident, Dev
from contracts.c06 import cfg, lchild, Dev6

MATCH = z3.Function('match', z3.IntSort(), z3.BoolSort())         # matched by the expression
ABOVE = z3.Function('above', z3.IntSort(), z3.BoolSort())         # an ancestor of a match


class NodeSet:
    """an unknown set of nodes: membership is a function of the node"""

    def __init__(self, f):
        self.f = f

    def __contains__(self, n):
        return bool(SBool(self.f(ident(n))))


class Known(Dev):
    def get_schema_node(self, n):
        return SNode(n.tag, concrete=True)


def lazy_kids(n):
    n.kids.items = [Seg(lambda: lchild(n))]


def child_h(where, t):
    """what happens to a child of an ancestor of a match"""
    def h(c):
        M, cf = cfg()
        cf.device = Known()
        c.widen = True
        real = M.Config._node_filter
        A = node('node', tag=M.config_tag if where == 'root' else None)
        if where != 'root':
            assume(not_(eqv(A.tag, M.config_tag)))
            assume(SNode(A.tag).is_('type', where))
        f = node('child', parent=A)
        if t != 'leaf':
            assume(not_(eqv(f.tag, M.config_tag)))
        S = SNode(f.tag)
        assume(S.is_('type', t))
        calls = []

        def nf(self, n, ancestors, filtrates):
            if n is A:
                return real(self, n, ancestors, filtrates)
            if n is f:
                prove('the search goes on with the same matches', ancestors is ups and filtrates is hits)
                calls.append(n)
                assume_contract(n, self)
            else:
                assume_contract(n, self)
        def assume_contract(n, self):
            """contract of the recursive call: a match stays as it is; an ancestor stays; anything else goes"""
            if n in hits or n in ups:
                return
            n.getparent().remove(n)
        patch(M.Config, '_node_filter', nf)
        ups, hits = NodeSet(ABOVE), NodeSet(MATCH)
        A.kids.items = [Seg(lambda: lchild(A)), f, Seg(lambda: lchild(A))]
        assume(SBool(ABOVE(ident(A))))
        assume(not_(SBool(MATCH(ident(A)))))
        r = outcome(cf._node_filter, A, ups, hits)
        prove('returns', r.returned(), r)
        if not r.returned():
            return
        match, up = f in hits, f in ups
        key = where == 'list' and bool(S.is_('is_key', 'true'))
        kept = any(x is f for x in A.kids.norm())
        want = match or up or key
        cover('kept' if want else 'dropped')
        prove('it is kept exactly if it is a match, above a match, or a key of an entry above a match', kept == want, (kept, match, up, key))
        if kept and up and not match and not key:
            prove('the search goes on below an ancestor of a match', len(calls) == 1, len(calls))
            cover('goes on')
        if match:
            prove('a match keeps its whole subtree', not calls)
    h.__module__ = __name__
    h.covers = ('kept', 'dropped', 'goes on')
    harness('config.Config._node_filter', 'a %s below a %s above a match' % (t, where), max_paths=30000, max_time=200)(h)


for _w in ('root', 'container', 'list'):
    for _t in ('leaf', 'leaf-list', 'container', 'list'):
        child_h(_w, _t)


@harness('config.Config._node_filter', 'a node itself')
def itself(c):
    M, cf = cfg()
    cf.device = Known()
    c.widen = True
    P = node('parent')
    A = node('node', parent=P)
    P.kids.items = [Seg(lambda: lchild(P)), A, Seg(lambda: lchild(P))]
    g = node('below', parent=A)
    A.kids.items = [g]
    ups, hits = NodeSet(ABOVE), NodeSet(MATCH)
    assume(or_(SBool(MATCH(ident(A))), not_(SBool(ABOVE(ident(A))))))
    r = outcome(cf._node_filter, A, ups, hits)
    prove('returns', r.returned(), r)
    if A in hits:
        prove('a match stays with everything below it', any(x is A for x in P.kids.norm()) and len(A.kids.items) == 1 and A.kids.items[0] is g)
        cover('match')
    else:
        prove('what is neither a match nor above one goes', not any(x is A for x in P.kids.norm()))
        cover('other')


itself.covers = ('match', 'other')


@harness('config.Config.filter', 'filter')
def filt(c):
    M = module('config')
    me = M.Config.__new__(M.Config)
    me.device, me.ele = Dev6(), node('config', tag=M.config_tag)
    copy = node('copy', tag=M.config_tag)
    log = []

    def init(self, dev, config=None, *a, **k):
        log.append(('new', dev, config, a, k))
        self.device, self.ele = dev, config
    patch(M.Config, '__init__', init)
    patch(M, 'deepcopy', lambda x: copy if x is me.ele else unknown())
    patch(M.Config, '_node_filter', lambda self, n, ancestors, filtrates: log.append(('filter', n, ancestors, filtrates)))

    def unknown():
        raise Unsupported('copy of something else')

    def hit():
        p = node('up', parent=copy)
        p.ghost['role'] = 'up'
        e = node('hit', parent=p)
        e.ghost['role'] = 'hit'
        return e
    f = hit()
    kind = choose('nodes', 'mixed', 'strings', 'none', 'number')
    res = {'nodes': VList([Seg(hit), f, Seg(hit)]), 'mixed': VList([Seg(lambda: fstr('text')), f, Seg(hit)]), 'strings': VList([Seg(lambda: fstr('text'))]),
           'none': VList([]), 'number': 3.0}[kind]
    args = ('//x',)
    kw = choose({}, {'namespaces': {'a': 'urn:a'}})

    def xpath(self, *a, **k):
        log.append(('xpath', self, a, k))
        return res
    patch(M.Config, 'xpath', xpath)
    r = outcome(me.filter, *args, **kw)
    prove('returns', r.returned(), r)
    if not r.returned():
        return
    new = [x for x in log if x[0] == 'new']
    prove('a new config is made from a copy', len(new) == 1 and new[0][1] is me.device and new[0][2] is copy and r.value is not me, new)
    xs = [x for x in log if x[0] == 'xpath']
    prove('the expression is evaluated once, on the copy', len(xs) == 1 and xs[0][1] is r.value and xs[0][2] == args and xs[0][3] == kw, xs)
    fl = [x for x in log if x[0] == 'filter']
    if kind in ('nodes', 'mixed'):
        prove('the copy is filtered once from the root', len(fl) == 1 and fl[0][1] is copy and r.value.ele is copy, fl)
        if len(fl) == 1:
            up, hits = fl[0][2], fl[0][3]
            prove('every match is kept', f in hits)
            prove('every ancestor of a match is kept', f.parent in up and copy in up)
            for x in VSet(hits).norm():
                x = x.draw() if isinstance(x, Seg) else x
                prove('nothing else counts as a match', isinstance(x, SymElem) and x.ghost.get('role') == 'hit', x)
            for x in VSet(up).norm():
                x = x.draw() if isinstance(x, Seg) else x
                prove('nothing else counts as an ancestor', isinstance(x, SymElem) and (x is copy or x.ghost.get('role') == 'up'), x)
        cover('some')
    elif kind == 'number':
        prove('the result is not filtered by a value', not fl and r.value.ele is copy)
    else:
        prove('no match gives an empty config', not fl and eqv(r.value.ele.tag, M.config_tag) and not r.value.ele.kids.norm() and r.value.ele is not copy)
        cover('none')
    prove('the config itself stays', me.ele.tag is not None and me.ele is not r.value.ele and not me.ele.kids.items)


filt.covers = ('some', 'none')


@harness('config.Config.xpath', 'evaluation of an expression')
def xpath(c):
    M, cf = cfg()
    log = []

    class Ele:
        def xpath(self, *a, **k):
            log.append((a, k))
            return 'result'
    cf.ele = Ele()
    p1, p2 = fstr('prefix'), choose(fstr('prefix'), None)
    if p2 is not None:
        assume(not_(eqv(p1, p2)))
    u1, u2 = fstr('url'), fstr('url')
    cf.device.namespaces = VList([(fstr('name'), p1, u1), (fstr('name'), p2, u2)])
    own = choose(True, False)
    kw = {'namespaces': VDict([('a', 'urn:a')])} if own else {}
    r = outcome(cf.xpath, '//x', **kw)
    prove('the expression is evaluated on the config', r.returned() and r.value == 'result' and len(log) == 1 and log[0][0] == ('//x',), r)
    if len(log) == 1 and r.returned():
        ns = log[0][1].get('namespaces')
        if own:
            prove('given prefixes are used', ns is kw['namespaces'])
        else:
            prove('the prefixes of the device are known', ns is not None and p1 in ns and eqv(ns[p1], u1) and (p2 is None or p2 in ns and eqv(ns[p2], u2)))
            prove('no prefix is missing its name', ns is not None and not any(k[0] is None for k in ns.norm()))
