"""C01: what makes the delta reproduce the destination."""
from pyvc.contract import *

ALSO = [('C10', ('_same_text', '_parse_text', '_merge_text'))]          # callees whose contracts are assumed here
from pyvc import contract
from contracts.c04 import node, ident, Dev, PARSED, loose
from contracts.c03 import calc, OP, INSERT, VALUE, KEY
from contracts.c17 import sub_setting, lmember, anynode, KEYS, delta

TXT = z3.Function('text_for', z3.IntSort(), z3.IntSort(), z3.StringSort())
PFX = z3.Function('prefixed', z3.IntSort(), z3.StringSort(), z3.StringSort())


QUO = z3.Function('quoted', z3.StringSort(), z3.StringSort())


def order_h(fn, where, t, first):
    """an entry of a user-ordered list in the delta says which entry it stands after"""
    def h(c):
        M, K, cal, A, B, a, b, log = sub_setting(c, where, t, 'minimum' if fn == 'node_sub' else 'replace', {})
        c.widen_keep = ('s_type',)
        assume(SNode(a.tag).is_('ordered-by', 'user'))
        p = lmember(A, a.tag)
        p.ghost['id'] = SInt(core.CTX.fresh('node', z3.IntSort()))
        p.kids.items = [node('key', tag=k) for k in KEYS]

        def seq(scope, tag, parent):
            if parent is A and bool(eqv(tag, a.tag)):
                it = [Seg(lambda: lmember(A, tag))]
                return VList(([] if first else it + [p]) + [a] + it)
            return VList([])
        patch(K, '_get_sequence', staticmethod(seq))
        patch(K, '_text_for', lambda self, x, y: SStr(TXT(ident(x), ident(y))))
        patch(K, '_url_to_prefix', staticmethod(lambda x, k: SStr(PFX(ident(x), zstr(k)))))
        patch(K, '_quote', staticmethod(lambda x: SStr(QUO(zstr(x)))))
        r = outcome(getattr(cal, fn), A, B)
        if not r.returned():
            prove('only model errors', r[1] == 'ModelError', r)
            return
        cover('returns')
        if first:
            prove('the first entry is inserted first', INSERT in a.attrib and eqv(a.get(INSERT), 'first'), a.attrib.known)
        else:
            prove('every other entry is inserted after one', INSERT in a.attrib and eqv(a.get(INSERT), 'after'), a.attrib.known)
            if t == 'leaf-list':
                prove('namely the one before it', VALUE in a.attrib and eqv(a.get(VALUE), SStr(TXT(ident(p), ident(a)))), a.attrib.known)
            else:
                exp = rt.concat([x for k in KEYS for x in ('[', SStr(PFX(ident(a), zstr(k))), '=', SStr(QUO(TXT(ident(p.find(k)), ident(a)))), ']')])
                prove('namely the one before it', KEY in a.attrib and eqv(a.get(KEY), exp), a.attrib.known)
    h.__module__ = __name__
    h.covers = ('returns',)
    harness('netconf.NetconfCalculator.' + fn, 'order of %s %s of the %s' % ('the first' if first else 'an', t, where), max_paths=30000, max_time=250)(h)




for _f in ('node_sub', 'get_config_replace'):
    for _t in ('leaf-list', 'list'):
        for _w in ('destination', 'both'):
            for _1 in (True, False):
                order_h(_f, _w, _t, _1)


@harness('netconf.NetconfCalculator._quote', 'quoting')
def quote(c):
    K = module('netconf').NetconfCalculator
    t = inp('text', lambda: fstr('text'))
    r = outcome(K._quote, t)
    prove('returns', r.returned(), r)
    if bool(contains(t, "'")):
        prove('a value with an apostrophe is put in double quotes', eqv(r.value, '"' + t + '"'))
        cover('double')
    else:
        prove('any other value is put in apostrophes', eqv(r.value, "'" + t + "'"))
        cover('single')
    prove('no text is quoted as an empty one', eqv(K._quote(None), "''"))


quote.covers = ('double', 'single')


# ------------------------------------------------------------------ the operators
class Calc:
    """contract of NetconfCalculator: add applies an edit to a config, sub is the delta of two configs (the first minus the second)"""
    log = []

    def __init__(self, device, e1, e2, **k):
        Calc.log.append((device, e1, e2, k))
        self.res = ('add', e1, e2)

    @property
    def add(self):
        n = SymElem('{urn:x}config', text=None)
        n.ghost['is'] = self.res
        return n

    @property
    def sub(self):
        n = SymElem('{urn:x}config', text=None)
        n.ghost['is'] = ('sub',) + self.res[1:]
        return n


def algebra(kind):
    def h(c):
        M = module('config')
        Calc.log = []
        patch(M, 'NetconfCalculator', Calc)
        patch(M.ConfigCompatibility, 'is_compatible', property(lambda s: True))

        class Parser:
            def __init__(self, device, x):
                self.ele = x
        patch(M, 'NetconfParser', Parser)
        trims = []
        patch(M.Config, 'trim_defaults', lambda self: trims.append(self))
        patch(M.Config, 'validate_config', lambda self: trims.append(self))
        dev, dev2 = object(), object()

        def cfg(d=dev):
            x = object.__new__(M.Config)
            x.device, x.ele, x.parser, x.remove_deprecated = d, SymElem('{urn:x}config', text=None), None, False
            return x
        a, b, e = cfg(), cfg(), cfg()
        opt = dict(preferred_create=choose('merge', 'create', 'replace'), preferred_replace=choose('merge', 'replace'), preferred_delete=choose('delete', 'remove'),
                   diff_type=choose('minimum', 'replace'))

        def delta(**k):
            return M.ConfigDelta(config_src=b, config_dst=e, **k)
        is_ = lambda x: x.ele.ghost.get('is')
        if kind == 'difference':
            r = outcome(lambda: a - b)
            prove('a difference is a delta', r.returned() and isinstance(r.value, M.ConfigDelta), r)
            prove('from the subtracted config to the other one', r.value.config_src is b and r.value.config_dst is a)
        elif kind == 'delta':
            r = outcome(lambda: delta(**opt))
            prove('a delta is built', r.returned(), r)
            prove('from its source to its destination', r.value.config_src is b and r.value.config_dst is e)
            r2 = outcome(lambda: M.ConfigDelta(b))
            prove('the delta of one config is none', r2.returned() and r2.value.config_src is b and r2.value.config_dst is b, r2)
        elif kind == 'delta by edit':
            x = SymElem('{urn:x}config', text=None)
            r = outcome(lambda: M.ConfigDelta(b, delta=x))
            prove('a delta is built from an edit', r.returned(), r)
            prove('its destination is the source with the edit applied', r.value.config_src is b and is_(r.value.config_dst) == ('add', b.ele, x), is_(r.value.config_dst))
        elif kind == 'negation':
            d = delta(**opt)
            r = outcome(lambda: -d)
            prove('a negated delta is a delta', r.returned() and isinstance(r.value, M.ConfigDelta), r)
            prove('source and destination change places', r.value.config_src is e and r.value.config_dst is b)
            prove('the delta itself stays', d.config_src is b and d.config_dst is e)
        elif kind == 'truth':
            d = delta(**opt)
            eq = fbool('equal')

            def ceq(self, other):
                prove('source and destination are compared', {id(self), id(other)} == {id(b), id(e)})
                return eq
            patch(M.Config, '__eq__', ceq)
            patch(M.Config, '__ne__', lambda s, o: not_(ceq(s, o)))
            r = outcome(lambda: bool(d))
            prove('a delta has a truth value', r.returned(), r)
            prove('a delta is false exactly if source and destination are equal', eqv(SBool(eq.e), not_(r.value)))
        elif kind == 'applying':
            d = delta(**opt)
            how = choose('config + delta', 'delta + config', 'config - delta', 'config + edit', 'config + config')
            if how == 'config + delta':
                r, want = outcome(lambda: a + d), (b.ele, e.ele)
            elif how == 'delta + config':
                r, want = outcome(lambda: d + a), (b.ele, e.ele)
            elif how == 'config - delta':
                r, want = outcome(lambda: a - d), (e.ele, b.ele)
            else:
                o = SymElem('{urn:x}config', text=None)
                o2 = cfg()
                r, want = outcome(lambda: a + (o if how.endswith('edit') else o2)), None
            prove('applying gives a config', r.returned() and isinstance(r.value, M.Config), r)
            prove('of the same device', r.value.device is dev)
            k = is_(r.value)
            prove('the edit is applied to the config', k is not None and k[0] == 'add' and k[1] is a.ele, k)
            if want:
                s = k[2].ghost.get('is') if isinstance(k[2], SymElem) else None
                prove('the edit is the delta, from its source to its destination', s is not None and s[0] == 'sub' and s[1] is want[1] and s[2] is want[0], (how, s))
                if how != 'config - delta':
                    o = [l[3] for l in Calc.log if l[1] is e.ele and l[2] is b.ele]
                    prove('with its own options', len(o) >= 1 and all(o[-1].get(x) == opt[x] for x in opt), o)
            else:
                prove('the edit is the other operand', k[2] is (o if how.endswith('edit') else o2.ele))
        cover('reached')
    h.__module__ = __name__
    h.covers = ('reached',)
    harness({'difference': 'config.Config.__sub__', 'delta': 'config.ConfigDelta.__init__', 'delta by edit': 'config.ConfigDelta.__init__', 'negation': 'config.ConfigDelta.__neg__',
             'truth': 'config.ConfigDelta.__bool__', 'applying': 'config.Config.__add__'}[kind], 'operators: ' + kind, max_paths=4000)(h)


for _k in ('difference', 'delta', 'delta by edit', 'negation', 'truth', 'applying'):
    algebra(_k)


# ------------------------------------------------------------------ references in a delta
@harness('netconf.NetconfCalculator._url_to_prefix', 'the prefix of a key name')
def prefixes(c):
    K = module('netconf').NetconfCalculator
    u, n, p = fstr('url'), fstr('name'), choose(None, 'p')
    for s in (u, n):
        assume(SBool(z3.Length(zstr(s)) > 0))
        assume(not_(contains(s, '}')))
        assume(not_(contains(s, '{')))
        assume(not_(contains(s, '\n')))
    if p:
        p = fstr('prefix')
    e = SymElem('{urn:x}e', text=None)
    known = choose(True, False)

    def other():
        q, v = fstr('prefix'), fstr('url')
        assume(not_(eqv(v, u)))
        if p is not None:
            assume(not_(eqv(q, p)))
        return q, v
    e.nsmap_ = VDict([Seg(other)] + ([(p, u)] if known else []) + [Seg(other)])
    patch(SymElem, 'nsmap', property(lambda s: s.__dict__.get('nsmap_')))
    tag = rt.concat(['{', u, '}', n])
    r = outcome(K._url_to_prefix, e, tag)
    prove('returns', r.returned(), r)
    cover('known' if known else 'unknown')
    if known:
        prove('a known name is written with the prefix of its namespace', eqv(r.value, n if p is None else rt.concat([p, ':', n])), r.value)
    else:
        prove('any other name stays as it is', eqv(r.value, tag), r.value)


prefixes.covers = ('known', 'unknown')


@harness('netconf.NetconfCalculator._text_for', 'the value of a reference')
def text_for(c):
    M = module('netconf')
    cal = object.__new__(M.NetconfCalculator)
    node_, item = SymElem('{urn:x}a', text=LAZY), SymElem('{urn:x}b', text=LAZY)
    got = []

    def merge(self, a, b):
        prove('the value is carried from the node into one with the namespaces of the entry', a is node_ and b is not item and b is not node_ and bool(eqv(b.tag, node_.tag)))
        got.append(b)
        b.text = 'carried'
    patch(M.NetconfCalculator, '_merge_text', merge)
    r = outcome(cal._text_for, node_, item)
    prove('returns', r.returned(), r)
    prove('it is that value', len(got) == 1 and r.value == 'carried')


# ------------------------------------------------------------------ the same values of a leaf-list
def same_h(n, m, user):
    def h(c):
        M = module('netconf')
        K = M.NetconfCalculator
        cal = object.__new__(K)
        A, B = node('A'), node('B')
        tag = fstr('tag')
        S = SNode(tag)
        d = Dev()
        cal.device = d
        assume(S.is_('ordered-by', 'user') if user else S.is_('ordered-by', None))
        val = {}

        def entry(p):
            e = node('entry', parent=p, tag=tag)
            val[id(e)] = fstr('value')
            return e

        def other(p):
            def mk():
                e = node('other', parent=p)
                assume(not_(eqv(e.tag, tag)))
                return e
            return Seg(mk, name='others')
        a, b = [entry(A) for _ in range(n)], [entry(B) for _ in range(m)]
        A.kids.items = [other(A)] + [x for e in a for x in (e, other(A))]
        B.kids.items = [other(B)] + [x for e in b for x in (e, other(B))]
        patch(K, '_parse_text', lambda self, e, s: val[id(e)])
        r = outcome(cal._same_leaf_list, tag, A, B)
        prove('decides', r.returned(), r)
        va, vb = [val[id(e)] for e in a], [val[id(e)] for e in b]
        if user:
            want = n == m and all(bool(eqv(x, y)) for x, y in zip(va, vb))
        else:
            want = all(any(bool(eqv(x, y)) for y in vb) for x in va) and all(any(bool(eqv(x, y)) for y in va) for x in vb)
        cover(str(want))
        prove('the same exactly if the values agree%s' % (' in their order' if user else ''), eqv(r.value, want), (r.value, want))
    h.__module__ = __name__
    harness('netconf.NetconfCalculator._same_leaf_list', 'same leaf-list, %d and %d entries, %s' % (n, m, 'user' if user else 'system'), bound='%d and %d entries, any value' % (n, m))(h)


for _n, _m in ((1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)):
    for _u in (False, True):
        same_h(_n, _m, _u)


# ------------------------------------------------------------------ what a delta contains
# the contracts of node_sub, get_config_replace and set_delete_operation (stated in c17.py), without which of two equivalent
# operations is preferred
SKIP = ('create is never put on a non-presence container', 'delete is never put on a non-presence container', 'a changed value carries the preferred replace operation',
        'it carries the preferred delete operation', 'every node kept is marked replace', 'only a non-presence container carries no operation', 'children of a created node carry no operation')


def content(fn, name, f, limits):
    def h(c):
        c.skip = SKIP
        try:
            f(c)
        finally:
            c.skip = ()
    h.__module__ = __name__
    h.covers = f.covers if hasattr(f, 'covers') else ()
    harness(fn, 'content of a delta: ' + name, replay=False, **limits)(h)


for _fn, _n, _f, _l in list(contract.HARNESSES['contracts.c17']):
    if _fn.split('.')[-1] in ('node_sub', 'get_config_replace', 'set_delete_operation', 'nc'):
        content(_fn, _n, _f, _l)
