"""C03: entries of user-ordered lists and leaf-lists land where insert says."""
from pyvc.contract import *

ALSO = [('C10', ('_same_text', '_parse_text'))]          # callees whose contracts are assumed here
from contracts.c04 import node, ident, Dev, PARSED

OP = '{urn:ietf:params:xml:ns:netconf:base:1.0}operation'
Y = '{urn:ietf:params:xml:ns:yang:1}'
INSERT, VALUE, KEY = Y + 'insert', Y + 'value', Y + 'key'


def calc():
    M = module('netconf')
    K = M.NetconfCalculator
    cal = K.__new__(K)
    cal.device = Dev()
    cal._parse_text = lambda n, s=None: SInt(PARSED(ident(n)))
    cal._same_text = lambda a, b: SBool(PARSED(ident(a)) == PARSED(ident(b)))
    return M, K, cal


def entry(parent, tag=None, label='entry', open=False, kids=()):
    e = node(label, tag=tag, parent=parent, kids=list(kids), open=open)
    return e


def members(parent):
    return Seg(lambda: entry(parent, label='sibling'))


def attrs(other, ops, direction):
    """edit attributes of the entry in the edit: known operation and insert, any others"""
    other.attrib.known[OP] = ops
    other.attrib.known[INSERT] = direction


def stubs(M, K, ref, log):
    """contracts of the callees: copies, attribute removal (C02), text (C10), search of the reference entry"""
    patch(K, '_merge_text', lambda self, a, b: log.append(('text', a, b)))
    patch(K, '_merge_texts', lambda self, a, b: log.append(('texts', a, b)))
    patch(K, '_copy_node', staticmethod(lambda n: copy(n, log)))
    patch(K, '_del_attrib', staticmethod(lambda e: log.append(('clean', e)) or e))
    patch(K, 'node_add', lambda self, a, b: log.append(('add', a, b)))
    patch(K, '_find_by_value', lambda self, p, o: VList([ref] if ref is not None else []))
    patch(K, '_find_by_key', lambda self, p, o: ref)


def copy(n, log):
    e = node('copy', tag=n.tag)
    e.ghost['copy of'] = n
    log.append(('copy', n, e))
    return e


def before(items, e):
    i = next(j for j, x in enumerate(items) if x is e)
    return items[:i], items[i + 1:]


def no_entry(name, items, tag):
    for x in items:
        y = x.draw() if isinstance(x, Seg) and C().trial(lambda: x.draw()) else x
        if not isinstance(y, Seg):
            prove(name, not_(eqv(y.tag, tag)))


def placed(name, P, e, tag, direction, ref):
    items = P.kids.norm()
    prove('%s: the entry is there once' % name, len([x for x in items if x is e]) == 1)
    pre, post = before(items, e)
    if direction == 'first':
        no_entry('%s: no entry precedes it' % name, pre, tag)
    elif direction == 'last':
        no_entry('%s: no entry follows it' % name, post, tag)
    elif direction == 'before' and ref is not e:
        prove('%s: it precedes the reference' % name, any(x is ref for x in post))
        no_entry('%s: nothing stands between it and the reference' % name, before(post, ref)[0], tag)
    elif direction == 'after' and ref is not e:
        prove('%s: it follows the reference' % name, any(x is ref for x in pre))
        no_entry('%s: nothing stands between the reference and it' % name, before(pre, ref)[1], tag)


def undisturbed(name, P, old, *gone):
    """the other children: same ones in the same order"""
    from pyvc.values import norm
    a = [x for x in norm(old) if not any(x is g for g in gone)]
    b = [x for x in P.kids.norm() if not any(x is g for g in gone)]
    prove('%s: all other children stay as they are, in order' % name, len(a) == len(b) and all(x is y for x, y in zip(a, b)), (a, b))


def setting(t, peer, direction, refpos):
    P, Q = node('parent'), node('edit')
    o = entry(Q, label='entry of the edit', open=True)
    tag = o.tag
    Q.kids.items = [o]
    assume(SNode(tag).is_('type', t))
    assume(SNode(tag).is_('ordered-by', 'user'))
    c = entry(P, tag, 'entry of the config') if peer else None
    r = entry(P, tag, 'reference') if refpos in ('before', 'after') else c if refpos == 'self' else None
    if not peer:
        kids = [members(P), r, members(P)] if r is not None else [members(P)]
    elif r is None or r is c:
        kids = [members(P), c, members(P)]
    elif refpos == 'before':
        kids = [members(P), r, members(P), c, members(P)]
    else:
        kids = [members(P), c, members(P), r, members(P)]
    P.kids.items = list(kids)
    return P, o, tag, c, r, kids


def place_h(t, peer, direction):
    fn = '_node_add_%s_peer_%s' % ('with' if peer else 'without', t.replace('-', ''))
    attr = VALUE if t == 'leaf-list' else KEY

    def h(c):
        M, K, cal = calc()
        refpos = choose('none', 'before', 'after', 'self') if peer and direction in ('before', 'after') else \
            choose('none', 'before') if direction in ('before', 'after') else 'none'
        P, o, tag, cs, ref, kids = setting(t, peer, direction, refpos)
        op = choose('merge', 'replace', None) if peer else choose('merge', 'replace', 'create', None)
        attrs(o, op, direction)
        log = []
        stubs(M, K, ref, log)
        keys = VList([])
        patch(K, '_get_list_keys', lambda self, s: keys)
        r = outcome(getattr(cal, fn), *((cs, o) if peer else (P, o)))
        if direction in ('before', 'after'):
            has_attr = o.get(attr) is not None
            if not has_attr or refpos == 'none':
                prove('a missing or unknown reference raises a config-delta error', r[0] == 'raise' and r[1] == 'ConfigDeltaError', r)
                cover('reference error')
                return
        prove('returns', r.returned(), r)
        if peer:
            e = cs
            if t == 'list' and op == 'replace':
                e = next(x[2] for x in log if x[0] == 'copy')
        else:
            cp = [x[2] for x in log if x[0] == 'copy']
            new = [x for x in P.kids.norm() if isinstance(x, SymElem) and x is not ref and not isinstance(x, Seg) and x.label != 'sibling']
            prove('one new entry', len(new) == 1, new)
            e = new[0]
            prove('the new entry has the name of the edited one', eqv(e.tag, tag))
        placed(direction or 'no insert', P, e, tag, direction, e if ref is cs and peer else ref)
        undisturbed(direction or 'no insert', P, kids, e, *([cs] if peer else []))
        cover('placed')
    h.__module__ = __name__
    h.covers = ('placed',) + (('reference error',) if direction in ('before', 'after') else ())
    harness('netconf.NetconfCalculator.' + fn, 'insert %s' % direction)(h)


for _t in ('leaf-list', 'list'):
    for _p in (True, False):
        for _d in ('first', 'last', 'before', 'after'):
            place_h(_t, _p, _d)


def none_h(t, peer):
    """no insert attribute: a new entry goes to the end of its list, an existing one stays"""
    fn = '_node_add_%s_peer_%s' % ('with' if peer else 'without', t.replace('-', ''))

    def h(c):
        M, K, cal = calc()
        P, o, tag, cs, ref, kids = setting(t, peer, None, 'none')
        op = choose('merge', 'replace', None) if peer else choose('merge', 'replace', 'create', None)
        attrs(o, op, None)
        log = []
        stubs(M, K, ref, log)
        keys = VList([])
        patch(K, '_get_list_keys', lambda self, s: keys)
        r = outcome(getattr(cal, fn), *((cs, o) if peer else (P, o)))
        prove('returns', r.returned(), r)
        if peer:
            if t == 'list' and op == 'replace':
                e = next(x[2] for x in log if x[0] == 'copy')
                a, b = [x if x is not cs else e for x in kids], P.kids.norm()
            else:
                a, b = kids, P.kids.norm()
            prove('an existing entry keeps its place', len(a) == len(b) and all(x is y for x, y in zip(a, b)))
        else:
            new = [x for x in P.kids.norm() if isinstance(x, SymElem) and x.label != 'sibling']
            prove('one new entry', len(new) == 1, new)
            placed('new entry', P, new[0], tag, 'last', None)
            undisturbed('new entry', P, kids, new[0])
        cover('placed')
    h.__module__ = __name__
    h.covers = ('placed',)
    harness('netconf.NetconfCalculator.' + fn, 'without insert')(h)


for _t in ('leaf-list', 'list'):
    for _p in (True, False):
        none_h(_t, _p)


@harness('calculator.BaseCalculator._get_sequence')
def sequence(c):
    """the children of one name that are in the scope, in document order"""
    M, K, cal = calc()
    P, Q = node('P'), node('Q')
    tag = fstr('tag')
    f, g = entry(P, label='focus'), entry(Q, label='its peer')
    kind = choose('plain', 'pair', 'other')
    P.kids.items = [members(P), f, members(P)]
    Q.kids.items = [g]
    scope = VList({'plain': [f], 'pair': [(f, g)], 'other': []}[kind])
    if kind == 'pair' and choose(True, False):
        scope = VList([(g, f)])
    o = outcome(cal._get_sequence, scope, tag, P)
    prove('returns', o.returned(), o)
    found = any(x is f for x in o.value.norm())
    want = eqv(f.tag, tag) if kind != 'other' else False
    prove('exactly the children of that name in the scope', want if found else not_(want))
    cover(str(found))


sequence.covers = ('True', 'False')


@harness('netconf.NetconfCalculator._find_by_value')
def find_by_value(c):
    M, K, cal = calc()
    made = []

    def element(tag, *a, **k):
        e = node('probe', tag=tag)
        made.append(e)
        return e
    TEXT = z3.Function('value of a text', z3.StringSort(), z3.IntSort())

    def parse(n, s=None):
        if any(n is e for e in made):
            return SInt(TEXT(zstr(n.text))) if n.text is not None else SInt(z3.IntVal(-1))
        return SInt(PARSED(ident(n)))
    cal._parse_text = parse

    class ET:
        Element = staticmethod(element)
    patch(M, 'etree', ET)
    P, Q = node('P'), node('Q')
    o = entry(Q, label='entry of the edit', open=True)
    f = entry(P, label='focus')
    P.kids.items = [members(P), f, members(P)]
    r = outcome(cal._find_by_value, P, o)
    prove('returns', r.returned(), r)
    found = any(x is f for x in r.value.norm())
    v = o.get(VALUE)
    val = SInt(z3.IntVal(-1)) if v is None else SInt(z3.If(zstr(v) == '', z3.IntVal(-1), TEXT(zstr(v))))
    same = and_(eqv(f.tag, o.tag), eqv(SInt(PARSED(ident(f))), val))
    prove('exactly the entries whose value equals the value attribute', same if found else not_(same))
    cover(str(found))


find_by_value.covers = ('True', 'False')


# ------------------------------------------------------------------ the reference entry of a list
RAW = z3.Function('key text satisfies the predicate', z3.IntSort(), z3.BoolSort())
CARRIED = z3.Function('key value in the namespaces of the edit satisfies the predicate', z3.IntSort(), z3.BoolSort())
UNKNOWN = z3.Function('key value cannot be carried', z3.IntSort(), z3.BoolSort())


def key_h(datatypes):
    special = any(d.startswith('identityref') or d == 'instance-identifier' for d in datatypes)

    @harness('netconf.NetconfCalculator._find_by_key', 'keys of type %s' % ', '.join(datatypes))
    def h(c):
        M, K, cal = calc()
        keys = ['{urn:x}k%d' % i for i in range(len(datatypes))]
        E = module('errors') if hasattr(M, 'errors') else M

        class S:
            def __init__(self, d=None):
                self.d = d

            def find(self, k):
                return S(datatypes[keys.index(k)])

            def get(self, name, default=None):
                return self.d if name == 'datatype' and self.d is not None else default
        s = S()
        cal.device.get_schema_node = lambda n: s
        patch(K, '_get_list_keys', lambda self, n: list(keys))
        P, Q = node('P'), node('Q')
        o = entry(Q, label='entry of the edit')
        path = fstr('key attribute')
        o.attrib.known[KEY] = path

        def sib(label='sibling'):
            e = entry(P, tag=o.tag, label=label)
            e.kids.items = [node('key', tag=k, parent=e) for k in keys]
            return e
        f = sib('focus')
        P.kids.items = [Seg(sib), f, Seg(sib)]
        carried = {}

        def merge(self, a, b):
            e = a.getparent()
            prove('each key is carried to its own place', bool(eqv(a.tag, b.tag)))
            if special and bool(SBool(UNKNOWN(ident(e)))):
                raise M.ConfigError('unknown prefix')
            carried.setdefault(id(b.getparent()), []).append((b.tag, e))
        patch(K, '_merge_text', merge)
        real = SymElem.find

        def find(self, p, namespaces=None):
            if isinstance(p, str) and p in keys:
                return real(self, p)
            prove('searches for the tag with the key predicate', eqv(p, o.tag + path))
            prove('the predicate is read in the namespaces of the edit', namespaces is not None and namespaces == o.nsmap)
            if self is P:
                r = choose('f', 'other', None)
                if r == 'f':
                    assume(RAW(ident(f)))
                    return f
                assume(z3.Not(RAW(ident(f)))) if r is None else None
                if r is None:
                    return None
                x = P.kids.items[0].draw()
                assume(RAW(ident(x)))
                return x
            entries = list(self.kids.items)
            prove('one entry is tried at a time', len(entries) == 1)
            es = carried.get(id(entries[0]), [])
            prove('all keys of one entry are tried', sorted(k for k, _ in es) == keys and len({id(x) for _, x in es}) == 1, es)
            prove('the trial entry has the tag of the list', bool(eqv(entries[0].tag, o.tag)))
            return entries[0] if bool(SBool((CARRIED if special else RAW)(ident(es[0][1])))) else None     # a plain text is carried as it is
        patch(SymElem, 'find', find)
        r = outcome(cal._find_by_key, P, o)
        prove('the search returns', r.returned(), r)
        hit = lambda e: z3.And(z3.Not(UNKNOWN(ident(e))), CARRIED(ident(e))) if special else RAW(ident(e))
        if r.value is None:
            prove('no entry is overlooked', not_(SBool(hit(f))))
            cover('none')
        else:
            prove('an entry of this list is found', r.value.getparent() is P)
            prove('the entry found satisfies the key predicate', SBool(hit(r.value)))
            cover('found')
    h.covers = ('none', 'found')


for _d in (('string',), ('identityref x',), ('instance-identifier',), ('string', 'identityref'), ('uint8', 'string')):
    key_h(_d)
