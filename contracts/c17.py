"""C17: the operations a delta carries."""
from pyvc.contract import *
from contracts.c04 import node, ident, Dev, PARSED, loose
from contracts.c03 import calc, OP

VALID = {'preferred_create': ('merge', 'create', 'replace'), 'preferred_replace': ('merge', 'replace'),
         'preferred_delete': ('delete', 'remove')}


# ------------------------------------------------------------------ options
def opt_h(K, mod, name):
    def h(c):
        M = module(mod)
        v = fstr('value')
        c.inputs['value'] = v
        good = or_(*[eqv(v, x) for x in VALID[name]])
        if mod == 'netconf':
            r = outcome(M.NetconfCalculator, Dev(), node('a'), node('b'), **{name: v})
        else:
            patch(M.ConfigCompatibility, 'is_compatible', property(lambda s: None))
            src = M.Config.__new__(M.Config)
            src.ncdevice = Dev()
            r = outcome(M.ConfigDelta, src, src, **{name: v})
        if r.returned():
            prove('only valid values are accepted', good)
            prove('the value is kept', eqv(getattr(r.value, name), v))
            cover('accepted')
        else:
            prove('valid values are accepted', not_(good), r)
            prove('an invalid value raises ValueError', r[1] == 'ValueError', r)
            cover('refused')
    h.__module__ = __name__
    h.covers = ('accepted', 'refused')
    harness(mod + '.' + K + '.__init__', 'option ' + name, replay=False)(h)


for _n in VALID:
    opt_h('NetconfCalculator', 'netconf', _n)
    opt_h('ConfigDelta', 'config', _n)


@harness('config.ConfigDelta.__init__', 'option random_depth', replay=False)
def random_depth(c):
    M = module('config')
    patch(M.ConfigCompatibility, 'is_compatible', property(lambda s: None))
    src = M.Config.__new__(M.Config)
    src.ncdevice = Dev()
    kind = choose('int', 'None', 'str', 'float')
    v = fint('depth') if kind == 'int' else None if kind == 'None' else 'x' if kind == 'str' else 1.5
    seed = choose(None, fint('seed'), 'x')
    r = outcome(M.ConfigDelta, src, src, random_depth=v, random_seed=seed)
    good = (v >= 0) if kind == 'int' else kind == 'None'
    sgood = seed is None or isinstance(seed, SInt)
    if r.returned():
        prove('only a non-negative integer or None', good)
        prove('only an integer seed or None', sgood)
        d = r.value
        if kind == 'None':
            prove('no seed without a depth', d.random_seed is None)
        elif seed is not None:
            prove('the seed given is used', eqv(d.random_seed, seed))
        else:
            prove('some seed is drawn', d.random_seed is not None)
        cover('accepted')
    else:
        prove('refuses only invalid values', or_(not_(good), not sgood))
        prove('raises ValueError', r[1] == 'ValueError', r)
        cover('refused')


random_depth.covers = ('accepted', 'refused')


# ------------------------------------------------------------------ set_create_operation / set_delete_operation
class D2(Dev):
    def __init__(self, default):
        self.default = default

    def get_schema_node(self, n):
        return SNode(n.tag, concrete=True)

    def get_xpath(self, s):
        return ('xpath', s.tag)

    def default_in_use(self, s):
        return VList([Seg(lambda: self.default())])


@harness('netconf.NetconfCalculator.set_create_operation', 'create')
def create_op(c):
    M, K, cal = calc()
    f = node('child')
    N = node('node')
    real = K.set_create_operation
    log = []

    def rec(self, n):
        if n is N:
            return real(self, n)
        if n is f:
            log.append(n)
    patch(K, 'set_create_operation', rec)
    indef = choose(True, False)
    XP = z3.Function('xpath', z3.StringSort(), z3.StringSort())
    cal.device = Dev()
    cal.device.get_schema_node = lambda n: SNode(n.tag, concrete=True)
    cal.device.get_xpath = lambda s: SStr(XP(zstr(s.tag)))
    dtag = fstr('default')
    if indef:
        assume(eqv(dtag, f.tag))

    def other():
        s = SNode(fstr('deftag'))
        if not indef:
            assume(not_(SBool(XP(zstr(s.tag)) == XP(zstr(f.tag)))))
        return s
    cal.device.default_in_use = lambda s: VList([Seg(other)] + ([SNode(dtag)] if indef else []) + [Seg(other)])
    N.kids.items = [Seg(lambda: loose(N)), f, Seg(lambda: loose(N))]
    f.parent = N
    r = outcome(cal.set_create_operation, N)
    prove('returns', r.returned(), r)
    s = SNode(N.tag)
    np = and_(s.is_('type', 'container'), not_(s.is_('presence', 'true')))
    if OP in N.attrib:
        prove('create is never put on a non-presence container', not_(np))
        prove('the operation is create', eqv(N.get(OP), 'create'))
        prove('children of a created node carry no operation', not log)
        cover('created')
    else:
        prove('every other node is created', np)
        prove('its children are created, except the defaults', len(log) == (0 if indef else 1), log)
        cover('descends')


create_op.covers = ('created', 'descends')


def delete_h(t):
    def h(c):
        M, K, cal = calc()
        cal.device.get_schema_node = lambda n: SNode(n.tag, concrete=True)
        N, R = node('node'), node('reference')
        keytags = ['{urn:m}key%d' % i for i in range(2)]
        f = node('child', parent=R, kids=[node('key', tag=k) for k in keytags] + [Seg(lambda: node('other'), excl=[Pred(('tag', k), lambda x, k=k: eqv(x.tag, k)) for k in keytags])])
        assume(SNode(f.tag).is_('type', t))
        def other():
            e = node('child', parent=R, kids=f.kids.norm())
            return e
        R.kids.items = [Seg(other), f, Seg(other)]
        real = K.set_delete_operation
        log = []

        def rec(self, n, r):
            if n is N:
                return real(self, n, r)
            if r is f:
                log.append((n, r))
        patch(K, 'set_delete_operation', rec)
        patch(K, '_get_list_keys', lambda self, s: VList(list(keytags)))
        patch(K, '_merge_text', lambda self, a, b: log.append(('text', a, b)) if a is f else None)
        r = outcome(cal.set_delete_operation, N, R)
        prove('returns', r.returned(), r)
        prove('the container itself carries no operation', OP not in N.attrib)
        new = N.kids.norm()
        new = [x for x in new if not isinstance(x, Seg)]
        prove('one node per child of the reference', len(new) == 1, N.kids.norm())
        x = new[0]
        prove('of the same name', eqv(x.tag, f.tag))
        s = SNode(f.tag)
        np = and_(s.is_('type', 'container'), not_(s.is_('presence', 'true')))
        if OP in x.attrib:
            prove('delete is never put on a non-presence container', not_(np))
            prove('the operation is delete', eqv(x.get(OP), 'delete'))
            cover('deleted')
        else:
            prove('only non-presence containers carry no operation', np)
            prove('descends into it', log == [(x, f)], log)
            cover('descends')
        if t == 'leaf-list':
            prove('a leaf-list entry names its value', log == [('text', f, x)], log)
        if t == 'list':
            ks = x.kids.norm()
            prove('a list entry names its keys', len(ks) == len(keytags) and all(k.tag == t for k, t in zip(ks, keytags)))
            for k in ks:
                prove('with their values', eqv(k.text, f.find(k.tag).text))
    h.__module__ = __name__
    h.covers = ('deleted',) + (('descends',) if t == 'container' else ())
    harness('netconf.NetconfCalculator.set_delete_operation', 'delete a ' + t)(h)


for _t in ('leaf', 'leaf-list', 'container', 'list'):
    delete_h(_t)


# ------------------------------------------------------------------ node_sub: what one child contributes to the delta
KEYS = ['{urn:m}key%d' % i for i in range(2)]
LEQ = z3.Function('leq', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def member(parent, t=None, label='child', tag=None):
    """a child of a config: a list entry has its keys"""
    kids = [node('key', tag=k, text=fstr('key')) for k in KEYS] + [Seg(lambda: node('other'), excl=[Pred(('tag', k), lambda x, k=k: eqv(x.tag, k)) for k in KEYS])] if t == 'list' else []
    return node(label, tag=tag, parent=parent, kids=kids)


def lmember(parent, tag=None):
    e = Loose(tag, label='sibling', parent=parent, kids=[node('key', tag=k, text=fstr('key')) for k in KEYS], open=True)
    e.ghost['id'] = SInt(core.CTX.fresh('node', z3.IntSort()))
    e.like = lambda: lmember(parent, e.tag)
    return e


def anynode(parent, tag=None):
    e = Loose(tag, label='any', parent=parent, kids=[Seg(lambda: node('other'))], open=True)
    e.ghost['id'] = SInt(core.CTX.fresh('node', z3.IntSort()))
    e.like = lambda: anynode(parent, e.tag)
    return e


def generic(parent):
    s = Seg(lambda: anynode(parent))
    s.any = True
    return s


def sub_setting(c, where, t, diff, opts, alone=False):
    M, K, cal = calc()
    c.widen = True
    cal.device.get_schema_node = lambda n: SNode(n.tag, concrete=True)
    A, B = node('destination'), node('source')
    a = member(A, t, 'focus') if where != 'source' else None
    b = member(B, t, 'focus of source', a.tag if a is not None else None) if where != 'destination' else None
    f = a if a is not None else b
    assume(SNode(f.tag).is_('type', t))
    c.generic = generic
    for k in KEYS:
        assume(SNode(k).is_('is_key', 'true'))
    A.kids.items = [generic(A), a, generic(A)] if a is not None else [generic(A)]
    B.kids.items = [generic(B), b, generic(B)] if b is not None else [generic(B)]
    log = []

    def group(self, x, y):
        prove('children of destination and source are matched', x is A and y is B)
        def pair():
            m = lmember(A)
            return m, lmember(B, m.tag)
        sa, sb, both = Seg(lambda: lmember(A)), Seg(lambda: lmember(B)), Seg(pair)
        if alone:
            return VList([a] if where == 'destination' else []), VList([b] if where == 'source' else []), VList([(a, b)] if where == 'both' else [])
        return (VList([sa] + ([a] if where == 'destination' else [])), VList([sb] + ([b] if where == 'source' else [])),
                VList([both] + ([(a, b)] if where == 'both' else [])))
    patch(K, '_group_kids', group)
    patch(K, '_get_list_keys', lambda self, s: VList(list(KEYS)))
    patch(K, '_merge_text', lambda self, x, y: log.append(('text', x, y)) if x is f else None)
    patch(K, '_text_for', lambda self, x, y: fstr('text'))
    patch(K, '_url_to_prefix', staticmethod(lambda x, y: fstr('id')))
    patch(K, '_quote', staticmethod(lambda x: fstr('quoted')))
    patch(K, '_node_le', lambda self, x, y: SBool(LEQ(ident(x), ident(y))))
    patch(K, '_get_sequence', staticmethod(lambda scope, tag, parent: VList([Seg(lambda: lmember(parent, tag))])))
    patch(K, 'set_create_operation', lambda self, n: log.append(('create', n)) if n is f else None)
    patch(K, 'set_delete_operation', lambda self, n, r: log.append(('delete', n, r)) if r is f else None)
    real = K.node_sub

    def sub(self, x, y, depth=0):
        if x is A:
            return real(self, x, y, depth)
        if x is a:
            log.append(('sub', x, y, depth))
    patch(K, 'node_sub', sub)
    realr = K.get_config_replace

    def rep(self, x, y):
        if x is A:
            return realr(self, x, y)
        if x is a:
            log.append(('replace', x, y))
    patch(K, 'get_config_replace', rep)
    cal.preferred_create = cal.preferred_replace = 'merge'
    cal.preferred_delete = 'delete'
    for k, v in opts.items():
        setattr(cal, k, v)
    cal.diff_type = diff
    cal.replace_depth = 0
    return M, K, cal, A, B, a, b, log


def names_keys(x, f):
    ks = x.kids.norm()
    prove('a list entry to be deleted names its keys', len(ks) == len(KEYS) and all(k.tag == t for k, t in zip(ks, KEYS)), ks)
    for k in ks:
        prove('with their values', same(k.text, f.find(k.tag).text))


def vanish(A, b, t, cal, log, opname):
    """A after the operation: the delta says that b, which only the source has, must vanish"""
    new = [x for x in A.kids.norm() if not isinstance(x, (Seg, Loose))]
    s = SNode(b.tag)
    np = and_(s.is_('type', 'container'), not_(s.is_('presence', 'true')))
    if not new:
        return None
    prove('it is named once', len(new) == 1, new)
    x = new[0]
    prove('by its name', eqv(x.tag, b.tag))
    if OP in x.attrib:
        prove('it carries the preferred delete operation', eqv(x.get(OP), cal.preferred_delete))
        prove('delete is never put on a non-presence container', or_(cal.preferred_delete != 'delete', not_(np)))
        prove('no other mark', not any(l[0] == 'delete' for l in log), log)
    else:
        prove('only a non-presence container carries no operation', and_(np, cal.preferred_delete == 'delete'))
        prove('its content is deleted instead', log == [('delete', x, b)], log)
    if t == 'leaf-list':
        prove('a leaf-list entry names its value', log == [('text', b, x)], log)
    if t == 'list':
        names_keys(x, b)
    return x


def sub_h(where, t, diff, opts):
    def h(c):
        M, K, cal, A, B, a, b, log = sub_setting(c, where, t, diff, opts)
        if where == 'both' and t == 'list':
            gr = node('grandchild', parent=a)       # any other child of the entry
            for k in KEYS:
                assume(not_(eqv(gr.tag, k)))
            a.kids.items.insert(choose(0, len(a.kids.items)), gr)
        depth = fint('depth', 0)
        if diff == 'replace':
            cal.replace_depth = fint('replace depth', 1)
        if cal.preferred_replace != 'merge':
            depth = 0                       # deeper, a changed leaf-list makes its parent be replaced: C01
        key = SNode((a if a is not None else b).tag).is_('is_key', 'true')
        user = SNode((a if a is not None else b).tag).is_('ordered-by', 'user')
        r = outcome(cal.node_sub, A, B, depth)
        if not r.returned():
            prove('only model errors', r[1] == 'ModelError', r)
            return
        cover('returns')
        now = A.kids.norm()
        if where == 'destination':
            prove('the node appears in the delta', len([x for x in now if x is a]) == 1)
            if diff == 'replace' or cal.preferred_create == 'replace':
                prove('marked replace', OP in a.attrib and eqv(a.get(OP), 'replace'))
                prove('and nothing else', not any(l[0] == 'create' for l in log), log)
            elif cal.preferred_create == 'create':
                prove('created', ('create', a) in log, log)
                prove('no other mark', OP not in a.attrib)
            else:
                prove('merged', OP not in a.attrib and ('create', a) not in log, log)
        elif where == 'source':
            if vanish(A, b, t, cal, log, 'op') is None:
                prove('a node that must vanish is named, unless another case of its choice appears', SNode(b.tag).getparent().type_is('case'))
                cover('left out')
            else:
                cover('named')
        else:
            there = len([x for x in now if x is a])
            prove('at most once', there <= 1)
            eq = SBool(PARSED(ident(a)) == PARSED(ident(b))) if t in ('leaf', 'leaf-list') else SBool(z3.And(LEQ(ident(a), ident(b)), LEQ(ident(b), ident(a))))
            subs = [l for l in log if l[0] in ('sub', 'replace')]
            if t == 'leaf':
                if there:
                    prove('only keys and changed values appear', or_(not_(eq), key))
                    if bool(eq) or cal.preferred_replace == 'merge':
                        prove('no operation', OP not in a.attrib)
                    else:
                        prove('a changed value carries the preferred replace operation', OP in a.attrib and eqv(a.get(OP), cal.preferred_replace))
                else:
                    prove('only unchanged values are left out', and_(eq, not_(key)))
            elif t == 'leaf-list':
                prove('entries in both appear only to be ordered', user if there else not_(user))
                prove('no operation', OP not in a.attrib)
            elif not there:
                prove('only equal subtrees are left out', eq)
                prove('not entries of user-ordered lists', True if t == 'container' else not_(user))
            elif bool(eq):
                prove('equal subtrees appear only to be ordered', and_(t == 'list', user))
                prove('without an operation', OP not in a.attrib and not subs, log)
                for k in KEYS:
                    prove('with their keys', len([x for x in a.kids.norm() if not isinstance(x, Seg) and x.tag == k]) == 1)
                if any(x is gr for x in a.kids.norm()):
                    prove('and nothing else', SNode(gr.tag).is_('is_key', 'true'))
            elif diff == 'replace' and bool(cal.replace_depth == depth + 1):
                prove('a changed subtree at the replace depth is a replace delta', subs == [('replace', a, b)], subs)
            else:
                prove('a changed subtree is compared further, one level deeper', len(subs) == 1 and subs[0][:3] == ('sub', a, b) and eqv(subs[0][3], depth + 1), subs)
            cover('there' if there else 'left out')
    h.__module__ = __name__
    h.covers = ('returns',) + {'destination': (), 'source': ('named',), 'both': ('there', 'left out')}[where]
    harness('netconf.NetconfCalculator.node_sub', '%s of the %s, %s%s' % (t, where, diff, ''.join(', %s %s' % (k[10:], v) for k, v in opts.items())), max_paths=30000, max_time=250)(h)


for _t in ('leaf', 'leaf-list', 'container', 'list'):
    for _v in ('merge', 'create', 'replace'):
        sub_h('destination', _t, 'minimum', {'preferred_create': _v})
    sub_h('destination', _t, 'replace', {})
    for _v in ('delete', 'remove'):
        sub_h('source', _t, 'minimum', {'preferred_delete': _v})
    sub_h('both', _t, 'minimum', {})
    if _t == 'leaf':
        sub_h('both', _t, 'minimum', {'preferred_replace': 'replace'})
    if _t in ('container', 'list'):
        sub_h('both', _t, 'replace', {})


# ------------------------------------------------------------------ get_config_replace: the replace delta at the chosen depth
def rep_h(where, t, opts):
    def h(c):
        M, K, cal, A, B, a, b, log = sub_setting(c, where, t, 'replace', opts)
        key = SNode((a if a is not None else b).tag).is_('is_key', 'true')
        user = SNode((a if a is not None else b).tag).is_('ordered-by', 'user')
        r = outcome(cal.get_config_replace, A, B)
        if not r.returned():
            prove('only model errors', r[1] == 'ModelError', r)
            return
        cover('returns')
        now = A.kids.norm()
        if where == 'source':
            prove('a node that must vanish is named', vanish(A, b, t, cal, log, 'op') is not None)
            return
        there = len([x for x in now if x is a])
        if where == 'destination':
            prove('the node appears', there == 1)
            prove('marked replace', OP in a.attrib and eqv(a.get(OP), 'replace'))
            return
        eq = SBool(PARSED(ident(a)) == PARSED(ident(b))) if t in ('leaf', 'leaf-list') else SBool(z3.And(LEQ(ident(a), ident(b)), LEQ(ident(b), ident(a))))
        prove('at most once', there <= 1)
        if there:
            cover('there')
            if t == 'leaf' and bool(and_(eq, key)):
                prove('an unchanged key carries no operation', OP not in a.attrib)
            else:
                prove('every node kept is marked replace', OP in a.attrib and eqv(a.get(OP), 'replace'))
        else:
            cover('left out')
            if t == 'leaf':
                prove('only unchanged values that are no keys are left out', and_(eq, not_(key)))
            elif t == 'leaf-list':
                prove('only entries whose order does not matter are left out', not_(user))
            else:
                prove('only equal subtrees are left out', eq)
                prove('not entries of user-ordered lists', True if t == 'container' else not_(user))
    h.__module__ = __name__
    h.covers = ('returns',) + (('there', 'left out') if where == 'both' else ())
    harness('netconf.NetconfCalculator.get_config_replace', '%s of the %s%s' % (t, where, ''.join(', %s %s' % (k[10:], v) for k, v in opts.items())), max_paths=30000, max_time=250)(h)


for _t in ('leaf', 'leaf-list', 'container', 'list'):
    rep_h('destination', _t, {})
    for _v in ('delete', 'remove'):
        rep_h('source', _t, {'preferred_delete': _v})
    rep_h('both', _t, {})


@harness('netconf.NetconfCalculator.sub', 'which delta')
def which(c):
    M, K, cal = calc()
    A, B = node('destination'), node('source')
    cal.etree1, cal.etree2 = A, B
    cal.diff_type = choose('minimum', 'replace')
    cal.replace_depth = fint('replace depth', 0)
    log = []
    patch(K, 'get_config_replace', lambda self, x, y: log.append(('replace', x, y)))
    patch(K, 'node_sub', lambda self, x, y, depth=0: log.append(('sub', x, y, depth)))
    patch(M, 'deepcopy', lambda e: log.append(('copy', e, node('copy', tag=e.tag))) or log[-1][2])
    r = outcome(lambda: cal.sub)
    prove('returns', r.returned(), r)
    cp = {id(l[1]): l[2] for l in log if l[0] == 'copy'}
    calls = [l for l in log if l[0] != 'copy']
    prove('works on copies', len(cp) == 2 and len(calls) == 1 and calls[0][1] is cp[id(A)] and calls[0][2] is cp[id(B)], log)
    if cal.diff_type == 'replace' and bool(cal.replace_depth == 0):
        prove('a replace delta at the root', calls[0][0] == 'replace', calls)
    else:
        prove('a minimum delta from the root', calls[0][0] == 'sub' and eqv(calls[0][3], 0), calls)
    prove('the changed copy of the destination is the delta', r.value is cp[id(A)])


# ------------------------------------------------------------------ ConfigDelta
def delta(M, **k):
    d = M.ConfigDelta.__new__(M.ConfigDelta)
    d.config_src, d.config_dst = M.Config.__new__(M.Config), M.Config.__new__(M.Config)
    for x, n in ((d.config_src, 'src'), (d.config_dst, 'dst')):
        x.device = Dev()
        x.ele = node(n)
    for n, v in dict(preferred_create='merge', preferred_replace='merge', preferred_delete='delete', diff_type='minimum',
                     replace_depth=0, replace_xpath=None, random_depth=None, _random_seed=None, **k).items():
        setattr(d, n, v)
    return d


@harness('config.ConfigDelta.nc', 'the options reach the calculator', replay=False)
def nc(c):
    M = module('config')
    d = delta(M)
    d.preferred_create, d.preferred_replace, d.preferred_delete = fstr('create'), fstr('replace'), fstr('delete')
    d.diff_type, d.replace_depth, d.replace_xpath = fstr('type'), fint('depth'), fstr('xpath')
    d.random_depth = choose(None, fint('random depth', 0))
    if d.random_depth is not None:
        d._random_seed = fint('seed')
    seen, res = [], node('delta')

    class Calc:
        def __init__(self, device, e1, e2, preferred_create='merge', preferred_replace='merge', preferred_delete='delete',
                     diff_type='minimum', replace_depth=0, replace_xpath=None):
            seen.append((device, e1, e2, preferred_create, preferred_replace, preferred_delete, diff_type, replace_depth, replace_xpath))
        sub = property(lambda s: res)
    patch(M, 'NetconfCalculator', Calc)
    re = []
    patch(M.ConfigDelta, 'reorder', lambda self, *a: re.append(a))
    r = outcome(lambda: d.nc)
    prove('returns', r.returned(), r)
    prove('one calculation', len(seen) == 1)
    x = seen[0]
    prove('from the source to the destination', x[0] is d.config_src.device and x[1] is d.config_dst.ele and x[2] is d.config_src.ele)
    for i, n in enumerate(('preferred_create', 'preferred_replace', 'preferred_delete', 'diff_type', 'replace_depth', 'replace_xpath')):
        prove(n + ' is passed on', eqv(x[3 + i], getattr(d, n)))
    prove('its result is the delta', r.value is res)
    if d.random_depth is None:
        prove('no reordering unless asked for', not re)
        cover('plain')
    else:
        prove('reordered once at the chosen depth with the seed', len(re) == 1 and len(re[0]) == 4 and re[0][0] is res and and_(eqv(re[0][1], d._random_seed), eqv(re[0][2], d.random_depth), eqv(re[0][3], 0)), re)
        cover('random')


nc.covers = ('plain', 'random')


@harness('config.ConfigDelta.reorder', 'only siblings at the chosen depth', replay=False)
def reorder(c):
    M = module('config')
    d = delta(M)
    N = node('node')
    f = node('child', parent=N)
    N.kids.items = [Seg(lambda: loose(N)), f, Seg(lambda: loose(N))]
    log = []
    real = M.ConfigDelta.reorder

    def rec(self, n, seed, depth, cur):
        if n is N:
            return real(self, n, seed, depth, cur)
        if n is f:
            log.append(('down', n, seed, depth, cur))
    patch(M.ConfigDelta, 'reorder', rec)
    patch(M.ConfigDelta, 'reorder_children', lambda self, n, seed: log.append(('here', n, seed)))
    seed, depth, cur = fint('seed'), fint('depth', 0), fint('current', 0)
    assume(cur <= depth)
    r = outcome(d.reorder, N, seed, depth, cur)
    prove('returns', r.returned(), r)
    prove('one step per node', len(log) == 1, log)
    if bool(cur == depth):
        prove('children are reordered at the chosen depth', log[0][0] == 'here' and log[0][1] is N and eqv(log[0][2], seed))
        cover('here')
    else:
        prove('above it, descends into every child', log[0][0] == 'down' and and_(eqv(log[0][2], seed), eqv(log[0][3], depth), eqv(log[0][4], cur + 1)))
        cover('down')


reorder.covers = ('here', 'down')


class Rand:
    """random numbers: any permutation, but only once seeded with the seed of the delta"""

    def __init__(self, seed=None):
        self.s = seed

    def seed(self, s=None):
        self.s = s

    def _perm(self, xs):
        prove('the order depends on the seed only', self.s is not None and eqv(self.s, Rand.want))
        xs, out = list(xs), []
        while xs:
            out.append(xs.pop(choose(*range(len(xs)))))
        return out

    def sample(self, population, k, **kw):
        return self._perm(population)[:k]

    def shuffle(self, x):
        x[:] = self._perm(x)


def children_h(n):
    @harness('config.ConfigDelta.reorder_children', '%d children' % n, bound='%d children' % n, replay=False)
    def h(c):
        M = module('config')
        d = delta(M)
        Rand.want = fint('seed')
        R = Rand()
        R.Random = Rand
        patch(M, 'random', R)
        N = node('node')
        kids = [node('child %d' % i, parent=N) for i in range(n)]
        N.kids.items = list(kids)
        nk = choose(*range(n + 1))
        for k in kids:
            k.ghost['key'] = kids.index(k) < nk if n else False

        class S:
            def __init__(s, n):
                s.n = n

            def get(s, name, default=None):
                return 'true' if name == 'is_key' and s.n.ghost['key'] else default
        d.device.get_schema_node = lambda x: S(x)
        r = outcome(d.reorder_children, N, Rand.want)
        prove('reordering returns', r.returned(), r)
        now = list(N.kids.items)
        prove('only the order of the children changes', len(now) == n and all(any(x is k for x in now) for k in kids), now)
        prove('keys come first, in their order', [x for x in now if x.ghost['key']] == now[:nk] == kids[:nk], now)
        cover('reordered')
    h.covers = ('reordered',)


for _n in range(5):
    children_h(_n)


# ------------------------------------------------------------------ nodes that exist by default
def default_h(kind):
    @harness('manager.ModelDevice.default_in_use', 'a child of type ' + kind, replay=False)
    def h(c):
        M = module('manager')
        dev = object.__new__(M.ModelDevice)
        N = node('schema node')
        inner, named = {}, []

        def child(t, parent):
            e = node('child', parent=parent)
            e.attrib['type'] = t
            if choose(True, False):
                e.attrib['default'] = fstr('default')
            if t == 'container' and choose(True, False):
                e.attrib['presence'] = 'true'
            return e
        f = child(kind, N)
        case = None
        if kind == 'choice':
            case = node('case', parent=f)
            f.kids.items = [case]
        others = lambda: child('leaf', N)
        N.kids.items = [Seg(others), f, Seg(others)]
        real = M.ModelDevice.default_in_use

        def rec(self, s):
            if s is N:
                return real(self, s)
            inner.setdefault(id(s), (s, node('default inside')))
            return VList([inner[id(s)][1]])
        patch(M.ModelDevice, 'default_in_use', rec)
        exists = choose(True, False) if kind == 'choice' else None

        def conv_tag(self, default_ns, tag, src=None, dst=None):
            named.append((default_ns, tag))
            if tag is f.tag or bool(eqv(tag, f.tag)):
                return fstr('namespace of the choice'), fstr('tag')
            return fstr('ns'), (case.tag if exists else 'no such case')
        patch(M.ModelDevice, 'convert_tag', conv_tag)
        patch(M.ModelDevice, 'convert_ns', lambda self, ns, src=None, dst=None: fstr('prefix'))
        if kind == 'choice':
            assume(not_(eqv(case.tag, 'no such case')))
            if 'default' in f.attrib:
                assume(not_(eqv(f.get('default'), f.tag)))
        r = outcome(dev.default_in_use, N)
        prove('the search returns', r.returned(), r)
        items = r.value.norm() if hasattr(r.value, 'norm') else r.value
        mine = [x for x in items if not isinstance(x, Seg) and (x is f or x is case or any(x is i for _, i in inner.values()))]
        has = 'default' in f.attrib
        if kind in ('leaf', 'leaf-list'):
            want = [f] if has else []
        elif kind == 'container':
            want = [] if f.get('presence') == 'true' else [inner[id(f)][1]] if id(f) in inner else ['lost']
        elif kind == 'choice' and has and exists:
            prove('the default case is the one named by the choice', any(bool(eqv(t, f.get('default'))) for _, t in named), named)
            want = [case, inner[id(case)][1]] if id(case) in inner else ['lost']
        else:
            want = []
        prove('exactly the nodes that exist by default', len(mine) == len(want) and all(any(x is y for y in mine) for x in want), (mine, want))
        cover('in use' if want else 'not in use')
    h.covers = ('not in use', 'in use') if kind in ('leaf', 'leaf-list', 'container', 'choice') else ('not in use',)


for _k in ('leaf', 'leaf-list', 'container', 'choice', 'list', 'rpc'):
    default_h(_k)
