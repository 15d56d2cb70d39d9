"""C10: identities and instance-identifiers by meaning."""
from pyvc.contract import *
from contracts.c04 import node

STR = z3.StringSort()
NAMEOF, UNNAME = z3.Function('module_name', STR, STR), z3.Function('module_url', STR, STR)
ISMODULE = z3.Function('is_module_name', STR, z3.BoolSort())


def word(n):
    """a name: not empty, without a colon"""
    s = fstr(n)
    assume(not_(eqv(s, '')))
    assume(not_(contains(s, ':')))
    return s


class NsMap(VDict):
    """any set of prefixes, each with its URL, and maybe a default namespace"""

    def __init__(self, label, default):
        VDict.__init__(self)
        self.has, self.url = z3.Function('has ' + label, STR, z3.BoolSort()), z3.Function('url ' + label, STR, STR)
        self.default = fstr('default of ' + label) if default else None

        def entry():
            p = word('prefix of ' + label)
            assume(SBool(self.has(zstr(p))))
            return (p, SStr(self.url(zstr(p))))
        self.items = [Seg(entry, name='ns')]
        if default:
            self.items.insert(choose(0, 1), (None, self.default))

    def __contains__(self, k):
        if k is None:
            return self.default is not None
        return bool(SBool(self.has(zstr(k))))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.default if k is None else SStr(self.url(zstr(k)))

    def get(self, k, d=None):
        return self[k] if k in self else d

    def denotes(self, prefix):
        """(known, URL) of a prefix as formulas"""
        return self.has(zstr(prefix)), self.url(zstr(prefix))


class Dev10:
    """any number of modules; names and URLs are in one-to-one correspondence (contract of convert_ns: C09)"""

    def __init__(self):
        def mod():
            n = word('module')
            assume(SBool(ISMODULE(zstr(n))))
            u = SStr(UNNAME(zstr(n)))
            assume(SBool(NAMEOF(UNNAME(zstr(n))) == zstr(n)))
            return (n, word('prefix'), u)
        self.namespaces = VList([Seg(mod, name='modules')])

    def convert_tag(self, default_ns, tag, src=None, dst=None):
        return SStr(z3.Function('url_of_tag', STR, STR)(zstr(tag))), fstr('converted')

    def convert_ns(self, ns, src=None, dst=None):
        T = module('composer').Tag
        prove('URLs are converted to names', src == T.NAMESPACE and dst == T.NAME, (src, dst))
        if not bool(SBool(ISMODULE(NAMEOF(zstr(ns))))) or not bool(SBool(UNNAME(NAMEOF(zstr(ns))) == zstr(ns))):
            raise ValueError('not one module')
        n = SStr(NAMEOF(zstr(ns)))
        assume(not_(contains(n, ':')))
        assume(not_(eqv(n, '')))
        return n


def where(label, default):
    n = node(label)
    n._nsmap = NsMap(label, default)
    return n


def value(c, n, kind):
    """a text and what it denotes at the node: (text, URL or None when it has none, id)"""
    i = word('id')
    if kind == 'bare':
        return i, n.nsmap.default, i
    p = word('written prefix')
    text = SStr(z3.Concat(zstr(p), z3.StringVal(':'), zstr(i)))
    if kind == 'prefixed':
        assume(SBool(n.nsmap.has(zstr(p))))
        return text, SStr(n.nsmap.url(zstr(p))), i
    assume(not_(SBool(n.nsmap.has(zstr(p)))))
    if kind == 'module':
        assume(SBool(ISMODULE(zstr(p))))
        return text, SStr(UNNAME(zstr(p))), i
    assume(not_(SBool(ISMODULE(zstr(p)))))
    return text, None, i


KINDS = ('bare', 'prefixed', 'module', 'unknown')


def parse_h(cls, kind, default):
    def h(c):
        R = getattr(module('ref'), cls)
        n = where('node', default)
        d = Dev10()
        # a module name is known exactly if the device has the module
        text, url, i = value(c, n, kind)
        if kind == 'module':
            me = (SStr(text_prefix(text)), word('prefix'), url)
            d.namespaces = VList([d.namespaces.items[0], me, Seg(d.namespaces.items[0].make, name='modules')])
        if kind == 'unknown':
            def other():
                t = Dev10().namespaces.items[0].make()
                assume(not_(SBool(zstr(t[0]) == text_prefix(text))))
                return t
            d.namespaces = VList([Seg(other, name='modules')])
        n._text = text
        me = R(d, n)
        r = outcome(me.parse_prefixed_id, text, n)
        if kind == 'unknown' or (kind == 'bare' and not default and cls == 'IdentityRef'):
            prove('what denotes nothing raises a config error', r[:2] == ('raise', 'ConfigError'), r)
            cover('error')
            return
        prove('returns', r.returned(), r)
        if not r.returned():
            return
        u, j = r.value
        prove('the name without its prefix', eqv(j, i), r)
        if kind == 'bare' and cls == 'InstanceIdentifier':
            prove('a bare name inherits its namespace', u is None, r)
        else:
            prove('the namespace that the prefix denotes at the node', u is not None and bool(eqv(u, url)), r)
        cover('parsed')
    h.__module__ = __name__
    h.covers = ('error',) if kind == 'unknown' or (kind == 'bare' and not default and cls == 'IdentityRef') else ('parsed',)
    harness('ref.%s.parse_prefixed_id' % cls, '%s: a %s name, %s default namespace' % (cls, kind, 'a' if default else 'no'))(h)


def text_prefix(text):
    return text.e.arg(0)


for _c in ('IdentityRef', 'InstanceIdentifier'):
    for _k in KINDS:
        for _d in (True, False):
            parse_h(_c, _k, _d)


def denoted(nsmap, v, bare):
    """(URL, id) that a written value denotes: (ok, URL, id); v is id or prefix:id"""
    m = rt.RE.search('^(.+):(.+)$', v)
    if m:
        p, i = m.group(1), m.group(2)
        return SBool(nsmap.has(zstr(p))), SStr(nsmap.url(zstr(p))), i
    return bare and nsmap.default is not None, nsmap.default if nsmap.default is not None else '', v


def compose_h(cls, default):
    """moving into another node"""
    def h(c):
        R = getattr(module('ref'), cls)
        n, t = where('node', False), where('target', default)
        me = R(Dev10(), n, to_node=t)
        url, i = fstr('url'), word('id')
        known = choose(True, False)
        if known:
            p = word('its prefix')
            assume(SBool(z3.And(t.nsmap.has(zstr(p)), t.nsmap.url(zstr(p)) == zstr(url))))
            t.nsmap.items.insert(1, (p, url))
        r = outcome(me.compose_prefixed_id, url, i, to_node=t)
        if r.returned():
            ok, u, j = denoted(t.nsmap, r.value, cls == 'IdentityRef')
            prove('the result denotes the same name in the same namespace at the target', and_(ok, eqv(u, url), eqv(j, i)), r)
            cover('moved')
        else:
            prove('only a namespace unknown at the target fails, with a config error', r[1] == 'ConfigError', r)
            prove('a namespace with a prefix at the target never fails', not known, r)
            if cls == 'IdentityRef' and default:
                prove('the default namespace would not do', not_(eqv(t.nsmap.default, url)), r)
            cover('refused')
    h.__module__ = __name__
    h.covers = ('moved', 'refused')
    harness('ref.%s.compose_prefixed_id' % cls, '%s: moved into a node with%s default namespace' % (cls, '' if default else 'out'))(h)


for _c in ('IdentityRef', 'InstanceIdentifier'):
    for _d in (True, False):
        compose_h(_c, _d)


def canon_h(cls):
    """the form in which values are compared"""
    def h(c):
        R = getattr(module('ref'), cls)
        a, b = where('node', False), where('other', False)
        b._tag = a._tag                                   # peers have the same tag
        u1, i1, u2, i2 = fstr('url1'), word('id1'), fstr('url2'), word('id2')
        d = Dev10()
        r1 = outcome(R(d, a).compose_prefixed_id, u1, i1)
        r2 = outcome(R(d, b).compose_prefixed_id, u2, i2)
        if not (r1.returned() and r2.returned()):
            r = r1 if not r1.returned() else r2
            prove('only a namespace that is not one module fails', r[1] == 'ValueError', r)
            cover('unknown')
            return
        prove('two values in comparable form are equal exactly if name and namespace are',
              SBool((zstr(r1.value) == zstr(r2.value)) == z3.And(zstr(u1) == zstr(u2), zstr(i1) == zstr(i2))), (r1, r2))
        cover('compared')
    h.__module__ = __name__
    h.covers = ('unknown', 'compared')
    harness('ref.%s.compose_prefixed_id' % cls, '%s: comparable form' % cls)(h)


canon_h('IdentityRef')
canon_h('InstanceIdentifier')


def whole_h(how):
    @harness('ref.IdentityRef.' + how, 'IdentityRef.' + how)
    def h(c):
        R = module('ref').IdentityRef
        n, t = node('node'), node('target')
        n._text = choose(fstr('text'), None)
        log = []
        u, i, out = fstr('url'), fstr('id'), fstr('out')

        def parse(self, text, at):
            prove('the text is read at its own node', at is n and text is n._text, (text, at))
            return u, i

        def compose(self, url, id, to_node=None):
            prove('what was read is written', url is u and id is i, (url, id))
            prove('for the target', to_node is (t if how == 'converted' else None), to_node)
            return out
        patch(R, 'parse_prefixed_id', parse)
        patch(R, 'compose_prefixed_id', compose)
        r = outcome(lambda: getattr(R(Dev10(), n, to_node=t), how))
        if n._text is None:
            prove('an identity without a value raises a config error', r[:2] == ('raise', 'ConfigError'), r)
            cover('no value')
        else:
            prove('the text rewritten', r.returned() and r.value is out, r)
            cover('value')
    h.covers = ('no value', 'value')


whole_h('converted')
whole_h('default')


@harness('ref.IdentityRef.default_ns', 'default_ns')
def default_ns(c):
    R = module('ref').IdentityRef
    n = where('node', False)
    d = Dev10()
    u, i = fstr('url'), word('id')
    n._text = fstr('text')
    patch(R, 'parse_prefixed_id', lambda self, text, at: (u, i))
    me = R(d, n)
    v = outcome(lambda: me.default)
    r = outcome(lambda: me.default_ns)
    if not v.returned():
        prove('raises as the value does', r[0] == 'raise', r)
        return
    prove('returns', r.returned(), r)
    m, own = r.value, me.node_url
    prove('the default namespace is that of the node', eqv(m[None], own))
    if bool(eqv(u, own)):
        prove('nothing else is needed', len(list(m)) == 1, m)
        prove('a bare name', eqv(v.value, i))
        cover('own')
    else:
        name = SStr(NAMEOF(zstr(u)))
        prove('the prefix of the value denotes its namespace', name in m and bool(eqv(m[name], u)), m)
        prove('the value uses that prefix', eqv(v.value, SStr(z3.Concat(zstr(name), z3.StringVal(':'), zstr(i)))))
        cover('foreign')


default_ns.covers = ('own', 'foreign')


# ------------------------------------------------------------------ which text is compared and moved
DT = ('identityref', 'instance-identifier', 'other', None)


def calc(c):
    M = module('calculator')
    k = M.BaseCalculator.__new__(M.BaseCalculator)
    log = []

    class D:
        def get_schema_node(self, n):
            log.append(n)
            return S
    k.device = D()
    dt = choose(*DT)
    S = node('schema')
    S.attrib = VAttr(S, known={'type': choose('leaf', 'leaf-list', 'container', 'list')})
    if dt is not None:
        s = fstr('datatype')
        if dt == 'identityref':
            s = SStr(z3.Concat(z3.StringVal('identityref'), zstr(fstr('base'))))
        elif dt == 'instance-identifier':
            s = 'instance-identifier'
        else:
            assume(not_(SBool(z3.PrefixOf(z3.StringVal('identityref'), zstr(s)))))
            assume(not_(eqv(s, 'instance-identifier')))
        S.attrib.known['datatype'] = s

    def ref(kind):
        class X:
            def __init__(self, device, n, to_node=None):
                prove('with the device of the calculator', device is k.device)
                self.n, self.t = n, to_node

            default = property(lambda s: SStr(z3.Function(kind, z3.IntSort(), STR)(s.n.ghost['id'].e)))
            converted = property(lambda s: SStr(z3.Function(kind + ' for', z3.IntSort(), z3.IntSort(), STR)(s.n.ghost['id'].e, s.t.ghost['id'].e)))
        return X
    patch(M, 'IdentityRef', ref('identityref'))
    patch(M, 'InstanceIdentifier', ref('instance-identifier'))
    return k, S, dt, log


@harness('calculator.BaseCalculator._parse_text', '_parse_text')
def parse_text(c):
    k, S, dt, log = calc(c)
    n = node('node')
    n._text = choose(fstr('text'), None)
    given = choose(True, False)
    r = outcome(k._parse_text, n, S) if given else outcome(k._parse_text, n)
    prove('returns', r.returned(), r)
    if n._text is None:
        prove('no text, no value', r.value is None, r)
        cover('none')
        return
    prove('the schema node of the node decides', all(x is n for x in log) and (given or len(log) > 0), log)
    if dt in ('identityref', 'instance-identifier'):
        prove('the value in its comparable form', z3.eq(zstr(r.value), z3.Function(dt, z3.IntSort(), STR)(n.ghost['id'].e)), r)
        cover(dt)
    elif S.attrib.known['type'] in ('container', 'list'):
        prove('nodes with children have no value', r.value is None, r)
        cover('inner')
    else:
        prove('the text itself', r.value is n._text, r)
        cover('text')


parse_text.covers = ('none', 'identityref', 'instance-identifier', 'inner', 'text')


@harness('calculator.BaseCalculator._same_text', '_same_text')
def same_text(c):
    M = module('calculator')
    k = M.BaseCalculator.__new__(M.BaseCalculator)
    a, b = node('a'), node('b')
    a._text, b._text = choose(fstr('text'), None), choose(fstr('text'), None)
    V = z3.Function('value', z3.IntSort(), STR)
    k._parse_text = lambda n, s=None: None if n._text is None else SStr(V(n.ghost['id'].e))
    r = outcome(k._same_text, a, b)
    prove('returns', r.returned(), r)
    if a._text is None or b._text is None:
        prove('no value is only like no value', bool(r.value) == (a._text is None and b._text is None), r)
        cover('none')
    else:
        prove('the values decide', SBool(zbool(r.value) == (V(a.ghost['id'].e) == V(b.ghost['id'].e))), r)
        cover('values')


same_text.covers = ('none', 'values')


@harness('calculator.BaseCalculator._merge_text', '_merge_text')
def merge_text(c):
    k, S, dt, log = calc(c)
    a, b = node('from'), node('to')
    a._text, b._text = choose(fstr('text'), None), fstr('before')
    t0, tag0 = a._text, b._tag
    r = outcome(k._merge_text, a, b)
    prove('returns', r.returned(), r)
    prove('the source keeps its text', a._text is t0)
    if t0 is None:
        prove('no text moves as no text', b._text is None, b._text)
        cover('none')
    elif dt in ('identityref', 'instance-identifier'):
        prove('the value is rewritten for the target', z3.eq(zstr(b._text), z3.Function(dt + ' for', z3.IntSort(), z3.IntSort(), STR)(a.ghost['id'].e, b.ghost['id'].e)), b._text)
        cover(dt)
    else:
        prove('other values move as they are', b._text is t0, b._text)
        cover('text')


merge_text.covers = ('none', 'identityref', 'instance-identifier', 'text')


# ------------------------------------------------------------------ the pieces of an instance-identifier
PIECES = ('literal or separator', 'punctuation', 'index', 'key name', 'step')


def pieces_h(target):
    def h(c):
        R = module('ref').InstanceIdentifier
        d = Dev10()
        n, t = node('node'), node('target')
        n._text = fstr('text')
        me = R(d, n, to_node=t)
        PRE = z3.Function('prefixed', STR, z3.BoolSort())
        URL, ID = z3.Function('url of piece', STR, STR), z3.Function('id of piece', STR, STR)
        OUT = z3.Function('written', STR, STR, STR)

        def parse(self, text, at):
            prove('names are read at their own node', at is n)
            return (SStr(URL(zstr(text))) if bool(SBool(PRE(zstr(text)))) else None), SStr(ID(zstr(text)))

        def compose(self, url, id, to_node=None):
            prove('names are written for the target', to_node is (t if target else None))
            prove('a name is written with a namespace', url is not None)
            return SStr(OUT(zstr(url), zstr(id)))
        patch(R, 'parse_prefixed_id', parse)
        patch(R, 'compose_prefixed_id', compose)
        ps, want, current, error = [], [], None, False
        for i in range(choose(1, 2, 3)):
            k = choose(*PIECES)
            s = fstr('piece%d' % i)
            if k == 'punctuation':
                s = choose('[', ']', '=', '.')
            elif k != 'literal or separator':
                digits = z3.InRe(s.e, z3.Plus(z3.Range('0', '9')))
                assume(SBool(digits if k == 'index' else z3.Not(digits)))
                for x in '[]=.':
                    assume(not_(eqv(s, x)))
            ph = {'literal or separator': choose(0, 1) if k == 'literal or separator' else 0, 'punctuation': 2, 'index': 2, 'key name': 2, 'step': 3}[k]
            conv = fstr('converted%d' % i)
            ps.append((s, ph, conv))
            if ph < 2:
                want.append(conv)
            elif k in ('punctuation', 'index'):
                want.append(s)
            else:
                pre = bool(SBool(PRE(zstr(s))))
                if pre and k == 'step':
                    current = SStr(URL(zstr(s)))
                u = SStr(URL(zstr(s))) if pre else current
                if u is None:
                    error = True
                    break
                want.append(SStr(OUT(zstr(u), ID(zstr(s)))))
        me.str_list = VList(ps)
        r = outcome(me.convert_str_list, to_node=t) if target else outcome(me.convert_str_list)
        if error:
            prove('a name without a namespace raises a config error', r[:2] == ('raise', 'ConfigError'), r)
            cover('error')
            return
        prove('returns', r.returned(), r)
        got = [p[2] for p in me.str_list.items]
        prove('as many pieces as before', len(got) == len(want), (got, want))
        prove('names get the namespace of their prefix, or of the last step with one; the rest stays', and_(*[eqv(a, b) for a, b in zip(got, want)]), (got, want))
        cover('converted')
    h.__module__ = __name__
    h.covers = ('error', 'converted')
    harness('ref.InstanceIdentifier.convert_str_list', 'convert_str_list ' + ('for a target' if target else 'for comparison'), bound='up to 3 pieces')(h)


pieces_h(True)
pieces_h(False)
