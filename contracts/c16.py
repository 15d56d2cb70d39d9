"""C16: requests carry exactly the intended filter, datastore and payload."""
from pyvc.contract import *
from contracts.c04 import node, ident

ACCESS = z3.Function('access_of_root', z3.StringSort(), z3.StringSort(), z3.StringSort())


class Tree:
    def __init__(self, model):
        self.model = model

    def iterchildren(self, tag=None):
        """a root of a model is a child of its tree"""
        n = node('root', tag=tag)
        n.attrib.known['access'] = SStr(ACCESS(zstr(self.model), zstr(tag)))
        return VList([n])

    def find(self, tag):
        return self.iterchildren(tag)[0]


class Mod:
    def __init__(self, name):
        self.name, self.tree = name, Tree(name)


class Models:
    def __getitem__(self, name):
        return Mod(name)


def device(M):
    d = M.ModelDevice.__new__(M.ModelDevice)
    d.__dict__['models'] = Models()
    log = []
    base = M.ModelDevice.__mro__[1]

    def sent(self, cls, *a, **k):
        log.append((cls, a, k))
        return 'the reply'
    patch(base, 'execute', sent)
    return d, log


def filter_h(op, kind):
    def h(c):
        M = module('manager')
        d, log = device(M)
        cls = {'get': M.operations.retrieve.Get, 'get_config': M.operations.retrieve.GetConfig}[op]
        f, fm = fstr('root'), fstr('model of root')
        pair = lambda: (fstr('root'), fstr('model'))
        roots = VDict()
        roots.items = [Seg(pair, excl=[Pred(('key', 0, f), lambda kv: eqv(kv[0], f))]), (f, fm), Seg(pair, excl=[Pred(('key', 0, f), lambda kv: eqv(kv[0], f))])]
        loaded = AbsSet('loaded')
        patch(M.ModelDevice, 'roots', property(lambda self: roots))
        patch(M.ModelDevice, 'models_loaded', property(lambda self: loaded))
        g = fstr('requested model')
        models = g if kind == 'name' else VList([g, fstr('other requested model')])
        kw = {'models': models}
        if choose(False, True):
            kw['filter'] = 'some filter'
        if op == 'get_config':
            kw.update(choose({}, {'source': 'startup'}))
        r = outcome(d.execute, choose(op, cls), **kw)
        req = [g] if kind == 'name' else models.items
        if not r.returned():
            prove('only missing models and models without roots are refused', r[1] in ('ModelMissing', 'ValueError') and not log, r)
            if r[1] == 'ModelMissing':
                prove('a missing model is not loaded', not all(x in loaded for x in req))
                cover('missing')
            else:
                cover('no roots')
                mine = any(bool(eqv(fm, x)) for x in req) and ok(op, fm, f)
                prove('models with a suitable root are served', not mine)
            return
        cover('sent')
        prove('unloaded models are refused', all(x in loaded for x in req))
        prove('one request of that kind is sent and its reply returned', len(log) == 1 and log[0][0] is cls and r.value == 'the reply', log)
        a, k = log[0][1:]
        prove('the models are not sent', set(k) <= {'filter', 'source'}, list(k))
        if op == 'get_config':
            src = k.get('source', a[0] if a else None)
            prove('the running datastore is read unless told otherwise', src == kw.get('source', 'running') and not (a and 'source' in k), (a, k.get('source')))
        else:
            prove('nothing else is sent', not a, a)
        e = k.get('filter')
        if not isinstance(e, SymElem):
            prove('a subtree filter is sent', False, e)
        prove('a subtree filter is sent', eqv(e.tag, M.filter_tag) and e.get('type') == 'subtree' and list(e.attrib.known) == ['type'], e)
        want = any(bool(eqv(fm, x)) for x in req) and ok(op, fm, f)
        kids = e.kids.norm()
        n = 0
        for x in kids:
            x = x.draw() if isinstance(x, Seg) else x
            prove('the filter selects whole roots', not x.kids.norm() and not x.attrib.known)
        same = [x for x in kids if not isinstance(x, Seg) and bool(eqv(x.tag, f))]
        prove('a suitable root of the models is named once, any other not', len(same) == (1 if want else 0), (len(same), want))
        segs = [x for x in kids if isinstance(x, Seg)]
        i = choose(*range(len(segs) + 1))
        if i:
            x = segs[i - 1].draw()
            prove('and nowhere else', not_(eqv(x.tag, f)))
        cover('named' if want else 'not named')
    h.__module__ = __name__
    h.covers = ('sent', 'missing', 'no roots', 'named', 'not named')
    harness('manager.ModelDevice.execute', '%s limited to %s' % (op, 'a model' if kind == 'name' else 'models'), replay=False)(h)


def ok(op, m, f):
    a = SStr(ACCESS(zstr(m), zstr(f)))
    return bool(eqv(a, 'read-write')) or op == 'get' and bool(eqv(a, 'read-only'))


for _o in ('get', 'get_config'):
    for _k in ('name', 'names'):
        filter_h(_o, _k)


def many_h(op):
    """any number of models"""
    def h(c):
        M = module('manager')
        d, log = device(M)
        f, fm, g = fstr('root'), fstr('model of root'), fstr('requested model')
        roots = VDict()
        roots.items = [(f, fm)]
        loaded = AbsSet('loaded')
        patch(M.ModelDevice, 'roots', property(lambda self: roots))
        patch(M.ModelDevice, 'models_loaded', property(lambda self: loaded))
        models = VList([Seg(lambda: fstr('requested model')), g, Seg(lambda: fstr('requested model'))])
        r = outcome(d.execute, op, models=models)
        if not r.returned():
            prove('only missing models and models without roots are refused', r[1] in ('ModelMissing', 'ValueError') and not log, r)
            if r[1] == 'ValueError':
                prove('models with a suitable root are served', not (bool(eqv(fm, g)) and ok(op, fm, f)))
            cover('refused')
            return
        prove('unloaded models are refused', g in loaded)
        kids = log[0][2]['filter'].kids.norm() if len(log) == 1 and isinstance(log[0][2].get('filter'), SymElem) else []
        prove('only suitable roots are named', ok(op, fm, f) and len(kids) == 1 and eqv(kids[0].tag, f), kids)
        cover('sent')
    h.__module__ = __name__
    h.covers = ('sent', 'refused')
    harness('manager.ModelDevice.execute', op + ' limited to any number of models', replay=False)(h)


many_h('get')
many_h('get_config')

CAND, WRUN = 'urn:ietf:params:netconf:capability:candidate:1.0', 'urn:ietf:params:netconf:capability:writable-running:1.0'


@harness('manager.ModelDevice.execute', 'edit-config', replay=False)
def edit(c):
    M = module('manager')
    d, log = device(M)
    cand, wrun = choose(True, False), choose(True, False)
    caps = VList([Seg(lambda: fstr('capability'), excl=[Pred(('is', x), lambda s, x=x: eqv(s, x)) for x in (CAND, WRUN)])] + [CAND] * cand + [WRUN] * wrun)
    patch(M.ModelDevice, 'server_capabilities', property(lambda self: caps))
    cf = M.Config.__new__(M.Config)
    cf.ele = node('config')
    payload = choose('config', 'element', 'keyword')
    x = cf if payload == 'config' else node('element')
    a = [] if payload == 'keyword' else [x]
    kw = {'config': x} if payload == 'keyword' else {}
    how = choose('none', 'second', 'keyword', 'third')
    if how == 'second' and payload != 'keyword':
        a += ['xml']
        how = 'none'
    elif how == 'second':
        how = 'none'
    elif how == 'third' and payload != 'keyword':
        a += ['xml', 'candidate']
    elif how != 'none':
        kw['target'] = 'startup'
    if choose(False, True):
        kw['default_operation'] = 'none'
    cls = M.operations.edit.EditConfig
    r = outcome(d.execute, choose('edit_config', cls), *a, **kw)
    prove('one request of that kind is sent and its reply returned', r.returned() and len(log) == 1 and log[0][0] is cls and r.value == 'the reply', r)
    if not r.returned() or len(log) != 1:
        return
    b, k = log[0][1:]
    want = list(a)
    if payload == 'config':
        want[0] = cf.ele
    wk = dict(kw)
    if how == 'none' and wrun and not cand:
        wk['target'] = 'running'
        cover('running')
    else:
        cover('as given')
    prove('the payload is the config itself', len(b) == len(want) and all(p is q or p == q for p, q in zip(b, want)), (b, want))
    prove('running is the target only if none is given and the device can write nothing else', sorted(k) == sorted(wk) and all(k[i] is wk[i] or k[i] == wk[i] for i in wk), (k, wk))


edit.covers = ('running', 'as given')


@harness('manager.ModelDevice.execute', 'other requests', replay=False)
def others(c):
    M = module('manager')
    d, log = device(M)
    caps = VList([Seg(lambda: fstr('capability'))])
    patch(M.ModelDevice, 'server_capabilities', property(lambda self: caps))
    op = choose('get', 'get_config', 'lock', 'validate', 'nonsense')
    kw = choose({}, {'filter': 'a filter'}, {'source': 'candidate'}, {'filter': 'a filter', 'source': 'candidate'})
    a = choose((), ('startup',))
    if op == 'nonsense':
        r = outcome(d.execute, op, *a, **kw)
        prove('an unknown request raises a value error', r[:2] == ('raise', 'ValueError') and not log, r)
        cover('unknown')
        return
    cls = M.manager.OPERATIONS[op]
    r = outcome(d.execute, choose(op, cls), *a, **dict(kw))
    prove('one request of that kind is sent and its reply returned', r.returned() and len(log) == 1 and log[0][0] is cls and r.value == 'the reply', r)
    if r.returned() and len(log) == 1:
        wa = ('running',) if op == 'get_config' and not a and 'source' not in kw else a
        k = dict(log[0][2])
        if op == 'get_config' and not a and 'source' not in kw and not log[0][1]:
            wa = ()
            prove('the running datastore is read unless told otherwise', k.pop('source', None) == 'running')
        prove('explicit arguments are never overridden', log[0][1] == wa and k == kw, log)
        cover('sent')


others.covers = ('unknown', 'sent')


@harness('manager.ModelDevice.extract_config', 'extraction', replay=False)
def extract(c):
    M = module('manager')
    d = M.ModelDevice.__new__(M.ModelDevice)
    c.widen = True
    new = []
    A = node('config')
    f = node('child', parent=A)
    low = node('below', parent=f)
    f.kids.items = [low]
    acc = choose('read-only', 'read-write')
    accl = choose('read-only', 'read-write')
    A.kids.items = [Seg(lambda: child(A)), f, Seg(lambda: child(A))]

    class Cfg:
        def __init__(self, *a, **k):
            new.append((a, k))
            self.ele = A
    patch(M, 'Config', Cfg)

    class S:
        def __init__(self, a):
            self.a = a

        def get(self, n, d=None):
            return self.a if n == 'access' else d
    patch(M.ModelDevice, 'get_schema_node', lambda self, n: S(acc if n is f else accl if n is low else choose('read-only', 'read-write')))
    dep = choose(True, False)
    r = outcome(lambda: d.extract_config('a reply', remove_deprecated=dep))
    prove('returns the validated config', r.returned() and len(new) == 1 and new[0][0][0] is d and new[0][0][1] == 'a reply' and isinstance(r.value, Cfg), r)
    if not r.returned() or len(new) != 1:
        return
    k = dict(zip(('device', 'config', 'validate', 'remove_deprecated'), new[0][0]), **new[0][1])
    prove('options are passed on', k.get('validate', True) is True and k.get('remove_deprecated', False) == dep, new)
    kept = any(x is f for x in A.kids.norm())
    prove('state data is dropped, configuration kept', kept == (acc == 'read-write'), (kept, acc))
    if kept:
        prove('at every depth', any(x is low for x in f.kids.norm()) == (accl == 'read-write'), accl)
        cover('below')


extract.covers = ('below',)


def child(parent):
    e = Loose(None, label='child', parent=parent)
    e.ghost['id'] = SInt(core.CTX.fresh('node', z3.IntSort()))
    e.like = lambda: child(parent)
    return e


# ------------------------------------------------------------------ copies on the way in and out
def elem(parent, kids=(), **k):
    e = node('child', parent=parent, kids=list(kids), nsmap=VDict(), **k)
    e.attrib.known['a'] = fstr('attribute')
    return e


def comment(parent):
    e = node('comment', parent=parent, tag=ETree.Comment, tail=None if choose(True, False) else fstr('tail'))
    return e


def same_node(new, old):
    return bool(eqv(new.tag, old.tag)) and sorted(new.attrib.known) == sorted(old.attrib.known) and \
        all(bool(eqv(new.attrib.known[k], v)) for k, v in old.attrib.known.items()) and new._nsmap is old._nsmap


@harness('netconf._copy_element', 'copying a node', replay=False)
def copy_element(c):
    M = module('netconf')
    real = M._copy_element
    log = []

    def rec(parent, e):
        """contract of the recursive call: appends a copy"""
        n = ETree.SubElement(parent, e.tag)
        n.ghost['copy of'] = e
        log.append(e)
    patch(M, '_copy_element', rec)
    P = node('new parent', kids=[Seg(lambda: node('before'))])
    e = elem(None)
    f, g = elem(e), elem(e)
    txt = e.text
    mixed = choose(False, True)
    if mixed:
        cm = comment(e)
        e.kids.items = [f, cm, g]
    else:
        e.kids.items = [Seg(lambda: elem(e)), f, Seg(lambda: elem(e)), g, Seg(lambda: elem(e))]
    r = outcome(real, P, e)
    prove('returns', r.returned(), r)
    if not r.returned():
        return
    n = P.kids.norm()[-1]
    prove('the copy comes last', not isinstance(n, Seg) and len(P.kids.norm()) == 2)
    prove('same name, attributes and prefixes', same_node(n, e))
    kids = n.kids.norm()
    of = [None if isinstance(x, Seg) else x.ghost.get('copy of') for x in kids]
    prove('every child element is copied once', len([x for x in of if x is f]) == 1 and len([x for x in of if x is g]) == 1, of)
    prove('in the same order', [x for x in of if x is f or x is g] == [f, g], of)
    prove('nothing else is added', all(x is f or x is g for x in of if x is not None))
    for x in kids:
        if isinstance(x, Seg):
            x = x.draw()
            prove('nothing else is added', x.ghost.get('copy of') is not f and x.ghost.get('copy of') is not g)
    if mixed:
        t = cm.tail
        prove('text around a comment stays', eqv(n.text, txt) if t is None else eqv(n.text, t if txt is None else rt.concat([txt, t])), (txt, t, n.text))
        cover('comment')
    else:
        prove('same text', eqv(n.text, txt), (txt, n.text))
        cover('plain')
    prove('the original stays', len(e.kids.items) == (3 if mixed else 5) and eqv(e.text, txt))


copy_element.covers = ('plain', 'comment')


@harness('netconf._copy_elements', 'copying nodes', replay=False)
def copy_elements(c):
    M = module('netconf')

    def rec(parent, e):
        n = ETree.SubElement(parent, e.tag)
        n.ghost['copy of'] = e
    patch(M, '_copy_element', rec)
    P = node('new parent')
    f, g = node('f'), node('g')
    r = outcome(M._copy_elements, P, VList([Seg(lambda: node('x')), f, Seg(lambda: node('x')), g, Seg(lambda: node('x'))]))
    prove('returns', r.returned(), r)
    of = [None if isinstance(x, Seg) else x.ghost.get('copy of') for x in P.kids.norm()]
    prove('every node is copied once, in the same order', [x for x in of if x is not None] == [f, g], of)


@harness('netconf.NetconfParser.retrieve_config', 'finding the data', replay=False)
def retrieve(c):
    M = module('netconf')
    log = []
    patch(M, '_copy_elements', lambda p, es: log.append((p, es)))
    NS = {'nc': M.nc_url}
    where = choose('/nc:rpc-reply/nc:data/*', '/nc:data/*', '/nc:config/*', '/nc:rpc/nc:edit-config/nc:config/*', '/nc:edit-config/nc:config/*')
    data = VList([Seg(lambda: node('x'))])

    class E(SymElem):
        def xpath(self, p, namespaces=None):
            prove('the prefix is known', namespaces == NS)
            return data if where in [x.strip() for x in p.split('|')] else VList([])
    e = E(label='reply')
    r = outcome(M.NetconfParser.retrieve_config, e)
    prove('returns an empty config to fill', r.returned() and eqv(r.value.tag, M.config_tag) and not r.value.kids.norm() and not r.value.attrib.known, r)
    prove('the data found is copied once into it', len([1 for p, es in log if es is data and p is r.value]) == 1, log)
    bad = outcome(M.NetconfParser.retrieve_config, choose(None, 'text', 3))
    prove('anything but an element raises a type error', bad[:2] == ('raise', 'TypeError'), bad)


@harness('netconf.NetconfParser.ele', 'parsing', replay=False)
def parse(c):
    M = module('netconf')
    log = []
    patch(M.NetconfParser, 'retrieve_config', staticmethod(lambda e: log.append(e) or 'config of'))
    src = node('given')
    p = M.NetconfParser('device', src)
    r = outcome(lambda: (p.ele, p.ele))
    prove('an element is searched for its data once', r.returned() and r.value == ('config of', 'config of') and len(log) == 1 and log[0] is src, r)


@harness('__init__._append', 'payload', bound='the payload has at most two levels below its root, any number of nodes each', replay=False)
def append(c):
    M = module('__init__')
    leaf = lambda p: elem(p, text=fstr('text'))

    def sub(p):
        e = leaf(p)
        e.kids.items = [leaf(e)] if choose(True, False) else []
        return e
    P = node('message', kids=[Seg(lambda: node('before'))])
    e = elem(None)
    f = elem(e)
    f1, f2 = leaf(f), leaf(f)
    mixed = choose(False, True)
    cm = comment(f) if mixed else None
    f.kids.items = [f1] + [cm] * mixed + [f2]
    g = leaf(e)
    e.kids.items = [Seg(lambda: sub(e)), f, g, Seg(lambda: sub(e))]
    c.widen = True
    for x in (e, f):
        x.text
    r = outcome(M._append, P, e)
    prove('returns', r.returned(), r)
    if not r.returned():
        return
    n = P.kids.norm()[-1]
    prove('the payload comes last', not isinstance(n, Seg) and len(P.kids.norm()) == 2)
    known = [x for x in n.kids.norm() if not isinstance(x, Seg)]
    prove('every child is copied once, in the same order', len(known) == 2 and same_node(known[0], f) and same_node(known[1], g), known)
    if len(known) != 2:
        return
    low = known[0].kids.norm()
    prove('at every depth', len(low) == 2 and same_node(low[0], f1) and same_node(low[1], f2) and not known[1].kids.norm(), low)
    prove('same name, attributes and prefixes', same_node(n, e))
    ft = f.text
    if mixed and cm.tail is not None:
        ft = cm.tail if ft is None else rt.concat([ft, cm.tail])
        cover('comment')
    prove('same text', eqv(n.text, e.text) and eqv(known[0].text, ft) and eqv(known[1].text, g.text) and
          all(bool(eqv(x.text, y.text)) for x, y in zip(low, (f1, f2))))
    for x in n.kids.norm():
        if isinstance(x, Seg):
            x = x.draw()
            prove('other children keep their attributes', sorted(x.attrib.known) == ['a'])
    prove('the payload itself stays', [x for x in e.kids.items if not isinstance(x, Seg)] == [f, g] and f.kids.items == [f1] + [cm] * mixed + [f2])
    cover('plain')


append.covers = ('plain', 'comment')


def facade(M):
    """contracts of ncclient's element helpers"""
    def new_ele(tag, attrs=None, **k):
        e = ETree.Element(tag)
        e.attrib.known.update(attrs or {})
        return e

    def sub_ele(p, tag, attrs=None, **k):
        e = new_ele(tag, attrs)
        p.append(e)
        return e
    patch(M, 'new_ele', new_ele)
    patch(M, 'sub_ele', sub_ele)


@harness('__init__.request', 'edit-config message', replay=False)
def request(c):
    M = module('__init__')
    facade(M)
    cfg = node('payload')
    log = []
    patch(M, 'validated_element', lambda x, tags: x if x is cfg else None)
    patch(M, '_append', lambda p, e: (p.append(node('copy', tag='config')), p.kids.items[-1].ghost.update({'copy of': e}))[0])

    class Op:
        def _assert(self, cap):
            log.append(('needs', cap))

        def _request(self, n):
            log.append(('send', n))
            return 'the reply'

    class U:
        @staticmethod
        def datastore_or_url(wha, loc, capcheck=None):
            e = ETree.Element('target')
            e.ghost['target'] = (wha, loc)
            return e

    class Ops:
        util = U
    patch(M, 'operations', Ops)
    fmt = choose('xml', 'text')
    tgt, dop, top, eop = choose(None, 'running'), choose(None, 'none'), choose(None, 'set'), choose(None, 'rollback-on-error', 'stop-on-error')
    k = {n: v for n, v in (('target', tgt), ('default_operation', dop), ('test_option', top), ('error_option', eop)) if v is not None}
    payload = cfg if fmt == 'xml' else fstr('commands')
    r = outcome(M.request, Op(), payload, **dict(k, **({} if fmt == 'xml' else {'format': 'text'})))
    sent = [x[1] for x in log if x[0] == 'send']
    prove('one message is sent and its reply returned', r.returned() and r.value == 'the reply' and len(sent) == 1, r)
    if len(sent) != 1:
        return
    kids = sent[0].kids.norm()
    prove('an edit-config', eqv(sent[0].tag, 'edit-config') and not sent[0].attrib.known)
    t = [x.ghost['target'] for x in kids if 'target' in x.ghost]
    prove('it names its target', t == [('target', tgt or 'candidate')], t)
    for tag, v in (('default-operation', dop), ('test-option', top), ('error-option', eop)):
        got = [x.text for x in kids if bool(eqv(x.tag, tag))]
        prove('it carries the options given and no others', got == ([] if v is None else [v]), (tag, got))
    prove('capabilities are asserted', [x[1] for x in log if x[0] == 'needs'] == [':rollback-on-error'] * (eop == 'rollback-on-error') + [':validate'] * (top is not None), log)
    if fmt == 'xml':
        prove('and the payload', [x for x in kids if x.ghost.get('copy of') is cfg] != [] and len([x for x in kids if 'copy of' in x.ghost]) == 1)
        n = 1
    else:
        txt = [x for x in kids if bool(eqv(x.tag, 'config-text'))]
        prove('and the commands', len(txt) == 1 and len(txt[0].kids.norm()) == 1 and eqv(txt[0].kids.norm()[0].text, payload))
        n = 1
    prove('and nothing else', len(kids) == 1 + n + sum(v is not None for v in (dop, top, eop)), kids)


@harness('__init__._wrap', 'message', replay=False)
def wrap(c):
    M = module('__init__')
    facade(M)
    e = node('payload')
    log = []
    patch(M, '_append', lambda p, x: log.append((p, x)))
    patch(M, 'to_xml', lambda x, *a, **k: log.append(x) or 'the text')

    class H:
        def get_xml_extra_prefix_kwargs(self):
            return {}

    class Op:
        _id, _device_handler = 'message 7', H()
    r = outcome(M._wrap, Op(), e)
    prove('the message is an rpc with its number and the payload', r.returned() and r.value == 'the text' and len(log) == 2 and log[0][1] is e and log[1] is log[0][0]
          and eqv(log[1].tag, 'rpc') and log[1].attrib.known == {'message-id': 'message 7'}, (r, log))
