"""C06: building a config drops defaults and empty nodes, validates, and changes nothing else."""
from pyvc.contract import *
from pyvc.elem import sfn
from contracts.c04 import node, ident, Dev
from contracts.c03 import OP, INSERT, VALUE, KEY

STATUS = ('current', 'deprecated', 'obsolete')


def lchild(parent, tag=None):
    e = Loose(tag, label='child', parent=parent)
    e.ghost['id'] = SInt(core.CTX.fresh('node', z3.IntSort()))
    e.kids.items = [Seg(lambda: node('grandchild', parent=e))]
    e.like = lambda: lchild(parent, e.tag)
    return e


KNOWN = z3.Function('known_tag', z3.StringSort(), z3.BoolSort())


class Dev6(Dev):
    def get_schema_node(self, n):
        return SNode(n.tag, concrete=True) if bool(SBool(KNOWN(zstr(n.tag)))) else None

    def get_xpath(self, n, **k):
        return fstr('xpath')


def cfg(remove_deprecated=False):
    M = module('config')
    c = M.Config.__new__(M.Config)
    c.device = Dev6()
    c.remove_deprecated = remove_deprecated
    patch(M.Config, '__str__', lambda self: 'config')
    return M, c


def shrink(n):
    """contract of the recursive call: some descendants are gone, nothing else changed"""
    if choose(True, False):
        n.kids.items[:] = []
        n.ghost['left'] = False
    else:
        n.kids.items[:] = [node('grandchild', parent=n), Seg(lambda: node('grandchild', parent=n))]
        n.ghost['left'] = True


def trim_h(t):
    def h(c):
        M, cf = cfg()
        c.fuzzy = c.widen = True
        c.widen_keep = ('s_type',)
        f = None
        real = M.Config._trim_defaults
        calls = []

        def trim(self, n):
            if n is A:
                return real(self, n)
            if n is f:
                calls.append(n)
                prove('descendants are trimmed first', f.parent is A)
            shrink(n)
        patch(M.Config, '_trim_defaults', trim)
        A = node('node')
        f = node('child', parent=A)
        assume(SNode(f.tag).is_('type', t))
        empty = choose(True, False)
        f.kids.items = [] if empty else [node('grandchild', parent=f), Seg(lambda: node('grandchild', parent=f))]
        f.ghost['left'] = not empty
        txt = f.text
        A.kids.items = [Seg(lambda: lchild(A)), f, Seg(lambda: lchild(A))]
        A.live = True
        r = outcome(cf._trim_defaults, A)
        if not r.returned():
            prove('only config errors', r[1] == 'ConfigError', r)
            cover('rejected')
            return
        cover('returns')
        S = SNode(f.tag)
        prove('nodes unknown to the models are rejected', bool(SBool(KNOWN(zstr(f.tag)))))
        prove('children are trimmed once', len(calls) == (0 if empty else 1), len(calls))
        kept = any(x is f for x in A.kids.norm())
        if t == 'container':
            want = f.ghost['left'] or bool(S.is_('presence', 'true'))
        elif t == 'list':
            want = f.ghost['left']
        else:
            d = sfn('s_default', z3.StringSort(), z3.StringSort())(zstr(f.tag))
            has = not bool(S.is_('default', None))
            want = not (has and not bool(S.is_('is_key', 'true')) and bool(eqv(txt, SStr(d))))
        cover('kept' if want else 'dropped')
        prove('it is kept exactly if it holds data', kept == want, (kept, want))
        prove('text and attributes stay', eqv(f.text, txt) and not f.attrib.known)
    h.__module__ = __name__
    h.covers = ('returns', 'kept', 'dropped', 'rejected')
    harness('config.Config._trim_defaults', 'trimming a ' + t, max_paths=30000, max_time=200)(h)


for _t in ('leaf', 'container', 'list'):
    trim_h(_t)


def leaflist_h(n, m, user):
    """n entries of one leaf-list among other children, m default values"""
    def h(c):
        M, cf = cfg()
        c.widen = True
        c.widen_keep = ('s_type',)
        real = M.Config._trim_defaults
        patch(M.Config, '_trim_defaults', lambda self, x: real(self, x) if x is A else shrink(x))
        A = node('node')
        tag = fstr('tag')
        S = SNode(tag)
        assume(SBool(KNOWN(zstr(tag))))
        assume(S.is_('type', 'leaf-list'))
        assume(not_(S.is_('ordered-by', None)) if user else S.is_('ordered-by', None))
        txt = [fstr('text') for _ in range(n)]
        es = [node('entry', parent=A, tag=tag, text=t) for t in txt]
        others = lambda: Seg(lambda: other(A, tag))
        A.kids.items = [others()] + [x for e in es for x in (e, others())]
        ds = [fstr('default') for _ in range(m)]
        if m:
            assume(not_(S.is_('default', None)))
            c.splits = [(sfn('s_default', z3.StringSort(), z3.StringSort())(zstr(tag)), ',', ds)]     # the default is those values joined by commas
        else:
            assume(S.is_('default', None))
        r = outcome(cf._trim_defaults, A)
        if not r.returned():
            prove('only config errors', r[1] == 'ConfigError', r)
            return
        cover('returns')
        kept = [any(x is e for x in A.kids.norm()) for e in es]
        if not m:
            want = False
        elif user:
            want = n == m and all(bool(eqv(a, b)) for a, b in zip(txt, ds))
        else:
            want = all(any(bool(eqv(a, b)) for b in ds) for a in txt) and all(any(bool(eqv(a, b)) for b in txt) for a in ds)
        cover('dropped' if want else 'kept')
        prove('its entries are dropped exactly if together they are its default', kept == [not want] * n, (kept, want))
        prove('text stays', all(bool(eqv(e.text, t)) for e, t in zip(es, txt)))
    h.__module__ = __name__
    h.covers = ('returns', 'kept') + (('dropped',) if m and (n == m or not user) else ())
    harness('config.Config._trim_defaults', 'trimming a leaf-list, %d entries, %d defaults, %s' % (n, m, 'user' if user else 'system'), max_paths=30000, max_time=200,
            bound='%d entries and %d default values' % (n, m))(h)


def other(A, tag):
    """a child with another tag; it is no leaf-list with a default (that is the other focus)"""
    e = lchild(A)
    assume(not_(eqv(e.tag, tag)))
    assume(or_(not_(SNode(e.tag).is_('type', 'leaf-list')), SNode(e.tag).is_('default', None)))
    return e


for _n, _m in ((1, 0), (1, 1), (2, 1), (1, 2), (2, 2)):
    for _u in (False, True):
        leaflist_h(_n, _m, _u)


# ------------------------------------------------------------------ _validate_node
class Comp:
    """contract of Composer: the schema node of the node and the key names of a list (C08, C17)"""

    def __init__(self, dev, n):
        self.schema_node = dev.get_schema_node(n)
        self.keys = VList(['{urn:m}key0', '{urn:m}key1'])


def validate_child_h(t, dep):
    def h(c):
        M, cf = cfg(dep)
        c.widen = True
        c.widen_keep = ('s_type',)
        patch(M, 'Composer', Comp)
        real = M.Config._validate_node
        calls = []

        def val(self, n):
            if n is A:
                return real(self, n)
            if n is f:
                calls.append(n)
                prove('descendants are validated before it is judged', f.parent is A)
            shrink(n)
        patch(M.Config, '_validate_node', val)
        A = node('root')
        f = node('child', parent=A)
        S = SNode(f.tag)
        assume(S.is_('type', t))
        f.kids.items = [Seg(lambda: node('grandchild', parent=f))]
        txt = f.text
        A.kids.items = [Seg(lambda: lchild(A)), f, Seg(lambda: lchild(A))]
        r = outcome(cf._validate_node, A)
        if not r.returned():
            prove('only config errors', r[1] == 'ConfigError', r)
            cover('rejected')
            return
        cover('returns')
        prove('nodes unknown to the models are rejected', bool(SBool(KNOWN(zstr(f.tag)))))
        prove('every child is validated once', len(calls) == 1, len(calls))
        kept = any(x is f for x in A.kids.norm())
        left = f.ghost['left']
        want = left or not (t == 'list' or t == 'container' and not bool(S.is_('presence', 'true')))
        if bool(S.is_('status', 'obsolete')) or dep and bool(S.is_('status', 'deprecated')):
            want = False
        cover('kept' if want else 'dropped')
        prove('it is dropped exactly if it holds nothing or its status says so', kept == want, (kept, want))
        prove('text and attributes stay', eqv(f.text, txt) and not f.attrib.known)
    h.__module__ = __name__
    h.covers = ('returns', 'kept', 'dropped', 'rejected')
    harness('config.Config._validate_node', 'validating a %s%s' % (t, ', deprecated removed' if dep else ''), max_paths=30000, max_time=200)(h)


for _t in ('leaf', 'leaf-list', 'container', 'list'):
    for _d in (False, True):
        validate_child_h(_t, _d)


def validate_self_h(t):
    def h(c):
        M, cf = cfg()
        c.widen = True
        patch(M, 'Composer', Comp)
        real = M.Config._validate_node
        root = node('root')
        A = node('node', parent=root)
        root.kids.items = [A]
        assume(not_(eqv(A.tag, root.tag)))
        patch(M.Config, '_validate_node', lambda self, n: real(self, n) if n is A else shrink(n))
        assume(SNode(A.tag).is_('type', t))
        keys = ['{urn:m}key0', '{urn:m}key1']
        for k in keys:
            assume(and_(SBool(KNOWN(zstr(k))), SNode(k).is_('type', 'leaf'), SNode(k).is_('status', None)))
        has = [choose(True, False) for _ in keys] if t == 'list' else []
        A.kids.items = [node('key', tag=k, parent=A) for k, y in zip(keys, has) if y]
        if t != 'leaf':
            A.kids.items.append(Seg(lambda: lchild(A), excl=[Pred(('tag', k), lambda x, k=k: eqv(x.tag, k)) for k in keys] if t == 'list' else []))
        bad = None
        for a in (OP, INSERT, VALUE, KEY):
            if choose(False, True):
                bad = a
                A.attrib.known[a] = fstr('value')
        r = outcome(cf._validate_node, A)
        if not r.returned():
            prove('only config errors', r[1] == 'ConfigError', r)
        if bad or not all(has):
            prove('an entry without a key and a node with an edit attribute are rejected', not r.returned(), (bad, has))
            cover('bad')
        elif r.returned():
            cover('returns')
            prove('nodes unknown to the models are rejected', bool(SBool(KNOWN(zstr(A.tag)))))
        else:
            cover('unknown')
    h.__module__ = __name__
    h.covers = ('returns', 'bad', 'unknown')
    harness('config.Config._validate_node', 'validity of a %s itself' % t, max_paths=30000, max_time=200)(h)


for _t in ('leaf', 'leaf-list', 'container', 'list'):
    validate_self_h(_t)


# ------------------------------------------------------------------ constructor and roots
@harness('config.Config.__init__', 'constructor')
def init(c):
    M = module('config')
    log = []

    class Parser:
        def __init__(self, dev, x):
            self.args, self.ele = (dev, x), node('parsed')
            log.append(('parse', self))
    patch(M, 'NetconfParser', Parser)
    patch(M.Config, 'trim_defaults', lambda self: log.append(('trim', self.ele)))
    patch(M.Config, 'validate_config', lambda self: log.append(('validate', self.ele)))
    dev = Dev6()
    kind = choose('none', 'text', 'element', 'config', 'number', 'list')
    other = M.Config.__new__(M.Config)
    other.ele = node('other')
    x = {'none': None, 'text': fstr('xml'), 'element': node('given'), 'config': other, 'number': 3, 'list': VList([])}[kind]
    val, dep = choose(True, False), choose(True, False)
    cfgs = choose('positional', 'keyword')
    r = outcome(lambda: M.Config(dev, x, val, dep) if cfgs == 'positional' else M.Config(dev, config=x, validate=val, remove_deprecated=dep))
    if kind in ('number', 'list'):
        prove('other input raises a type error', r[:2] == ('raise', 'TypeError'), r)
        cover('type error')
        return
    prove('returns', r.returned(), r)
    if not r.returned():
        return
    cf = r.value
    parsed = [p for k, p in log if k == 'parse']
    if kind in ('text', 'element'):
        prove('text and elements are parsed once', len(parsed) == 1 and parsed[0].args[0] is dev and parsed[0].args[1] is x and cf.ele is parsed[0].ele)
    elif kind == 'config':
        prove('a config is taken as it is', cf.ele is other.ele and not parsed)
    else:
        prove('no input gives an empty config', not parsed and eqv(cf.ele.tag, M.config_tag) and not cf.ele.kids.norm())
    prove('every config is trimmed, then validated if asked for', [(k, e is cf.ele) for k, e in log if k != 'parse'] == [('trim', True)] + [('validate', True)] * val, log)
    prove('settings are kept', cf.device is dev and cf.remove_deprecated == dep)
    cover('made')


init.covers = ('type error', 'made')


@harness('config.Config.validate_config', 'validation starts at the root')
def validate_config(c):
    M, cf = cfg()
    cf.ele = node('config')
    log = []
    patch(M.Config, 'roots', property(lambda self: log.append('roots') or VDict()))
    patch(M.Config, '_validate_node', lambda self, n: log.append(n))
    r = outcome(cf.validate_config)
    prove('the roots are known and the whole tree is validated', r.returned() and len(log) == 2 and log[0] == 'roots' and log[1] is cf.ele, r)


@harness('config.Config.trim_defaults', 'trimming starts at the root')
def trim_config(c):
    M, cf = cfg()
    cf.ele = node('config')
    log = []
    patch(M.Config, '_trim_defaults', lambda self, n: log.append(n))
    r = outcome(cf.trim_defaults)
    prove('the whole tree is trimmed', r.returned() and len(log) == 1 and log[0] is cf.ele, r)


ROOT = z3.Function('root_model', z3.StringSort(), z3.StringSort())


class Roots:
    """device.roots: the model of every known root tag"""

    def __init__(self):
        self.s = AbsSet('roots')

    def __contains__(self, t):
        return t in self.s

    def __getitem__(self, t):
        return SStr(ROOT(zstr(t)))


@harness('config.Config.roots', 'roots')
def roots(c):
    M, cf = cfg()
    cf.device.roots = Roots()
    cf.device.namespaces = seglist(lambda: (fstr('name'), fstr('prefix') if choose(True, False) else None, fstr('url')))
    A = cf.ele = node('config')
    f = node('child', parent=A)
    A.kids.items = [Seg(lambda: node('child', parent=A)), f, Seg(lambda: node('child', parent=A))]
    r = outcome(lambda: cf.roots)
    if not r.returned():
        prove('only config errors and missing models', r[1] in ('ConfigError', 'ModelMissing'), r)
        cover('rejected')
        return
    cover('returns')
    prove('every root is known to the models', bool(cf.device.roots.s.has(f.tag)) if hasattr(cf.device.roots.s, 'has') else f.tag in cf.device.roots.s)
    prove('every root is listed with its model', f.tag in r.value and eqv(r.value[f.tag], SStr(ROOT(zstr(f.tag)))))
    for k in r.value.norm():
        kv = k.draw() if isinstance(k, Seg) else k
        prove('nothing else is listed', eqv(kv[1], SStr(ROOT(zstr(kv[0])))))


roots.covers = ('returns', 'rejected')
