"""C08: every data node resolves to its unique schema node, whatever was asked before."""
from pyvc.contract import *
from pyvc.values import Obj
from contracts.c04 import node


class Anc(Obj):
    """a schema node: a type, and a list of ancestors of unknown length (innermost first)"""

    def __init__(self, label, ups=(), type=None):
        self._born()
        self.label, self.ups = label, ups
        self.type = fstr('type of ' + label) if type is None else type
        self.attrib = {'type': self.type}
        self.tag = fstr('tag of ' + label)

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def iterancestors(self, tag=None):
        return VList(self.ups)

    def getparent(self):
        if not self.ups:
            return None
        if isinstance(self.ups[0], Seg):
            raise Unsupported('parent among unknown ancestors')
        return self.ups[0]

    def clone_into(self, f, memo):
        n = Anc.__new__(Anc)
        n._born()
        memo[id(self)] = n
        n.label, n.ups, n.type, n.tag = self.label, self.ups, f(self.type), f(self.tag)
        n.attrib = {'type': n.type}
        return n

    __hash__ = object.__hash__
    __eq__ = lambda s, o: s is o
    __str__ = __repr__ = lambda s: '<%s>' % s.label


def through(t):
    return or_(eqv(t, 'choice'), eqv(t, 'case'))


def good():
    a = Anc('choice or case')
    assume(through(a.type))
    return a


def device(M):
    d = M.ModelDevice.__new__(M.ModelDevice)
    patch(M.ModelDevice, 'get_xpath', lambda self, n, *a, **k: fstr('xpath'))
    patch(M.ModelDevice, '__repr__', lambda self: 'device')
    return d


class Hit:
    """a cache that has everything: lets the nested functions be defined and nothing else happen"""

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return None

    get = lambda self, k, d=None: None


def nested(c, M, name):
    got = []
    c.nested = {name: lambda f: (got.append(f), f)[1]}
    d = device(M)
    d.nodes = Hit()
    n = node('data', parent=node('config', tag=module('config').config_tag))
    d.get_schema_node(n)
    c.nested = {}
    if not got:
        raise Unsupported('no nested function ' + name)
    return got[0]


def is_parent_h(what):
    def h(c):
        M = module('manager')
        f = nested(c, M, 'is_parent')
        up = [Seg(lambda: Anc('above'), name='above')] if what[0] != 'root' else []
        parent = Anc('parent', list(up))
        if what[1] == 'itself':
            n2, want = parent, False
        else:
            if what[1] == 'direct':
                between, want = [], True
            elif what[1] == 'choices and cases':
                between, want = [Seg(good, name='between')], True
            else:
                bad = Anc('data node between')
                assume(not_(through(bad.type)))
                between, want = [Seg(lambda: Anc('any'), name='below'), bad, Seg(lambda: Anc('any'), name='over')], False
            n2 = Anc('node', between + [parent] + list(up))
        r = outcome(f, parent, n2)
        prove('returns', r.returned(), r)
        if r.returned():
            prove('a node is reached exactly if only choices and cases lie between', bool(r.value) == want, (r.value, want))
            cover('reached' if want else 'not reached')
    h.covers = ('reached' if what[1] in ('direct', 'choices and cases') else 'not reached',)
    h.__module__ = __name__
    harness('manager.ModelDevice.get_schema_node.is_parent', 'is_parent, below %s: %s' % what)(h)


for _r in ('root', 'inner node'):
    for _w in ('itself', 'direct', 'choices and cases', 'a data node between'):
        is_parent_h((_r, _w))

CHILD = z3.Function('reached', z3.IntSort(), z3.BoolSort())


def get_child_h(n):
    """the children among any number of nodes with the tag in the whole subtree"""
    def h(c):
        M = module('manager')
        seen = []

        def isp(f):
            def spec(a, b):
                prove('candidates are judged against the parent', a is P)
                return SBool(CHILD(b.num.e))
            return spec
        got = []
        c.nested = {'is_parent': isp, 'get_child': lambda f: (got.append(f), f)[1]}
        d = device(M)
        d.nodes = Hit()
        d.get_schema_node(node('data', parent=node('config', tag=module('config').config_tag)))
        if not got:
            raise Unsupported('no nested function get_child')

        class Cand(Anc):
            def __init__(self, label, child):
                Anc.__init__(self, label, [])
                self.num = SInt(core.CTX.fresh('cand', z3.IntSort()))
                ok = and_(SBool(CHILD(self.num.e)), not_(through(self.type)))
                assume(ok if child else not_(ok))

            def clone_into(self, f, memo):
                m = Anc.clone_into(self, f, memo)
                m.__class__ = Cand
                m.num = f(self.num)
                return m
        P = Anc('parent', [Anc('model')])
        kids = [Cand('child %d' % i, True) for i in range(n)]
        rest = lambda: Seg(lambda: Cand('other', False), name='other')
        items = [rest()]
        for k in kids:
            items += [k, rest()]
        tag = fstr('tag')

        def it(*a, **k):
            prove('candidates carry the tag of the data node', (a == () and k.get('tag') is tag) or (len(a) == 1 and a[0] is tag), (a, k))
            return VList(items)
        P.iter = P.iterdescendants = it
        r = outcome(got[0], P, tag)
        if n > 1:
            prove('an ambiguous name raises a model error', r[:2] == ('raise', 'ModelError'), r)
            cover('ambiguous')
        else:
            prove('returns', r.returned(), r)
            if r.returned():
                prove('the one child with the tag, or none', r.value is (kids[0] if n else None), r)
                cover('answer')
    h.__module__ = __name__
    h.covers = ('ambiguous',) if n > 1 else ('answer',)
    harness('manager.ModelDevice.get_schema_node.get_child', 'get_child with %s' % ('no child of that name', 'one child of that name', 'two children of that name')[n])(h)


for _n in (0, 1, 2):
    get_child_h(_n)


class Cache:
    def __init__(self, hit):
        self.hit, self.log = hit, []

    def __contains__(self, k):
        self.log.append(('look', k))
        return self.hit is not None

    def __getitem__(self, k):
        self.log.append(('look', k))
        if self.hit is None:
            raise KeyError(k)
        return self.hit

    def get(self, k, d=None):
        self.log.append(('look', k))
        return d if self.hit is None else self.hit

    def __setitem__(self, k, v):
        self.log.append(('set', k, v))


def names(k, path):
    """the key determines the path: it is the sequence of its tags, in order, separated by what no tag contains"""
    if isinstance(k, tuple) or isinstance(k, VList):
        its = k.items if isinstance(k, VList) else list(k)
        return len(its) == len(path) and all(a is b for a, b in zip(its, path))
    for sep, xs, r in getattr(core.CTX, 'joined', ()):
        if r is k and len(xs) == len(path) and all(a is b for a, b in zip(xs, path)):
            return isinstance(sep, str) and sep != '' and any(ch.isspace() or ch == '\0' for ch in sep)
    return False


def resolve_h(depth, cached, child):
    def h(c):
        M = module('manager')
        d = device(M)
        CP = module('composer').Composer
        tag = fstr('tag of the data node')
        # the tags on the way: any number of them above the data node (nothing above a root, which is a
        # sequence of one: a second, empty segment keeps the key recognisable)
        path = [Seg(lambda: fstr('tag above'), name='tags above'), tag]
        P = VList(list(path))
        if depth == 'root':
            path[0].parts = None
            assume(SBool(path[0].length() == 0))
        else:
            assume(SBool(path[0].length() > 0))
        patch(CP, 'path', property(lambda self: VList(list(path)) if self.node is X else bad()))

        def bad():
            prove('only the path of the data node itself is asked for', False)
        patch(CP, 'model_name', property(lambda self: 'the-model'))
        up = node('parent', tag=fstr('tag of the parent'))
        X = node('data', tag=tag, parent=up)
        PS, TREE, S, OLD = Anc('schema of the parent', [Anc('model')]), Anc('tree'), Anc('schema'), Anc('cached')
        real = M.ModelDevice.get_schema_node

        def gsn(self, n):
            if n is X:
                return real(self, n)
            prove('the parent is resolved first', n is up)
            return PS
        patch(M.ModelDevice, 'get_schema_node', gsn)

        def gc(f):
            def spec(parent, t):
                prove('the child is looked for below the schema node of the parent (or the model root) and by the tag of the node',
                      parent is (TREE if depth == 'root' else PS) and (t is tag), (parent, t))
                if child == 'ambiguous':
                    raise module('errors').ModelError('ambiguous')
                return S if child == 'one' else None
            return spec
        c.nested = {'get_child': gc}

        class Model:
            tree = TREE
        d.models = {'the-model': Model()}
        d.nodes = K = Cache(OLD if cached else None)
        r = outcome(d.get_schema_node, X)
        sets = [x for x in K.log if x[0] == 'set']
        looks = [x for x in K.log if x[0] == 'look']
        prove('the cache is asked for the whole path of the node', all(names(x[1], path) for x in looks), looks)
        prove('the cache is written for the whole path of the node', all(names(x[1], path) for x in sets), sets)
        if cached:
            prove('a cached answer is given again', r.returned() and r.value is OLD, r)
            prove('a cached answer stays', all(x[2] is OLD for x in sets), sets)
            cover('cached')
            return
        if child == 'one':
            prove('the child is the answer', r.returned() and r.value is S, r)
            prove('only the answer is cached', all(x[2] is S for x in sets), sets)
            cover('answered')
        else:
            prove('an unknown node raises a config error, an ambiguous one a model error',
                  r[:2] == ('raise', 'ConfigError' if child == 'none' else 'ModelError'), r)
            prove('errors are not cached', not sets, sets)
            cover('error')
    h.__module__ = __name__
    h.covers = ('cached',) if cached else ('answered',) if child == 'one' else ('error',)
    harness('manager.ModelDevice.get_schema_node', 'get_schema_node of a %s, %s, %s' % (depth, 'cached' if cached else 'not cached', child + ' child'))(h)


for _d in ('root', 'inner node'):
    resolve_h(_d, True, 'one')
    for _k in ('one', 'none', 'ambiguous'):
        resolve_h(_d, False, _k)


# ------------------------------------------------------------------ the pieces around it
class Below(SymElem):
    """a data node below any number of others"""

    def iterancestors(self, tag=None):
        return VList(self.ghost['ups'])


def path_h(what):
    def h(c):
        CP = module('composer').Composer
        root = node('config', tag=module('config').config_tag)
        ups = [Seg(lambda: node('above'), name='above')] if what != 'root' else []
        n = Below(None, label='data')
        n.ghost['ups'] = ups + [root]
        r = outcome(lambda: CP(object(), n).path)
        prove('returns', r.returned(), r)
        got = r.value.norm() if isinstance(r.value, VList) else list(r.value)
        ok = len(got) == len(ups) + 1 and got[-1] is n.tag
        if ok and ups:
            s, fs, turns = got[0], [], 0
            while s is not ups[0]:
                if getattr(s, 'mapped', None) is not None:
                    s, f = s.mapped
                    fs.append(f)
                elif getattr(s, 'reverse_of', None) is not None:
                    s, turns = s.reverse_of, turns + 1
                else:
                    raise Unsupported('tags of ancestors')
            y = v = node('one above')
            for f in reversed(fs):
                v = f(v)
            ok = v is y.tag and turns % 2 == 1
        prove('the tags from below the config node down to the node', ok, got)
        cover('path')
    h.__module__ = __name__
    h.covers = ('path',)
    harness('composer.Composer.path', 'path of a %s' % what)(h)


path_h('root')
path_h('node below others')


class NS:
    """the device as far as the owner of a path is concerned: any number of modules and roots"""

    def __init__(self, case):
        self.tag = tag = fstr('tag of the root')
        other = lambda: fstr('another root')

        def root():
            t = other()
            assume(not_(eqv(t, tag)))
            return (t, fstr('model'))
        d = VDict()
        d.items = [Seg(root, name='roots')]
        self.owner = fstr('owner')
        if case == 'loaded':
            d.items = [Seg(root, name='roots'), (tag, self.owner), Seg(root, name='roots')]
        self.roots = d
        self.namespaces = VList([Seg(lambda: (fstr('name'), fstr('prefix'), fstr('url')), name='modules')])

    def __repr__(self):
        return 'device'
    __str__ = __repr__
    __format__ = lambda s, f: 'device'


@harness('composer.Composer.model_name', 'the model of a node is the one that has its root')
def model_name(c):
    CP = module('composer').Composer
    case = choose('loaded', 'not loaded')
    d = NS(case)
    patch(CP, 'path', property(lambda self: VList([d.tag, Seg(lambda: fstr('tag below'))])))
    r = outcome(lambda: CP(d, node('data')).model_name)
    if case == 'loaded':
        prove('the model that has the root', r.returned() and r.value is d.owner, r)
        cover('loaded')
    else:
        prove('a root of no loaded model raises a model-missing error', r[:2] == ('raise', 'ModelMissing'), r)
        cover('not loaded')


model_name.covers = ('loaded', 'not loaded')


class Mod:
    def __init__(self, name, roots=None):
        self.name, self.roots = name, roots


@harness('manager.ModelDevice.roots', 'roots')
def roots(c):
    M = module('manager')
    d = device(M)
    r = fstr('root')

    def other():
        q = fstr('another root')
        assume(not_(eqv(q, r)))
        return q
    a = Mod(fstr('a'), VList([Seg(other, name='roots'), r, Seg(other, name='roots')]))

    def model():
        return (fstr('name'), Mod(fstr('name'), VList([Seg(other, name='roots')])))
    d.models = VDict()
    mine = choose(True, False)
    d.models.items = [Seg(model, name='models')] + ([(a.name, a)] if mine else []) + [Seg(model, name='models')]
    o = outcome(lambda: d.roots)
    prove('returns', o.returned(), o)
    x = o.value
    if mine:
        prove('a root leads to its model', r in x and bool(eqv(x[r], a.name)))
        cover('root')
    else:
        prove('nothing else is a root', not (r in x))
        cover('other')


roots.covers = ('root', 'other')


@harness('composer.Composer.schema_node', 'schema_node')
def schema_node(c):
    CP = module('composer').Composer
    S = Anc('schema')
    top = node('top', tag=choose(module('config').config_tag, None))
    n = node('data', parent=top)
    log = []

    class D:
        def get_schema_node(self, x):
            log.append(x)
            return S
    if not isinstance(top.tag, str):
        assume(not_(eqv(top.tag, module('config').config_tag)))
    r = outcome(lambda: CP(D(), n).schema_node)
    prove('returns', r.returned(), r)
    if isinstance(top.tag, str):
        prove('a data node has the schema node of the device', r.value is S and all(x is n for x in log), r)
        cover('data')
    else:
        prove('a schema node is its own', r.value is n, r)
        cover('schema')


schema_node.covers = ('data', 'schema')


def keys_h(kind, nk):
    def h(c):
        MC = module('composer')
        CP = MC.Composer
        names = [fstr('key%d' % i) for i in range(nk)]
        for a in range(nk):
            for b in range(a):
                assume(not_(eqv(names[a], names[b])))
        local = z3.Function('local', z3.StringSort(), z3.StringSort())

        def split(tag, tt):
            prove('names are split as what they are', tt in (MC.Tag.LXML_ETREE, MC.Tag.JSON_PREFIX), tt)
            if tt == MC.Tag.LXML_ETREE:
                return fstr('url'), SStr(local(zstr(tag)))
            for n, w in zip(names, written):
                if w is tag:
                    return '', n
            raise Unsupported('split of an unknown name')
        patch(MC, 'split_tag', split)
        written = [fstr('written%d' % i) for i in range(nk)]

        def other():
            e = node('other')
            for n in names:
                assume(not_(SBool(local(zstr(e.tag)) == zstr(n))))
            return e
        S = node('schema')
        S.attrib = VAttr(S, known={'type': kind})
        if kind == 'list' and nk:
            key = fstr('key statement')
            S.attrib.known['key'] = key
            c.splits = [(key, ' +', written), (key, ' ', written), (key, None, written)]
        order = list(range(nk))
        if nk > 1 and choose(True, False):
            order.reverse()
        kids = [node('key leaf %d' % i) for i in range(nk)]
        for i in range(nk):
            assume(SBool(local(zstr(kids[i].tag)) == zstr(names[i])))
        S.kids.items = [Seg(other, name='others')]
        for i in order:
            S.kids.items += [kids[i], Seg(other, name='others')]
        me = CP(object(), node('data'))
        patch(CP, 'schema_node', property(lambda self: S))
        r = outcome(lambda: me.keys)
        prove('returns', r.returned(), r)
        got = r.value.need('keys') if isinstance(r.value, VList) else list(r.value)
        want = [k.tag for k in kids] if kind == 'list' else []
        prove('the tags of the key leaves, in the order of the key statement', len(got) == len(want) and all(a is b for a, b in zip(got, want)), (got, want))
        cover('keys')
    h.__module__ = __name__
    h.covers = ('keys',)
    harness('composer.Composer.keys', 'keys of a %s with %d keys' % (kind, nk), bound='%d keys' % nk if nk > 1 else None)(h)


for _k, _n in (('list', 0), ('list', 1), ('list', 2), ('list', 3), ('container', 0), ('leaf', 0)):
    keys_h(_k, _n)


class OS:
    def __init__(self, c):
        self.path = self

    def isfile(self, p):
        return False


@harness('manager.ModelDevice.load_model', 'the cache after loading a model')
def load(c):
    M = module('manager')
    d = device(M)
    c.fuzzy = False
    name = 'the-model'
    patch(M, 'os', OS(c))
    patch(M.ModelDevice, 'models_loadable', property(lambda self: VList(['other', name])))

    class Mod:
        def __init__(self, n):
            self.name = n

    class Comp:
        def compile(self, m):
            prove('the model asked for is compiled', m == name, m)
            return new
    new = Mod(name)
    d.compiler = Comp()
    again = choose(True, False)
    old, other = Mod(name), Mod('other')
    d.models = {'other': other, **({name: old} if again else {})}
    OWNER = z3.Function('owner', z3.StringSort(), z3.StringSort())
    FIRST = z3.Function('first', z3.StringSort(), z3.StringSort())
    VAL = z3.Function('cached', z3.StringSort(), z3.IntSort())

    class Roots:
        def __getitem__(self, k):
            return SStr(OWNER(zstr(k)))

        def get(self, k, dflt=None):
            return SStr(OWNER(zstr(k)))
    patch(M.ModelDevice, 'roots', property(lambda self: Roots()))
    c.splitter = lambda k, sep, *a: [SStr(FIRST(zstr(k))), Seg(lambda: fstr('tag below'))] if sep == ' ' else None

    def entry():
        k = fstr('cached path')
        if not again:
            assume(not_(SBool(OWNER(FIRST(zstr(k))) == z3.StringVal(name))))       # a model not loaded has no answers
        return (k, SInt(VAL(zstr(k))))
    V = VDict()
    V.items = [Seg(entry, name='cache')]
    d.nodes = V
    r = outcome(d.load_model, name)
    prove('returns the model', r.returned() and r.value is new, r)
    if not r.returned():
        return
    prove('the model is loaded', d.models[name] is new and d.models['other'] is other and len(list(d.models)) == 2)
    p = fstr('a path')
    own = SBool(OWNER(FIRST(zstr(p))) == z3.StringVal(name))
    if p in d.nodes:
        prove('no answer from the model as it was before is left', not_(own))
        prove('answers from other models stay right', eqv(d.nodes[p], SInt(VAL(zstr(p)))))
        cover('kept')
    else:
        cover('gone')
    cover('reloaded' if again else 'loaded')


load.covers = ('reloaded', 'loaded', 'kept', 'gone')


@harness('manager.ModelDevice.load_model', 'a name that is neither a file nor a loadable model')
def load_bad(c):
    M = module('manager')
    d = device(M)
    patch(M, 'os', OS(c))
    name = fstr('name')

    def other():
        s = fstr('model')
        assume(not_(eqv(s, name)))
        return s
    patch(M.ModelDevice, 'models_loadable', property(lambda self: VList([Seg(other)])))
    d.compiler, d.models, d.nodes = object(), {}, {}
    r = outcome(d.load_model, name)
    prove('raises a value error', r[:2] == ('raise', 'ValueError'), r)
    prove('nothing is loaded', d.models == {} and d.nodes == {})
    cover('refused')


load_bad.covers = ('refused',)
