"""C18: what a compiled model says of each node of the YANG.

The statements of the YANG are pyang's (trusted): an object with a keyword, an argument, sub-statements found by search and
search_one, the data children i_children, i_config, i_module; every such fact is arbitrary here."""
from pyvc.contract import *
from contracts.c15 import Path, OS, MM

DATA = ('container', 'leaf', 'leaf-list', 'list', 'choice', 'anyxml', 'anydata')
CONFIG = ('container', 'leaf', 'leaf-list', 'list', 'choice', 'case', 'anyxml', 'anydata')


class Mod:
    def __init__(self, name):
        self.i_modulename, self.i_prefix, self.i_prefixes = name, fstr('prefix'), {}


# what the grammar of YANG allows as the argument
GRAMMAR = {'status': ('current', 'deprecated', 'obsolete'), 'ordered-by': ('system', 'user')}


def some_arg(keyword):
    s = fstr('arg')
    if isinstance(keyword, str) and keyword in GRAMMAR:
        assume(or_(*[eqv(s, x) for x in GRAMMAR[keyword]]))
    return s


class Stm:
    """an arbitrary statement: each sub-statement is looked up when asked for"""

    def __init__(self, keyword, arg=None, mod=None, many=(), children=None):
        self.keyword = keyword
        self.arg = arg if arg is not None else some_arg(keyword)
        self.i_module = mod
        self.one, self.all = {}, {}
        self.substmts = VList()
        self.pos = 'pos'
        for k in many:
            self.all[k] = VList([Seg(lambda k=k: Stm(k), name=k)])
        if children is not None:
            self.i_children = children

    def search_one(self, k, *a, **kw):
        if k not in self.one:
            if k in self.all:
                l = self.all[k]
                self.one[k] = l[0] if bool(l) else None
            else:
                self.one[k] = choose(None, Stm(k))
        return self.one[k]

    def search(self, k, *a, **kw):
        if k not in self.all:
            if k in self.one:
                self.all[k] = VList([self.one[k]] if self.one[k] is not None else [])
            else:
                self.all[k] = VList()
        return self.all[k]


def spec_access(keyword, mode, config):
    """as the property says"""
    if mode in ('rpc', 'input') or keyword == 'rpc':
        return 'write'
    if mode in ('output', 'notification') or keyword == 'notification':
        return 'read-only'
    return 'read-write' if config else 'read-only'


# keyword and mode as they occur together
COMBOS = ([(k, None) for k in CONFIG] + [(k, m) for m in ('input', 'output', 'notification') for k in CONFIG] +
          [('rpc', 'rpc'), ('input', 'input'), ('output', 'output'), ('notification', 'notification')])


def access_h():
    def h(c):
        M = MM()
        kw, mode = choose(*COMBOS)
        st = Stm(kw)
        cfg = choose('none', 'unknown', 'arbitrary')
        if cfg == 'unknown':
            st.i_config = None
        elif cfg == 'arbitrary':
            st.i_config = fbool('config')
        n = SymElem(tag='n')
        r = outcome(M.ModelCompiler.set_access, st, n, mode)
        prove('access is decided', r.returned(), r)
        config = cfg == 'arbitrary' and bool(st.i_config)
        cover(spec_access(kw, mode, config))
        prove('access is as the YANG says', eqv(n.get('access'), spec_access(kw, mode, config)), (kw, mode, cfg))
        prove('nothing else is set', set(n.attrib.known) == {'access'} and not n.kids.items)
    h.__module__ = __name__
    h.covers = ('write', 'read-only', 'read-write')
    harness('model.ModelCompiler.set_access', 'access', max_paths=4000)(h)


access_h()

FREE = ('datatype', 'values', 'unionmembertypes', 'if-feature')          # not part of the property


def node_h(kw, mode):
    def h(c):
        M = MM()
        mc = object.__new__(M.ModelCompiler)
        name = fstr('modulename')
        url = fstr('url')
        mc.module_namespaces = VDict([Seg(lambda: (lambda k: (assume(not_(eqv(k, name))), (k, fstr('url')))[1])(fstr('other')), name='namespaces'), (name, url)])
        mc.module_prefixes, mc.identity_deps = {}, {}
        kids = choose(None, 'some') if kw not in ('leaf', 'leaf-list') else None
        kc = choose('leaf', 'input', 'output') if mode == 'rpc' and kids else choose('leaf', 'list', 'container') if kids and mode and kw == 'container' else 'leaf'
        f = Stm(kc)
        child = Stm(kw, mod=Mod(name), many=('default',), children=VList([Seg(lambda: Stm(fstr('keyword'))), f, Seg(lambda: Stm(fstr('keyword')))]) if kids else None)
        if kw in ('leaf', 'leaf-list') and choose(False, True):
            child.i_is_key = True
        P = SymElem(tag='parent')
        P.kids.items = before = [Seg(lambda: SymElem(tag='elder', parent=P), name='elders')]
        before = list(before)
        acc, sub = [], VList()
        patch(M.ModelCompiler, 'set_access', staticmethod(lambda s, n, m: acc.append((s, n, m))))
        patch(M.ModelCompiler, 'set_leaf_datatype_value', lambda s, a, b: None)
        real = M.ModelCompiler.depict_a_schema_node

        def depict(s, module, parent, ch, mode=None):
            if ch is child:
                return real(s, module, parent, ch, mode=mode)
            prove('the nodes below it go below it', parent.parent is P and module is root)
            sub.append((ch, mode))
        patch(M.ModelCompiler, 'depict_a_schema_node', depict)
        root = Stm('module', mod=Mod(fstr('root')))
        root.i_modulename, root.i_prefix = root.i_module.i_modulename, fstr('prefix')
        mc.module_namespaces[root.i_modulename] = fstr('url')         # (the node may stand in another module)
        mc.module_namespaces[name] = url
        r = outcome(real, mc, root, P, child, mode=mode)
        prove('every node is compiled', r.returned(), r)
        cover('returns')
        now = P.kids.items
        prove('the node is added once, after its elder siblings, and nothing else', len(now) == len(before) + 1 and now[0] is before[0] and isinstance(now[-1], SymElem))
        n = now[-1]
        prove('its name is its name in the namespace of the module that defines it', eqv(n.tag, rt.concat(['{', url, '}', child.arg])), n.tag)
        prove('its access is decided by its own statement and where it is', len(acc) == 1 and acc[0][0] is child and acc[0][1] is n and acc[0][2] == mode)
        prove('its kind is its keyword', eqv(n.get('type'), kw))

        def fact(a, want):
            v = n.get(a)
            if want is None:
                prove('no %s if the YANG has none' % a, v is None, (a, v))
            else:
                cover(a)
                prove('%s as the YANG says' % a, v is not None and bool(eqv(v, want)), (a, v, want))
        st = child.search_one('status')
        dep = st is not None and bool(or_(eqv(st.arg, 'deprecated'), eqv(st.arg, 'obsolete')))
        fact('status', st.arg if dep else None)
        ob = child.search_one('ordered-by') if kw in ('list', 'leaf-list') else None
        fact('ordered-by', 'user' if ob is not None and bool(eqv(ob.arg, 'user')) else None)
        key = child.search_one('key') if kw == 'list' else None
        fact('key', key.arg if key is not None else None)
        pr = child.search_one('presence') if kw == 'container' else None
        fact('presence', 'true' if pr is not None else None)
        fact('is_key', 'true' if hasattr(child, 'i_is_key') else None)
        ds = child.all['default']
        if bool(ds):
            js = [(s, x) for s, x, res in getattr(c, 'joined', ()) if res is n.get('default')]
            cover('default')
            prove('it has a default if the YANG has one', n.get('default') is not None)
            its = ds.norm()

            def image(x, d):
                if isinstance(d, Seg):
                    return isinstance(x, Seg) and getattr(x, 'mapped', (None,))[0] is d and bool(eqv(x.mapped[1](probe), probe.arg))
                return not isinstance(x, Seg) and bool(eqv(x, d.arg))
            probe = Stm('default')
            if js:
                prove('its default is all its defaults, joined by commas', js[-1][0] == ',' and len(js[-1][1]) == len(its) and all(image(x, d) for x, d in zip(js[-1][1], its)), (js, its))
            else:
                prove('its default is the only one', len(its) == 1 and not isinstance(its[0], Seg) and bool(eqv(n.get('default'), its[0].arg)), n.get('default'))
        else:
            prove('no default if the YANG has none', n.get('default') is None)
        prove('no other facts', set(n.attrib.known) <= {'access', 'type', 'status', 'ordered-by', 'key', 'presence', 'is_key', 'default', 'mandatory'} | set(FREE), n.attrib.known)
        mine = [x for x in sub.norm() if not isinstance(x, Seg) and x[0] is f]
        if kids:
            cover('children')
            prove('each node below it is compiled once', len(mine) == 1, sub.items)
            want = kc if mode == 'rpc' and kc in ('input', 'output') else mode
            prove('each node below it is compiled as part of what it is part of', mine[0][1] == want, (mine[0][1], want))
        else:
            prove('nothing is compiled below it if the YANG has nothing there', not sub.norm())
    h.__module__ = __name__
    h.covers = ('returns', 'status') + {'list': ('ordered-by', 'key', 'default', 'children'), 'leaf-list': ('ordered-by', 'default', 'is_key'), 'leaf': ('is_key', 'default'),
                                        'container': ('presence', 'children')}.get(kw, ())
    harness('model.ModelCompiler.depict_a_schema_node', 'compiling a %s%s' % (kw, ' of a ' + mode if mode else ''), max_paths=20000)(h)


for kw, mode in COMBOS:
    if mode in (None, 'rpc') or kw in ('container', 'input', 'output', 'notification', 'leaf'):
        node_h(kw, mode)


# ------------------------------------------------------------------ the cache
def cache_h(what):
    def h(c):
        M = MM()
        mc = object.__new__(M.ModelCompiler)
        mc.dir_yang = 'folder'
        name, tree = fstr('name'), SymElem(tag='m')
        os_ = OS()
        patch(M, 'os', os_)
        seen = []

        def rd(p):
            seen.append(p)
            return tree

        def wr(p, e):
            prove('the tree given is stored', e is tree)
            seen.append(p)
        patch(M, 'read_xml', rd)
        patch(M, 'write_xml', wr)
        r = outcome(mc._read_from_cache, name) if what == 'read' else outcome(mc._write_to_cache, name, tree)
        prove('the cache is used', r.returned(), r)
        if what == 'read':
            prove('what is stored is returned', r.value is tree)
        prove('one file', len(seen) == 1)
        prove('the file is the one of that module', any(p is seen[0] and a == 'folder' and bool(eqv(b, name + '.xml')) for a, b, p in os_.path.memo))
    h.__module__ = __name__
    harness('model.ModelCompiler._%s' % ('read_from_cache' if what == 'read' else 'write_to_cache'), 'the cache: ' + what)(h)


cache_h('read')
cache_h('write')


class Holder:
    pass


def compile_h(case, fk=None):
    def h(c):
        M = MM()
        mc = object.__new__(M.ModelCompiler)
        mc.dir_yang = 'folder'
        mc.module_prefixes, mc.module_namespaces, mc.identity_deps = VDict(), VDict(), VDict()
        name = fstr('name')
        ev = []
        cached = SymElem(tag='m') if case == 'cached' else None

        def rd(self, n):
            prove('looks for that module', n is name)
            return cached
        patch(M.ModelCompiler, '_read_from_cache', rd)

        def wr(self, n, t):
            prove('stores it as that module', n is name)
            prove('stores the whole tree before it is changed', 'model' not in [e[0] for e in ev])
            ev.append(('write', t))
        patch(M.ModelCompiler, '_write_to_cache', wr)

        class Model:
            def __init__(self, t):
                self.t = t
                ev.append(('model', t))
        patch(M, 'Model', Model)
        ask = []

        def gd(self, n):
            prove('the dependencies of that module', n is name)
            ask.append(n)
            return VSet([Seg(lambda: fstr('import'))]), VSet([Seg(lambda: fstr('depends'))])
        patch(M.ModelCompiler, 'get_dependencies', gd)
        f = Stm(fk or 'leaf')
        some = lambda: Stm(fstr('keyword'))
        vm = Stm('module', children=VList([Seg(some), f, Seg(some)]))
        vm.one['prefix'] = Stm('prefix')
        ctx = mc.context = Holder()
        ctx.internal_reset = lambda: ev.append(('reset', None))
        ctx.validate_context = lambda: ev.append(('validate', None))
        ctx.repository = Holder()
        ctx.repository.dirs = ['folder']
        ctx.add_module = lambda **k: None

        def gm(n):
            prove('the module asked for is compiled', n is name and ('validate', None) in ev)
            return vm
        ctx.get_module = gm

        class Ident:
            def values(self):
                return VList()

        def mod(u=None):
            s = Stm('module')
            s.i_prefix, s.i_modulename, s.i_identities = fstr('prefix'), fstr('modulename'), Ident()
            s.one['namespace'] = Stm('namespace')
            return s
        g = mod()

        def othermod():
            s = mod()
            assume(not_(eqv(s.i_modulename, g.i_modulename)))
            return s

        class Mods:
            def values(self):
                return VList([Seg(othermod), g, Seg(othermod)])
        ctx.modules = Mods()
        os_ = OS(Path(lambda p: fbool('isfile')))
        patch(M, 'os', os_)
        patch(M, 'open', lambda *a, **k: FileStub())
        sub = VList()

        def depict(s, m, parent, ch, mode=None):
            prove('the nodes of the module go below it', m is vm)
            sub.append((ch, mode, parent))
        patch(M.ModelCompiler, 'depict_a_schema_node', depict)
        r = outcome(mc.compile, name)
        prove('a module is compiled', r.returned(), r)
        cover('returns')
        prove('a model is returned', isinstance(r.value, Model))
        t = r.value.t
        if case == 'cached':
            prove('what is stored is used as it is', t is cached and [e[0] for e in ev] == ['model'] and not t.kids.items)
            return
        prove('what is stored is what is returned', [e[1] for e in ev if e[0] == 'write'] == [t] if False else len([e for e in ev if e[0] == 'write' and e[1] is t]) == 1)
        prove('it has the name and kind of the module', bool(eqv(t.tag, vm.arg)) and t.get('type') == 'module' and bool(eqv(t.get('prefix'), vm.one['prefix'].arg)))
        mine = [x for x in sub.norm() if not isinstance(x, Seg) and x[0] is f]
        data = fk in DATA
        want = {'rpc': 'rpc', 'notification': 'notification'}.get(fk)
        prove('each data node, RPC and notification of the module is compiled once, in its place', len(mine) == 1 and mine[0][1] == want and mine[0][2] is t, sub.items)
        cover('namespaces')
        prove('the namespace of each module is known', bool(eqv(mc.module_namespaces.get(g.i_modulename, ''), g.one['namespace'].arg)))
        prove('the prefix of each module is known', bool(eqv(mc.module_prefixes.get(g.i_modulename, ''), g.i_prefix)))
        ns = [k for k in t.kids.norm() if not isinstance(k, Seg) and bool(eqv(k.get('prefix'), g.i_prefix)) and bool(eqv(k.text, g.one['namespace'].arg))]
        prove('the namespace of each module is part of the tree', len(ns) >= 1 and ns[0].tag == 'namespace')
    h.__module__ = __name__
    h.covers = ('returns',)
    harness('model.ModelCompiler.compile', 'compiling a module: %s' % (fk or case), max_paths=20000, max_time=200)(h)


class FileStub:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        return fstr('text')


compile_h('cached')
for k in DATA + ('rpc', 'notification'):
    compile_h('new', k)
