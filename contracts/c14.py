"""C14: the compatibility gate, for any number of models, and that every combination passes through it."""
from pyvc.contract import *

ALSO = [('C13', None)]          # callees whose contracts are assumed here


class Model:
    def __init__(self, e):
        self.e = e


class Models:
    """device.models: some model for every name"""

    def __init__(self, d):
        self.f = z3.Function('model_' + d, z3.StringSort(), z3.IntSort())

    def __getitem__(self, k):
        return Model(self.f(zstr(k)))


DIFF = z3.Function('differ', z3.IntSort(), z3.IntSort(), z3.BoolSort())


class DiffStub:
    """contract of ModelDiff (C13): its truth value says whether the two models differ"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __bool__(self):
        return core.CTX.branch(DIFF(self.a.e, self.b.e))


class Dev:
    def __init__(self, d):
        self.models_loaded, self.models_loadable = AbsSet('loaded_' + d), AbsSet('loadable_' + d)
        self.models = Models(d)
        self.namespaces = seglist(lambda: (fstr('name'), fstr('prefix'), fstr('url')))


class Cfg:
    def __init__(self, dev, models):
        self.device, self.models = dev, models


def setting(focus_in):
    M = module('config')
    patch(M, 'ModelDiff', DiffStub)
    same_dev = choose(False, True)
    d1 = Dev('1')
    d2 = d1 if same_dev else Dev('2')
    f = fstr('focus')
    seg = lambda: Seg(lambda: fstr('model'), name='models')
    m1, m2 = [seg()], [seg()]
    (m1 if focus_in == 1 else m2).extend([f, seg()])
    return M, M.ConfigCompatibility(Cfg(d1, VList(m1)), Cfg(d2, VList(m2))), d1, d2, f


def first(dev, name, i):
    """what the first module of that name has at position i (None: no such module)"""
    ms = rt.vc_comp('list', dev.namespaces, None, (lambda t: eqv(t[0], name),))
    try:
        return ms[0][i]
    except IndexError:
        return None


def models_h(which):
    def h(c):
        M, cc, d1, d2, f = setting(which)
        o = outcome(lambda: cc.models_compatible)
        if o.returned():
            prove('accepts', eqv(o.value, True))
            prove('accepts only if every model is loaded on the first device', d1.models_loaded.member(f))
            prove('accepts only if every model is loaded on the second device', d2.models_loaded.member(f))
            prove('accepts only if every model is identical on both devices', SBool(z3.Not(DIFF(d1.models[f].e, d2.models[f].e))))
            cover('accepts')
        else:
            prove('rejects with model-missing or model-incompatible', o[1] in ('ModelMissing', 'ModelIncompatible'), o[1:])
            cover('rejects ' + o[1])
    h.__module__ = __name__
    h.covers = ('accepts', 'rejects ModelMissing', 'rejects ModelIncompatible')
    harness('config.ConfigCompatibility.models_compatible', 'model of operand %d' % which)(h)


def ns_h(which):
    def h(c):
        M, cc, d1, d2, f = setting(which)
        o = outcome(lambda: cc.namespaces_compatible)
        if o.returned():
            prove('accepts', eqv(o.value, True))
            if d1 is not d2:
                prove('accepts only if every model is available on the first device', d1.models_loadable.member(f))
                prove('accepts only if every model is available on the second device', d2.models_loadable.member(f))
                for i, what in ((1, 'prefix'), (2, 'URL')):
                    a, b = first(d1, f, i), first(d2, f, i)
                    prove('accepts only if every model has the same %s on both devices' % what, a is not None and b is not None and eqv(a, b))
            cover('accepts')
        elif o[1] != 'IndexError':                  # precondition: an available model is among the device's modules
            prove('rejects with model-missing or model-incompatible', o[1] in ('ModelMissing', 'ModelIncompatible'), o[1:])
            cover('rejects ' + o[1])
    h.__module__ = __name__
    h.covers = ('accepts', 'rejects ModelMissing', 'rejects ModelIncompatible')
    harness('config.ConfigCompatibility.namespaces_compatible', 'module of operand %d' % which)(h)


for _w in (1, 2):
    models_h(_w)
    ns_h(_w)


def only_if(name):
    """completeness: a pair without any defect is accepted"""
    def h(c):
        M = module('config')
        patch(M, 'ModelDiff', DiffStub)
        d1 = Dev('1')
        d2 = d1 if choose(False, True) else Dev('2')

        def make():
            m = fstr('model')
            for d in (d1, d2):
                assume(d.models_loaded.member(m))
                assume(d.models_loadable.member(m))
            assume(SBool(z3.Not(DIFF(d1.models[m].e, d2.models[m].e))))
            return m
        cc = M.ConfigCompatibility(Cfg(d1, VList([Seg(make)])), Cfg(d2, VList([Seg(make)])))
        o = outcome(lambda: getattr(cc, name))
        if name == 'models_compatible':
            prove('models without a defect are accepted', o.returned() and eqv(o.value, True), o)
        else:
            prove('a model-missing error means a model is not available', o.returned() or o[1] != 'ModelMissing', o)
        cover('reached')
    h.__module__ = __name__
    h.covers = ('reached',)
    harness('config.ConfigCompatibility.' + name, 'no defect, ' + name)(h)


only_if('models_compatible')
only_if('namespaces_compatible')


@harness('config.ConfigCompatibility.is_compatible')
def is_compatible(c):
    M = module('config')
    r = {}
    for n in ('namespaces_compatible', 'models_compatible'):
        r[n] = choose(True, 'ModelMissing', 'ModelIncompatible')

        def get(self, n=n):
            if r[n] is True:
                return True
            raise getattr(M, r[n])(n)
        patch(M.ConfigCompatibility, n, property(get))
    o = outcome(lambda: M.ConfigCompatibility(None, None).is_compatible)
    ok = r['namespaces_compatible'] is True and r['models_compatible'] is True
    prove('accepts iff namespaces and models are both compatible', o.returned() == ok and (not ok or eqv(o.value, True)))
    prove('otherwise raises what the failing test raised', o.returned() or o[1] in r.values())


def gate(kind):
    """every way to combine two configs asks the gate about exactly these two operands, first"""
    def h(c):
        M = module('config')
        log = []
        verdict = choose(True, 'ModelMissing', 'ModelIncompatible')

        class Compat:
            def __init__(self, a, b):
                self.ops = (a, b)

            @property
            def is_compatible(self):
                log.append(('gate', self.ops))
                if verdict is True:
                    return True
                raise getattr(M, verdict)('x')
            models_compatible = namespaces_compatible = property(lambda s: None)

        class Calc:
            def __init__(self, *a, **k):
                log.append(('compute', a))
            add = sub = property(lambda s: SymElem('{urn:x}config', text=None))

        class Parser:
            def __init__(self, device, x):
                self.ele = x
        patch(M, 'ConfigCompatibility', Compat)
        patch(M, 'NetconfCalculator', Calc)
        patch(M, 'NetconfParser', Parser)
        patch(M.Config, 'trim_defaults', lambda self: None)
        patch(M.Config, 'validate_config', lambda self: None)
        d1, d2 = Dev('1'), Dev('2')

        def cfg(d):
            x = object.__new__(M.Config)
            x.device, x.ele, x.parser, x.remove_deprecated = d, SymElem('{urn:x}config', text=None), None, False
            return x
        a, b, e = cfg(d1), cfg(d2), cfg(d2)
        if kind in ('config + delta', 'delta + config', 'config - delta'):
            delta = object.__new__(M.ConfigDelta)
            delta.config_src, delta.config_dst = b, e
            delta.preferred_create = delta.preferred_replace = 'merge'
            delta.preferred_delete, delta.diff_type, delta.replace_depth, delta.replace_xpath = 'delete', 'minimum', 0, None
            delta.random_depth = delta._random_seed = None
            if kind == 'config - delta':
                patch(M.ConfigDelta, '__neg__', lambda s: s)
            f = {'config + delta': lambda: a + delta, 'delta + config': lambda: delta + a, 'config - delta': lambda: a - delta}[kind]
            want = (a, delta)
        elif kind == 'config + config':
            f, want = (lambda: a + b), (a, b)
        elif kind == 'config - config':
            f, want = (lambda: a - b), (b, a)
        else:
            f, want = (lambda: M.ConfigDelta(config_src=a, config_dst=b)), (a, b)
        o = outcome(f)
        gates = [i for i, l in enumerate(log) if l[0] == 'gate' and set(map(id, l[1])) == set(map(id, want))]
        comp = [i for i, l in enumerate(log) if l[0] == 'compute']
        prove('the gate is asked about both operands', bool(gates), log)
        if verdict is True:
            prove('compatible operands are combined', o.returned(), o)
        else:
            prove('an incompatible pair raises the error of the gate', not o.returned() and o[1] == verdict, o)
            prove('nothing is computed from an incompatible pair', not [i for i in comp if len(log[i][1]) > 2 and log[i][1][1] is a.ele and kind.startswith('config')] and (not comp or kind == 'x'))
    h.__module__ = __name__
    fn = {'config + config': 'config.Config.__add__', 'config + delta': 'config.Config.__add__', 'delta + config': 'config.ConfigDelta.__add__',
          'config - config': 'config.Config.__sub__', 'config - delta': 'config.Config.__sub__', 'delta': 'config.ConfigDelta.__init__'}[kind]
    harness(fn, 'gate of ' + kind)(h)


for _k in ('config + config', 'config + delta', 'delta + config', 'config - config', 'config - delta', 'delta'):
    gate(_k)


@harness('config.ConfigCompatibility.models')
def union(c):
    M = module('config')
    f = fstr('focus')
    side = choose(1, 2)
    seg = lambda: Seg(lambda: fstr('model'))
    m1, m2 = [seg()], [seg()]
    (m1 if side == 1 else m2).extend([f, seg()])
    cc = M.ConfigCompatibility(Cfg(None, VList(m1)), Cfg(None, VList(m2)))
    o = outcome(lambda: cc.models)
    prove('lists every model of either operand', o.returned() and (f in o.value), o)
