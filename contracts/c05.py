"""C05: computing never modifies an operand, and results are made of copies."""
from pyvc.contract import *
from pyvc import contract
import contracts.c04 as c04, contracts.c07 as c07, contracts.c14 as c14
from contracts.c04 import node, ident, Dev
from contracts.c03 import calc
from contracts.c06 import Dev6

FRAME = 'frame: an operand is not modified'


def frozen(fn, name, f, limits):
    """the same run as for another property, with every element given to the code write-protected: any write is a
    failed frame obligation"""
    def h(c):
        c.freeze, c.only = 'an operand', 'frame:'
        f(c)
        prove(FRAME, True)
    h.__module__ = __name__
    harness(fn, 'frame of ' + name, replay=False, **limits)(h)


for _fn, _n, _f, _l in list(contract.HARNESSES['contracts.c04']):
    if 'lemma' not in _n and _fn.split('.')[0] in ('calculator', 'config'):
        frozen(_fn, _n, _f, _l)


def whole(which):
    """a sum or delta is computed on copies of both operands, and one of the copies is the result"""
    def h(c):
        M, K, cal = calc()
        c.freeze = 'an operand'
        A, B = node('first'), node('second')
        A.kids.items = [Seg(lambda: node('child', parent=A))]
        B.kids.items = [Seg(lambda: node('child', parent=B))]
        cal.etree1, cal.etree2 = A, B
        cal.diff_type = choose('minimum', 'replace', 'minimum-replace') if which == 'sub' else 'minimum'
        cal.replace_depth = fint('replace depth', 0)
        cal.replace_xpath = None
        copies = []

        def copy(e):
            n = node('copy', tag=e.tag)
            n.frozen = None
            copies.append(n)
            return n

        def write(self, x, y, *a, **k):
            """contract of the computations: they change the two nodes they are given, and may fail half-way"""
            x.set('touched', 'yes')
            y.set('touched', 'yes')
            if choose(False, True):
                raise module('errors').ConfigError('half-way')
        patch(M, 'deepcopy', copy)
        for f in ('node_add', 'node_sub', 'get_config_replace'):
            patch(K, f, write)
        patch(K, 'add_attribute_at_depth', lambda self, root, *a, **k: root.set('touched', 'yes'))
        r = outcome(lambda: getattr(cal, which))
        prove(FRAME, True)
        if r.returned():
            prove('the result is made of copies', any(r.value is x for x in copies), r)
            cover('returns')
        else:
            prove('errors come from the computation', r[1] == 'ConfigError', r)
            cover('error')
        prove('both operands stay the ones given', cal.etree1 is A and cal.etree2 is B)
    h.__module__ = __name__
    h.covers = ('returns', 'error')
    harness('netconf.NetconfCalculator.' + which, which + ' works on copies', replay=False)(h)


whole('add')
whole('sub')


@harness('config.Config.filter', 'filter works on a copy', replay=False)
def filt(c):
    c.only = ('the config itself', 'a new config', 'the expression is evaluated once')
    c07.filt(c)


def render(what):
    def h(c):
        M = module('config')
        c.freeze = 'an operand'
        a = M.Config.__new__(M.Config)
        a.device, a.ele = Dev6(), node('config', kids=[Seg(lambda: node('child'))])
        a.device._get_ns = lambda e: VDict()
        e = a.ele
        r = outcome(lambda: a.__str__() if what == 'str' else getattr(a, what))
        prove(FRAME, True)
        prove('renders', r.returned(), r)
        prove('the config keeps its content', a.ele is e)
    h.__module__ = __name__
    harness({'str': 'config.Config.__str__', 'repr': 'config.Config.__repr__'}.get(what, 'config.Config.' + what), 'rendering: ' + what, replay=False)(h)


for _w in ('str', 'xml', 'ns'):
    render(_w)
