"""C09: convert_tag, convert_ns, split_tag for every tag, default namespace and set of modules."""
from pyvc.contract import *

def note(name):
    return getattr(module('composer').Tag, name)


# notation: (position of the namespace in (name, prefix, URL), may be omitted, in braces)
MEANS = {'YTOOL': (1, True, False), 'XPATH': (1, True, False), 'LXML_XPATH': (1, False, False), 'LXML_ETREE': (2, False, True),
         'JSON_NAME': (0, True, False), 'JSON_PREFIX': (1, True, False)}


def device():
    """device with any number of modules, each (name, prefix, URL)"""
    def make():
        t = tuple(fstr(n) for n in ('name', 'prefix', 'url'))
        for x in t:
            assume(not_(eqv(x, '')))
        return t

    ns = inp('modules', lambda: seglist(make))

    class Dev(module('manager').ModelDevice):
        namespaces = ns

        def __init__(self):
            pass
    return Dev()


PATTERN = {True: r'^\{(.+)\}(.+)$', False: r'^(.+):(.+)$'}
SPECIAL = [('urn:ietf:params:xml:ns:netconf:base:1.0', 'nc'), ('urn:ietf:params:xml:ns:yang:1', 'yang'),
           ('http://tail-f.com/ns/netconf/params/1.1', 'tailf'), ('urn:ietf:params:xml:ns:netconf:notification:1.0', 'ncEvent')]


@harness('manager.ModelDevice.convert_ns')
def convert_ns(c):
    d = device()
    ns = inp('ns', lambda: fstr('ns'))
    src, dst = choose(0, 1, 2), choose(0, 1, 2)
    S = spec('spec_c09')
    o = outcome(d.convert_ns, ns, src=src, dst=dst)
    want = S.denote(d.namespaces, [], ns, src, dst)
    if o.returned():
        prove('returns only for a namespace of exactly one module', want[0] == 'one')
        prove('the result is that module in the asked notation', same(o.value, want[1]))
    else:
        prove('unknown or ambiguous namespaces raise ValueError', want[0] != 'one' and o[1] == 'ValueError', o[1:])


def tag_harness(sname, dname):
    src, dst = sname, dname
    si, somit, sbrace = MEANS[sname]
    di, domit, dbrace = MEANS[dname]

    def h(c):
        d = device()
        tag, default = inp('tag', lambda: fstr('tag')), inp('default', lambda: fstr('default'))
        o = outcome(d.convert_tag, default, tag, src=note(src), dst=note(dst))
        S = spec('spec_c09')
        ns, name = S.split(tag, PATTERN[sbrace])
        explicit = ns is not None
        if explicit:
            known = S.denote(d.namespaces, SPECIAL, ns, si, si)[0] != 'none'
        own = ns if explicit else default
        if not o.returned():
            if explicit and not known:
                prove('an unknown namespace in a tag raises ValueError', o[1] == 'ValueError', o[1:])
            elif not explicit and not somit:
                prove('a tag without namespace is an error where it may not be omitted', o[1] == 'ValueError', o[1:])
            else:
                w = S.denote(d.namespaces, SPECIAL, own, si, di)[0]
                prove('otherwise only an unknown or ambiguous namespace that has to be written raises', w != 'one', o[1:])
                prove('... and raises ValueError or ModelError', o[1] in ('ValueError', 'ModelError'), o[1:])
            return
        rns, rtag = o.value
        prove('a namespace that is not known is never accepted', not explicit or known)
        prove('a missing namespace is never accepted where it may not be omitted', explicit or somit)
        prove("the returned default is the tag's own namespace", eqv(rns, own))
        omit = domit and bool(eqv(default, own))
        if omit:
            prove('the namespace is omitted when it equals the inherited default', eqv(rtag, name))
        else:
            w = S.denote(d.namespaces, SPECIAL, own, si, di)
            prove('a written namespace denotes exactly one module', w[0] == 'one')
            t = rt.concat(['{', w[1], '}', name]) if dbrace else rt.concat([w[1], ':', name])
            prove('the namespace is written, in the target notation, before the same local name', eqv(rtag, t))
    h.__module__ = __name__
    harness('manager.ModelDevice.convert_tag', 'convert_tag %s to %s' % (sname, dname))(h)


for _s in ('LXML_ETREE', 'XPATH', 'JSON_NAME', 'JSON_PREFIX'):
    for _d in MEANS:
        tag_harness(_s, _d)


def round_harness(dname):
    """there and back: any tag of a module whose prefix, name and URL are its own"""
    def h(c):
        d, S = device(), spec('spec_c09')
        default = inp('default', lambda: fstr('default'))
        url, name = inp('url', lambda: fstr('url')), inp('local', lambda: fstr('local'))
        assume(not_(eqv(url, '')))
        assume(not_(eqv(name, '')))
        for ch in '{}:':
            assume(not_(contains(name, ch)))
        tag = rt.concat(['{', url, '}', name])
        o = outcome(d.convert_tag, default, tag, src=note('LXML_ETREE'), dst=note(dname))
        if not o.returned():
            raise Kill()
        mid = o.value[1]
        # prefix and name notations: ':' is not part of a YANG identifier; each names one module
        w = S.denote(d.namespaces, SPECIAL, url, 2, MEANS[dname][0])
        if w[0] != 'one':
            raise Kill()
        back_default = w[1]
        assume(not_(contains(back_default, ':')))
        if S.denote(d.namespaces, SPECIAL, back_default, MEANS[dname][0], 2)[0] != 'one':
            raise Kill()
        if not bool(eqv(S.denote(d.namespaces, SPECIAL, back_default, MEANS[dname][0], 2)[1], url)):
            raise Kill()                            # the prefix denotes another (well-known) namespace: ambiguous device
        o2 = outcome(d.convert_tag, back_default, mid, src=note(dname), dst=note('LXML_ETREE'))
        prove('converting back succeeds', o2.returned(), o2[1:])
        prove('converting back gives the original tag', eqv(o2.value[1], tag))
        cover('round trip')
    h.__module__ = __name__
    h.covers = ('round trip',)
    harness('manager.ModelDevice.convert_tag', 'round trip through %s' % dname)(h)


for _d in ('JSON_NAME', 'JSON_PREFIX', 'XPATH', 'LXML_XPATH'):
    round_harness(_d)


@harness('composer.split_tag')
def split_tag(c):
    for kind in MEANS:
        tag = inp('tag ' + kind, lambda: fstr('tag'))
        S = spec('spec_c09')
        o = outcome(module('composer').split_tag, tag, note(kind))
        ns, name = S.split(tag, PATTERN[MEANS[kind][2]])
        prove('splits a tag into namespace and local name', o.returned() and same(o.value, ('' if ns is None else ns, name)))


# ------------------------------------------------------------------ the module table
def table(f):
    """the dependencies of a compiler: any modules and submodules around the module f"""
    from contracts.c04 import node
    from pyvc.elem import SymElem

    def entry(prefixed, parent):
        e = node('module', tag='module', parent=parent)
        e.attrib['id'] = fstr('id')
        if prefixed:
            e.attrib['prefix'] = fstr('prefix')
        n = node('namespace', tag='namespace', parent=e, text=fstr('url'))
        e.kids.items = [n]
        return e
    A = node('modules', tag='modules')
    f = entry(f, A)

    def other():
        if choose(True, False):
            return entry(choose(True, False), A)
        return node('other', tag='submodule', parent=A)
    A.kids.items = [Seg(other), f, Seg(other)]
    return A, f


class Compiler:
    def __init__(self, A):
        self.context = type('C', (), {})()
        self.context.dependencies = A


def names_h(prefixed, rescan):
    @harness('manager.ModelDevice.namespaces', 'the module table, a module %s%s' % ('with prefix' if prefixed else 'without prefix', ', after another scan' if rescan else ''))
    def h(c):
        M = module('manager')
        dev = object.__new__(M.ModelDevice)
        dev._namespaces = None
        A, f = table(prefixed)
        dev.compiler = Compiler(A)
        if rescan:
            dev._namespaces = choose(None, VList([(fstr('old'), fstr('old'), fstr('old'))]))
            patch(M, 'ModelCompiler', lambda folder: Compiler(A))
            r = outcome(dev.scan_models, folder='folder', download='ignore')
            prove('scanning returns', r.returned(), r)
        r = outcome(lambda: dev.namespaces)
        prove('the table is given', r.returned(), r)
        want = (f.get('id'), f.get('prefix'), f.kids.items[0].text)
        items = r.value.norm() if hasattr(r.value, 'norm') else r.value
        cs = [t for t in items if not isinstance(t, Seg)]
        if prefixed:
            prove('a module with a prefix is listed once, with its name, prefix and namespace', len(cs) == 1 and len(cs[0]) == 3 and all(bool(same(x, y)) for x, y in zip(cs[0], want)), cs)
        else:
            prove('a module without a prefix is not listed', not cs, cs)
        cover('listed')
        r2 = outcome(lambda: dev.namespaces)
        prove('asking again gives the same table', r2.returned() and r2.value is r.value or len(r2.value.norm()) == len(items), r2)
    h.covers = ('listed',)


for _p in (True, False):
    for _r in (True, False):
        names_h(_p, _r)
