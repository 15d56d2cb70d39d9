"""C16: request building and payload copying."""
import itertools, random
from harness.base import *
from bounded.c01 import wrap
BOUND = 'all subsets of the loaded models and unloaded names x get/get-config x argument forms; all capability subsets x target forms; random payload trees with local namespace declarations, comments and attributes'
READ, WRITE = {}, {}
CAND = 'urn:ietf:params:netconf:capability:candidate:1.0'
WR = 'urn:ietf:params:netconf:capability:writable-running:1.0'


def roots(model, write):
    sch = schema()
    mod = sch.mods[model]
    out = set()
    for c in mod.i_children:
        if c.keyword in ('container', 'list', 'leaf', 'leaf-list'):
            if c.i_config or not write:
                out.add('{%s}%s' % (sch.ns[model], c.arg))
        elif c.keyword == 'notification' and not write:
            out.add('{%s}%s' % (sch.ns[model], c.arg))
    return out


_cap = {}


def capdev(caps=None, load=('vt', 'vu')):
    key = (tuple(caps) if caps else None, load)
    if key not in _cap:
        from ncdiff.manager import ModelDevice
        from ncclient.manager import Manager

        class Mix(Manager):
            def execute(self, cls, *a, **k):
                self.sent.append((cls, a, k))
                return self.answer
        D = type('D', (ModelDevice, Mix), {'server_capabilities': property(lambda s: s._vcaps)})
        src = device()
        d = D(FakeSession(CAPS), DefaultDeviceHandler())
        d._vcaps = list(CAPS) + list(caps or [])
        d.sent, d.answer = [], None
        d.scan_models(folder=src._vdir, download='ignore')
        for x in load:
            d.load_model(x)
        _cap[key] = d
    d = _cap[key]
    d.sent, d.answer = [], None
    return d


def cases(tier, rng):
    names = ['vt', 'vu', 'vi', 'nosuch']
    for n in range(0, 4):
        for sub in itertools.permutations(names, n):
            for op in ('get', 'get_config'):
                for form in ('list', 'tuple', 'set', 'str'):
                    if form == 'str' and n != 1:
                        continue
                    for extra in ({}, {'source': 'candidate'}, {'filter': 'x'}, {'pos': 'startup'}):
                        yield {'what': 'filter', 'models': list(sub), 'op': op, 'form': form, 'extra': extra}
    for op in ('get', 'get_config'):
        for extra in ({}, {'source': 'candidate'}, {'filter': 'x'}, {'pos': 'startup'}):
            yield {'what': 'nomodels', 'op': op, 'extra': extra}
    for caps in ([], [CAND], [WR], [CAND, WR]):
        for form in ('none', 'kw-running', 'kw-candidate', 'kw-startup', 'pos', 'format'):
            for conf in ('config', 'element', 'string', 'kwconfig'):
                yield {'what': 'edit', 'caps': caps, 'form': form, 'conf': conf}
    for i in range(4000 if tier == 'quick' else 6000):
        yield {'what': 'payload', 'seed': rng.randrange(10 ** 9), 'path': i % 4}


def rnd_tree(rng, depth=0, scope=()):
    uris = ['urn:vt', 'urn:vu', 'urn:x', 'urn:y', NC]
    pref = [None, 'a', 'b', 'c', 'nc', 'vt']
    nsmap = dict(rng.choice([{}, {}, {rng.choice(pref): rng.choice(uris)}, {rng.choice(pref[1:]): rng.choice(uris), None: rng.choice(uris)}]))
    e = etree.Element('{%s}%s' % (rng.choice(uris), rng.choice('abcd')), nsmap=nsmap)
    return e


def grow(rng, e, depth):
    uris = ['urn:vt', 'urn:vu', 'urn:x', 'urn:y', NC]
    pref = [None, 'a', 'b', 'c', 'nc', 'vt']
    for _ in range(rng.randrange(0, 4) if depth < 4 else 0):
        k = rng.random()
        if k < .08:
            e.append(etree.Comment('c') if k < .04 else etree.ProcessingInstruction('pi', 'x'))
            continue
        nsmap = {rng.choice(pref): rng.choice(uris)} if rng.random() < .3 else {}
        c = etree.SubElement(e, '{%s}%s' % (rng.choice(uris), rng.choice('abcd')), nsmap=nsmap)
        if rng.random() < .3:
            c.set(rng.choice([OP, INS, 'plain', '{urn:x}att']), rng.choice(['replace', 'v', 'é&<']))
        grow(rng, c, depth + 1)
        if not len(c) and rng.random() < .7:
            c.text = rng.choice(['p', 'vt:id', ' spaced ', '  ', ' ', 'é&<>"\'', '1\n2'])
            if c.text.strip() and rng.random() < .15:
                c.append(etree.Comment('in text'))
                c[-1].tail = 'tail'


def same(a, b, path=''):
    """same elements, attributes, text, order, namespaces"""
    if a.tag != b.tag:
        return '%s: tag %s became %s' % (path, a.tag, b.tag)
    if dict(a.attrib) != dict(b.attrib):
        return '%s: attributes %s became %s' % (path, dict(a.attrib), dict(b.attrib))
    for p, u in a.nsmap.items():
        if b.nsmap.get(p) != u:
            return '%s: prefix %s=%s became %s' % (path, p, u, b.nsmap.get(p))
    ka, kb = [x for x in a if isinstance(x.tag, str)], [x for x in b if isinstance(x.tag, str)]
    ta, tb = ''.join(a.xpath('text()')), ''.join(b.xpath('text()'))
    if not ka and ta != tb:
        return '%s: text %r became %r' % (path, ta, tb)
    if len(ka) != len(kb):
        return '%s: children %s became %s' % (path, [x.tag for x in ka], [x.tag for x in kb])
    for x, y in zip(ka, kb):
        r = same(x, y, path + '/' + x.tag)
        if r:
            return r
    return None


class Sink(FakeSession):
    connected = True

    def __init__(self):
        FakeSession.__init__(self)
        self.out = []

    def send(self, x):
        self.out.append(x)

    def add_listener(self, l): pass


def check(case):
    from ncdiff.errors import ModelMissing
    from ncdiff import Config
    from ncclient import operations
    if case['what'] in ('filter', 'nomodels'):
        d = capdev()
        args, kw = [], {}
        ex = case['extra']
        if 'source' in ex:
            kw['source'] = ex['source']
        if 'filter' in ex:
            kw['filter'] = ex['filter']
        if 'pos' in ex:
            if case['op'] == 'get':
                return None
            args.append(ex['pos'])
        if case['op'] == 'get' and 'source' in ex:
            return None
        if case['what'] == 'filter':
            f = {'list': list, 'tuple': tuple, 'set': set, 'str': lambda x: x[0]}[case['form']]
            kw['models'] = f(case['models'])
        try:
            d.execute(case['op'], *args, **kw)
            err = None
        except ModelMissing:
            err = 'missing'
        except ValueError:
            err = 'value'
        want_roots = set()
        if case['what'] == 'filter':
            ms = case['models']
            if any(x not in ('vt', 'vu') for x in ms):
                return None if err == 'missing' else 'models %s: %s instead of ModelMissing' % (ms, err)
            for x in ms:
                want_roots |= roots(x, case['op'] == 'get_config')
            if not want_roots:
                return None if err == 'value' else 'no roots for %s: %s' % (ms, err)
        if err:
            return 'raised %s' % err
        if len(d.sent) != 1:
            return '%d requests sent' % len(d.sent)
        cls, a, k = d.sent[0]
        if cls is not {'get': operations.retrieve.Get, 'get_config': operations.retrieve.GetConfig}[case['op']]:
            return 'operation %s' % cls
        if case['op'] == 'get_config':
            src = a[0] if a else k.get('source')
            want = ex.get('pos') or ex.get('source') or 'running'
            if src != want or (a and 'source' in k) or len(a) > 1:
                return 'source %r, expected %r' % (src, want)
        elif a:
            return 'positional arguments %s' % (a,)
        if 'models' in k:
            return "argument 'models' is passed on"
        f = k.get('filter')
        if case['what'] == 'nomodels':
            return None if f == ex.get('filter') else 'filter %r' % f
        if f.tag != '{%s}filter' % NC or f.get('type') != 'subtree':
            return 'filter element %s' % etree.tostring(f)
        tags = [c.tag for c in f]
        if sorted(tags) != sorted(want_roots) or any(len(c) or c.text or c.attrib for c in f):
            return 'filter %s, expected roots %s' % (sorted(tags), sorted(want_roots))
        if set(k) - {'filter', 'source'}:
            return 'arguments %s' % k
        return None
    if case['what'] == 'edit':
        d = capdev(case['caps'])
        c = Config(d, wrap('<vt:two><vt:a>p</vt:a></vt:two>'))
        conf = {'config': c, 'element': c.ele, 'string': c.xml, 'kwconfig': c.ele}[case['conf']]
        args, kw = ([conf], {}) if case['conf'] != 'kwconfig' else ([], {'config': conf})
        want = None
        if case['form'].startswith('kw-'):
            want = kw['target'] = case['form'][3:]
        elif case['form'] == 'pos':
            if case['conf'] == 'kwconfig':
                return None
            args += ['xml', 'candidate']
            want = 'candidate'
        else:
            if case['form'] == 'format' and args:
                args += ['xml']
            if CAND not in case['caps'] and WR in case['caps']:
                want = 'running'
        d.execute('edit_config', *args, **kw)
        cls, a, k = d.sent[0]
        if len(a) > 2 and 'target' in k:
            return 'target given twice: %s %s' % (a, k)
        t = a[2] if len(a) > 2 else k.get('target')
        if t != want:
            return 'target %r, expected %r (capabilities %s)' % (t, want, case['caps'])
        got = a[0] if a else k['config']
        if case['conf'] in ('config', 'element', 'kwconfig'):
            if not etree.iselement(got):
                return 'payload is %s' % type(got)
            return same(c.ele, got)
        return None if got == c.xml else 'payload changed'
    rng = random.Random(case['seed'])
    e = etree.Element(CONFIG, nsmap=rng.choice([{'nc': NC}, {None: NC}, {'nc': NC, 'vt': 'urn:vt'}]))
    grow(rng, e, 0)
    # namespaces on xmlns="" cannot be undeclared: keep default declarations consistent
    if case['path'] in (0, 1):
        s = Sink()
        op = operations.edit.EditConfig(s, DefaultDeviceHandler(), async_mode=True, raise_mode=0)
        before = etree.tostring(e)
        opts = {k: v for k, v in {'error_option': rng.choice([None, 'stop-on-error', 'rollback-on-error']), 'test_option': rng.choice([None, 'set', 'test-then-set']),
                                  'default_operation': rng.choice([None, 'merge', 'none'])}.items() if v or rng.random() < .5}
        need = ([':rollback-on-error'] if opts.get('error_option') == 'rollback-on-error' else []) + ([':validate'] if opts.get('test_option') else [])
        s.server_capabilities = s._server_capabilities = [c for c in (':rollback-on-error', ':validate') if rng.random() < .85]
        try:
            op.request(e if case['path'] == 0 else etree.tostring(e, encoding='unicode'), target='running', **opts)
        except operations.errors.MissingCapabilityError:
            return None if set(need) - set(s.server_capabilities) else 'MissingCapabilityError although the server has all of %s' % need
        if set(need) - set(s.server_capabilities):
            return 'request sent although the server lacks a capability of %s' % need
        if etree.tostring(e) != before:
            return 'the payload element was changed'
        x = s.out[0]
        w = etree.fromstring(x.encode() if isinstance(x, str) else x)
        if w.tag != '{%s}rpc' % NC or len(w) != 1 or w[0].tag != '{%s}edit-config' % NC or w[0][0].tag != '{%s}target' % NC or w[0][-1].tag != CONFIG or \
                sorted((c.tag, c.text) for c in w[0][1:-1]) != sorted(('{%s}%s' % (NC, k.replace('_', '-')), v) for k, v in opts.items() if v):
            return 'request envelope: %s' % etree.tostring(w)[:300]
        if [c.tag for c in w[0][0]] != ['{%s}running' % NC]:
            return 'target element wrong'
        return same(e, w[0][-1])
    from ncdiff.netconf import NetconfParser
    if case['path'] == 2:
        r = etree.fromstring('<rpc-reply xmlns="%s" message-id="1"><data/></rpc-reply>' % NC)
        for c in list(e):
            if isinstance(c.tag, str):
                r[0].append(c)
        src = r[0]
        got = NetconfParser(device(), r).ele
    else:
        src = e
        got = NetconfParser(device(), etree.tostring(e, encoding='unicode')).ele
    a, b = [c for c in src if isinstance(c.tag, str)], list(got)
    if len(a) != len(b):
        return 'children lost'
    for x, y in zip(a, b):
        q = same(x, y)
        if q:
            return q
    return None
