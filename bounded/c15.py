"""C15: scan workers and downloads."""
import itertools, random, sys, threading, time, queue
from harness.base import *
from harness.sched import Sched
BOUND = ('random dependency graphs of <= 7 modules, every kind of failure (RPC error, exception, not-ok reply, unparsable text, unreadable file) on random subsets, '
         'seeded line-level interleavings of the two worker threads')
KINDS = ['ok', 'ok', 'ok', 'rpcerror', 'exc', 'notok', 'garbage', 'none']
LIMIT = 45.0


def yang(n, deps, subs):
    imp = ''.join('import %s { prefix %s; } ' % (d, d) for d in deps)
    inc = ''.join('include %s; ' % d for d in subs)
    return 'module %s { namespace "urn:%s"; prefix %s; %s %s container c-%s { leaf x { type string; } } }' % (n, n, n, imp, inc, n)


def suby(n, owner, deps=()):
    return 'submodule %s { belongs-to %s { prefix o; } %s container s-%s { leaf x { type string; } } }' % (n, owner, ''.join('import %s { prefix %s; } ' % (d, d) for d in deps), n)


def cases(tier, rng):
    # sequences of failing modules at each queue position
    for n in (1, 2, 3):
        for k in ('rpcerror', 'exc', 'notok', 'garbage', 'none'):
            for pos in range(n):
                mods = {'m%d' % i: {'deps': ['d%d' % i], 'kind': 'ok'} for i in range(n)}
                mods['m%d' % pos]['kind'] = k
                for i in range(n):
                    mods['d%d' % i] = {'deps': [], 'kind': 'ok'}
                yield {'what': 'download', 'mods': mods, 'roots': ['m%d' % i for i in range(n)], 'seed': None}
    for i in range(200 if tier == 'quick' else 1000):               # shared dependencies, interleaved
        mods = {'a': {'deps': ['z'], 'kind': 'ok'}, 'b': {'deps': ['z'], 'kind': 'ok'}, 'z': {'deps': [], 'kind': 'ok'}}
        yield {'what': 'download', 'mods': mods, 'roots': ['a', 'b'], 'seed': rng.randrange(10 ** 9)}
    for n in range(3):                                              # submodules, with imports of their own
        for sd, kind in itertools.product(('d', 'e', ''), ('ok', 'rpcerror')):
            mods = {'m': {'deps': ['d'][:n], 'subs': ['s', 't'][:n + 1], 'kind': 'ok'}, 's': {'of': 'm', 'deps': [sd] if sd else [], 'kind': 'ok'}, 't': {'of': 'm', 'deps': ['e'], 'kind': kind},
                    'd': {'deps': [], 'kind': 'ok'}, 'e': {'deps': ['d'], 'kind': 'ok'}}
            yield {'what': 'download', 'mods': mods, 'roots': ['m'] + ['d'][:n % 2], 'seed': rng.choice([None, rng.randrange(10 ** 9)])}
    for i in range(300 if tier == 'quick' else 3000):
        names = ['m%d' % i for i in range(rng.randrange(1, 8))]
        mods = {n: {'deps': rng.sample([x for x in names if x != n] + ['ext'], rng.choice([0, 1, 1, 2]) if len(names) > 2 else 0), 'kind': rng.choice(KINDS)} for n in names}
        mods['ext'] = {'deps': [], 'kind': rng.choice(KINDS)}
        for d in mods.values():
            d['deps'] = sorted(set(d['deps']))
        roots = sorted(rng.sample(names, rng.randrange(1, len(names) + 1)))
        yield {'what': 'download', 'mods': mods, 'roots': roots, 'seed': rng.choice([None, rng.randrange(10 ** 9), rng.randrange(10 ** 9)])}
    for i in range(100 if tier == 'quick' else 500):
        files = {'f%d' % i: rng.choice(['ok', 'ok', 'ok', 'garbage', 'binary', 'empty', 'dir']) for i in range(rng.randrange(0, 6))}
        if i < 5:
            files = {'f1': 'ok', 'f2': ['garbage', 'binary', 'empty', 'dir', 'ok'][i], 'f3': 'ok'}
        yield {'what': 'folder', 'files': files, 'seed': rng.choice([None, rng.randrange(10 ** 9)])}
    for caps, stored, chk in [(['b', 'a'], 'a\nb', True), (['b', 'a'], 'a\nb', False), (['a'], 'a\nb', True), (['a', 'b'], 'b\na', True), (['a'], None, True),
                              (['a', 'b'], 'a', True), (['a'], '', True), (['a'], 'a\n', True), (['a b'], 'a b', True), (['urn:x?module=m&revision=1', 'q'], 'q\nurn:x?module=m&revision=1', True)]:
        yield {'what': 'skip', 'caps': caps, 'stored': stored, 'check': chk}
    for how in ('monitoring', 'library', 'hello', 'monitoring-fails', 'library-fails'):
        yield {'what': 'loadable', 'how': how}


def with_timeout(f):
    box = {}

    def g():
        try:
            f()
        except BaseException as e:
            box['e'] = e
        box['done'] = True
    t = threading.Thread(target=g, daemon=True)
    t.start()
    t.join(LIMIT)
    return box


class Patch:
    """run workers under the deterministic scheduler"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        from ncdiff import model
        self.saved = []
        if self.seed is None:
            return self
        s = self.s = Sched(self.seed, ('ncdiff/model.py',))
        for cls in (model.DownloadWorker, model.ContextWorker):
            old = cls.__dict__.get('run')
            if old is None:
                continue
            self.saved.append((cls, old))
            cls.run = (lambda o: lambda self_: s.wrap(lambda: o(self_))())(old)
        return self

    def __exit__(self, *a):
        for cls, old in self.saved:
            cls.run = old


def dev(execute, caps=('x',)):
    from ncdiff.manager import ModelDevice
    from ncclient.manager import Manager

    class Mix(Manager):
        def execute(self, cls, *a, **k):
            return execute(cls, *a, **k)
    D = type('D', (ModelDevice, Mix), {'server_capabilities': property(lambda s: s._vcaps)})
    d = D(FakeSession(caps), DefaultDeviceHandler())
    d._vcaps = list(caps)
    return d


class Reply:
    def __init__(self, ok, data):
        self.ok, self.data, self._raw = ok, data, 'raw'


def closure(mods, roots):
    seen, todo = set(), list(roots)
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        if m in mods and mods[m]['kind'] == 'ok':
            todo += list(mods[m]['deps']) + list(mods[m].get('subs', ()))
    return seen


def check(case):
    from ncdiff.model import ModelDownloader, CompilerContext
    from ncclient.operations.rpc import RPCError
    d = scratch()
    if case['what'] == 'download':
        mods, calls, lock = case['mods'], [], threading.Lock()
        err = RPCError(etree.fromstring('<rpc-error xmlns="%s"><error-tag>x</error-tag></rpc-error>' % NC))
        caps_before = []

        def execute(cls, module=None, **k):
            with lock:
                calls.append(module)
                caps_before.append(os.path.exists(os.path.join(d, 'capabilities.txt')))
            kind = mods[module]['kind'] if module in mods else 'rpcerror'
            if kind == 'rpcerror':
                raise err
            if kind == 'exc':
                raise RuntimeError('boom')
            if kind == 'notok':
                return Reply(False, None)
            if kind == 'none':
                return Reply(True, None)
            return Reply(True, '}{ not yang' if kind == 'garbage' else yang(module, mods[module]['deps'], mods[module].get('subs', ())) if 'of' not in mods[module] else suby(module, mods[module]['of'], mods[module]['deps']))
        open(os.path.join(d, 'old.yang'), 'w').write('old')
        caps = ['urn:%s?module=%s' % (r, r) for r in case['roots']] + ['urn:plain']
        m = dev(execute, caps)
        m._models_loadable = None
        with Patch(case['seed']):
            dl = ModelDownloader(m, d)
            box = with_timeout(lambda: dl.download_all(check_before_download=False))
        if not box.get('done'):
            return 'download of %s does not finish (handled so far: %s)' % (case['roots'], calls)
        if 'e' in box:
            return 'download raised %r' % (box['e'],)
        want = closure(mods, case['roots'])
        if sorted(calls) != sorted(want):
            return 'modules requested: %s, expected each of %s once' % (sorted(calls), sorted(want))
        if any(caps_before):
            return 'capabilities recorded before all modules were handled'
        got = open(os.path.join(d, 'capabilities.txt')).read()
        if got != '\n'.join(sorted(caps)):
            return 'recorded capabilities %r' % got
        files = {f for f in os.listdir(d) if f.endswith('.yang')}
        for x in want:
            if mods.get(x, {}).get('kind') == 'ok' and x + '.yang' not in files:
                return 'file of %s is missing' % x
        for f in files:
            if mods.get(f[:-5], {}).get('kind') not in ('ok', 'garbage', 'none'):
                return 'unexpected file %s' % f
        deps = {x.get('id') for x in dl.context.dependencies}
        for x in want:
            if mods.get(x, {}).get('kind') == 'ok' and x not in deps:
                return 'dependencies of %s are missing' % x
        return None
    if case['what'] == 'folder':
        for f, kind in case['files'].items():
            p = os.path.join(d, f + (('.yang', '@2024-01-01.yang', '.YANG')[int(f[1:]) % 3] if kind == 'ok' else '.yang'))
            if kind == 'ok':
                open(p, 'w').write(yang(f, [], []))
            elif kind == 'garbage':
                open(p, 'w').write('}{ garbage')
            elif kind == 'empty':
                open(p, 'w').write('')
            elif kind == 'binary':
                open(p, 'wb').write(b'module \xff\xfe\x80 {}')
            elif kind == 'dir':
                os.mkdir(p)
        try:
            from pyang.repository import FileRepository
        except ImportError:
            from pyang import FileRepository
        with Patch(case['seed']):
            c = CompilerContext(repository=FileRepository(path=d))
            hooked = threading.excepthook
            threading.excepthook = lambda a: None
            try:
                box = with_timeout(c.load_context)
            finally:
                threading.excepthook = hooked
        if not box.get('done'):
            return 'scan of folder with %s does not finish' % case['files']
        ok = {f for f, k in case['files'].items() if k == 'ok'}
        if not ok:
            return None
        if 'e' in box:
            return 'scan raised %r' % (box['e'],)
        got = sorted(x.get('id') for x in c.dependencies)
        if [g for g in got if g in ok] != sorted(ok):
            return 'modules found %s, expected %s' % (got, sorted(ok))
        back = sorted(x.get('id') for x in etree.parse(os.path.join(d, 'dependencies.xml')).getroot())
        if back != got:
            return 'dependency file differs'
        return None
    if case['what'] == 'skip':
        if case['stored'] is not None:
            open(os.path.join(d, 'capabilities.txt'), 'w').write(case['stored'])
        calls = []

        def execute(cls, module=None, **k):
            calls.append(module)
            return Reply(False, None)
        caps = case['caps'] + ['urn:m?module=mm']
        if case['stored'] is not None and case['stored'] == '\n'.join(sorted(case['caps'])):
            stored = '\n'.join(sorted(caps))
            open(os.path.join(d, 'capabilities.txt'), 'w').write(stored)
        else:
            stored = case['stored']
        m = dev(execute, caps)
        dl = ModelDownloader(m, d)
        box = with_timeout(lambda: dl.download_all(check_before_download=case['check']))
        if not box.get('done') or 'e' in box:
            return 'download: %s' % box
        skip = case['check'] and stored == '\n'.join(sorted(caps))
        if bool(calls) == skip:
            return 'download %s although stored capabilities %r, current %r, check=%s' % ('done' if calls else 'skipped', stored, sorted(caps), case['check'])
        return None
    if case['what'] == 'loadable':
        how = case['how']
        NCM, YL = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring', 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
        caps = ['urn:h1?module=h_1.x&revision=2', 'urn:h2?revision=2&module=h-2', 'urn:nothing']
        if 'monitoring' in how:
            caps.append(NCM + '?module=ietf-netconf-monitoring&revision=2010')
        if 'library' in how:
            caps.append('urn:ietf:params:netconf:capability:yang-library:1.0?revision=2016&module-set-id=1')

        def execute(cls, *a, **k):
            if 'fails' in how:
                raise RuntimeError('no')
            if how == 'monitoring':
                x = '<netconf-state xmlns="%s"><schemas><schema><identifier>k2</identifier></schema><schema><identifier>k1</identifier></schema></schemas></netconf-state>' % NCM
            else:
                x = '<modules-state xmlns="%s"><module><name>k2</name></module><module><name>k1</name></module></modules-state>' % YL
            r = etree.fromstring('<rpc-reply xmlns="%s"><data>%s</data></rpc-reply>' % (NC, x))
            return Reply(True, r[0])
        m = dev(execute, caps)
        got = list(m.models_loadable)
        hello = ['h-2', 'h_1.x'] + (['ietf-netconf-monitoring'] if 'monitoring' in how else [])
        want = ['k1', 'k2'] if how in ('monitoring', 'library') else hello
        if sorted(got) != sorted(want):
            return 'advertised modules %s, expected %s' % (got, want)
        return None
