"""C15: downloading and parsing modules.

Threads: a worker is verified against an environment that changes the shared state arbitrarily (other workers may take or
add modules at any time: every answer of the queue is arbitrary; the set of modules seen so far grows arbitrarily whenever
the lock is taken).  Then: every module is put in the queue once (the worker that adds it to the set, under the lock, and
only that one, puts it), every module taken is handled once and reported as done, a worker leaves only when it saw the
queue empty, which it does after all it put itself: so the join returns after all modules were handled."""
import queue
from pyvc.contract import *
from pyvc.carried import carried

SPEC_KINDS = ('Exception', 'queue.Empty', 'KeyError')


def MM():
    module('manager')
    return module('model')


class Q:
    """contract of queue.Queue towards one worker"""

    def __init__(self, what, handled):
        self.what, self.handled, self.got, self.done, self.gets, self.looks, self.saw_empty = what, handled, [], 0, 0, 0, False

    def settled(self):
        prove('each %s taken is reported as done, once' % self.what, self.done == len(self.got), (self.done, len(self.got)))
        prove('each %s taken is handled, once' % self.what, len(self.handled) == len(self.got) and all(a is b for a, b in zip(self.handled, self.got)),
              (self.handled, self.got))

    def empty(self):
        self.settled()
        self.looks += 1
        if self.looks > 2:
            raise Kill()                          # the next iteration is as arbitrary as this one was
        self.saw_empty = choose(False, True)
        return self.saw_empty

    def qsize(self):
        return 0 if self.empty() else 1

    def get(self, block=True, timeout=None):
        self.settled()
        self.gets += 1
        if self.gets > 2:
            raise Kill()
        if choose(False, True):
            prove('a worker never waits for ever', not block or timeout is not None)
            self.saw_empty = True
            raise queue.Empty()
        self.saw_empty = False
        self.got.append(fstr(self.what))
        cover('taken')
        return self.got[-1]

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        self.done += 1
        prove('nothing is reported as done that was not taken', self.done <= len(self.got))

    def put(self, x):
        pass


def fails():
    k = choose(None, *SPEC_KINDS)
    if k == 'Exception':
        raise Exception('the environment fails')
    if k == 'queue.Empty':
        raise queue.Empty()
    if k == 'KeyError':
        raise KeyError('the environment fails')


def leaves(q, r):
    prove('a worker never fails', r.returned(), r)
    cover('leaves')
    q.settled()
    prove('a worker leaves only when it saw the queue empty', q.saw_empty)


def bound_of(fn):
    c = carried(fn)
    return None if c == set() else '2 iterations of its loop (it carries %s)' % (sorted(c) if c else 'unknown state')


class Down:
    pass


@harness('model.DownloadWorker.run', 'a download worker', bound=bound_of('model.DownloadWorker.run'), max_paths=4000)
def h_worker(c):
    M = MM()
    w = object.__new__(M.DownloadWorker)
    handled = []
    d = Down()
    d.download_queue = q = Q('module', handled)

    def download(m):
        handled.append(m)
        fails()
    d.download = download
    w.downloader = d
    leaves(q, outcome(w.run))


h_worker.covers = ('taken', 'leaves')


class File:
    def __init__(self, name, mode, fs):
        self.name, self.mode, self.fs = name, mode, fs

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        return self.fs.read(self.name)

    def write(self, x):
        self.fs.writes.append((self.name, x))

    def close(self):
        pass


class FS:
    """open(), as the functions use it"""

    def __init__(self, M, failing=False):
        self.opened, self.writes, self.failing, self.contents = [], [], failing, []
        patch(M, 'open', self.open)

    def open(self, name, mode='r', *a, **k):
        if self.failing:
            fails()
        self.opened.append((name, mode))
        return File(name, mode, self)

    def read(self, name):
        for n, t in self.contents:
            if n is name:
                return t
        t = fstr('content')
        self.contents.append((name, t))
        return t


@harness('model.ContextWorker.run', 'a parsing worker', bound=bound_of('model.ContextWorker.run'), max_paths=20000)
def h_parse(c):
    M = MM()
    w = object.__new__(M.ContextWorker)
    handled = []
    fs = FS(M)
    real = fs.open

    def op(name, *a, **k):
        handled.append(name)
        fails()
        return real(name, *a, **k)
    patch(M, 'open', op)
    d = Down()
    d.modulefile_queue = q = Q('file', handled)
    st = []

    class St:
        arg = 'm'

    def add_module(ref, text, **k):
        prove('what is parsed is the text of the file taken', ref is q.got[-1] and any(n is ref and t is text for n, t in fs.contents))
        fails()
        r = choose(None, St())
        st.append(r)
        return r

    def update(s):
        prove('what is recorded is the module just parsed', s is st[-1])
        if s is None:
            raise AttributeError('arg')
        cover('parsed')
        fails()
        st.append(None)
        return set()
    d.add_module, d.update_dependencies = add_module, update
    w.context = d
    leaves(q, outcome(w.run))


h_parse.covers = ('taken', 'leaves', 'parsed')


# ------------------------------------------------------------------ the shared set and its lock
class Lock:
    def __init__(self, shared):
        self.held, self.shared = False, shared

    def acquire(self, *a, **k):
        prove('the lock is not taken twice', not self.held)
        self.held = True
        self.shared.interfere()
        return True

    def release(self):
        self.held = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False

    def locked(self):
        return self.held


class Shared(AbsSet):
    """the set of modules seen, shared with the other workers: what they added is arbitrary and grows at each acquisition"""

    def __init__(self, focus):
        self.focus, self.epoch, self.added, self.lock, self.won, self.off, self.n = focus, None, VSet(), None, False, False, 0
        self.interfere()

    def interfere(self):
        self.n += 1
        f = z3.Function('seen_%d' % self.n, z3.StringSort(), z3.BoolSort())
        if self.epoch is not None:
            assume(SBool(z3.Implies(self.epoch(zstr(self.focus)), f(zstr(self.focus)))))
        self.epoch = f

    def own(self):
        if not self.off:
            prove('the set of modules seen is used only under the lock', self.lock.held)

    def member(self, x):
        self.own()
        if bool(x in self.added):
            return True
        return SBool(self.epoch(zstr(x)))

    def snapshot(self):
        self.own()
        s = Shared.__new__(Shared)
        s.__dict__.update(self.__dict__)
        s.added, s.off = VSet(self.added), True
        return s

    def claim(self):
        """the focus is about to be added"""
        if not self.won and not bool(self.member(self.focus)):
            self.won = True

    def add(self, x):
        self.own()
        if bool(eqv(x, self.focus)):
            self.claim()
        self.added.add(x)

    def update(self, *os):
        for o in os:
            self.own()
            o = o if isinstance(o, VSet) else VSet(o)
            if self.focus in o:
                self.claim()
            self.added.update(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        raise Unsupported('the union with the set of modules seen')

    def copy(self):
        raise Unsupported('a copy of the set of modules seen')


class Puts:
    def __init__(self):
        self.items = VList()
        self.joined = False

    def put(self, x, *a, **k):
        self.items.append(x)

    put_nowait = put

    def join(self):
        self.joined = True

    def task_done(self):
        pass

    def count(self, f):
        n = 0
        for x in self.items.norm():
            if isinstance(x, Seg):
                if f in VList([x]):
                    n += 1
            elif bool(eqv(x, f)):
                n += 1
        return n


class Reply:
    pass


class Ctx:
    pass


class Path:
    """os.path: joining is injective in the name, for a fixed folder"""

    def __init__(self, isfile=None):
        self.files = {}
        self._isfile = isfile
        self.memo = []

    def join(self, a, b):
        for x, y, r in self.memo:
            if x is a and bool(eqv(y, b)):
                return r
        r = fstr('path')
        self.memo.append((a, b, r))
        return r

    def isfile(self, p):
        return self._isfile(p)

    def isdir(self, p):
        return fbool('isdir')

    def abspath(self, p):
        return p


class OS:
    def __init__(self, path=None):
        self.path = path or Path()
        self.removed = VList()

    def remove(self, p):
        self.removed.append(p)

    def makedirs(self, p, *a, **k):
        pass


def others(f):
    def mk():
        x = fstr('module')
        assume(not_(eqv(x, f)))
        return x
    return Seg(mk, name='modules')


def download_h(kind):
    def h(c):
        M = MM()
        D = object.__new__(M.ModelDownloader)
        dev = object.__new__(module('manager').ModelDevice)
        D.device = dev
        D.dir_yang = 'folder'
        mod, f, data = fstr('mod'), fstr('focus'), fstr('data')
        os_ = OS()
        patch(M, 'os', os_)
        fs = FS(M)
        T = Shared(f)
        T.lock = D.lock = Lock(T)
        D.to_be_downloaded = T
        D.download_queue = Q_ = Puts()
        asked = []
        from ncclient import manager as NM, operations
        RPCError = operations.rpc.RPCError
        reply = Reply()
        reply.ok, reply.data, reply._raw = kind not in ('not ok',), data, 'raw'

        def execute(self, op, *a, **k):
            prove('the schema of this module is asked for', op is operations.retrieve.GetSchema and self is dev and len(a) == 1 and a[0] is mod)
            asked.append(mod)
            if kind == 'RPC error':
                raise RPCError.__new__(RPCError)
            if kind == 'other error':
                raise Exception('transport')
            return reply
        patch(NM.Manager, 'execute', execute)
        has = choose(False, True)
        deps = VSet([others(f)] + ([f] if has else []) + [others(f)])
        stm = Ctx()

        def add_module(**k):
            prove('the text downloaded is parsed', k.get('text') is data)
            if kind == 'parser fails':
                raise Exception('parser')
            return None if kind == 'unparsable' else stm

        def update(s):
            if s is None:
                raise AttributeError('arg')
            prove('the dependencies of the module just parsed are used', s is stm)
            return deps
        D.context = Ctx()
        D.context.add_module, D.context.update_dependencies = add_module, update
        r = outcome(D.download, mod)
        T.off = True
        prove('the lock is free afterwards', not D.lock.held)
        n = Q_.count(f)
        if r.returned():
            cover('returns')
            prove('asked once', len(asked) == 1)
        if kind == 'ok' and r.returned():
            if has:
                cover('depends')
                prove('a module it depends on is known afterwards', or_(bool(f in T.added), SBool(T.epoch(zstr(f)))))
                prove('a module it depends on is put in the queue once, exactly if this worker added it', n == (1 if T.won else 0), (n, T.won))
            else:
                prove('only modules it depends on are put in the queue', n == 0 and not T.won)
            w = fs.writes
            prove('its text is stored, once', len(w) == 1 and getattr(w[0][1], 'encoded', w[0][1]) is data)
            ps = [b for a, b, p in os_.path.memo if p is w[0][0] and a == 'folder']
            prove('it is stored under its name', bool(ps) and bool(eqv(ps[0], mod + '.yang')))
        elif kind == 'ok':
            prove('a proper reply is handled', False, r)
        else:
            prove('a module that fails adds nothing', n == 0 and not T.won)
            if kind == 'RPC error' or kind == 'not ok':
                prove('nothing is stored', not fs.writes)
    h.__module__ = __name__
    h.covers = ('returns', 'depends') if kind == 'ok' else ()
    harness('model.ModelDownloader.download', 'downloading a module: %s' % kind, max_paths=4000)(h)


for k in ('ok', 'not ok', 'RPC error', 'other error', 'unparsable', 'parser fails'):
    download_h(k)


# ------------------------------------------------------------------ the whole download
def device(f, twice=False):
    d = Down()
    d.models_loadable = VList([others(f), f, others(f)] + ([f] if twice else []))
    d.server_capabilities = VList([Seg(lambda: fstr('capability'), name='capabilities')])
    return d


def caps_joined(c, d, s):
    """s is the sorted capabilities of d, joined by newlines"""
    for sep, xs, r in getattr(c, 'joined', ()):
        if r is s:
            return sep == '\n' and any(r is y for y in getattr(c, 'of_sorted', ())) and len(xs) == 1 and xs[0] is d.server_capabilities.items[0]
    return False


@harness('model.ModelDownloader.need_download', 'whether a download is needed', max_paths=2000)
def h_need(c):
    M = MM()
    D = object.__new__(M.ModelDownloader)
    D.device = d = device(fstr('focus'))
    D.yang_capabilities = 'capabilities.txt'
    D.dir_yang = 'folder'
    fs = FS(M)
    there = choose(False, True)
    asked = []

    def isfile(p):
        prove('the stored capabilities are looked for', p == 'capabilities.txt')
        asked.append(p)
        return there
    patch(M, 'os', OS(Path(isfile)))
    real = fs.open

    def op(name, *a, **k):
        if not there:
            raise FileNotFoundError(name)
        return real(name, *a, **k)
    patch(M, 'open', op)
    r = outcome(lambda: D.need_download)
    prove('it always answers', r.returned(), r)
    v = bool(r.value)
    if not there:
        cover('never stored')
        prove('a download is needed if none was recorded', v)
        return
    prove('only the stored capabilities are read', all(n == 'capabilities.txt' for n, _ in fs.opened) and len(fs.contents) == 1)
    js = [x for x in getattr(c, 'joined', ()) if caps_joined(c, d, x[2])]
    prove('they are compared with the sorted capabilities of the device', len(js) == 1)
    same = eqv(fs.contents[0][1], js[0][2])
    cover('needed' if v else 'not needed')
    prove('a download is needed exactly if the stored capabilities differ', eqv(v, not_(same)))


h_need.covers = ('never stored', 'needed', 'not needed')


def all_h(check, twice):
    def h(c):
        M = MM()
        D = object.__new__(M.ModelDownloader)
        f = fstr('focus')
        D.device = d = device(f, twice)
        D.dir_yang, D.yang_capabilities = 'folder', 'capabilities.txt'
        D.download_queue = q = Puts()
        D.num_threads = 2
        D.lock = Lock(Shared(f))
        ev = []
        need = choose(False, True)
        patch(M.ModelDownloader, 'need_download', property(lambda s: need))
        fs = FS(M)

        def op(name, mode='r', *a, **k):
            if any(m in mode for m in 'wax+'):
                prove('the capabilities are recorded only after all modules were handled', q.joined and len(ev) > 0)
                prove('nothing else is recorded', name == 'capabilities.txt' and 'a' not in mode)
            return File(name, mode, fs)
        patch(M, 'open', op)
        os_ = OS()
        os_.walk = lambda p: VList([Seg(lambda: (fstr('root'), VList(), VList([Seg(lambda: fstr('file'))])), name='walk')])
        patch(M, 'os', os_)

        class Worker:
            def __init__(self, w):
                prove('a worker works for this downloader', w is D)

            def start(self):
                prove('a worker starts when all modules are in the queue', q.count(f) == 1, q.items)
                prove('a worker starts when all modules of the device are known', f in D.to_be_downloaded)
                prove('a worker starts before the queue is waited for', not q.joined)
                prove('a worker does not keep the program from ending', self.daemon)
                ev.append('start')

            def join(self, *a):
                pass
        patch(M, 'DownloadWorker', Worker)
        D.context = Ctx()

        def wd():
            prove('the dependencies are recorded only after all modules were handled', q.joined and len(ev) > 0)
            ev.append('dependencies')
        D.context.write_dependencies = wd
        r = outcome(D.download_all, check_before_download=True) if check else outcome(D.download_all, check_before_download=False)
        prove('downloading never fails', r.returned(), r)
        if check and not need:
            cover('skipped')
            prove('skipped: nothing is asked, removed or recorded', not ev and not fs.writes and q.count(f) == 0 and not os_.removed.items)
            return
        cover('done')
        prove('every module is put in the queue once', q.count(f) == 1)
        prove('the queue is waited for', q.joined)
        prove('the capabilities are recorded', len(fs.writes) == 1 and fs.writes[0][0] == 'capabilities.txt' and caps_joined(c, d, getattr(fs.writes[0][1], 'encoded', fs.writes[0][1])))
        prove('the dependencies are recorded', ev[-1] == 'dependencies')
    h.__module__ = __name__
    h.covers = ('done', 'skipped') if check else ('done',)
    harness('model.ModelDownloader.download_all', 'downloading all modules, %s%s' % ('checking first' if check else 'not checking', ', one listed twice' if twice else ''),
            max_paths=4000)(h)


all_h(True, False)
all_h(False, False)
all_h(False, True)


@harness('manager.ModelDevice.scan_models', 'scanning', max_paths=2000)
def h_scan(c):
    M = module('manager')
    dev = object.__new__(M.ModelDevice)
    ev = []

    class D:
        def __init__(s, d, folder):
            prove('downloads for this device, to this folder', d is dev and folder == 'folder')

        def download_all(s, check_before_download=True):
            ev.append(('download', bool(check_before_download)))

    class Comp:
        def __init__(s, folder):
            prove('compiles this folder', folder == 'folder')
            ev.append('compiler')
    patch(M, 'ModelDownloader', D)
    patch(M, 'ModelCompiler', Comp)
    how = choose('check', 'force', 'no', None)
    r = outcome(dev.scan_models, folder='folder', download=how) if how else outcome(dev.scan_models, folder='folder')
    prove('scanning returns', r.returned(), r)
    how = how or 'check'
    prove('downloads as asked, before the folder is read', ev == ([('download', how == 'check')] if how != 'no' else []) + ['compiler'], ev)
    prove('the compiler is the one of the folder', isinstance(dev.compiler, Comp))


# ------------------------------------------------------------------ a local folder
def folder_h(deps):
    def h(c):
        M = MM()
        X = object.__new__(M.CompilerContext)
        X.num_threads = 2
        X.dependencies = choose(None, 'old')
        X.repository = Ctx()
        X.repository.dirs = ['folder']
        f = fstr('focus')
        os_ = OS()
        yang = SBool(z3.SuffixOf(z3.StringVal('.yang'), zstr(f.lower())))
        os_.listdir = lambda p: VList([others(f), f, others(f)]) if p == 'folder' else VList()
        patch(M, 'os', os_)
        qs = []
        ev = []

        class QM:
            Empty = queue.Empty

            @staticmethod
            def Queue(*a):
                qs.append(Puts())
                return qs[-1]
        patch(M, 'queue', QM)

        def path_of():
            for a, b, r in os_.path.memo:
                if a == 'folder' and b is f:
                    return r
            return None

        def good():
            p = path_of()
            return len(qs) == 1 and X.modulefile_queue is qs[0] and (len([x for x in qs[0].items.norm() if x is p]) if p is not None else 0) == (1 if bool(yang) else 0)

        class Worker:
            def __init__(self, w):
                prove('a worker works for this context', w is X)

            def start(self):
                prove('a worker starts when exactly the files with YANG are in the queue', good())
                prove('a worker starts before the queue is waited for', not qs[0].joined)
                prove('a worker starts with a place for the dependencies', X.dependencies is not None)
                prove('a worker does not keep the program from ending', self.daemon)
                ev.append('start')
        patch(M, 'ContextWorker', Worker)

        def wd():
            prove('the dependencies are recorded only after all files were handled', qs[0].joined and len(ev) > 0)
            ev.append('dependencies')
        X.write_dependencies = wd
        r = outcome(X.load_context)
        prove('reading a folder never fails', r.returned(), r)
        cover('yang' if bool(yang) else 'other')
        prove('exactly the files with YANG are parsed', good())
        prove('the dependencies are recorded', ev[-1:] == ['dependencies'] and len(ev) > 1)
    h.__module__ = __name__
    h.covers = ('yang', 'other')
    harness('model.CompilerContext.load_context', 'parsing a folder', max_paths=4000)(h)


folder_h(True)


# ------------------------------------------------------------------ what a module depends on
class Stm:
    def __init__(self, kw, arg=None, kids=None):
        self.keyword, self.arg, self.kids, self.substmts = kw, arg if arg is not None else fstr('arg'), kids or {}, VList()

    def search(self, k):
        return self.kids.get(k, VList())

    def search_one(self, k):
        s = self.search(k)
        its = s.norm()
        if not its:
            return None
        return s[0]


def deps_h(kind, kw):
    def h(c):
        M = MM()
        X = object.__new__(M.CompilerContext)
        X.dependencies = choose(None, 'some')
        if X.dependencies is not None:
            X.dependencies = SymElem(tag='modules')
            X.dependencies.kids.items = [Seg(lambda: SymElem(tag='module', parent=X.dependencies), name='modules')]
        f = fstr('focus')

        def imp(arg=None):
            return Stm(kw, arg, {'prefix': VList([Stm('prefix')])})

        def some():
            x = imp()
            assume(not_(eqv(x.arg, f)))
            return x
        other = 'include' if kw == 'import' else 'import'
        kids = {kw: VList([Seg(some), imp(f), Seg(some)]), other: VList([Seg(some)]),
                'augment': VList([Seg(lambda: Stm('augment', f))]), 'revision': VList([Seg(lambda: Stm('revision', f))]), 'prefix': VList([Stm('prefix')]),
                'namespace': VList([Stm('namespace')]), 'belongs-to': VList([Stm('belongs-to')]),
                'deviation': VList([Seg(lambda: Stm('deviation', f))])}
        if kind == 'none':
            kids[kw] = VList([Seg(some)])
        m = Stm(choose('module', 'submodule'), None, kids)
        r = outcome(X.update_dependencies, m)
        prove('the dependencies of a parsed module are found', r.returned(), r)
        cover('found')
        prove('what it %ss is a dependency' % kw if kind != 'none' else 'nothing else is a dependency', (f in r.value) == (kind != 'none'))
    h.__module__ = __name__
    h.covers = ('found',)
    harness('model.CompilerContext.update_dependencies', 'dependencies: %s, %s' % (kw, kind), max_paths=4000)(h)


for kw in ('import', 'include'):
    deps_h('one', kw)
    deps_h('none', kw)
