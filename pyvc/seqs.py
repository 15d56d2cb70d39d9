"""Lists of any length with loop invariants (used by contracts that ask for it with seqs.begin()).

Every loop over such a list is decided by induction: the invariant is proved on entry, assumed of the state an arbitrary
iteration starts in, proved of the state it ends in, and assumed after the loop.  Invariants are not written down per loop:
they are the largest inductive subset of fixed families of candidate formulas over the carried integers, the ghost state of
the lists and the index of the iteration (a candidate that is not proved is dropped and everything is explored again, so no
obligation ever rests on a formula that is not inductive)."""
import z3
from . import core
from .core import SStr, SInt, SBool, Unsupported, Kill, POISON, zstr, zint, zbool, eqv, fint, fstr

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
MARKS = ('-', '+', '?', '')


def C():
    return core.CTX


def one(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def on():
    return C() is not None and getattr(C(), 'seq', None) is not None


class World:
    """the ghost state of one path"""
    free = False
    new_dict = None

    def new_list(self, items):
        return QList(items)

    def new_set(self, x):
        return USet()

    def families(self, q, names):
        return q.families(names)

    def __init__(self):
        c = C()
        self.lists = []             # append-only lists made by the code, in order of creation
        self.bases = []
        self.K = c.fresh('any line', S)
        self.n = self.nv = 0
        self.same = None


def begin():
    c = C()
    if not hasattr(c, 'dropped'):
        c.dropped, c.touched, c.known, c.era = set(), set(), {}, 0
    c.seq = World()
    c.approx.add('inferred invariants')
    return c.seq


def F(name, *sorts):
    c = C()
    c.fresh_n += 1
    return z3.Function('%s!%d' % (name, c.fresh_n), *sorts)


def valid(e, ms=2500):
    e = z3.simplify(zbool(e))
    if z3.is_true(e):
        return True
    c = C()
    c.seq.nv += 1                           # paths that share a prefix ask the same questions
    key = ('valid', c.prefix(), c.seq.nv, c.era)
    if key not in c.known:
        r = c.raw([z3.Not(e)], ms)[0]
        c.known[key] = r == z3.unsat
        if r == z3.unknown:
            c.known['no answer'] = True
    return c.known[key]


def restart():
    C().era += 1
    raise core.Restart()


def settled():
    """an obligation that fails where the solver gave no answer for an invariant, or the code looks into a set that is not
    tracked, is not decided"""
    k = C().known
    if k.get('no answer') or k.get('vague'):
        raise Unsupported('invariants are not known')


# ------------------------------------------------------------------ sequences
class Source:
    """something elements can be drawn from by position"""
    draws = None

    def init(self, length):
        self.len_ = length
        self.draws, self.queries = [], []

    lo = z3.IntVal(0)

    def length(self):
        return SInt(self.len_)

    def draw(self, i):
        raise NotImplementedError

    def seen(self, i):
        """an index is in use: the instances of the axioms for it"""
        i = z3.simplify(i)
        if any(z3.eq(i, d) for d in self.draws):
            return
        self.draws.append(i)
        self.axioms(i)
        for q in self.queries:
            self.pair(q, i)

    def axioms(self, i):
        pass

    # views
    def whole(self):
        return View(self, z3.IntVal(0), self.len_, None)

    def q_slice(self, s):
        return self.whole().q_slice(s)

    def q_get(self, k):
        if isinstance(k, slice):
            return self.q_slice(k)
        return self.whole().q_get(k)

    def __contains__(self, k):
        return self.whole().__contains__(k)

    def index(self, k, *at):
        return self.whole().index(k, *at)

    def __bool__(self):
        return C().branch(self.len_ > 0)

    def __getitem__(self, k):
        return self.q_get(k)

    def q_comp(self, f, conds):
        return self.whole().q_comp(f, conds)

    def __iter__(self):
        raise Unsupported('iteration over a list of any length')


class Lines(Source):
    """one level of a config: (line, children or None, info)"""

    def __init__(self, label):
        c, w = C(), C().seq
        self.label = label
        self.init(c.fresh('number of lines in ' + label, I))
        c.assume(self.len_ >= 0)
        self.key, self.val, self.cnt = F('line ' + label, I, S), F('children ' + label, I, I), F('count ' + label, I, I)
        self.has, self.first = F('has ' + label, I, I, S, B), F('first ' + label, I, I, S, I)
        c.assume(self.cnt(0) == 0)
        w.bases.append(self)

    def axioms(self, i):
        c, w = C(), C().seq
        c.assume(z3.Implies(z3.And(0 <= i, i < self.len_), z3.And(self.cnt(i + 1) == self.cnt(i) + one(self.key(i) == w.K), self.cnt(i) >= 0)))
        if w.same is not None:
            w.same.at(i)

    def draw(self, i):
        self.seen(i)
        v = None if C().branch(self.val(i) == 0) else Children(self, i)
        return (SStr(self.key(i)), v, '')

    def pair(self, q, d):
        lo, hi, k = q
        C().assume(z3.Implies(z3.And(lo <= d, d < hi, self.key(d) == k), z3.And(self.has(lo, hi, k), self.first(lo, hi, k) <= d)))

    def query(self, lo, hi, k):
        f = self.first(lo, hi, k)
        if not any(z3.eq(lo, a) and z3.eq(hi, b) and z3.eq(k, x) for a, b, x in self.queries):
            C().assume(z3.Implies(self.has(lo, hi, k), z3.And(lo <= f, f < hi, self.key(f) == k)))
            self.queries.append((lo, hi, k))
            self.seen(f)
            for d in list(self.draws):
                self.pair((lo, hi, k), d)
        return self.has(lo, hi, k), f


class Same:
    """two levels with the same lines and the same children in the same order; eq(i): equal up to i"""

    def __init__(self, a, b):
        c = C()
        self.a, self.b = a, b
        self.e, self.eq, self.done = c.fresh('same', B), F('equal up to', I, B), []
        c.assume(self.eq(0))
        c.assume(self.e == z3.And(a.len_ == b.len_, self.eq(a.len_)))

    def at(self, i):
        if any(z3.eq(i, x) for x in self.done):
            return
        self.done.append(i)
        a, b, c = self.a, self.b, C()
        both = z3.And(a.key(i) == b.key(i), a.val(i) == b.val(i))
        c.assume(z3.Implies(i >= 0, self.eq(i + 1) == z3.And(self.eq(i), both)))
        # by induction on eq: equal levels are equal line by line
        c.assume(z3.Implies(z3.And(self.e, 0 <= i, i < a.len_), z3.And(both, self.eq(i), self.eq(i + 1))))
        for x in (a, b):
            x.seen(i)


class Children:
    """the lines below a line"""

    def __init__(self, base, i):
        self.base, self.i = base, i

    def term(self):
        return self.base.val(self.i)

    def __eq__(self, o):
        return SBool(self.term() == o.term()) if isinstance(o, Children) else False

    def __ne__(self, o):
        return core.not_(self == o)

    __hash__ = None

    def _vc_isinstance(self, ts):
        return list in ts

    def length(self):
        n = fint('lines below')
        C().assume(n.e >= 0)
        return n

    def __bool__(self):
        raise Unsupported('truth of the lines below a line')

    def __iter__(self):
        raise Unsupported('iteration over the lines below a line')

    def q_comp(self, f, conds):
        if conds:
            raise Unsupported('selection from the lines below a line')
        if f is None:
            return self
        k, v, i = fstr('k'), Other(), fstr('i')
        r = f((k, v, i))
        if isinstance(r, tuple) and len(r) == 3 and r[0] is k and r[1] is v and isinstance(r[2], str):
            return Marked(self, r[2])
        raise Unsupported('lines rewritten in an unknown way')


class Marked:
    """the lines below a line, all with one mark"""

    def __init__(self, of, mark):
        self.of, self.mark = of, mark


class Compared:
    """what the comparison of two levels returns (its contract)"""

    def __init__(self, a, b):
        self.a, self.b = a, b


class Other:
    pass


class Drawn:
    """children in an item drawn from a list of the code"""

    def __init__(self, o, t):
        self.o, self.t = o, t


class USet:
    """any set"""

    def add(self, x):
        pass
    discard = update = add

    def _any(self, o):
        return USet()
    __and__ = __or__ = __sub__ = __rand__ = __ror__ = union = intersection = difference = _any

    def __bool__(self):
        return bool(core.fbool('any set'))

    def __contains__(self, x):
        C().known['vague'] = True
        return bool(core.fbool('in any set'))

    def isdisjoint(self, o):
        return core.fbool('any sets disjoint')


class View(Source):
    def __init__(self, src, lo, hi, f):
        self.src, self.lo, self.hi, self.f = src, z3.simplify(lo), z3.simplify(hi), f
        self.len_ = z3.simplify(self.hi - self.lo)

    def whole(self):
        return self

    def clamp(self, x, default):
        if x is None:
            return default
        x, n = zint(x), self.len_
        if valid(z3.And(0 <= x, x <= n)):
            return x
        return z3.If(x < 0, z3.If(n + x < 0, 0, n + x), z3.If(x > n, n, x))

    def q_slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported('slice with a step')
        a, b = self.clamp(s.start, z3.IntVal(0)), self.clamp(s.stop, self.len_)
        if not valid(a <= b):
            b = z3.If(b < a, a, b)
        return View(self.src, self.lo + a, self.lo + b, self.f)

    def draw(self, i):
        x = self.src.draw(z3.simplify(self.lo + i))
        return x if self.f is None else self.f(x)

    def q_get(self, k):
        if isinstance(k, slice):
            return self.q_slice(k)
        if C().seq.free:
            return self.src.v_get(self, k)
        k = zint(k)
        if not valid(z3.And(0 <= k, k < self.len_)):
            if C().branch(k < 0):
                raise Unsupported('negative index')
            if C().branch(k >= self.len_):
                raise IndexError('list index out of range')
        return self.draw(k)

    def lines(self):
        """the source, if this is its lines"""
        if isinstance(self.src, Lines):
            i = C().fresh('i', I)
            k = SStr(self.src.key(i))
            try:
                r = (k, Other(), '') if self.f is None else self.f((k, Other(), ''))
            except Exception:
                r = None
            if isinstance(r, SStr) and z3.eq(r.e, k.e):
                return self.src
        raise Unsupported('search in a list of unknown members')

    def find(self, k):
        if not isinstance(k, (str, SStr)):
            raise Unsupported('search for something that is not a line')
        return self.lines().query(self.lo, self.hi, zstr(k))

    def __contains__(self, k):
        if C().seq.free:
            return self.src.v_contains(self, k)
        return C().branch(self.find(k)[0])

    def count(self, k):
        if C().seq.free:
            return self.src.v_count(self, k)
        raise Unsupported('count')

    def index(self, k, start=None, stop=None):
        if start is not None or stop is not None:
            a = self.clamp(start, z3.IntVal(0))
            return self.q_slice(slice(start, stop)).index(k) + SInt(a)
        if C().seq.free:
            return self.src.v_index(self, k)
        has, f = self.find(k)
        if not C().branch(has):
            raise ValueError('not in list')
        return SInt(f - self.lo)

    def q_comp(self, f, conds):
        if conds and C().seq.free:
            return self.src.v_select(self, f, conds)
        if conds:
            raise Unsupported('selection from a list of any length')
        g = self.f
        if f is None:
            return View(self.src, self.lo, self.hi, g)
        return View(self.src, self.lo, self.hi, f if g is None else (lambda x: f(g(x))))


FIELDS = ('len', 'nq', 'p', 'm', 'w1', 'w2', 'good', 'ok', 'pre')


class QList(Source):
    """a list the code builds with append.  Ghost state: its length; how many of its items are not marked '?', and
    how many lines K (any one line) it has marked '+' / '-'; whether every item is accounted for (good); and, for lists
    of lines, where a search for them one after the other in the two configs ends (w1, w2), if all are found (ok), and whether
    it starts the first config (pre)"""

    def __init__(self, items=()):
        w = C().seq
        z = z3.IntVal(0)
        self.st = dict(len=z, nq=z, p=z, m=z, w1=z, w2=z, good=z3.BoolVal(True), ok=z3.BoolVal(True), pre=z3.BoolVal(True))
        self.no = len(w.lists)
        w.lists.append(self)
        self.frozen = None
        for x in items:
            self.append(x)

    len_ = property(lambda s: s.st['len'])

    def havoc(self):
        c = C()
        self.st = {k: c.fresh('%s of list %d' % (k, self.no), B if k in ('good', 'ok', 'pre') else I) for k in FIELDS}
        c.assume(z3.And(0 <= self.st['nq'], self.st['nq'] <= self.st['len'], self.st['p'] >= 0, self.st['m'] >= 0,
                        self.st['p'] + self.st['m'] <= self.st['nq']))        # what append() keeps by construction
        self.frozen = None

    def append(self, x):
        s, w, c = dict(self.st), C().seq, C()
        s['len'] = s['len'] + 1
        self.frozen = None
        if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], (str, SStr)) and isinstance(x[2], (str, SStr)):
            k, v, mark = zstr(x[0]), x[1], zstr(x[2])
            s['nq'] = s['nq'] + one(mark != z3.StringVal('?'))
            s['p'] = s['p'] + one(z3.And(k == w.K, mark == z3.StringVal('+')))
            s['m'] = s['m'] + one(z3.And(k == w.K, mark == z3.StringVal('-')))
            s['ok'] = s['pre'] = z3.BoolVal(False)
            if not self.accounted(x):
                s['good'] = z3.BoolVal(False)
        elif isinstance(x, (str, SStr)):
            a, b = w.bases
            k = zstr(x)
            (h1, f1), (h2, f2) = a.query(s['w1'], a.len_, k), b.query(s['w2'], b.len_, k)
            a.seen(s['len'] - 1)
            s['pre'] = z3.And(s['pre'], s['len'] <= a.len_, k == a.key(s['len'] - 1))
            s['ok'] = z3.And(s['ok'], h1, h2)
            s['w1'], s['w2'] = f1 + 1, f2 + 1
            s['good'] = z3.BoolVal(False)
        else:
            s['ok'] = s['good'] = s['pre'] = z3.BoolVal(False)
            s['nq'] = s['nq'] + 1
        self.st = {k: z3.simplify(v) for k, v in s.items()}

    def extend(self, xs):
        import sys
        f = sys._getframe(1)
        if f.f_code.co_name == '__iadd__':
            f = f.f_back
        it = getattr(xs, 'it', None)
        if it is not None:                  # a generator
            xs = it.q_comp(xs.f, xs.conds) if isinstance(it, (Source, Children)) else None
        if not isinstance(xs, Source):
            raise Unsupported('extend')
        L = type('L', (), {})()
        L.site = (f.f_code.co_filename, f.f_code.co_name, f.f_lineno, 'extend')
        for x in QLoop(L, xs).run():
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    # -- what makes an item of a diff right
    def accounted(self, x):
        return self.accounted_(x)

    def accounted_(self, x):
        k, v, mark = zstr(x[0]), x[1], x[2]
        a, b = C().seq.bases
        if isinstance(mark, SStr):
            if isinstance(v, Drawn):
                it = v.o
                return valid(z3.And(it.good, k == it.key(v.t), mark.e == it.mark(v.t)))
            return False
        if isinstance(v, Drawn):
            it = v.o
            return valid(z3.And(it.good, k == it.key(v.t), z3.Or(z3.StringVal(mark) == it.mark(v.t),
                                                                 z3.And(z3.BoolVal(mark == ''), it.mark(v.t) == z3.StringVal('?')))))
        here = lambda s, d: z3.And(0 <= d, d < s.len_, s.key(d) == k)
        if mark in ('-', '+'):
            s = a if mark == '-' else b
            if isinstance(v, Children):
                return v.base is s and valid(here(s, v.i))
            return v is None and any(valid(z3.And(here(s, d), s.val(d) == 0)) for d in s.draws)
        if mark not in ('?', ''):
            return False
        of = {0: None, 1: None}
        if isinstance(v, Compared):
            return (mark == '' and isinstance(v.a, Children) and isinstance(v.b, Children) and v.a.base is a and v.b.base is b and
                    valid(z3.And(here(a, v.a.i), here(b, v.b.i))))
        for d1 in a.draws:
            if not valid(here(a, d1)):
                continue
            for d2 in b.draws:
                if not valid(here(b, d2)):
                    continue
                if v is None and valid(z3.And(a.val(d1) == 0, b.val(d2) == 0)):
                    return True
                if isinstance(v, Marked):
                    t = v.of.term()
                    if v.mark == '' and valid(z3.And(a.val(d1) == b.val(d2), t == a.val(d1), t != 0)):
                        return True
                    if mark == '' and v.mark == '-' and v.of.base is a and valid(z3.And(v.of.i == d1, b.val(d2) == 0, t != 0)):
                        return True
                    if mark == '' and v.mark == '+' and v.of.base is b and valid(z3.And(v.of.i == d2, a.val(d1) == 0, t != 0)):
                        return True
        return False

    # -- reading
    def freeze(self):
        if self.frozen is None:
            self.frozen = Frozen(self)
        return self.frozen

    def whole(self):
        fr = self.freeze()
        return View(fr, z3.IntVal(0), fr.len_, None)


class Frozen(Source):
    """the items of a list of the code, as they stand"""

    def __init__(self, o):
        c, s = C(), o.st
        self.init(s['len'])
        self.of, self.good, self.pre = o, s['good'], s['pre']
        self.lines = valid(s['ok']) and not valid(self.len_ == 0)
        self.key, self.mark = F('item', I, S), F('mark', I, S)
        self.cum = {x: F('%s before' % x, I, I) for x in ('nq', 'p', 'm', 'w1', 'w2')}
        for x, f in self.cum.items():
            c.assume(f(0) == 0)
            c.assume(f(self.len_) == s[x])

    def axioms(self, t):
        c, w = C(), C().seq
        k, m, f = self.key(t), self.mark(t), self.cum
        a, b = w.bases
        inside = z3.And(0 <= t, t < self.len_)
        q = z3.StringVal('?')
        if not self.lines:
          c.assume(z3.Implies(inside, z3.And(
            f['nq'](t + 1) == f['nq'](t) + one(m != q), 0 <= f['nq'](t), f['nq'](t + 1) <= f['nq'](self.len_),
            f['p'](t + 1) == f['p'](t) + one(z3.And(k == w.K, m == z3.StringVal('+'))),
            f['m'](t + 1) == f['m'](t) + one(z3.And(k == w.K, m == z3.StringVal('-'))))))
        if self.lines:
            a.seen(t)
            c.assume(z3.Implies(z3.And(inside, self.pre), z3.And(k == a.key(t), t < a.len_)))
            (h1, f1), (h2, f2) = a.query(f['w1'](t), a.len_, k), b.query(f['w2'](t), b.len_, k)
            c.assume(z3.Implies(inside, z3.And(h1, h2, f['w1'](t + 1) == f1 + 1, f['w2'](t + 1) == f2 + 1)))
        else:
            c.assume(z3.Implies(z3.And(inside, self.good), z3.Or(*[m == z3.StringVal(x) for x in MARKS])))

    def draw(self, t):
        self.seen(t)
        if self.lines:                      # a list of lines, or of marked lines
            return SStr(self.key(t))
        if not valid(self.good):
            raise Unsupported('a list of unknown items')
        return (SStr(self.key(t)), Drawn(self, t), SStr(self.mark(t)))


def quantified(x, want):
    """all(...) / any(...) over the items of a list, when the condition is on the mark '?'"""
    v = x.it if isinstance(x.it, View) else x.it.whole()
    fr = v.src
    if not isinstance(fr, Frozen) or x.conds or v.f is not None or not (valid(v.lo == 0) and valid(v.hi == fr.len_)):
        raise Unsupported('condition on all items of a list')
    c = C()
    k, m = c.fresh('k', S), c.fresh('m', S)
    r = zbool(x.f((SStr(k), Other(), SStr(m))))
    q = m == z3.StringVal('?')
    nq = fr.cum['nq'](fr.len_)
    if valid(r == q):
        return SBool(nq == 0) if want == 'all' else SBool(nq != fr.len_)
    if valid(r == z3.Not(q)):
        return SBool(nq == fr.len_) if want == 'all' else SBool(nq != 0)
    raise Unsupported('condition on all items of a list')


class Enumerated:
    def __init__(self, of, start):
        self.of, self.start = of, start


# ------------------------------------------------------------------ loops
class QLoop:
    def __init__(self, L, it):
        self.L, self.site = L, L.site
        self.it = it
        self.names, self.entry, self.here, self.end = [], {}, {}, {}
        self.done, self.none = set(), set()

    # -- candidates: name -> formula over a state
    def families(self, names):
        """candidate name -> function of (ints, lists, j)"""
        w = C().seq
        a, b = w.bases
        out = {}
        src = self.view.src
        lo = self.view.lo
        pos = lambda j: lo + j
        for o in w.lists[:self.nlists]:
            if (self.site, o.no) not in C().touched:
                continue
            n = o.no
            e = self.entry_lists[n]
            out['ok', n] = lambda s, l, j, n=n: l[n]['ok']
            out['same pre', n] = lambda s, l, j, n=n: z3.Implies(w.same.e, l[n]['pre'])
            out['good', n] = lambda s, l, j, n=n: l[n]['good']
            out['same len', n] = lambda s, l, j, n=n, e=e: z3.Implies(w.same.e, l[n]['len'] == e['len'] + j)
            out['no ?', n] = lambda s, l, j, n=n: l[n]['nq'] == l[n]['len']
            out['grows', n] = lambda s, l, j, n=n, e=e: z3.And(l[n]['len'] >= e['len'], l[n]['nq'] >= e['nq'])
            out['same nq', n] = lambda s, l, j, n=n, e=e: z3.Implies(z3.And(w.same.e, e['nq'] == 0), l[n]['nq'] == 0)
            out['no more than', n] = lambda s, l, j, n=n, e=e: l[n]['len'] <= e['len'] + j
            if isinstance(src, Lines):
                for x, y in (('p', 'm'), ('m', 'p')):
                    out['+' + x, n] = lambda s, l, j, n=n, e=e, x=x, y=y: z3.And(l[n][x] == e[x] + src.cnt(pos(j)) - src.cnt(lo), l[n][y] == e[y])
                out['nq+', n] = lambda s, l, j, n=n, e=e: l[n]['nq'] == e['nq'] + j
                out['len+', n] = lambda s, l, j, n=n, e=e: l[n]['len'] == e['len'] + j
            if isinstance(src, Frozen):
                for x in ('p', 'm'):
                    out['+' + x, n] = lambda s, l, j, n=n, e=e, x=x: l[n][x] - e[x] == src.cum[x](pos(j)) - src.cum[x](lo)
                out['net', n] = lambda s, l, j, n=n, e=e: (l[n]['p'] - l[n]['m']) - (e['p'] - e['m']) == (src.cum['p'](pos(j)) - src.cum['m'](pos(j))) - (src.cum['p'](lo) - src.cum['m'](lo))
                out['nq+', n] = lambda s, l, j, n=n, e=e: l[n]['len'] - e['len'] >= src.cum['nq'](pos(j)) - src.cum['nq'](lo)
        for x in names:
            out['0<=', x] = lambda s, l, j, x=x: s[x] >= 0
            out['<=j', x] = lambda s, l, j, x=x: s[x] <= pos(j)
            out['=j', x] = lambda s, l, j, x=x: s[x] == pos(j)
            out['same=j', x] = lambda s, l, j, x=x: z3.Implies(w.same.e, s[x] == pos(j))
            for k, base in enumerate((a, b)):
                out['<=n', x, k] = lambda s, l, j, x=x, base=base: s[x] <= base.len_
            for o in w.lists[:self.nlists]:
                if (self.site, o.no) in C().touched:
                    for q in ('w1', 'w2', 'len'):
                        out['=' + q, x, o.no] = lambda s, l, j, x=x, n=o.no, q=q: s[x] == l[n][q]
            if isinstance(src, Frozen):
                for q in ('w1', 'w2'):
                    out['=at ' + q, x] = lambda s, l, j, x=x, q=q: s[x] == src.cum[q](pos(j))
            for y in names:
                if x == y:
                    continue
                for o in w.lists[:self.nlists]:
                    if (self.site, o.no) in C().touched:
                        out['net', x, y, o.no] = lambda s, l, j, x=x, y=y, n=o.no: l[n]['p'] - l[n]['m'] == b.cnt(s[y]) - a.cnt(s[x])
                        if x < y:
                            out['all ?', x, y, o.no] = lambda s, l, j, x=x, y=y, n=o.no: z3.Implies(l[n]['nq'] == 0, z3.And(s[x] == s[y], w.same.eq(s[x])))
        return out

    def process(self):
        """candidates whose names are all known by now"""
        c = C()
        ints = [x for x in self.names if isinstance(self.entry[x], (int, SInt))]
        fam = c.seq.families(self, ints)
        bad = False
        ent = {x: zint(self.entry[x]) for x in ints}
        her = {x: zint(self.here[x]) for x in ints}
        cur = {o.no: o.st for o in c.seq.lists[:self.nlists]}
        new = [(n, f) for n, f in fam.items() if n not in self.done and (self.site, n) not in c.dropped]
        for n, f in new:
            self.done.add(n)
            if not self.proved('entry', n, f(ent, self.entry_lists, z3.IntVal(0))):
                c.dropped.add((self.site, n))
                bad = True
        if bad:
            restart()
        for n, f in new:
            c.assume(f(her, cur, self.j))

    def proved(self, phase, n, e):
        return valid(e)

    def run(self):
        c = C()
        w = c.seq
        it = self.it
        start = None
        if isinstance(it, Enumerated):
            start, it = it.start, it.of
        self.view = it.whole()
        n = self.view.len_
        self.entry_lists = {o.no: dict(o.st) for o in w.lists}
        self.nlists = len(w.lists)
        again = self.again = c.choose(2) == 0
        self.j = c.fresh('j', I)
        c.assume(z3.And(0 <= self.j, self.j < n) if again else self.j == n)
        if not again:
            c.assume(n >= 0)
        for o in w.lists[:self.nlists]:
            if (self.site, o.no) in c.touched:
                o.havoc()
        before = {o.no: o.st for o in w.lists}
        self.process()
        if not again:
            for b in w.bases:
                b.seen(z3.simplify(self.view.lo + self.j)) if isinstance(self.view, View) and self.view.src is b else None
            return
        x = self.view.draw(self.j)
        yield x if start is None else (SInt(self.j + start), x)
        # the end of the iteration
        late = {(self.site, o.no) for o in w.lists[:self.nlists] if o.st is not before[o.no]} - c.touched
        if late:
            c.touched |= late
            restart()
        ints = [x for x in self.names if isinstance(self.entry[x], (int, SInt))]
        if any(not isinstance(self.end.get(x), (int, SInt)) for x in ints):
            raise Unsupported('a carried number does not stay one')
        if any(self.end.get(x) is not None and not isinstance(self.end[x], (int, SInt)) for x in self.none):
            raise Unsupported('a carried number does not stay one')
        end = {x: zint(self.end[x]) for x in ints}
        cur = {o.no: o.st for o in w.lists[:self.nlists]}
        bad = False
        for nm, f in c.seq.families(self, ints).items():
            if (self.site, nm) in c.dropped:
                continue
            if not self.proved('step', nm, f(end, cur, self.j + 1)):
                c.dropped.add((self.site, nm))
                bad = True
        if bad:
            restart()
        raise Kill()

    def carry(self, name, get, inplace=False):
        try:
            v = get()
        except NameError:
            return POISON
        if v is None and C().seq.free:      # nothing, or a number
            self.none.add(name)
            return None if C().choose(2) == 0 else fint(name)
        if isinstance(v, bool) or not isinstance(v, (int, SInt)):
            return v if inplace and isinstance(v, (QList, USet)) else POISON
        assigned = C().known.setdefault(('names', self.site), set())
        if self.again:
            assigned.add(name)
        elif name not in assigned:          # a target of the loop
            return POISON
        if name in self.names:
            return self.here[name]
        self.names.append(name)
        self.entry[name] = v
        self.here[name] = fint(name)
        self.process()
        return self.here[name]

    def chk(self, name, get):
        try:
            self.end[name] = get()
        except NameError:
            self.end[name] = None
