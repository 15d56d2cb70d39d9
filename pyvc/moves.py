"""Lists of lines that are reordered in place (for handle_orderless): nothing is known of positions except where lines are
taken out, and everything is known of one item g (any one line of the first list) and its text K: how often g stands in the
list (c), and whether K is in each set, dict and list the code keeps.  What is not tracked may take any value, and a lookup
that finds nothing ends the path: the contract is about the calls that return."""
import z3
from . import core, seqs
from .core import SStr, SInt, SBool, Unsupported, Kill, zstr, zint, fint, fstr
from .seqs import Source, Lines, View, Children, World, USet, Enumerated, F, I, S, B, one, valid, C


def begin():
    seqs.begin()
    w = C().seq = Moves()
    return w


def anybool():
    return C().choose(2) == 0


def upto(n):
    f = fint('index')
    C().assume(z3.And(0 <= f.e, f.e < n))
    return f


class Item(tuple):
    """a line of a level"""
    src = i = None


class Level(Lines):
    """a level whose lines are read only"""

    only = None

    def axioms(self, i):
        c, n, f, k = C(), self.len_, self.cnt, C().seq.K
        if self.only is None:
            self.only = c.fresh('the only K', I)
        here = z3.And(0 <= i, i < n)
        c.assume(z3.Implies(here, z3.And(f(i + 1) == f(i) + one(self.key(i) == k), f(i + 1) <= f(n))))
        c.assume(z3.Implies(z3.And(0 <= i, i <= n), z3.And(0 <= f(i), f(i) <= f(n))))
        # a line that stands once has one position
        c.assume(z3.Implies(z3.And(here, self.key(i) == k, f(n) == 1), i == self.only))

    def draw(self, i):
        self.seen(i)
        v = None if C().branch(self.val(i) == 0) else Children(self, i)
        t = Item((SStr(self.key(i)), v, ''))
        t.src, t.i = self, i
        return t

    # free reading
    def v_contains(self, view, k):
        return anybool()

    def v_index(self, view, k):
        view.src.seen(view.lo)
        return upto(view.len_)

    def v_get(self, view, k):
        k = zint(k)
        if not valid(z3.And(0 <= k, k < view.len_)):
            k = upto(view.len_).e
        return view.draw(k)

    def v_count(self, view, x):
        if not isinstance(x, (str, SStr)):
            raise Unsupported('count')
        view.lines()
        for i in (view.lo, view.hi):
            self.seen(i)
        o = fint('count')
        C().assume(o.e >= 0)
        return SInt(z3.If(zstr(x) == C().seq.K, self.cnt(view.hi) - self.cnt(view.lo), o.e))

    def v_select(self, view, f, conds):
        view.lines()
        if f is not None:
            return UList()
        return Filt(self, view, all(bool(g(SStr(C().seq.K))) for g in conds))


class Filt(Source):
    """the lines of a part of a level that satisfy a condition; how often K is among them is known"""

    def __init__(self, b, view, k_in):
        c, w = C(), C().seq
        n = c.fresh('selected', I)
        self.init(n)
        c.assume(n >= 0)
        self.el, self.cum = F('selected', I, S), F('K selected before', I, I)
        for i in (view.lo, view.hi):
            b.seen(i)
        k = b.cnt(view.hi) - b.cnt(view.lo) if k_in else z3.IntVal(0)
        c.assume(z3.Implies(z3.And(0 <= view.lo, view.lo <= view.hi, view.hi <= b.len_), z3.And(0 <= b.cnt(view.hi) - b.cnt(view.lo), b.cnt(view.hi) - b.cnt(view.lo) <= b.cnt(b.len_))))
        c.assume(z3.And(self.cum(0) == 0, self.cum(n) == k))

    def axioms(self, t):
        f, n = self.cum, self.len_
        C().assume(z3.Implies(z3.And(0 <= t, t < n), z3.And(f(t + 1) == f(t) + one(self.el(t) == C().seq.K), 0 <= f(t), f(t + 1) <= f(n))))

    def draw(self, t):
        self.seen(t)
        return SStr(self.el(t))

    v_contains = v_index = v_get = v_count = v_select = None


class UList(Source):
    """any lines"""

    def __init__(self):
        n = C().fresh('any number', I)
        C().assume(n >= 0)
        self.init(n)

    def draw(self, i):
        return fstr('any line')

    def q_get(self, k):
        return UList() if isinstance(k, slice) else fstr('any line')

    def __contains__(self, k):
        return anybool()

    def index(self, k):
        return upto(self.len_)

    def count(self, k):
        return upto(self.len_ + 1)

    def q_comp(self, f, conds):
        return UList()


class OList(Source):
    """a list the code makes: of lines (kin: K is in it), of positions in the first list (D: that of g is in it, D2: that
    of another line K; inc: they increase), or of anything else"""

    def __init__(self, items=()):
        w = C().seq
        f, t, z = z3.BoolVal(False), z3.BoolVal(True), z3.IntVal(0)
        self.st = dict(len=z, kin=f, D=f, D2=f, inc=t, last=z, nonneg=t)
        self.no = len(w.lists)
        w.lists.append(self)
        for x in items:
            self.append(x)

    len_ = property(lambda s: s.st['len'])

    def havoc(self):
        c = C()
        self.st = {k: c.fresh('%s of list %d' % (k, self.no), I if k in ('len', 'last') else B) for k in self.st}
        c.assume(self.st['len'] >= 0)

    def append(self, x):
        s, w = dict(self.st), C().seq
        if isinstance(x, bool):
            raise Unsupported('append')
        if isinstance(x, (int, SInt)):
            z = zint(x)
            w.first.seen(z)
            s['inc'] = z3.And(s['inc'], z3.Or(s['len'] == 0, z > s['last']))
            s['nonneg'] = z3.And(s['nonneg'], z >= 0)
            s['D'] = z3.Or(s['D'], z == w.g)
            s['D2'] = z3.Or(s['D2'], z3.And(z != w.g, w.first.key(z) == w.K))
            s['last'] = z
        else:
            s['inc'] = z3.BoolVal(False)
            if isinstance(x, (str, SStr)):
                s['kin'] = z3.Or(s['kin'], zstr(x) == w.K)
        s['len'] = s['len'] + 1
        self.st = {k: z3.simplify(v) for k, v in s.items()}

    def add(self, x):
        self.append(x)

    def __contains__(self, x):
        return has(self, x)

    def index(self, x):
        return upto(self.len_)

    def q_get(self, k):
        return UList() if isinstance(k, slice) else fstr('any line')

    def q_comp(self, f, conds):
        return UList()

    def whole(self):
        raise Unsupported('iteration over a list the code made')

    def reverse(self):
        raise Unsupported('reverse')

    def __and__(self, o):
        return USet()
    __or__ = __sub__ = __and__


def has(o, x):
    if not isinstance(x, (str, SStr)):
        return anybool()
    if C().branch(zstr(x) == C().seq.K):
        return C().branch(o.st['kin'])
    return anybool()


class Desc(Source):
    """positions in the first list, from the last to the first"""

    def __init__(self, o):
        c, s = C(), o.st
        if not valid(z3.And(s['inc'], s['nonneg'])):
            raise Unsupported('positions in no order')
        self.init(s['len'])
        self.s = s
        self.el, self.cum = F('position', I, I), F('g taken before', I, I)
        c.assume(z3.And(self.cum(0) == 0, self.cum(self.len_) == one(s['D'])))
        self.seen(z3.IntVal(0))

    def axioms(self, t):
        w, f, e, n = C().seq, self.cum, self.el, self.len_
        w.first.seen(e(t))
        C().assume(z3.Implies(z3.And(0 <= t, t < n), z3.And(
            0 <= e(t), e(t) <= self.s['last'], f(t + 1) == f(t) + one(e(t) == w.g), 0 <= f(t), f(t + 1) <= f(n),
            z3.Implies(z3.And(e(t) != w.g, w.first.key(e(t)) == w.K), self.s['D2']))))
        C().assume(z3.Implies(z3.And(0 <= t, t + 1 < n), e(t + 1) < e(t)))

    def draw(self, t):
        self.seen(t)
        return SInt(self.el(t))

    v_contains = v_index = v_get = v_count = v_select = None


class ODict:
    """a dict by line: whether K is in it, and the position of the item it gives for K; keyed: it gives for every line an
    item of the first list with that line"""

    def __init__(self):
        w = C().seq
        self.st = dict(kin=z3.BoolVal(False), ridx=z3.IntVal(-1), keyed=z3.BoolVal(True))
        self.no = len(w.lists)
        w.lists.append(self)

    def havoc(self):
        c = C()
        self.st = {k: c.fresh('%s of dict %d' % (k, self.no), I if k == 'ridx' else B) for k in self.st}

    def __setitem__(self, k, v):
        if not isinstance(k, (str, SStr)):
            raise Unsupported('key')
        s, w = dict(self.st), C().seq
        k = zstr(k)
        if isinstance(v, Item) and v.src is w.first and valid(z3.And(0 <= v.i, v.i < w.first.len_, w.first.key(v.i) == k)):
            i = v.i
        else:
            s['keyed'] = z3.BoolVal(False)
            i = C().fresh('no item', I)
        s['kin'] = z3.Or(s['kin'], k == w.K)
        s['ridx'] = z3.If(k == w.K, i, s['ridx'])
        self.st = {k: z3.simplify(v) for k, v in s.items()}

    def __getitem__(self, k):
        c, w, s = C(), C().seq, self.st
        if not valid(s['keyed']):
            raise Unsupported('value of a dict')
        k = zstr(k)
        if c.branch(k == w.K):
            if not c.branch(s['kin']):
                raise KeyError('not in dict')
            i = s['ridx']
        else:
            i = c.fresh('item', I)
        c.assume(z3.And(0 <= i, i < w.first.len_, w.first.key(i) == k))
        return w.first.draw(i)

    def __contains__(self, k):
        return has(self, k)

    def keys(self):
        return Keys(self)


class Keys:
    def __init__(self, d):
        self.d = d

    def as_list(self):
        if not isinstance(self.d, ODict):
            raise Unsupported('list of keys')
        o = OList()
        o.st = dict(o.st, kin=self.d.st['kin'], inc=z3.BoolVal(False), len=upto(C().fresh('keys', I)).e)
        return o

    def __contains__(self, k):
        return k in self.d


class IndexDict:
    """{line of an item: its position} over a list"""

    def __init__(self, of, start, f, conds):
        self.of, self.start, self.f, self.conds = of, start, f, conds

    def __getitem__(self, k):
        i = upto(self.of.len_)
        x = (i + self.start, self.of.q_get(i))
        if not all(bool(g(x)) for g in self.conds):
            raise KeyError('left out')
        kk, v = self.f(x)
        C().assume(core.zbool(core.eqv(kk, k)))
        return v

    def keys(self):
        return Keys(self)

    def __contains__(self, k):
        return anybool()


class MList(Source):
    """the first list, whose lines are taken out and put back: c: how often item g stands in it; ob: its positions below
    are as they were; foreign: something else was put in; moved: g has been
    taken out"""

    def __init__(self, base):
        w = C().seq
        self.base = base
        self.st = self.st0 = dict(c=z3.IntVal(1), ob=base.len_, len=base.len_, foreign=z3.BoolVal(False), moved=z3.BoolVal(False))
        self.no = len(w.lists)
        w.lists.append(self)
        self.keyf = {}

    len_ = property(lambda s: s.st['len'])

    def havoc(self):
        c = C()
        self.st = {k: c.fresh('%s of the list' % k, B if k in ('foreign', 'moved') else I) for k in self.st}
        c.assume(self.st['len'] >= 0)

    def pristine(self):
        return self.st is self.st0

    def whole(self):
        if self.pristine():
            return self.base.whole()
        raise Unsupported('iteration over the changed list')

    def q_comp(self, f, conds):
        return self.base.whole().q_comp(f, conds) if self.pristine() else UList()

    def q_get(self, k):
        if isinstance(k, slice):
            if self.pristine():
                return self.base.q_slice(k)
            raise Unsupported('part of the changed list')
        c, b = C(), self.base
        k = zint(k)
        if valid(z3.And(0 <= k, k < self.st['ob'], self.st['ob'] <= b.len_)):
            return b.draw(k)
        key = self.keyf.setdefault(id(self.st), (self.st, F('line at', I, I)))[1]
        i = key(k)
        c.assume(z3.And(0 <= i, i < b.len_))
        if not valid(z3.Not(self.st['foreign'])):
            raise Unsupported('an item of unknown origin')
        return b.draw(i)

    def __contains__(self, x):
        return anybool()

    def index(self, x):
        return upto(self.len_)

    def put(self, x):
        s, w = dict(self.st), C().seq
        if isinstance(x, Item) and x.src is w.first:
            s['c'] = s['c'] + one(x.i == w.g)
        else:
            s['foreign'] = z3.BoolVal(True)
        s['len'] = s['len'] + 1
        return s

    def set(self, s):
        self.st = {k: z3.simplify(v) for k, v in s.items()}

    def insert(self, at, x):
        s, at = self.put(x), zint(at)
        s['ob'] = z3.If(at < 0, 0, z3.If(at < s['ob'], at, s['ob']))
        self.set(s)

    def append(self, x):
        self.set(self.put(x))

    def __delitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported('del of a slice')
        k, s, w = zint(k), dict(self.st), C().seq
        if not valid(z3.And(0 <= k, k < s['ob'], s['ob'] <= self.base.len_)):
            raise Unsupported('an unknown line is taken out')
        s['c'] = s['c'] - one(k == w.g)
        s['moved'] = z3.Or(s['moved'], k == w.g)
        s['ob'], s['len'] = k, s['len'] - 1
        self.set(s)

    def pop(self, k):
        x = self.q_get(k)
        del self[k]
        return x


class Moves(World):
    free = True

    def __init__(self):
        World.__init__(self)
        c = C()
        c.seq = self
        self.first, self.second = Level('first'), Level('second')
        self.g = c.fresh('any item', I)
        c.assume(z3.And(0 <= self.g, self.g < self.first.len_, self.first.key(self.g) == self.K))
        self.ord = c.fresh('K is order-insensitive here', B)
        self.first.seen(self.g)
        for b in (self.first, self.second):
            b.seen(z3.IntVal(0))
            b.seen(b.len_)
        self.list1 = MList(self.first)

    def new_list(self, items):
        return OList(items)

    def new_set(self, x):
        if isinstance(x, tuple) and not x:
            return OList()
        if isinstance(x, ODict):
            x = Keys(x)
        if isinstance(x, Keys) and isinstance(x.d, ODict):
            return x.as_list()
        if isinstance(x, OList):
            o = OList()
            o.st = dict(x.st, inc=z3.BoolVal(False))
            return o
        return USet()

    def new_dict(self, keys, values):
        if list(keys):
            raise Unsupported('dict display')
        return ODict()

    def families(self, q, names):
        out, w, c = {}, self, C()
        view = q.view
        src, lo = view.src if isinstance(view, View) else view, view.lo if isinstance(view, View) else z3.IntVal(0)
        pos = lambda j: lo + j
        objs = [o for o in w.lists[:q.nlists] if (q.site, o.no) in c.touched]
        lists, dicts = [o for o in w.lists[:q.nlists] if isinstance(o, OList)], [o for o in w.lists[:q.nlists] if isinstance(o, ODict)]
        once = z3.And(w.first.cnt(w.first.len_) == 1, w.second.cnt(w.second.len_) == 1)

        def cand(name, o, f):
            out[(name, o.no)] = f
        for o in objs:
            n, e = o.no, q.entry_lists[o.no]
            if isinstance(o, (OList, ODict)):
                cand('kin as before', o, lambda s, l, j, n=n, e=e: l[n]['kin'] == e['kin'])
                for d in dicts:
                    if d is not o:
                        out['kin in', n, d.no] = lambda s, l, j, n=n, m=d.no: z3.Implies(l[n]['kin'], l[m]['kin'])
            if isinstance(o, OList):
                cand('no other K', o, lambda s, l, j, n=n: z3.Not(l[n]['D2']))
                cand('increasing', o, lambda s, l, j, n=n: z3.And(l[n]['inc'], l[n]['nonneg']))
                cand('last < j', o, lambda s, l, j, n=n: z3.Or(l[n]['len'] == 0, l[n]['last'] < pos(j)))
                cand('last in range', o, lambda s, l, j, n=n: z3.Or(l[n]['len'] == 0, l[n]['last'] < w.first.len_))
                for d in dicts:
                    out['D', n, d.no] = lambda s, l, j, n=n, m=d.no: l[n]['D'] == z3.And(w.g < pos(j), l[m]['kin'])
                if isinstance(src, Filt):
                    cand('kin with the selected', o, lambda s, l, j, n=n, e=e: l[n]['kin'] == z3.Or(e['kin'], src.cum(pos(j)) >= 1))
            if isinstance(o, ODict):
                cand('keyed', o, lambda s, l, j, n=n: l[n]['keyed'])
                cand('once', o, lambda s, l, j, n=n: z3.Implies(l[n]['kin'], once))
                cand('order-insensitive', o, lambda s, l, j, n=n: z3.Implies(l[n]['kin'], w.ord))
                cand('gives g', o, lambda s, l, j, n=n: z3.Implies(l[n]['kin'], l[n]['ridx'] == w.g))
            if isinstance(o, MList):
                cand('not foreign', o, lambda s, l, j, n=n: z3.Not(l[n]['foreign']))
                cand('moved as before', o, lambda s, l, j, n=n, e=e: l[n]['moved'] == e['moved'])
                cand('moved if order-insensitive', o, lambda s, l, j, n=n: z3.Implies(l[n]['moved'], z3.And(w.ord, once)))
                cand('c as before', o, lambda s, l, j, n=n, e=e: l[n]['c'] == e['c'])
                cand('ob in range', o, lambda s, l, j, n=n: l[n]['ob'] <= w.first.len_)
                for x in lists:
                    out['c with', n, x.no] = lambda s, l, j, n=n, m=x.no, e=e, e2=q.entry_lists[x.no]: l[n]['c'] - e['c'] == one(l[m]['kin']) - one(e2['kin'])
                if isinstance(src, Filt):
                    cand('c with the selected', o, lambda s, l, j, n=n, e=e: l[n]['c'] == e['c'] + src.cum(pos(j)))
                if isinstance(src, Desc):
                    cand('c without the taken', o, lambda s, l, j, n=n, e=e: l[n]['c'] == e['c'] - src.cum(pos(j)))
                    cand('moved if taken', o, lambda s, l, j, n=n, e=e: z3.Implies(l[n]['moved'], src.s['D']))
                    cand('ob', o, lambda s, l, j, n=n: z3.Implies(pos(j) < src.len_, l[n]['ob'] > src.el(pos(j))))
        return out
