"""Run time of the rewritten sources: operations that native Python cannot do on symbolic values."""
import re as _re, string as _string
import z3
from . import core
from .core import (Kill, Unsupported, SBool, SInt, SStr, POISON, and_, or_, not_, eqv, fstr, fint, fbool, zstr)
from .values import (AbsSet, C, Obj, Seg, Pred, VList, VDict, VSet, Loop as _Loop, view, contains, vc_setattr, log_value, proj)
from .elem import SymElem, VAttr, ETree, RevList, deepcopy, Tree, LooseSiblings
from . import seqs, moves

_bi = __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)
SYM = (SStr, SInt, SBool)


# ------------------------------------------------------------------ iteration
class Gen:
    """generator expression: consumed lazily by any/all/next/list/set/dict"""

    def __init__(self, it, f, conds, safe=False):
        self.it, self.f, self.conds, self.safe = it, f, conds, safe


def items_of(x):
    """list of members and segments, or None when x is a native iterable"""
    if isinstance(x, VList):
        return list(x.norm())
    if isinstance(x, VDict):
        return list(x.keys().items)
    if isinstance(x, VSet):
        return list(x.norm())
    if isinstance(x, SymElem):
        return list(x._kids())
    if isinstance(x, VAttr):
        return x.names()
    if isinstance(x, Gen):
        return comp_items(x.it, x.f, x.conds, x.safe)
    if isinstance(x, RevList):
        its = x.items_list()
        if its is None:
            raise Unsupported('iteration over unknown preceding siblings')
        return its
    if isinstance(x, (list, tuple, set, frozenset)):
        return list(x)
    if isinstance(x, dict):
        return list(x)
    if isinstance(x, Zipped):
        return x.items_()
    if isinstance(x, SStr):
        raise Unsupported('iteration over a symbolic string')
    if isinstance(x, core._Poison):
        raise Unsupported('loop-carried local used')
    return None


def iterate(x):
    its = items_of(x)
    return list(x) if its is None else VList(its)


class Zipped:
    def __init__(self, *ls):
        self.ls = ls

    def items_(self):
        its = [items_of(l) for l in self.ls]
        if any(i is None for i in its):
            return list(zip(*self.ls))
        n = [any(isinstance(y, Seg) for y in i) for i in its]
        if not any(n):
            return list(zip(*its))
        raise Unsupported('zip of lists of unknown length')

    def __iter__(self):
        return iter(self.items_())


class Loop(_Loop):
    q = None

    def iter(self, it):
        if isinstance(it, seqs.USet) and C().seq.free:
            it = moves.UList()
        if isinstance(it, (seqs.Source, seqs.Enumerated)):
            self.sym, self.q = True, seqs.QLoop(self, it)
            return self.q.run()
        return _Loop.iter(self, it)

    def __init__(self):
        _Loop.__init__(self)
        import sys
        f = sys._getframe(1)
        self.site = (f.f_code.co_filename, f.f_code.co_name, f.f_lineno)

    def carry(self, name, get, inplace=False):
        """value of a local assigned in the body, at the start of an arbitrary iteration / after the loop"""
        if not self.sym:
            return get()
        if self.q is not None:
            return self.q.carry(name, get, inplace)
        try:
            v = get()
        except NameError:
            return POISON
        if inplace and isinstance(v, (VList, VSet)):
            return v                # changed in place; the effects are tracked on the object
        return self.havoc(name, v)

    def carry0(self, name, get):
        try:
            return get()
        except NameError:
            return POISON

    def havoc(self, name, v):
        if not hasattr(self, 'types'):
            self.types = {}
        if (self.site, name) in C().mixed:
            return POISON
        if isinstance(v, (bool, SBool, int, SInt, str, SStr)):
            C().approx.add('loop-carried ' + name)
        for t, made, ty in (('bool', fbool, (bool, SBool)), ('int', fint, (int, SInt)), ('str', fstr, (str, SStr))):
            if isinstance(v, ty):
                self.types[name] = t
                x = made(name)
                C().carried.add(x.e.get_id())
                C().keep.append(x.e)
                return x
        return POISON

    def chk(self, name, get):
        """the body keeps the type assumed by havoc()"""
        if not self.sym:
            return
        if self.q is not None:
            return self.q.chk(name, get)
        t = getattr(self, 'types', {}).get(name)
        if t is None:
            return
        try:
            v = get()
        except NameError:
            return
        k = 'bool' if isinstance(v, (bool, SBool)) else 'int' if isinstance(v, (int, SInt)) else 'str' if isinstance(v, (str, SStr)) else None
        if k != t and v is not POISON:
            self.badtype = name


def comp_items(it, f, conds, safe=False):
    its = items_of(it)
    if its is None:
        its = list(it)
    out = []
    for x in its:
        if isinstance(x, Seg):
            s = x
            for c in conds:
                s = fview(s, c)
                if s is None:
                    break
            if not safe:
                may_raise(x, f, conds)
            if s is None:
                continue
            out.append(s if f is None else mapseg(s, f))
        else:
            if all(bool(c(x)) for c in conds):
                out.append(x if f is None else f(x))
    return out


def may_raise(seg, f, conds):
    """an element of a comprehension may raise: try an arbitrary member"""
    c = C()
    if c.nofork:
        return

    def ev():
        y = seg.draw()
        for g in conds:
            if not bool(g(y)):
                return
        if f is not None:
            f(y)
    b = len(c.born)
    c.enter()
    fine = False
    try:
        ev()
        fine = True
    except (core.NoFork, Exception):
        pass
    except core.Kill:
        fine = True
    finally:
        c.leave()
        del c.born[b:]
    if not fine and c.choose(2):
        ev()
        raise core.Kill()


_pn = [0]


def fview(seg, c):
    _pn[0] += 1
    return view(seg, Pred(('fn', _pn[0]), c))


def mapseg(seg, f):
    """image of a segment under a pure function; drawing exposes a member of the segment"""
    s = Seg(lambda: f(seg.draw()), name='map')
    s.mapped = (seg, f)
    s.length = seg.length
    return s


def vc_comp(kind, it, f, conds=(), safe=False):
    if kind == 'gen':
        return Gen(it, f, conds, safe)
    if isinstance(it, seqs.Enumerated) and kind == 'dict':
        return moves.IndexDict(it.of, it.start, f, conds)
    if isinstance(it, (seqs.Source, seqs.Children)):
        r = it.q_comp(f, conds)
        if kind == 'dict':
            raise Unsupported('dict over a list of any length')
        return seqs.USet() if kind == 'set' else r
    items = comp_items(it, f, conds, safe)
    if kind == 'list':
        return VList(items)
    if kind == 'set':
        return VSet(VList(items))
    d = VDict()
    for p in items:
        if isinstance(p, Seg):
            d.items.append(p)
        else:
            d._put(p[0], p[1])
    return d


def flatten(ll):
    out = []
    for x in items_of(ll):
        if isinstance(x, Seg):
            raise Unsupported('nested comprehension over unknown members')
        out += items_of(x)
    return VList(out)


def unpack(v, n):
    if isinstance(v, VList):
        v = v.need('unpacking')
    if isinstance(v, core._Poison):
        raise Unsupported('loop-carried local used')
    t = tuple(v)
    if len(t) != n:
        raise ValueError('not enough values to unpack (expected %d, got %d)' % (n, len(t)))
    return t


def vlist(items):
    if seqs.on():
        return C().seq.new_list(items)
    return VList(items)


def vdict(keys, values):
    if seqs.on() and C().seq.new_dict is not None:
        return C().seq.new_dict(keys, values)
    d = VDict()
    for k, v in zip(keys, values):
        d._put(k, v)
    return d


def vset(items):
    if seqs.on():
        return seqs.USet()
    return VSet(VList(items))


def vc_in(a, b):
    if isinstance(b, (VList, VDict, VSet, VAttr, RevList, LooseSiblings)):
        return a in b
    if isinstance(b, SymElem):
        return contains(b._kids(), a)
    if isinstance(b, SStr):
        return a in b
    if isinstance(b, str):
        if isinstance(a, SStr):
            return C().branch(z3.Contains(z3.StringVal(b), a.e))
        return a in b
    if isinstance(b, Gen):
        return a in VList(items_of(b))
    if isinstance(b, (tuple, list, set, frozenset)):
        return any(bool(eqv(a, x)) for x in b)
    if isinstance(b, dict):
        if isinstance(a, SStr):
            for k in b:
                if isinstance(k, (str, SStr)) and bool(eqv(a, k)):
                    return True
            return False
        return a in b
    return a in b


def vc_getitem(o, k):
    if isinstance(o, dict) and isinstance(k, SStr):
        for x in o:
            if isinstance(x, (str, SStr)) and bool(eqv(k, x)):
                return o[x]
        raise KeyError(str(k))
    if isinstance(o, (tuple, list)) and isinstance(k, SInt):
        raise Unsupported('symbolic index')
    if isinstance(o, str) and isinstance(k, (SInt, slice)):
        if isinstance(k, SInt) or any(isinstance(x, SInt) for x in (k.start, k.stop)):
            return SStr(z3.StringVal(o))[k]
    return o[k]


def vc_items(d):
    if isinstance(d, VDict):
        return d.pairs()
    if isinstance(d, VAttr):
        return d.pairs()
    return d.items()


def text_of(x):
    if isinstance(x, (SStr, str)):
        return x
    if isinstance(x, bool) or isinstance(x, int) or x is None:
        return str(x)
    return '<%s>' % type(x).__name__ if not isinstance(x, SYM) else '<sym>'


def concat(parts):
    parts = [p for p in parts if not (isinstance(p, str) and p == '')]
    if not parts:
        return ''
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    if len(parts) == 1:
        return parts[0]
    return SStr(z3.Concat(*[zstr(p) for p in parts]))


def vc_format(fmt, *a, **k):
    if not isinstance(fmt, str):
        if isinstance(fmt, SStr):
            raise Unsupported('format of a symbolic template')
        return fmt.format(*a, **k)
    parts, n = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[n]
            n += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            return fmt.format(*a, **k)
        if spec or conv:
            if isinstance(v, SYM):
                parts.append(fstr('fmt'))
                continue
            parts.append(('{:' + spec + '}').format(v))
        else:
            parts.append(text_of(v))
    return concat(parts)


def vc_fstring(parts):
    return concat([text_of(p) for p in parts])


def vc_mod(a, b):
    if isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, SYM) for x in args):
            if a.count('%') == a.count('%s'):
                lits = a.split('%s')
                out = [lits[0]]
                for x, l in zip(args, lits[1:]):
                    out += [text_of(x), l]
                return concat(out)
            raise Unsupported('% formatting')
    return a % b


def vc_join(sep, it):
    if not isinstance(sep, (str, SStr)):
        return sep.join(it)
    if isinstance(sep, SStr):
        raise Unsupported('join by a symbolic string')
    its = items_of(it)
    if its is None:
        its = list(it)
    if any(isinstance(x, Seg) for x in its):
        c = C()
        if not hasattr(c, 'joined'):
            c.joined = []
        for sp, xs, r in c.joined:                       # joining is a function of the parts
            if sp == sep and len(xs) == len(its) and all(a is b for a, b in zip(xs, its)):
                return r
        r = fstr('joined')
        c.joined.append((sep, list(its), r))
        if getattr(it, 'unordered', False):              # the join of a sorted list: a function of the members
            c.__dict__.setdefault('of_sorted', []).append(r)
        return r
    out = []
    for i, x in enumerate(its):
        if i:
            out.append(sep)
        out.append(x)
    return concat(out)


# ------------------------------------------------------------------ builtins
def vc_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(_real_type(y) for y in ts)
    if isinstance(x, SStr):
        return str in ts
    if isinstance(x, SInt):
        return int in ts
    if isinstance(x, SBool):
        return bool in ts or int in ts
    if isinstance(x, VList):
        return list in ts
    if isinstance(x, VDict):
        return dict in ts
    if isinstance(x, VSet):
        return set in ts
    if hasattr(x, '_vc_isinstance'):
        return x._vc_isinstance(ts)
    return isinstance(x, ts)


def _real_type(t):
    return {vc_list: list, vc_dict: dict, vc_set: set, vc_str: str, vc_int: int, vc_tuple: tuple, vc_bool: bool}.get(t, t)


def untype(t):
    return {vc_list: list, vc_dict: dict, vc_set: set, vc_str: str, vc_int: int, vc_tuple: tuple, vc_bool: bool}.get(t, t) if callable(t) else t


def vc_len(x):
    if hasattr(x, 'length') and not isinstance(x, type):
        return x.length()
    return len(x)


def vc_list(x=()):
    if isinstance(x, moves.Keys):
        return x.as_list()
    if isinstance(x, LooseSiblings):
        return x
    if isinstance(x, RevList):
        return RevList(list(x.norm()))
    its = items_of(x)
    return VList(list(x) if its is None else its)


def vc_tuple(x=()):
    its = items_of(x)
    its = list(x) if its is None else its
    if any(isinstance(y, Seg) for y in its):
        return VTuple(its)
    return tuple(its)


class VTuple(VList):
    pass


def vc_set(x=()):
    if seqs.on():
        return C().seq.new_set(x)
    if isinstance(x, AbsSet):
        return x
    its = items_of(x)
    return VSet(VList(list(x) if its is None else its))


def vc_dict(*a, **k):
    d = VDict(*a)
    d.update(**k)
    return d


def vc_sorted(x, key=None, reverse=False):
    its = items_of(x)
    its = list(x) if its is None else its
    if any(isinstance(y, (Seg,) + SYM) for y in its):
        r = VList(its)
        r.unordered = True
        return r
    return VList(sorted(its, key=key, reverse=bool(reverse)))


def vc_reversed(x):
    if isinstance(x, moves.OList):
        return moves.Desc(x)
    its = items_of(x)
    if its is None:
        return reversed(x)
    out = []
    for y in reversed(its):
        if isinstance(y, Seg):                 # its members, the other way round
            s = Seg((lambda y: lambda: y.draw())(y), name='reversed')
            s.reverse_of = y
            s.length = y.length
            y = s
        out.append(y)
    return VList(out)


class Idx(core.SInt):
    """index of a member of a list; worked out when it is compared"""
    __slots__ = ('done',)

    def where(self):
        if getattr(self, 'done', False) or C().nofork:
            return
        self.done = True
        from .values import position
        vl, m, _ = self.pos
        if any(z is m for z in vl.norm()):
            p = position(vl, m)
            C().assume(self.e == core.zint(p))


def vc_enumerate(x, start=0):
    if isinstance(x, seqs.Source):
        return seqs.Enumerated(x, start)
    its = items_of(x)
    if its is None:
        return enumerate(x, start)
    if not any(isinstance(y, Seg) for y in its):
        return VList([(start + i, y) for i, y in enumerate(its)])
    if start != 0:
        raise Unsupported('enumerate from %s' % start)
    out = []
    known = True
    vl = VList(its)

    def idx(m):
        e = fint('idx', 0)
        return Idx(e.e, (vl, m, 0))
    for i, y in enumerate(its):
        if isinstance(y, Seg):
            out.append(mapseg(y, lambda m: (idx(m), m)))
            known = False
        else:
            out.append((i if known else idx(y), y))
    return VList(out)


def vc_zip(*ls):
    return Zipped(*ls)


def vc_filter(f, x):
    return vc_comp('list', x, None, (f if f is not None else bool,))


def vc_map(f, *xs):
    if len(xs) > 1:
        return VList([f(*t) for t in Zipped(*xs)])
    return vc_comp('list', xs[0], f)


def vc_any(x):
    if isinstance(x, Gen) and isinstance(x.it, seqs.Source):
        return seqs.quantified(x, 'any')
    if isinstance(x, Gen):
        base = items_of(x.it)
        base = list(x.it) if base is None else base
        for y in base:
            if isinstance(y, Seg):
                if exists(y, lambda m: all(bool(c(m)) for c in x.conds) and bool(x.f(m))):
                    return True
            elif all(bool(c(y)) for c in x.conds) and bool(x.f(y)):
                return True
        return False
    its = items_of(x)
    for y in (list(x) if its is None else its):
        if isinstance(y, Seg):
            if exists(y, bool):
                return True
        elif bool(y):
            return True
    return False


def vc_all(x):
    if isinstance(x, Gen) and isinstance(x.it, seqs.Source):
        return seqs.quantified(x, 'all')
    if isinstance(x, Gen):
        f = x.f
        return not vc_any(Gen(x.it, lambda m: not bool(f(m)), x.conds))
    its = items_of(x)
    for y in (list(x) if its is None else its):
        if isinstance(y, Seg):
            if exists(y, lambda m: not bool(m)):
                return False
        elif not bool(y):
            return False
    return True


def exists(seg, p):
    """forks: some member satisfies p (one is drawn and assumed to), or none does"""
    if C().choose(2) == 0:
        m = seg.draw()
        if not bool(p(m)):
            raise Kill()
        return True
    _pn[0] += 1
    base = seg
    while base.base is not None:
        base = base.base
    if seg is base and getattr(seg, 'mapped', None) is None:
        seg.excl.append(Pred(('fn', _pn[0]), p))
    return False


class _Meta(type):
    def __instancecheck__(cls, x):
        return vc_isinstance(x, cls._t)

    def __call__(cls, *a, **k):
        return cls._f(*a, **k)

    def __eq__(cls, o):
        return cls is o or o is cls._t

    def __hash__(cls):
        return hash(cls._t)

    def __getattr__(cls, n):
        return getattr(cls._t, n)


def _str(x='', *a):
    if isinstance(x, SStr):
        return x
    if a:
        return str(x, *a)
    if isinstance(x, (VList, VDict, VSet, SymElem, SInt, SBool)):
        return fstr('str')
    return str(x)


def _int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(z3.If(x.e, 1, 0))
    if isinstance(x, SStr):
        raise Unsupported('int() of a symbolic string')
    return int(x, *a)


vc_str, vc_int = _str, _int


def vc_bool(x=False):
    return bool(x)


def vc_type(*a):
    if len(a) > 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SStr):
        return str
    if isinstance(x, SInt):
        return int
    if isinstance(x, SBool):
        return bool
    if isinstance(x, VList):
        return list
    if isinstance(x, VDict):
        return dict
    if hasattr(x, '_vc_type'):
        return x._vc_type
    return type(x)


def vc_id(x):
    if isinstance(x, Obj):
        return x.oid
    return id(x)


def _lifted(fs, conj):
    c = C()
    if not c.nofork:
        for f in fs:
            v = f()
            if bool(v) != conj:
                return v
        return v
    out, n = [], 0
    try:
        for f in fs:
            v = f()
            if isinstance(v, core.SBool):
                out.append(v)
                c.enter()
                n += 1
                c.pc.append(core.zbool(v) if conj else z3.Not(core.zbool(v)))
            elif bool(v) != conj:
                if not out:
                    return v
                out.append(bool(v))
                break
    finally:
        for _ in range(n):
            c.leave()
    return (core.and_ if conj else core.or_)(*out) if out else v


def vc_and(*fs):
    return _lifted(fs, True)


def vc_or(*fs):
    return _lifted(fs, False)


def vc_not(x):
    return core.not_(x) if isinstance(x, core.SBool) else not x


def vc_nested(name, f):
    c = core.CTX
    w = getattr(c, 'nested', None)
    return w[name](f) if w and name in w else f


def vc_getattr(o, n, *d):
    if isinstance(n, SStr):
        raise Unsupported('getattr with a symbolic name')
    return getattr(o, n, *d)


def vc_range(*a):
    if any(isinstance(x, SInt) for x in a):
        raise Unsupported('range of symbolic bounds')
    return range(*a)


def vc_sum(x, s=0):
    its = items_of(x)
    for y in (list(x) if its is None else its):
        if isinstance(y, Seg):
            raise Unsupported('sum over unknown members')
        s = s + y
    return s


def vc_next(it, *d):
    if isinstance(it, (Gen, VList)):
        try:
            return VList(items_of(it))[0]
        except IndexError:
            if d:
                return d[0]
            raise StopIteration()
    return next(it, *d)


def vc_iter(x):
    return x


def vc_max(*a, **k):
    if any(isinstance(x, SYM) for x in a):
        raise Unsupported('max')
    return max(*a, **k)


def vc_min(*a, **k):
    if any(isinstance(x, SYM) for x in a):
        raise Unsupported('min')
    return min(*a, **k)


def vc_open(*a, **k):
    raise Unsupported('open()')


class StrType(str, metaclass=type):
    pass


BUILTINS = dict(_bi)
BUILTINS.update(isinstance=vc_isinstance, len=vc_len, list=vc_list, tuple=vc_tuple, set=vc_set, dict=vc_dict, sorted=vc_sorted,
                reversed=vc_reversed, enumerate=vc_enumerate, zip=vc_zip, filter=vc_filter, map=vc_map, any=vc_any, all=vc_all,
                str=vc_str, int=vc_int, type=vc_type, id=vc_id, getattr=vc_getattr, range=vc_range, sum=vc_sum, next=vc_next,
                iter=vc_iter, max=vc_max, min=vc_min, bool=vc_bool, open=vc_open, print=lambda *a, **k: None)


def lru_cache(maxsize=128, typed=False):
    """assumed: caching does not change results (see C08 and DESIGN for the exception C04 covers)"""
    if callable(maxsize):
        return maxsize
    return lambda f: f


# ------------------------------------------------------------------ regular expressions
class Match:
    def __init__(self, groups):
        self.g = groups

    def group(self, *a):
        if not a:
            a = (0,)
        if len(a) > 1:
            return tuple(self.group(i) for i in a)
        v = self.g[a[0]]
        if v is None:
            raise Unsupported('regex group %d' % a[0])
        return v

    def groups(self):
        return tuple(self.g[1:])

    def __bool__(self):
        return True


ANY = lambda: z3.Full(z3.ReSort(z3.StringSort()))
NONL = lambda: z3.Complement(z3.Re(z3.StringVal('\n')))


def dot():
    return z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Re(z3.StringVal('\n')))


def to_z3(p):
    """sre parse tree -> z3 regex; anchors handled by the caller"""
    import re._constants as k
    parts = []
    for op, av in p:
        if op is k.LITERAL:
            parts.append(z3.Re(z3.StringVal(chr(av))))
        elif op is k.NOT_LITERAL:
            parts.append(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Re(z3.StringVal(chr(av)))))
        elif op is k.ANY:
            parts.append(dot())
        elif op in (k.MAX_REPEAT, k.MIN_REPEAT):
            lo, hi, q = av
            r = to_z3(q)
            if hi is k.MAXREPEAT or hi == k.MAXREPEAT:
                parts.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else:
                parts.append(z3.Loop(r, lo, hi))
        elif op is k.SUBPATTERN:
            parts.append(to_z3(av[-1]))
        elif op is k.IN:
            alts, neg = [], False
            for o2, a2 in av:
                if o2 is k.NEGATE:
                    neg = True
                elif o2 is k.LITERAL:
                    alts.append(z3.Re(z3.StringVal(chr(a2))))
                elif o2 is k.RANGE:
                    alts.append(z3.Range(chr(a2[0]), chr(a2[1])))
                elif o2 is k.CATEGORY and a2 is k.CATEGORY_DIGIT:
                    alts.append(z3.Range('0', '9'))
                elif o2 is k.CATEGORY and a2 is k.CATEGORY_SPACE:
                    alts += [z3.Re(z3.StringVal(c)) for c in ' \t\n\r\x0b\x0c']
                elif o2 is k.CATEGORY and a2 is k.CATEGORY_NOT_SPACE:
                    alts.append(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Union(*[z3.Re(z3.StringVal(c)) for c in ' \t\n\r\x0b\x0c'])))
                elif o2 is k.CATEGORY and a2 is k.CATEGORY_NOT_DIGIT:
                    alts.append(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Range('0', '9')))
                else:
                    raise Unsupported('regex class')
            u = alts[0] if len(alts) == 1 else z3.Union(*alts)
            parts.append(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), u) if neg else u)
        elif op is k.BRANCH:
            parts.append(z3.Union(*[to_z3(b) for b in av[1]]))
        else:
            raise Unsupported('regex %s' % op)
    if not parts:
        return z3.Re(z3.StringVal(''))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _split_two(pat):
    """pattern ^ A (.+) B (.+) $ -> (A, B) literals, else None"""
    m = _re.fullmatch(r'\^((?:\\?[{}:/])?)\(\.\+\)(\\?[{}:/])\(\.\+\)\$', pat)
    if m:
        return m.group(1).replace('\\', ''), m.group(2).replace('\\', '')
    return None


def split_concat(e, a, b):
    """groups of ^A(.+)B(.+)$ on a concatenation whose last B is a known literal"""
    c = C()
    parts = []

    def flat(x):
        if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for y in x.children():
                flat(y)
        else:
            parts.append(x.as_string() if z3.is_string_value(x) else x)
    flat(e)
    if a:
        if not isinstance(parts[0], str) or not parts[0].startswith(a):
            return None
        parts[0] = parts[0][len(a):]
    for k in range(len(parts) - 1, -1, -1):
        q = parts[k]
        if isinstance(q, str):
            if b not in q:
                continue
            i = q.rindex(b)
            g1, g2 = concat([_s(x) for x in parts[:k]] + [q[:i]]), concat([q[i + len(b):]] + [_s(x) for x in parts[k + 1:]])
            for g in (g1, g2):
                if isinstance(g, str) and not g or isinstance(g, SStr) and c.check(z3.Length(g.e) == 0)[0] != z3.unsat:
                    return None
            return g1, g2
        if c.check(z3.Contains(q, z3.StringVal(b)))[0] != z3.unsat:
            return None
    return None


def _s(x):
    return x if isinstance(x, str) else SStr(x)


class RE:
    IGNORECASE = _re.IGNORECASE

    @staticmethod
    def compile(p, *a):
        return _re.compile(p, *a)

    @staticmethod
    def _pat(p):
        return p.pattern if hasattr(p, 'pattern') else p

    @staticmethod
    def search(p, s, *fl):
        if isinstance(s, str):
            return _re.search(p, s, *fl)
        if not isinstance(s, SStr):
            raise TypeError('expected string or bytes-like object')
        p = RE._pat(p)
        if isinstance(p, SStr):
            raise Unsupported('symbolic regex')
        c = C()
        two = _split_two(p)
        if two:
            # assumed contract of re.search for  ^A(.+)B(.+)$ : a deterministic function of the string; when it
            # matches, string = A + group1 + B + group2 with non-empty groups
            a, b = two
            e = z3.simplify(s.e)
            key = ('re2', p, e.sexpr())
            if key not in c.memo and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                m2 = split_concat(e, a, b)
                if m2 is not None:
                    return Match([s, m2[0], m2[1]])
            if key not in c.memo:
                c.approx.add('regex')
                m = c.fresh('matches', z3.BoolSort())
                g1, g2 = c.fresh('g1', z3.StringSort()), c.fresh('g2', z3.StringSort())
                c.assume(z3.Implies(m, e == (z3.Concat(z3.StringVal(a), g1, z3.StringVal(b), g2) if a else z3.Concat(g1, z3.StringVal(b), g2))))
                c.assume(z3.Length(g1) > 0)
                c.assume(z3.Length(g2) > 0)
                c.memo[key] = (m, g1, g2)
            m, g1, g2 = c.memo[key]
            if not c.branch(m):
                return None
            return Match([s, SStr(g1), SStr(g2)])
        import re._parser as sp, re._constants as k
        t = list(sp.parse(p))
        start = bool(t) and t[0] == (k.AT, k.AT_BEGINNING)
        end = bool(t) and t[-1] == (k.AT, k.AT_END)
        body = t[1 if start else 0:len(t) - 1 if end else len(t)]
        r = to_z3(body)
        full = r
        if not start:
            full = z3.Concat(ANY(), full)
        if not end:
            full = z3.Concat(full, ANY())
        else:
            if c.branch(z3.SuffixOf(z3.StringVal('\n'), s.e)):
                raise Unsupported('trailing newline before $')
        if not c.branch(z3.InRe(s.e, full)):
            return None
        n = sp.parse(p).state.groups
        return Match([None] * n)

    match = None

    @staticmethod
    def split(p, s, *a):
        if isinstance(s, str):
            return VList(_re.split(p, s, *a))
        for e, q, parts in getattr(core.CTX, 'splits', ()):        # assumed contract, given by the harness
            if q == p and z3.eq(core.zstr(e), s.e):
                return VList(list(parts))
        raise Unsupported('re.split on a symbolic string')

    @staticmethod
    def sub(p, r, s):
        if isinstance(s, str):
            return _re.sub(p, r, s)
        raise Unsupported('re.sub on a symbolic string')

    @staticmethod
    def findall(p, s):
        if isinstance(s, str):
            return VList(_re.findall(p, s))
        raise Unsupported('re.findall on a symbolic string')


class Logger:
    def __getattr__(self, n):
        return lambda *a, **k: None


class Logging:
    DEBUG = INFO = WARNING = 0

    @staticmethod
    def getLogger(*a):
        return Logger()

    def __getattr__(self, n):
        return lambda *a, **k: None
