"""Symbolic containers.  A sequence is a list of known items and *segments*; a segment stands for any finite
number of further members about which only their constraints are known.  Iterating over a segment uses the
arbitrary-iteration rule (see LoopInfo)."""
import z3
from . import core
from .core import (Kill, Unsupported, SBool, SInt, SStr, POISON, and_, or_, not_, eqv, fstr, fint, fbool)


def C():
    return core.CTX


class Obj:
    """object with a birth index that is stable under replay"""

    def _born(self):
        c = C()
        if c is None:
            self.oid = -1
            return
        self.oid = c.birth
        c.birth += 1
        if not hasattr(c, 'objects') or c.objects_path != c.paths:
            c.objects, c.objects_path = {}, c.paths
        c.objects[self.oid] = self

    def _log(self, kind, *payload):
        c = C()
        if c is not None:
            for d in c.dry:
                if self.oid < d.birth0:
                    d.log.append((kind, self.oid) + payload)


def register(o):
    """give a native object a birth index, so that writes to it inside loops are noticed"""
    c = C()
    if not hasattr(c, 'pyobj') or c.pyobj_path != c.paths:
        c.pyobj, c.pyobj_path = {}, c.paths
    if id(o) not in c.pyobj:
        c.pyobj[id(o)] = (o, c.birth)
        if not hasattr(c, 'objects') or c.objects_path != c.paths:
            c.objects, c.objects_path = {}, c.paths
        c.objects[c.birth] = o
        c.birth += 1
    return o


def vc_setattr(o, name, v):
    c = C()
    if c is not None and not isinstance(o, Obj):
        register(o)
        oid = c.pyobj[id(o)][1]
        for d in c.dry:
            if oid < d.birth0:
                d.log.append(('pyattr', oid, name))
    setattr(o, name, v)


# ==================================================================== segments
class Pred:
    """predicate on members; key identifies it"""

    def __init__(self, key, fn):
        self.key, self.fn = key, fn

    def __call__(self, x):
        return self.fn(x)


class Seg(Obj):
    def __init__(self, make, origin=None, incl=(), excl=(), name='seg', base=None, pred=None):
        self._born()
        self.make, self.origin, self.name = make, origin, name
        self.incl, self.excl = list(incl), list(excl)
        self.base, self.pred = base, pred          # filtered view of another segment
        self.parts = None
        self._len = None
        self.dirty = False

    # -- chain of segments this one is a sub-sequence of
    def chain(self):
        s, out = self, []
        while s is not None:
            out.append(s)
            s = s.base if s.base is not None else s.origin
        return out

    def length(self):
        if self._len is None and self.parts is None and (self.base is not None or self.excl):
            self.possible()
        return self.length_raw()

    def length_raw(self):
        if self._len is None:
            self._len = C().fresh('len', z3.IntSort())
            C().assume(self._len >= 0)
        return self._len

    def draw(self):
        if self.base is not None:
            x = self.base.draw_raw()
            C().assume(core.zbool(self.pred(x)))
            self._constrain(x)
            x_seg(x, self)
            return x
        x = self.draw_raw()
        return x

    def draw_raw(self):
        if self.base is not None:
            return self.draw()
        x = self.make()
        self._constrain(x)
        x_seg(x, self)
        return x

    def _constrain(self, x):
        for p in self.incl:
            C().assume(core.zbool(p(x)))
        for p in self.excl:
            C().assume(core.zbool(not_(p(x))))

    tpl = None              # templates of the members
    any = False             # members are arbitrary nodes

    def sub(self, incl=(), excl=()):
        n = Seg(self.make, origin=self, incl=self.incl + list(incl), excl=self.excl + list(excl), name=self.name, base=self.base, pred=self.pred)
        n.any = self.any and not n.excl and not n.incl
        n.tpl = self.tpl
        return n

    def split(self, first=True, incl=(), excl_skip=()):
        """refine into [skipped, x, rest] (first) or [rest, x, skipped] (last); base segments only"""
        x = self.draw_raw()
        for p in incl:
            C().assume(core.zbool(p(x)))
        skipped = [self.sub(excl=excl_skip)] if excl_skip else []
        rest = [self.sub()]
        self.parts = skipped + [x] + rest if first else rest + [x] + skipped
        if self._len is not None:
            C().assume(self._len == sum([p.length() if isinstance(p, Seg) else z3.IntVal(1) for p in self.parts], z3.IntVal(0)))
        return x

    def possible(self):
        """False when no member can exist (its constraints contradict the path)"""
        if not C().trial(lambda: self.draw()):
            C().assume(self.length_raw() == 0)
            self._void()
            return False
        return True

    def _void(self):
        if self.base is not None:
            b = self.base
            if b.parts is None:
                b.parts = [b.sub(excl=[self.pred])]
        self.parts = []

    def nonempty(self):
        """forks"""
        m = getattr(self, 'mapped', None)
        if m is not None:
            r = m[0].nonempty()
            if not r:
                self.parts = []
            return r
        if not self.possible():
            return False
        if C().branch(self.length() > 0):
            return True
        self._void()
        return False

    def unfold(self, first):
        """None if empty, else the first/last member, made explicit"""
        m = getattr(self, 'mapped', None)
        if m is not None:
            x = m[0].unfold(first)
            ps = norm([self])
            return None if x is None else [p for p in ps if not isinstance(p, Seg)][0 if first else -1]
        if not self.nonempty():
            return None
        if self.base is None:
            return self.split(first)
        b = self.base
        if b.base is not None:
            raise Unsupported('unfolding a view of a view')
        x = b.split(first, incl=[self.pred] + self.incl, excl_skip=[self.pred])
        rest = b.parts[-1] if first else b.parts[0]
        v = view(rest, self.pred)
        C().assume(self.length() == 1 + (v.length() if v is not None else 0))
        vs = [v] if v is not None else []
        self.parts = [x] + vs if first else vs + [x]
        return x


def x_seg(x, seg):
    from .elem import SymElem
    if isinstance(x, SymElem):
        x.seg = seg


def probe(seg):
    """a generic member and the constraints on it, for comparing predicates"""
    c = C()
    if not hasattr(seg, '_probe'):
        seg._probe = None
        n = len(c.pc)
        c.enter()
        try:
            x = seg.draw_raw() if seg.base is None else seg.draw()
            seg._probe = (x, list(c.pc[n:]))
        except core.NoFork:
            pass
        except Kill:
            seg._probe = 'void'
        finally:
            c.leave()
    return seg._probe


def view(seg, pred):
    """members of seg satisfying pred: None, seg itself, or a view (the same one for an equivalent pred)"""
    c = C()
    for p in seg.excl:
        if p.key == pred.key:
            return None
    for p in seg.incl + ([seg.pred] if seg.pred is not None else []):
        if p.key == pred.key:
            return seg
    if not hasattr(seg, 'views'):
        seg.views = []
    for q, f, v in seg.views:
        if q.key == pred.key:
            return v
    pr = probe(seg)
    if pr == 'void':
        return None
    form = None
    if pr is not None:
        c.enter()
        try:
            for a in pr[1]:
                c.pc.append(a)
            form = core.zbool(pred(pr[0]))
            if form is None or form is NotImplemented or not z3.is_expr(form):
                form = z3.BoolVal(bool(form))
            if c.check(form, ms=2000)[0] == z3.unsat:
                return None
            if c.check(z3.Not(form), ms=2000)[0] == z3.unsat:
                return seg
            for q, f, v in seg.views:
                if f is not None and c.check(f != form, ms=2000)[0] == z3.unsat:
                    return v
        except core.NoFork:
            form = None
        except Kill:
            return None
        finally:
            c.leave()
    v = Seg(None, base=seg, pred=pred, name=seg.name)
    seg.views.append((pred, form, v))
    return v


def norm(items):
    """expand refined segments"""
    out = []
    for it in items:
        if isinstance(it, Seg):
            if it.parts is not None:
                out += norm(it.parts)
                continue
            if getattr(it, 'mapped', None) is not None:
                b, f = it.mapped
                n = norm([b])
                if n != [b]:
                    from . import rt
                    it.parts = [rt.mapseg(p, f) if isinstance(p, Seg) else f(p) for p in n]
                    out += norm(it.parts)
                    continue
            if it.base is not None and it.base.parts is not None:
                parts = []
                for b in norm(it.base.parts):
                    if isinstance(b, Seg):
                        v = view(b, it.pred)
                        if v is not None:
                            parts.append(v)
                    elif bool(it.pred(b)):
                        parts.append(b)
                it.parts = parts
                out += norm(parts)
                continue
        out.append(it)
    return out


# ==================================================================== templates of values built in an iteration
class Template:
    def __init__(self, value, dry):
        c = C()
        self.value, self.y, self.seg = value, dry.y, dry.seg
        self.seg_oid = dry.seg.oid
        self.consts = list(c.born[dry.born0:])
        self.phi = list(c.pc[dry.pc0:])
        self.birth0 = dry.birth0
        if getattr(c, 'widen', False):       # asked for by the harness: forget all that is known of it (more general)
            keep = getattr(c, 'widen_keep', ())
            self.phi = [p for p in self.phi if z3.is_eq(p) and any(z3.is_app(x) and x.decl().name() in keep for x in p.children())] if keep else []
        self._project()

    def _project(self):
        """keep the constraints that concern the value (dropping others only makes the template more general)"""
        inner = {k.get_id(): k for k in self.consts}
        keep, seen = set(), set()

        def zc(e):
            out, st, vis = set(), [e], set()
            while st:
                x = st.pop()
                if x.get_id() in vis:
                    continue
                vis.add(x.get_id())
                if x.get_id() in inner:
                    out.add(x.get_id())
                st.extend(x.children())
            return out

        def walk(v, depth=0):
            if isinstance(v, (SStr, SBool, SInt)):
                keep.update(zc(v.e))
            elif isinstance(v, (tuple, list)):
                for x in v:
                    walk(x, depth)
            elif isinstance(v, dict):
                for x in v.values():
                    walk(x, depth)
            elif isinstance(v, Obj) and id(v) not in seen and v.oid >= self.birth0:
                seen.add(id(v))
                for a in ('_tag', '_text', '_tail', '_t', 'ghost', 'items', 'known'):
                    walk(v.__dict__.get(a), depth)
                for a in ('kids', 'attrib', 'parent', 'sn'):
                    walk(v.__dict__.get(a), depth + 1)
            elif hasattr(v, '__dict__') and not isinstance(v, (type, Obj)) and not callable(v) and id(v) not in seen:
                seen.add(id(v))
                for x in list(v.__dict__.values()):
                    walk(x, depth)
        walk(self.value)
        keep0 = frozenset(keep)
        cs = [(p, zc(p)) for p in self.phi]
        while True:
            more = set()
            for p, k in cs:
                if z3.is_eq(p) and k & keep and not k <= keep:
                    more |= k
            if more <= keep:
                break
            keep |= more
        self.phi = [p for p, k in cs if k <= keep]
        self.consts = [k for k in self.consts if k.get_id() in keep]
        vc = set(keep0)
        for p in list(self.phi):                # substitute constants that merely rename one of the value
            if z3.is_eq(p) and p.num_args() == 2:
                a, b = p.arg(0), p.arg(1)
                if a.get_id() in inner and a.get_id() not in vc:
                    a, b = b, a
                if b.get_id() in inner and b.get_id() not in vc and not z3.is_app_of(a, z3.Z3_OP_SEQ_CONCAT) and b.get_id() not in zc(a):
                    self.phi = [z3.substitute(q, (b, a)) for q in self.phi if q is not p]
                    self.consts = [k for k in self.consts if k.get_id() != b.get_id()]
        seen_p = {}
        for q in self.phi:
            seen_p.setdefault(q.get_id(), q)
        self.phi = [q for q in seen_p.values() if not z3.is_true(q)]
        return
        self.consts = [k for k in self.consts if k.get_id() in keep]

    def is_member(self):
        return self.value is self.y

    def fingerprint(self):
        if not hasattr(self, '_fp'):
            self._fp = self._fingerprint()
        return self._fp

    def _fingerprint(self):
        """shape of the value with its constants renamed in order of birth"""
        names = {str(k): '#%d' % i for i, k in enumerate(self.consts)}

        def f(v, depth=0):
            if v is self.y:
                return 'y'
            if isinstance(v, (SStr, SBool, SInt)):
                return zfp(v.e, names)
            if isinstance(v, tuple):
                return '(' + ','.join(f(x, depth) for x in v) + ')'
            if isinstance(v, Obj):
                if v.oid < self.birth0:
                    return 'old%d' % v.oid
                if depth > 3:
                    return type(v).__name__
                from .elem import SymElem
                if isinstance(v, SymElem):
                    return 'E(%s;%s;%s;%s)' % (f(v._tag, depth + 1), f(v._text, depth + 1) if v._text.__class__ is not object else '?',
                                               ','.join(sorted('%s=%s' % (k, f(x, depth + 1)) for k, x in v.attrib.known.items())),
                                               ','.join(f(x, depth + 1) for x in v.kids.items))
                if isinstance(v, (VList, VDict, VSet)):
                    return '[' + ','.join(f(x, depth + 1) for x in v.items) + ']'
                return type(v).__name__
            return repr(v) if isinstance(v, (str, int, bool, type(None))) else type(v).__name__
        return f(self.value) + ' | ' + ' & '.join(sorted(zfp(p, names) for p in self.phi))

    def draw(self):
        c = C()
        sub = []
        for k in self.consts:
            c.fresh_n += 1
            n = z3.Const('%s~%d' % (str(k).split('!')[0].split('~')[0], c.fresh_n), k.sort())
            c.born.append(n)
            sub.append((k, n))
        for p in self.phi:
            c.assume(z3.substitute(p, *sub) if sub else p)
        return self.clone(self.value, sub, {})

    def clone(self, v, sub, memo):
        from .elem import SymElem
        if isinstance(v, SStr):
            return SStr(z3.substitute(v.e, *sub) if sub else v.e)
        if isinstance(v, SBool):
            return SBool(z3.substitute(v.e, *sub) if sub else v.e)
        if isinstance(v, SInt):
            return SInt(z3.substitute(v.e, *sub) if sub else v.e)
        if isinstance(v, tuple):
            return tuple(self.clone(x, sub, memo) for x in v)
        if isinstance(v, (str, int, bool, type(None), type, float, bytes)) or v is POISON:
            return v
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Obj):
            if v.oid < self.birth0:
                return C().objects[v.oid]
            if isinstance(v, Seg):
                n = Seg(v.make, name=v.name)
                memo[id(v)] = n
                return n
            n = v.clone_into(lambda x: self.clone(x, sub, memo), memo)
            if v is self.y:
                n.seg = C().objects.get(self.seg_oid)
            return n
        c = C()
        if hasattr(c, 'pyobj') and id(v) in c.pyobj:
            return v
        if callable(v) or type(v).__module__ == 'builtins':
            raise Unsupported('template of a %s' % type(v).__name__)
        return v


def zfp(e, names):
    import re as _r
    return _r.sub(r'[A-Za-z_0-9-]+[!~][0-9]+', lambda m: names.get(m.group(0), 'ext'), e.sexpr())


class Dry:
    def __init__(self, seg, y, c):
        self.seg, self.y = seg, y
        self.log = []

    def begin(self, c):
        c.dry.append(self)


class LoopInfo:
    """Exploration record of one segment at one loop: rounds of an arbitrary iteration, then 'go'.

    Round r runs the body on an arbitrary member, from the state left by any number of other iterations as
    summarised by round r-1; the effects on older objects are recorded.  When a round adds no new kind of
    effect the summary is stable and the loop goes on after the segment in the summarised state.  Paths on
    which the body leaves the loop (raise, return, break) are ordinary outcomes."""

    unsup = False                # some path of the body is out of reach

    def __init__(self):
        self.rounds = {}
        self.go = None

    def more(self, i):
        if self.go is not None:
            return False
        prev = set().union(*[set(self.keys(r)) for r in range(-1, i - 1)])
        new = set(self.keys(i - 1)) - prev
        if not new:
            self.go = i
        elif i > 4:
            self.go = -1
        return True

    def keys(self, r):
        return [self.key(e) for path in self.rounds.get(r, []) for e in path]

    @staticmethod
    def key(e):
        if e[0] in ('append', 'setadd', 'dictset', 'dictadd', 'mixin'):
            return e[:2] + (e[-1].fingerprint(),)
        return e[:2] + ((e[2],) if e[0] in ('attr', 'pyattr', 'insert') else ())

    def summary(self, r):
        """effects observed in round r, merged: key -> (list of payloads, on_every_path_exactly_once_member)"""
        out = {}
        paths = [p for q in range(-1, r + 1) for p in self.rounds.get(q, [])]
        for path in paths:
            for e in path:
                out.setdefault(self.key(e)[:2] if e[0] in ('append', 'setadd', 'dictset', 'dictadd', 'mixin') else self.key(e), []).append(e)
        res = []
        for k, es in out.items():
            always = bool(paths) and all(len([e for e in p if self.key(e)[:len(k)] == k]) == 1 for p in paths)
            res.append((k, es, always))
        return res


def apply_summary(summary, seg):
    c = C()
    if summary:
        c.approx.add('loop summary')
    for k, es, always in summary:
        kind, oid = k[0], k[1]
        o = c.objects.get(oid)
        if o is None:
            raise Unsupported('effect on an unknown object')
        if kind in ('append', 'setadd', 'dictset', 'dictadd'):
            ts = [e[-1] for e in es]
            if kind == 'append' and always and all(t.is_member() for t in ts):
                o.items.append(seg)
            elif kind in ('dictset', 'dictadd'):
                o.overwrite(union_seg(ts, seg), kind == 'dictadd')
            else:
                o.items.append(union_seg(ts, seg))
        elif kind == 'attr':
            o.attrib.havoc(k[2])
        elif kind == 'text':
            o.havoc_text()
        elif kind == 'pyattr':
            setattr(o, k[2], POISON)
        elif kind == 'insert':
            where, anchor = k[2]
            s = union_seg([e[-1] for e in es], seg)
            o.insert_seg(where, c.objects.get(anchor) if anchor is not None else None, s)
        elif kind == 'struct':
            o.unordered = True
        elif kind == 'mixin':
            o.mix([e[-1] for e in es])
        elif kind == 'loosen':
            o.loosen()
        elif kind == 'dirty':
            o.dirty = True
        elif kind == 'poison':
            o.poisoned = True
        else:
            raise Unsupported('loop effect ' + kind)


def fits(e, c):
    """an effect guessed from another path can be meant for the object of that number here"""
    from .elem import SymElem
    o = c.objects.get(e[1])
    want = {'append': VList, 'setadd': VSet, 'dictset': VDict, 'dictadd': VDict, 'attr': SymElem, 'text': SymElem, 'insert': SymElem,
            'struct': SymElem, 'mixin': SymElem, 'loosen': SymElem}.get(e[0], Obj)
    return isinstance(o, want)


def union_seg(ts, seg):
    """segment whose members are drawn from any of the templates"""
    seen = {}
    for t in ts:
        seen.setdefault(t.fingerprint(), t)
    ts = list(seen.values())
    if all(t.is_member() for t in ts):
        def make():
            t = ts[0] if len(ts) == 1 else ts[C().choose(len(ts))]
            return t.draw()
        u = Seg(make, origin=seg, name='sub')
        u.tpl = seen
        return u

    def make():
        t = ts[0] if len(ts) == 1 else ts[C().choose(len(ts))]
        return t.draw()
    u = Seg(make, name='tpl')
    u.tpl = seen
    return u


def seg_iter(items, loop):
    c = C()
    work = list(items)
    while work:
        it = work.pop(0)
        if not isinstance(it, Seg):
            yield it
            continue
        n = norm([it])
        if n != [it]:
            work[0:0] = n
            continue
        c.tick()
        key = c.prefix()
        info = c.loops.get(key)
        site = None
        if getattr(c, 'widen', False) and not c.dry and getattr(loop, 'site', None):
            site = (loop.site, it.name)
        if info is None:
            info = c.loops[key] = LoopInfo()
            if site in c.seeds and all(fits(e, c) for q in c.seeds[site] for e in q):          # a guess from another path; the rounds below confirm that it is inductive
                info.rounds[-1] = c.seeds[site]
        r = c.dynamic(info.more)
        loop.sym = True
        if info.go == r:
            if info.unsup:
                raise Unsupported('a loop with a body out of reach')
            last = max(info.rounds) if info.rounds else None
            if last is not None:
                apply_summary(info.summary(last), it)
                if site and -1 not in info.rounds:
                    seen = {}
                    for path in [p for q in info.rounds.values() for p in q]:
                        seen.setdefault(tuple(info.key(e) for e in path), path)
                    c.seeds[site] = list(seen.values())
            continue
        if info.go == -1:
            import os
            if os.environ.get('DBG'):
                print([(r0, sorted(set(map(str, info.keys(r0))))) for r0 in info.rounds])
            raise Unsupported('loop summary does not stabilise')
        if r > 0 or -1 in info.rounds:
            apply_summary(info.summary(r - 1), it)
        d = Dry(it, None, c)
        d.info = info
        d.birth0 = c.birth
        d.born0, d.pc0 = len(c.born), len(c.pc)
        root, fs = it, []
        while getattr(root, 'mapped', None) is not None:
            root, g = root.mapped
            fs.append(g)
        base = root.base if root.base is not None else root
        if base.base is not None:
            raise Unsupported('loop over a view of a view')
        # arbitrary member: the segment is [processed, y, unprocessed]
        y = base.draw_raw()
        if root.base is not None:
            c.assume(core.zbool(root.pred(y)))
        for p in root.incl:
            c.assume(core.zbool(p(y)))
        x_seg(y, root)
        base.parts = [base.sub(), y, base.sub()]
        if base._len is not None:
            c.assume(base._len == base.parts[0].length() + 1 + base.parts[2].length())
        for g in reversed(fs):
            y = g(y)
        if fs:
            it._constrain(y)
        d.y = y
        d.seg = it
        if not c.feasible(z3.BoolVal(True)):
            raise Kill()
        c.dry.append(d)
        loop.badtype = None
        try:
            yield y
        except GeneratorExit:
            if d in c.dry:
                del c.dry[c.dry.index(d):]
            raise
        # the body completed normally
        if getattr(loop, 'badtype', None):
            if hasattr(loop, 'site') and (loop.site, loop.badtype) not in c.mixed:
                c.mixed.add((loop.site, loop.badtype))
                raise core.Restart()
            raise Unsupported('loop-carried local %s changes type' % loop.badtype)
        del c.dry[c.dry.index(d):]
        eff = []
        for e in d.log:
            t = e[-1]
            if isinstance(t, Template) and isinstance(t.value, Obj) and t.value is not d.y and t.value.oid >= d.birth0:
                e = e[:-1] + (Template(t.value, d),)      # as it is at the end of the iteration
            eff.append(e)
        info.rounds.setdefault(r, []).append(eff)
        raise Kill()


class Loop:
    def __init__(self):
        self.sym = False

    def iter(self, it):
        from . import rt
        items = rt.items_of(it)
        if items is None:
            for x in it:
                yield x
            return
        if not any(isinstance(x, Seg) for x in items):
            for x in items:
                yield x
            return
        yield from seg_iter(items, self)


def tpl(v):
    """payload for logged container effects: template relative to the innermost dry run that sees it"""
    c = C()
    return Template(v, c.dry[-1]) if c is not None and c.dry else v


def log_value(o, kind, v, *sub):
    c = C()
    if c is None:
        return
    for d in c.dry:
        if o.oid < d.birth0:
            d.log.append((kind, o.oid) + sub + (Template(v, d),))


# ==================================================================== VList
class VList(Obj):
    poisoned = False

    def __init__(self, items=()):
        self.items = list(items)
        self._born()

    # -- basics
    def norm(self):
        if self.poisoned:
            raise Unsupported('list changed in an untracked way by a loop')
        if any(isinstance(x, Seg) for x in self.items):
            self.items[:] = norm(self.items)
        return self.items

    def concrete(self):
        return not any(isinstance(x, Seg) for x in self.norm())

    def need(self, what):
        if not self.concrete():
            raise Unsupported('%s on a list of unknown length' % what)
        return self.items

    def __iter__(self):
        if self.concrete():
            return iter(list(self.items))
        return seg_iter(list(self.items), Loop())

    def length(self):
        items = self.norm()
        n = len([x for x in items if not isinstance(x, Seg)])
        segs = [x for x in items if isinstance(x, Seg)]
        if not segs:
            return n
        return SInt(sum([s.length() for s in segs], z3.IntVal(n)))

    def __len__(self):
        n = self.length()
        if isinstance(n, SInt):
            raise Unsupported('native len of a list of unknown length')
        return n

    def __bool__(self):
        items = self.norm()
        if any(not isinstance(x, Seg) for x in items):
            return True
        for s in list(items):
            if s.nonempty():
                return True
        return False

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.slice(k)
        if isinstance(k, SInt):
            if k.pos is not None and k.pos[0] is not None and any(x is k.pos[1] for x in self.norm()):
                return self.relative(k.pos[1], k.pos[2])
            raise Unsupported('symbolic list index')
        if k >= 0:
            i = 0
            n = k
            while True:
                items = self.norm()
                if i >= len(items):
                    raise IndexError('list index out of range')
                if isinstance(items[i], Seg):
                    items[i].unfold(True)
                    continue
                if n == 0:
                    return items[i]
                n -= 1
                i += 1
        i = -1
        n = -k - 1
        while True:
            items = self.norm()
            if -i > len(items):
                raise IndexError('list index out of range')
            if isinstance(items[i], Seg):
                items[i].unfold(False)
                continue
            if n == 0:
                return items[i]
            n -= 1
            i -= 1

    def relative(self, item, off):
        """the item at distance off from a known item (list position arithmetic)"""
        items = self.norm()
        i = next((j for j, x in enumerate(items) if x is item), None)
        if i is None:
            raise Unsupported('relative index of a vanished item')
        step = -1 if off < 0 else 1
        for _ in range(abs(off)):
            while True:
                items = self.norm()
                i = next(j for j, x in enumerate(items) if x is item)
                j = i + step
                if j < 0 or j >= len(items):
                    raise Unsupported('relative index out of range')
                if isinstance(items[j], Seg):
                    items[j].unfold(step > 0)
                    continue
                item = items[j]
                break
        return item

    def slice(self, k):
        if k.step not in (None, 1, -1):
            raise Unsupported('slice step')
        if self.concrete():
            if any(isinstance(x, SInt) for x in (k.start, k.stop)):
                raise Unsupported('symbolic slice bounds')
            return VList(self.items[k])
        if k.start is None and k.stop is None and k.step is None:
            return VList(self.items)
        if isinstance(k.start, int) and k.start > 0 and k.stop is None:
            for i in range(k.start):
                try:
                    self[i]
                except IndexError:
                    return VList([])
            n, i = 0, 0
            items = self.norm()
            while n < k.start:
                assert not isinstance(items[i], Seg)
                n += 1
                i += 1
            return VList(items[i:])
        raise Unsupported('slice of a list of unknown length')

    def __contains__(self, x):
        return contains(self.norm(), x)

    def _pure(self):
        pass

    # -- building
    def __add__(self, o):
        if isinstance(o, (VList, list)):
            return VList(self.norm() + (o.norm() if isinstance(o, VList) else o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (VList, list)):
            return VList((o.norm() if isinstance(o, VList) else list(o)) + self.norm())
        return NotImplemented

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        return VList(self.need('repeat') * n)

    def __eq__(self, o):
        if not isinstance(o, (VList, list)):
            return False
        a, b = self.norm(), (o.norm() if isinstance(o, VList) else o)
        if any(isinstance(x, Seg) for x in a + b):
            if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
                return True
            if getattr(C(), 'fuzzy', False):
                C().approx.add('comparison of lists of unknown length')
                return fbool('same list')
            raise Unsupported('comparison of lists of unknown length')
        if len(a) != len(b):
            return False
        return and_(*[eqv(x, y) for x, y in zip(a, b)])

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def append(self, x):
        log_value(self, 'append', x)
        self.items.append(x)

    def extend(self, o):
        from . import rt
        its = rt.items_of(o)
        its = list(o) if its is None else its
        for x in its:
            if isinstance(x, Seg):
                if C().dry and any(self.oid < d.birth0 for d in C().dry):
                    raise Unsupported('extend by unknown members inside a loop')
                self.items.append(x)
            else:
                self.append(x)

    def insert(self, i, x):
        if C().dry:
            for d in C().dry:
                if self.oid < d.birth0:
                    d.log.append(('poison', self.oid))
        if isinstance(i, SInt):
            raise Unsupported('insert at a symbolic index')
        if i == 0:
            self.items.insert(0, x)
            return
        self.need('insert').insert(i, x)

    def remove(self, x):
        self._log('poison')
        items = self.need('remove')
        for i, y in enumerate(items):
            if bool(eqv(x, y)):
                del items[i]
                return
        raise ValueError('list.remove(x): x not in list')

    def pop(self, i=-1):
        self._log('poison')
        x = self[i]
        items = self.norm()
        j = next(k for k, y in enumerate(items) if y is x)
        del items[j]
        return x

    def __delitem__(self, i):
        self._log('poison')
        if isinstance(i, (int,)) and not self.concrete():
            self.pop(i)
            return
        del self.need('del')[i]

    def __setitem__(self, i, v):
        self._log('poison')
        self.need('assignment')[i] = v

    def index(self, x):
        items = self.norm()
        for i, y in enumerate(items):
            if isinstance(y, Seg):
                raise_if_related(y, x)
                continue
            if bool(eqv(x, y)):
                if any(isinstance(z, Seg) for z in items[:i]):
                    return position(self, y)
                return i
        raise ValueError('not in list')

    def count(self, x):
        n = 0
        for y in self.need('count'):
            if bool(eqv(x, y)):
                n += 1
        return n

    def copy(self):
        return VList(self.norm())

    def reverse(self):
        self._log('poison')
        self.need('reverse').reverse()

    def clear(self):
        self._log('poison')
        self.items[:] = []

    def sort(self, *a, **k):
        self._log('poison')
        from . import rt
        self.items[:] = rt.vc_sorted(self, *a, **k).items

    def clone_into(self, f, memo):
        n = VList()
        memo[id(self)] = n
        n.items = [f(x) for x in self.items]
        return n

    def __repr__(self):
        return 'VList(%r)' % (self.items,)

    def __format__(self, s):
        return '<list>'

    def __str__(self):
        return '<list>'


def position(vl, item):
    """symbolic index of a known item: 0 iff nothing precedes it"""
    while True:
        items = vl.norm()
        i = next(j for j, y in enumerate(items) if y is item)
        before = items[:i]
        if not before:
            return 0
        if not any(isinstance(z, Seg) for z in before):
            return i
        if any(not isinstance(z, Seg) for z in before):
            e = C().fresh('idx', z3.IntSort())
            C().assume(e >= len([z for z in before if not isinstance(z, Seg)]))
            return SInt(e, (vl, item, 0))
        # only segments before: is the one next to the item non-empty?
        before[-1].unfold(False)


def raise_if_related(seg, x):
    from .elem import SymElem
    if isinstance(x, SymElem):
        return
    raise Unsupported('index of a value in a list of unknown length')


def in_image(y, x):
    """is the element x in the image of a segment? (False: not known)"""
    base, f = y, None
    while getattr(base, 'mapped', None) is not None:
        b, g = base.mapped
        f = g if f is None else (lambda g, f: lambda m: f(g(m)))(g, f)
        base = b
    if x.seg is None or base not in x.seg.chain():
        return False
    c = C()
    n = len(c.born)
    c.enter()
    try:
        return f(x) is x
    except (core.NoFork, Kill, Unsupported):
        return False
    finally:
        c.leave()
        del c.born[n:]


def contains(items, x):
    from .elem import SymElem
    unknown = False
    for y in items:
        if isinstance(y, Seg):
            if isinstance(x, SymElem):
                if getattr(y, 'mapped', None) is not None:
                    if in_image(y, x):
                        return True
                    unknown = True
                    continue
                if type(x).__name__ == 'Loose':
                    if bool(fbool('member')):
                        return True
                    continue
                if x.seg is None:
                    continue
                xc = x.seg.chain()
                if y in xc:
                    if all(not (z.base is None and z.origin is not None and z.name == 'sub') or True for z in [y]):
                        return True
                yc = y.chain()
                common = [s for s in yc if s in xc]
                if common:
                    # y is a sub-sequence of the segment x was drawn from
                    if y.base is not None and y.base in xc:
                        if bool(y.pred(x)):
                            return True
                        continue
                    if bool(fbool('member')):
                        return True
                continue
            if isinstance(x, Obj):
                continue
            base, f = y, None
            while getattr(base, 'mapped', None) is not None:
                b, g = base.mapped
                f = g if f is None else (lambda g, f: lambda m: f(g(m)))(g, f)
                base = b
            from . import rt
            rt._pn[0] += 1
            v = view(base, Pred(('in', rt._pn[0]), (lambda f: lambda m: eqv(m if f is None else f(m), x))(f)))
            if v is not None and v.nonempty():
                return True
            continue
        if bool(eqv(x, y)):
            return True
    if unknown:
        C().approx.add('membership in an image of a list')
        return bool(fbool('member'))
    return False


# ==================================================================== VDict / VSet
class VDict(Obj):
    """insertion-ordered map; items: (key, value) pairs and segments of unknown pairs with further keys"""

    def __init__(self, items=()):
        self._born()
        self.items = []
        self.poisoned = False
        if isinstance(items, VDict):
            self.items = list(items.norm())
        elif isinstance(items, dict):
            self.items = list(items.items())
        else:
            from . import rt
            its = rt.items_of(items)
            for p in (list(items) if its is None else its):
                if isinstance(p, Seg):
                    self.items.append(p)
                else:
                    self._put(p[0], p[1])

    def norm(self):
        if self.poisoned:
            raise Unsupported('dict changed in an untracked way by a loop')
        if any(isinstance(x, Seg) for x in self.items):
            self.items[:] = norm(self.items)
        return self.items

    def _find(self, k):
        """index of the entry of k, or None; forks. An unknown entry found is made explicit."""
        for i, p in enumerate(self.norm()):
            if not isinstance(p, Seg) and bool(eqv(p[0], k)):
                return i
        for i, p in enumerate(self.items):
            if isinstance(p, Seg):
                if any(q.key[0] == 'key' and samekey(q.key[2], k) for q in p.excl if isinstance(q.key, tuple)):
                    continue
                if bool(fbool('haskey')):
                    kv = p.draw()
                    from .elem import SymElem
                    if isinstance(k, SymElem) and isinstance(kv[0], SymElem) and k is not kv[0]:
                        # the entry whose key is this very element: what is known of the drawn key holds for it
                        C().assume(core.zbool(eqv(kv[0].tag, k.tag)))
                        if 'id' in kv[0].ghost and 'id' in k.ghost:
                            C().assume(core.zbool(eqv(kv[0].ghost['id'], k.ghost['id'])))
                        C().approx.add('entry of an element')
                        kv = (k,) + tuple(kv[1:])
                    C().assume(core.zbool(eqv(kv[0], k)))
                    if not C().feasible(z3.BoolVal(True)):
                        raise Kill()
                    self._other(p, kv[0])
                    self.items[i:i + 1] = [p, kv]
                    return i + 1
                self._other(p, k)
        return None

    def overwrite(self, new, fresh=False):
        """any number of assignments d[k] = v with (k, v) among the members of new; fresh: to keys not yet there"""
        c = C()
        old, conc = [], []
        for p in self.norm():
            if isinstance(p, Seg):
                old.append(p)
                continue

            def hit():
                kv = new.draw()
                c.assume(core.zbool(eqv(kv[0], p[0])))
                return kv
            if not fresh and c.trial(hit) and bool(fbool('overwritten')):
                kv = hit()
                if not c.feasible(z3.BoolVal(True)):
                    raise Kill()
                p = (p[0], kv[1])
            conc.append(p)
        if old:
            subs = [x.sub() if x.base is None else x for x in old]

            def make():
                i = c.choose(len(subs) + 1)
                return subs[i].draw() if i < len(subs) else new.draw()
            tpls = [getattr(x, 'tpl', None) for x in [new] + old]
            if all(t is not None for t in tpls):
                both = {k: v for t in tpls for k, v in t.items()}
                n = union_seg(list(both.values()), None)
            else:
                n = Seg(make, name='dict').sub()
        else:
            n = new.sub()
            n.tpl = getattr(new, 'tpl', None)
        for k, _ in conc:
            self._other(n, k)
        self.items[:] = conc + [n]

    @staticmethod
    def _other(p, k):
        """the (other) members of p have other keys"""
        p.excl.append(Pred(('key', id(k), k), lambda kv: eqv(kv[0], k)))
        if hasattr(p, '_probe'):
            del p._probe

    def __contains__(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k if not isinstance(k, (SStr, SInt)) else str(k))
        return self.items[i][1]

    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.items[i][1]

    def _put(self, k, v):
        i = self._find(k)
        if i is None:
            self.items.append((k, v))
        else:
            self.items[i] = (self.items[i][0], v)

    def __setitem__(self, k, v):
        i = self._find(k)
        log_value(self, 'dictadd' if i is None else 'dictset', (k, v))
        if i is None:
            self.items.append((k, v))
        else:
            self.items[i] = (self.items[i][0], v)

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i is not None:
            return self.items[i][1]
        self[k] = d
        return d

    def pop(self, k, *d):
        self._log('poison')
        i = self._find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError(str(k))
        v = self.items[i][1]
        del self.items[i]
        return v

    def __delitem__(self, k):
        c = C()
        if c is not None and any(self.oid < d.birth0 for d in c.dry) and any(isinstance(p, Seg) for p in self.items):
            self._log('poison')
            raise Unsupported('deleting from a dict of unknown entries, in a loop')
        self.pop(k)

    def update(self, *a, **kw):
        for o in a:
            its = o.norm() if isinstance(o, VDict) else list(o.items()) if isinstance(o, dict) else list(o)
            for p in its:
                if isinstance(p, Seg):
                    log_value(self, 'dictset', p.draw())
                    if self.items:
                        self.overwrite(p)
                    else:
                        self.items.append(p)
                else:
                    self[p[0]] = p[1]
        for k, v in kw.items():
            self[k] = v

    def keys(self):
        return VList([proj(p, 0) for p in self.norm()])

    def values(self):
        return VList([proj(p, 1) for p in self.norm()])

    def pairs(self):
        return VList(self.norm())

    def __iter__(self):
        return iter(self.keys())

    def length(self):
        return VList(self.norm()).length()

    def __len__(self):
        n = self.length()
        if isinstance(n, SInt):
            raise Unsupported('native len of a dict of unknown size')
        return n

    def __bool__(self):
        return bool(VList(self.norm()))

    def __eq__(self, o):
        if isinstance(o, dict):
            o = VDict(o)
        if not isinstance(o, VDict):
            return False
        a, b = self.norm(), o.norm()
        if any(isinstance(x, Seg) for x in a + b):
            if self is o:
                return True
            raise Unsupported('comparison of dicts of unknown size')
        if len(a) != len(b):
            return False
        return all((k in o) and bool(eqv(o[k], v)) for k, v in a)

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def copy(self):
        return VDict(self)

    def clone_into(self, f, memo):
        n = VDict()
        memo[id(self)] = n
        n.items = [f(x) for x in self.items]
        return n

    def __format__(self, s):
        return '<dict>'

    def __str__(self):
        return '<dict>'


# keys()/items() of VDict are methods named as for dict; "items" is also the storage attribute, so the loader
# rewrites  d.items()  into rt.vc_items(d)


def proj(p, i):
    if not isinstance(p, Seg):
        return p[i]
    cached = getattr(p, '_proj', None)
    if cached is None:
        cached = p._proj = {}
    if i not in cached:
        from . import rt
        cached[i] = rt.mapseg(p, lambda kv: kv[i])
    return cached[i]


def samekey(a, b):
    """structurally the same key"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (SStr, SInt)):
        return a.e.eq(b.e)
    if isinstance(a, (str, int)):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(samekey(x, y) for x, y in zip(a, b))
    r = a == b if type(a).__name__ in ('GNode', 'SNode') else False
    return r is True


class AbsSet:
    """a set known only by its membership predicate (an uninterpreted function of the member)"""

    def __init__(self, name, sort=z3.StringSort()):
        self.f = z3.Function(name, sort, z3.BoolSort())

    def member(self, x):
        return SBool(self.f(core.zstr(x)))

    def __contains__(self, x):
        return bool(self.member(x))

    def snapshot(self):
        return self


def same_seg(a, b):
    """both stand for the same values: the same segment, or equal images of the same segment"""
    if a is b:
        return True
    am, bm = getattr(a, 'mapped', None), getattr(b, 'mapped', None)
    if am is None or bm is None or am[0] is not bm[0]:
        return False
    c = C()
    n = len(c.born)
    c.enter()
    try:
        y = am[0].draw()
        v, w = am[1](y), bm[1](y)
        if isinstance(v, (int, str)) and isinstance(w, (int, str)):
            return v == w
        return c.check(z3.Not(core.zbool(eqv(v, w))), ms=1000)[0] == z3.unsat
    except (core.NoFork, Kill, Unsupported):
        return False
    finally:
        c.leave()
        del c.born[n:]


def disjoint(a, b):
    """no value stands in both segments"""
    c = C()
    n = len(c.born)
    c.enter()
    try:
        v, w = a.draw(), b.draw()
        if isinstance(v, int) and isinstance(w, int):
            return v != w                       # numbers of different objects
        return c.check(core.zbool(eqv(v, w)), ms=1000)[0] == z3.unsat
    except (core.NoFork, Kill, Unsupported):
        return False
    finally:
        c.leave()
        del c.born[n:]


class VSet(Obj):
    def __init__(self, items=()):
        self._born()
        self.items = []
        self.poisoned = False
        from . import rt
        its = rt.items_of(items)
        for x in (list(items) if its is None else its):
            if isinstance(x, Seg):
                self.items.append(x)
            elif not self._has_explicit(x):
                self.items.append(x)

    def norm(self):
        if self.poisoned:
            raise Unsupported('set changed in an untracked way by a loop')
        self.items[:] = norm(self.items)
        return self.items

    def _has_explicit(self, x):
        return any(bool(eqv(x, y)) for y in self.items if not isinstance(y, Seg))

    def __contains__(self, x):
        return contains(self.norm(), x)

    def add(self, x):
        log_value(self, 'setadd', x)
        if not self._has_explicit(x):
            self.items.append(x)

    def update(self, *os):
        from . import rt
        for o in os:
            its = rt.items_of(o)
            for x in (list(o) if its is None else its):
                if isinstance(x, Seg):
                    if any(self.oid < d.birth0 for d in C().dry):
                        log_value(self, 'setadd', x.draw())
                    self.items.append(x)
                else:
                    self.add(x)

    def discard(self, x):
        self._log('poison')
        for i, y in enumerate(self.norm()):
            if isinstance(y, Seg):
                raise Unsupported('discard from a set of unknown members')
            if bool(eqv(x, y)):
                del self.items[i]
                return

    remove = discard

    def __iter__(self):
        return iter(VList(self.norm()))

    def __or__(self, o):
        r = VSet(self.norm())
        for x in VSet(o).norm():
            if isinstance(x, Seg):
                r.items.append(x)
            elif not r._has_explicit(x):
                r.items.append(x)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        o = o if isinstance(o, VSet) else VSet(o)
        a, b = self.norm(), o.norm()
        if any(isinstance(x, Seg) for x in a + b):
            out = []
            for x in a:
                if isinstance(x, Seg):
                    if x in b:
                        out.append(x)
                    else:
                        out.append(Seg((lambda s: lambda: s.draw())(x), origin=x, name='sub'))
                elif x in o:
                    out.append(x)
            for y in b:
                if not isinstance(y, Seg) and not any(y is z for z in out) and any(isinstance(x, Seg) for x in a):
                    if not any(not isinstance(z, Seg) and bool(eqv(z, y)) for z in out) and y in VList([x for x in a if isinstance(x, Seg)]):
                        out.append(y)
            r = VSet()
            r.items = out
            return r
        return VSet([x for x in a if x in o])

    def __sub__(self, o):
        if isinstance(o, AbsSet):
            out = []
            o = o.snapshot()
            for x in self.norm():
                if isinstance(x, Seg):
                    v = view(x, Pred(('not in', id(o)), lambda m: not_(o.member(m))))
                    if v is not None:
                        out.append(v)
                elif not bool(o.member(x)):
                    out.append(x)
            r = VSet()
            r.items = out
            return r
        o = o if isinstance(o, VSet) else VSet(o)
        out = []
        b = o.norm()
        for x in self.norm():
            if isinstance(x, Seg):
                if any(isinstance(y, Seg) and same_seg(x, y) for y in b):
                    continue
                if all(disjoint(x, y) if isinstance(y, Seg) else disjoint(x, Seg((lambda y: lambda: y)(y))) for y in b):
                    out.append(x)
                    continue
                out.append(Seg((lambda s: lambda: s.draw())(x), origin=x, name='sub'))
            elif x not in o:
                out.append(x)
        r = VSet()
        r.items = out
        return r

    def issubset(self, o):
        return self <= o

    def __le__(self, o):
        o = o if isinstance(o, VSet) else VSet(o)
        if any(isinstance(x, Seg) for x in self.norm()):
            b = o.norm()
            if not all(x in o for x in self.items if not isinstance(x, Seg)):
                return False
            if all(any(isinstance(y, Seg) and same_seg(x, y) for y in b) for x in self.items if isinstance(x, Seg)):
                return True
            if getattr(C(), 'fuzzy', False):
                C().approx.add('inclusion of sets of unknown members')
                return fbool('subset')
            raise Unsupported('inclusion of sets of unknown members')
        return all(x in o for x in self.items)

    def __lt__(self, o):
        o = o if isinstance(o, VSet) else VSet(o)
        return (self <= o) and not (o <= self)

    def __ge__(self, o):
        return VSet(o) <= self

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = VSet(o)
        if not isinstance(o, VSet):
            return False
        if getattr(C(), 'fuzzy', False) and any(isinstance(x, Seg) for x in self.items + o.items):
            C().approx.add('comparison of sets of unknown members')
            return fbool('same set')
        return (self <= o) and (o <= self)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def length(self):
        if any(isinstance(x, Seg) for x in self.norm()):
            raise Unsupported('how many members a set of unknown members has')     # (those of a segment may be equal)
        return VList(self.norm()).length()

    def __len__(self):
        n = self.length()
        if isinstance(n, SInt):
            raise Unsupported('native len of a set of unknown size')
        return n

    def __bool__(self):
        return bool(VList(self.norm()))

    def copy(self):
        return VSet(self)

    def clone_into(self, f, memo):
        n = VSet()
        memo[id(self)] = n
        n.items = [f(x) for x in self.items]
        return n
