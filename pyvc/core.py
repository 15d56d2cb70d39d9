"""pyvc core: exhaustive symbolic path exploration of real Python code, obligations discharged by z3.

A *harness* is a Python function that builds symbolic arguments, runs a real function of /repo (loaded by
pyvc.load) and states obligations with prove().  The explorer runs the harness once per feasible path
(replay of a decision trace); an obligation is proved when z3 refutes its negation on every path that
reaches it and no path left the supported subset.
"""
import time, traceback, types, z3
z3.z3.Z3_DEBUG = False


class Kill(BaseException):
    """path ends without an outcome (assumption false, or subsumed by another path)"""


class Unsupported(BaseException):
    """the code left the subset the engine decides"""

    def __init__(self, *a):
        super().__init__(*a)
        self.dry = list(CTX.dry) if CTX is not None else []


class Restart(BaseException):
    """explore again from scratch (a loop-carried local needs a weaker assumption)"""


class NoFork(BaseException):
    pass


class Limit(BaseException):
    pass


CTX = None


def ctx():
    return CTX


class Decision:
    __slots__ = ('alts', 'i', 'more', 'q')

    def __init__(self, alts, more=None, q=0):
        self.alts, self.i, self.more, self.q = alts, 0, more, q


class Ctx:
    def __init__(self, name, max_paths=20000, max_time=300, solver_ms=8000):
        self.name = name
        self.max_paths, self.max_time, self.solver_ms = max_paths, max_time, solver_ms
        self.records = {}               # obligation name -> dict
        self.covers = {}
        self.trace = []
        self.qlog = []                  # answers of the queries along the current path (paths share prefixes)
        self.loops = {}
        self.seeds = {}
        self.only = None                # only obligations whose name starts so are judged
        self.paths = self.queries = 0
        self.solver_s = self.cvc5_s = 0.0
        self.cvc5_n = self.cvc5_ok = 0
        self.t0 = time.time()
        self.unsupported = {}
        self.outcomes = {}
        self.mixed = set()              # loop-carried locals without a single type

    # ---------------------------------------------------------------- one path
    def start(self):
        self.pos = 0
        self.pc = []
        self.fresh_n = 0
        self.born = []                  # z3 constants in creation order
        self.solver = z3.Solver()
        self.solver.set('timeout', self.solver_ms)
        self.synced, self.scopes, self.qi = 0, [], 0
        self.nofork = 0
        self.memo = {}
        self.inputs = {}
        self.choices = []
        self.carried, self.keep = set(), []     # values of locals carried from one iteration to the next: any value
        self.approx = set()             # over-approximating steps taken on this path
        self.seq = None
        self.dry = []                   # stack of active dry runs (segment iterations)
        self.birth = 0
        self.steps = 0

    def tick(self):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('step limit')

    def assume(self, e):
        e = zbool(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Kill()
        self.pc.append(e)

    # the solver is brought up to date only when a query is really made
    def enter(self):
        self.scopes.append([len(self.pc), False])
        self.nofork += 1

    def leave(self):
        n, pushed = self.scopes.pop()
        self.nofork -= 1
        if pushed:
            self.solver.pop()
            self.synced = n
        del self.pc[n:]

    def sync(self):
        for s in self.scopes:
            if not s[1]:
                self.solver.add(*self.pc[self.synced:s[0]])
                self.synced = s[0]
                self.solver.push()
                s[1] = True
        if self.synced < len(self.pc):
            self.solver.add(*self.pc[self.synced:])
            self.synced = len(self.pc)

    def raw(self, es, ms=None, model=False):
        self.queries += 1
        t = time.time()
        self.sync()
        if ms:
            self.solver.set('timeout', ms)
        if es:
            self.solver.push()
            self.solver.add(*es)
        r = self.solver.check()
        m = self.solver.model() if model and r == z3.sat else None
        if es:
            self.solver.pop()
        if ms:
            self.solver.set('timeout', self.solver_ms)
        self.solver_s += time.time() - t
        return r, m

    def check(self, *es, ms=None):
        """answer of a query that steers the execution; a path that shares its prefix gets the same one"""
        if self.qi < len(self.qlog):
            r = self.qlog[self.qi]
        else:
            r = self.raw(es, ms)[0]
            self.qlog.append(r)
        self.qi += 1
        return r, None

    def feasible(self, e):
        return self.check(e, ms=1500)[0] != z3.unsat

    def second(self, e):
        """the same query on cvc5"""
        import subprocess, tempfile, os
        self.sync()
        self.solver.push()
        self.solver.add(e)
        txt = '(set-logic ALL)\n(set-option :strings-exp true)\n' + self.solver.to_smt2()
        self.solver.pop()
        t = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (self.solver_ms * 2), f.name], capture_output=True, text=True, timeout=self.solver_ms / 250)
            out = p.stdout.strip().splitlines()[:1]
        except Exception:
            out = []
        finally:
            os.unlink(f.name)
        self.cvc5_s += time.time() - t
        self.cvc5_n += 1
        if out == ['unsat']:
            self.cvc5_ok += 1
            return z3.unsat, None
        if out == ['sat']:
            return z3.sat, '(counterexample from cvc5)'
        return z3.unknown, None

    def branch(self, e):
        e = z3.simplify(zbool(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.tick()
        if self.nofork:
            raise NoFork()
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            v = d.alts[d.i]
        else:
            alts = []
            if self.raw([e], 1500)[0] != z3.unsat:
                alts.append(True)
                if self.raw([z3.Not(e)], 1500)[0] != z3.unsat:
                    alts.append(False)
            else:
                alts.append(False)
            d = Decision(alts, q=self.qi)
            self.trace.append(d)
            v = alts[0]
        self.pos += 1
        self.assume(e if v else z3.Not(e))
        return v

    def choose(self, n):
        """nondeterministic choice among range(n) (or a list)"""
        self.tick()
        if self.nofork:
            raise NoFork()
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            d = Decision(list(range(n)) if isinstance(n, int) else list(n), q=self.qi)
            self.trace.append(d)
        self.pos += 1
        return d.alts[d.i]

    def dynamic(self, more):
        """choice whose number of alternatives is decided while exploring: more(i) -> bool"""
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            d = Decision([0], more, self.qi)
            self.trace.append(d)
        self.pos += 1
        return d.alts[d.i]

    def prefix(self):
        return tuple(d.alts[d.i] for d in self.trace[:self.pos])

    def backtrack(self):
        while self.trace:
            d = self.trace[-1]
            if d.i + 1 < len(d.alts) or d.more is not None and d.more(d.i + 1):
                if d.i + 1 == len(d.alts):
                    d.alts.append(d.i + 1)
                d.i += 1
                del self.qlog[d.q:]
                return True
            self.trace.pop()
        return False

    # ---------------------------------------------------------------- symbols
    def fresh(self, name, sort):
        self.fresh_n += 1
        c = z3.Const('%s!%d' % (name, self.fresh_n), sort)
        self.born.append(c)
        return c

    # ---------------------------------------------------------------- obligations
    def rec(self, name):
        return self.records.setdefault(name, {'proved': 0, 'failed': [], 'unknown': 0})

    def prove(self, name, e, info=None):
        if self.only is not None and not name.startswith(self.only):
            return True
        r = self.rec(name)
        if r['failed'] and len(r['failed']) >= 3:
            raise Kill()
        if isinstance(e, bool):
            if e:
                r['proved'] += 1
                return True
            res, m = self.raw([], model=True)
            if res == z3.unsat:
                raise Kill()
        else:
            if self.qi < len(self.qlog) and self.qlog[self.qi] == z3.unsat:
                self.qi += 1
                r['proved'] += 1
                return True
            res, m = self.raw([z3.Not(zbool(e))], model=True)
            if self.qi == len(self.qlog):
                self.qlog.append(res)
            self.qi += 1
            if res == z3.unknown:
                res, m = self.second(z3.Not(zbool(e)))
            if res == z3.unsat:
                self.qlog[self.qi - 1] = res
                r['proved'] += 1
                return True
        if res == z3.unknown or self.approx & DOUBTFUL or self.carried and self.uses_carried(e):
            r['unknown'] += 1
            return None
        r['failed'].append({'inputs': concrete(self.inputs, m), 'choices': list(self.choices), 'approx': sorted(self.approx), 'model': str(m)[:1500], 'info': str(info() if callable(info) else info)[:600],
                            'path': [str(p)[:160] for p in self.pc][-25:]})
        return False

    def trial(self, fn):
        """is there a state after fn()? (fn is undone); True when fn would fork"""
        b = len(self.born)
        self.enter()
        try:
            fn()
            return self.check()[0] != z3.unsat
        except NoFork:
            return True
        except Kill:
            return False
        finally:
            self.leave()
            del self.born[b:]

    def uses_carried(self, e):
        """does the refutation rest on a local that may have any value after a loop?"""
        todo, seen = [x for x in list(self.pc) + [e] if z3.is_expr(x) or hasattr(x, 'e')], set()
        while todo:
            x = todo.pop()
            x = getattr(x, 'e', x)
            if not z3.is_expr(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in self.carried:
                return True
            todo.extend(x.children())
        return False

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1


DOUBTFUL = {'membership in an image of a list'}    # steps after which a refuted obligation is undecided, not failed

PATCHES = []
_NONE = object()


def patch(o, name, v):
    if isinstance(o, (type, types.ModuleType)) and not hasattr(o, name) and name != 'open':
        raise Unsupported('%s has no %s' % (getattr(o, '__name__', o), name))
    PATCHES.append((o, name, o.__dict__.get(name, _NONE)))
    setattr(o, name, v)


def unpatch():
    while PATCHES:
        o, name, v = PATCHES.pop()
        if v is _NONE:
            delattr(o, name)
        else:
            setattr(o, name, v)


def explore(name, fn, **limits):
    """Run harness fn on every path. Returns the context with its records."""
    global CTX
    c = CTX = Ctx(name, **limits)
    try:
        while True:
            c.start()
            c.paths += 1
            try:
                fn(c)
            except Kill:
                pass
            except Restart:
                c.records, c.covers, c.trace, c.loops, c.unsupported, c.qlog, c.seeds = {}, {}, [], {}, {}, [], {}
                continue
            except Unsupported as e:
                import sys
                for d in e.dry:                   # what the loops being run may do is not fully known
                    d.info.unsup = True
                tb = traceback.extract_tb(sys.exc_info()[2])
                at = [f for f in tb if '/repo/' in f.filename]
                c.unsupported.setdefault(str(e)[:200] + (' at %s:%d' % (at[-1].name, at[-1].lineno) if at else ''), 0)
                c.unsupported[str(e)[:200] + (' at %s:%d' % (at[-1].name, at[-1].lineno) if at else '')] += 1
                if len(c.unsupported) > 20:
                    break
            except Exception as e:          # the harness does not fit the code (renamed or reshaped function)
                import sys
                tb = traceback.extract_tb(sys.exc_info()[2])
                c.unsupported['harness: %s: %s at %s:%d' % (type(e).__name__, str(e)[:120], tb[-1].name, tb[-1].lineno)] = 1
                break
            finally:
                unpatch()
            if not c.backtrack():
                break
            if c.paths > c.max_paths or time.time() - c.t0 > c.max_time:
                c.unsupported['path or time limit (%d paths)' % c.paths] = 1
                break
    finally:
        CTX = None
    return c


# ==================================================================== symbolic scalars
def zbool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def as_bool(x):
    """value -> truth (forks when symbolic)"""
    return bool(x)


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.e == zbool(o))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __and__(self, o):
        return SBool(z3.And(self.e, zbool(o)))

    def __or__(self, o):
        return SBool(z3.Or(self.e, zbool(o)))

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __repr__(self):
        return 'SBool(%s)' % self.e


def not_(x):
    if isinstance(x, bool):
        return not x
    return SBool(z3.Not(zbool(x)))


def and_(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) and not x for x in xs):
        return False
    if not xs:
        return True
    return SBool(z3.And(*[zbool(x) for x in xs]))


def or_(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and not x)]
    if any(isinstance(x, bool) and x for x in xs):
        return True
    if not xs:
        return False
    return SBool(z3.Or(*[zbool(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def zint(x):
    return x.e if isinstance(x, SInt) else z3.IntVal(int(x))


class SInt:
    """symbolic mathematical integer; pos = (VList, item) when it is a known position in a list"""
    __slots__ = ('e', 'pos')

    def __init__(self, e, pos=None):
        self.e, self.pos = e, pos

    def __bool__(self):
        self.where()
        return CTX.branch(self.e != 0)

    def _bin(self, o, f):
        if isinstance(o, (int, SInt)) and not isinstance(o, bool):
            return f(self.e, zint(o))
        return NotImplemented

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        if r is NotImplemented:
            return r
        p = (self.pos[0], self.pos[1], self.pos[2] + o) if self.pos and isinstance(o, int) else None
        return SInt(r, p)
    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        if r is NotImplemented:
            return r
        p = (self.pos[0], self.pos[1], self.pos[2] - o) if self.pos and isinstance(o, int) else None
        return SInt(r, p)

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a)
        return r if r is NotImplemented else SInt(r)

    def __mul__(self, o):
        r = self._bin(o, lambda a, b: a * b)
        return r if r is NotImplemented else SInt(r)
    __rmul__ = __mul__

    def __mod__(self, o):
        r = self._bin(o, lambda a, b: a % b)
        return r if r is NotImplemented else SInt(r)

    def __neg__(self):
        return SInt(-self.e)

    def where(self):
        pass

    def __eq__(self, o):
        self.where()
        r = self._bin(o, lambda a, b: a == b)
        return False if r is NotImplemented else SBool(r)

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        self.where()
        r = self._bin(o, lambda a, b: a < b)
        return r if r is NotImplemented else SBool(r)

    def __le__(self, o):
        self.where()
        r = self._bin(o, lambda a, b: a <= b)
        return r if r is NotImplemented else SBool(r)

    def __gt__(self, o):
        self.where()
        r = self._bin(o, lambda a, b: a > b)
        return r if r is NotImplemented else SBool(r)

    def __ge__(self, o):
        self.where()
        r = self._bin(o, lambda a, b: a >= b)
        return r if r is NotImplemented else SBool(r)

    def __hash__(self):
        raise Unsupported('hash of symbolic int')

    def __index__(self):
        raise Unsupported('symbolic int used as an index')

    def __format__(self, s):
        return '<int>'

    def __repr__(self):
        return 'SInt(%s)' % self.e


def zstr(x):
    return x.e if isinstance(x, SStr) else x if isinstance(x, z3.ExprRef) else z3.StringVal(x)


WS = None


def ws_re():
    global WS
    if WS is None:
        WS = z3.Star(z3.Union(*[z3.Re(z3.StringVal(c)) for c in ' \t\n\r\x0b\x0c']))
    return WS


class Bytes:
    """an encoded string"""

    def __init__(self, s, a, k):
        self.encoded, self.how = s, (a, k)

    def decode(self, *a, **k):
        return self.encoded


class SStr:
    """symbolic string (z3 String). Not a str: the loader shadows isinstance() & co."""
    __slots__ = ('e', 'pre')

    def __init__(self, e, pre=None):
        self.e, self.pre = e, pre          # pre = (z3 string, n): this is its prefix of n characters

    # comparison
    def __eq__(self, o):
        if isinstance(o, str) and self.pre is not None:
            b, n = self.pre
            if len(o) == n:
                return SBool(z3.PrefixOf(z3.StringVal(o), b))
            if len(o) < n:
                return SBool(b == z3.StringVal(o))
            return False
        if isinstance(o, (SStr, str)):
            return SBool(self.e == zstr(o))
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __lt__(self, o):
        return SBool(self.e < zstr(o))

    def __gt__(self, o):
        return SBool(zstr(o) < self.e)

    def __le__(self, o):
        return SBool(self.e <= zstr(o))

    def __ge__(self, o):
        return SBool(zstr(o) <= self.e)

    def __bool__(self):
        return CTX.branch(self.e != z3.StringVal(''))

    # building
    def __add__(self, o):
        if isinstance(o, (SStr, str)):
            return SStr(z3.Concat(self.e, zstr(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (SStr, str)):
            return SStr(z3.Concat(zstr(o), self.e))
        return NotImplemented

    def _at(self, i):
        """slice bound as z3 int within [0, len]"""
        n = z3.Length(self.e)
        if isinstance(i, int):
            return z3.IntVal(i) if i >= 0 else z3.If(n + i < 0, z3.IntVal(0), n + i)
        e = zint(i)
        return z3.If(e < 0, z3.If(n + e < 0, z3.IntVal(0), n + e), e)

    def __getitem__(self, k):
        n = z3.Length(self.e)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('string slice with a step')
            a = z3.IntVal(0) if k.start is None else self._at(k.start)
            if k.stop is None:
                return SStr(z3.SubString(self.e, a, n))
            b = self._at(k.stop)
            if k.start in (None, 0) and isinstance(k.stop, int) and k.stop >= 0:
                return SStr(z3.SubString(self.e, a, b - a), (self.e, k.stop))
            return SStr(z3.SubString(self.e, a, b - a))
        e = zint(k)
        i = z3.If(e < 0, n + e, e)
        if not CTX.branch(z3.And(i >= 0, i < n)):
            raise IndexError('string index out of range')
        return SStr(z3.SubString(self.e, i, z3.IntVal(1)))

    def __contains__(self, o):
        return CTX.branch(z3.Contains(self.e, zstr(o)))

    def length(self):
        return SInt(z3.Length(self.e))

    def startswith(self, o, *a):
        if a:
            raise Unsupported('startswith with bounds')
        if isinstance(o, tuple):
            return or_(*[self.startswith(x) for x in o])
        return SBool(z3.PrefixOf(zstr(o), self.e))

    def endswith(self, o):
        if isinstance(o, tuple):
            return or_(*[self.endswith(x) for x in o])
        return SBool(z3.SuffixOf(zstr(o), self.e))

    def find(self, o):
        return SInt(z3.IndexOf(self.e, zstr(o), 0))

    def removeprefix(self, p):
        return self[len(p) if isinstance(p, str) else p.length():] if self.startswith(p) else self

    def _strip(self, left, right, chars):
        if chars is not None and chars != ' ':
            raise Unsupported('strip of given characters')
        # assumed contract of str.strip: a deterministic function; its result is a factor of the argument that
        # neither starts nor ends with a blank (white space taken as ASCII)
        c = CTX
        e = z3.simplify(self.e)
        if z3.is_string_value(e):
            t = e.as_string()
            return SStr(z3.StringVal(t.strip(chars) if left and right else t.lstrip(chars) if left else t.rstrip(chars)))
        key = ('strip', e.sexpr(), left, right, chars)
        if key in c.memo:
            return c.memo[key]
        fn = z3.Function('strip%d%d%s' % (left, right, 'sp' if chars else ''), z3.StringSort(), z3.StringSort())
        r = fn(e)
        a, b = [c.fresh(n, z3.StringSort()) for n in ('lead', 'trail')]
        c.assume(e == z3.Concat(a, r, b))
        blanks = [' '] if chars == ' ' else list(' \t\n\r\x0b\x0c')
        if not left:
            c.assume(a == z3.StringVal(''))
        else:
            for x in blanks:
                c.assume(z3.Not(z3.PrefixOf(z3.StringVal(x), r)))
            c.assume(z3.Implies(z3.Length(a) > 0, z3.Or(*[z3.PrefixOf(z3.StringVal(x), a) for x in blanks])))
        if not right:
            c.assume(b == z3.StringVal(''))
        else:
            for x in blanks:
                c.assume(z3.Not(z3.SuffixOf(z3.StringVal(x), r)))
            c.assume(z3.Implies(z3.Length(b) > 0, z3.Or(*[z3.SuffixOf(z3.StringVal(x), b) for x in blanks])))
        c.memo[key] = SStr(r)
        return c.memo[key]

    def strip(self, chars=None):
        return self._strip(True, True, chars)

    def lstrip(self, chars=None):
        return self._strip(True, False, chars)

    def rstrip(self, chars=None):
        return self._strip(False, True, chars)

    def replace(self, a, b):
        if not CTX.branch(z3.Contains(self.e, zstr(a))):
            return self
        raise Unsupported('str.replace on a symbolic string that contains the pattern')

    def lower(self):
        return SStr(z3.Function('lower', z3.StringSort(), z3.StringSort())(self.e))      # some function of the string

    def encode(self, *a, **k):
        return Bytes(self, a, k)

    def isdigit(self):
        return SBool(z3.InRe(self.e, z3.Plus(z3.Range('0', '9'))))

    def split(self, sep=None, *a):
        """decided only for at most one separator"""
        from .values import VList, Seg
        for e, q, parts in getattr(CTX, 'splits', ()):         # assumed contract of str.split, given by the harness
            if q == sep and z3.eq(zstr(e), self.e):
                if a and a[0] != -1:
                    if a[0] != 1:
                        raise Unsupported('str.split with a limit')
                    return VList([parts[0], fstr('rest')])     # the parts after the first one, joined
                return VList(list(parts))
        f = getattr(CTX, 'splitter', None)
        if f is not None:
            parts = f(self, sep, *a)
            if parts is not None:
                return VList(parts)
        if sep is None or a:
            raise Unsupported('str.split without separator')
        if getattr(CTX, 'fuzzy', False):
            CTX.approx.add('parts of a string')
            return VList([Seg(lambda: fstr('part'))])
        if not CTX.branch(z3.Contains(self.e, zstr(sep))):
            return VList([self])
        i = z3.IndexOf(self.e, zstr(sep), 0)
        rest = z3.SubString(self.e, i + z3.Length(zstr(sep)), z3.Length(self.e))
        if CTX.branch(z3.Contains(rest, zstr(sep))):
            # head and first part known; the remainder is opaque
            raise Unsupported('str.split with more than one separator')
        return VList([SStr(z3.SubString(self.e, z3.IntVal(0), i)), SStr(rest)])

    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')

    def __format__(self, s):
        return '<str>'

    def __str__(self):
        return '<str>'

    def __repr__(self):
        return 'SStr(%s)' % self.e

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('str.%s on a symbolic string' % name)


def fstr(name='s'):
    return SStr(CTX.fresh(name, z3.StringSort()))


def fint(name='i', lo=None):
    e = CTX.fresh(name, z3.IntSort())
    if lo is not None:
        CTX.assume(e >= lo)
    return SInt(e)


def fbool(name='b'):
    return SBool(CTX.fresh(name, z3.BoolSort()))


class _Poison:
    """value of a loop-carried local the engine does not track: any use is unsupported"""

    def _no(self, *a, **k):
        raise Unsupported('loop-carried local used')
    for _n in ('__bool__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __iter__ __getitem__ __setitem__ '
               '__contains__ __call__ __len__ __hash__ __iadd__ __mod__ __mul__ __str__ __format__').split():
        locals()[_n] = _no
    del _n

    def __getattr__(self, n):
        raise Unsupported('loop-carried local used (.%s)' % n)


POISON = _Poison()


def eqv(a, b):
    """a == b as bool or SBool, without forking"""
    if a is b:
        return True
    if a is POISON or b is POISON:
        raise Unsupported('loop-carried local compared')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_(*[eqv(x, y) for x, y in zip(a, b)])
    if isinstance(a, (SStr, SInt, SBool)):
        return a == b
    if isinstance(b, (SStr, SInt, SBool)):
        return b == a
    r = a == b
    return r


def concrete(inputs, m):
    """values of the named inputs in a model"""
    if m is None or isinstance(m, str):
        return None
    out = {}
    for n, v in inputs.items():
        try:
            if isinstance(v, SStr):
                t = m.eval(v.e, model_completion=True)
                out[n] = t.py_value() if hasattr(t, 'py_value') else t.as_string()
            elif isinstance(v, SInt):
                out[n] = m.eval(v.e, model_completion=True).as_long()
            elif isinstance(v, SBool):
                out[n] = z3.is_true(m.eval(v.e, model_completion=True))
            elif isinstance(v, (tuple, list)):
                d = concrete(dict(enumerate(v)), m)
                out[n] = type(v)(d[i] for i in range(len(v)))
            elif type(v).__name__ in ('VList', 'VTuple'):
                d = concrete(dict(enumerate([x for x in v.norm() if type(x).__name__ != 'Seg'])), m)
                out[n] = [d[i] for i in range(len(d))]
            else:
                out[n] = v
        except Exception as e:
            out[n] = '?%s' % e
    return out
