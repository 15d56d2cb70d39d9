"""C11: the diff of two running-configs."""
from pyvc.contract import *
from pyvc import seqs, moves


def RC():
    return module('runningconfig')


@harness('runningconfig.RunningConfigDiff.match_orderless', 'match_orderless')
def match_orderless(c):
    M = RC()
    line = fstr('line')
    depth = choose(0, 1, 2, 3, 4, 5)
    r = outcome(M.RunningConfigDiff.match_orderless, line, depth)
    prove('returns', r.returned(), r)
    found, which = r.value
    table = list(M.ORDERLESS_COMMANDS.items) if isinstance(M.ORDERLESS_COMMANDS, VList) else list(M.ORDERLESS_COMMANDS)
    here = [(k, rx) for k, (rx, d) in enumerate(table) if d == depth]
    if found:
        prove('a command declared order-insensitive at this depth', bool(rt.RE.search(table[which][0], line)) and table[which][1] == depth, r)
        cover('orderless')
    else:
        for k, rx in here:
            prove('no command declared order-insensitive at this depth is missed', not rt.RE.search(rx, line), k)
        cover('ordered')


match_orderless.covers = ('orderless', 'ordered')


class Lists:
    """stands for the lines of one config, as the callees see them"""

    def __init__(self, label):
        self.label = label
        self.steps = []

    def __repr__(self):
        return self.label


def stage(c):
    """contracts of the callees: each step is applied to the right list"""
    M = RC()
    R = M.RunningConfigDiff
    t1, t2 = fstr('first'), fstr('second')

    def r2l(self, a, b):
        prove('the two configs are parsed in their order', a is t1 and b is t2, (a, b))
        return Lists('first'), Lists('second')

    def sib(l):
        prove('siblings are handled after parsing', isinstance(l, Lists))
        l.steps.append('sibling')

    class LD:
        def __init__(self, a, b):
            self.a, self.b = a, b

        @property
        def diff(self):
            prove('siblings are handled in both before comparing', self.a.steps == ['sibling'] and self.b.steps == ['sibling'], (self.a.steps, self.b.steps))
            return {('first', 'second'): fwd, ('second', 'first'): rev}[(self.a.label, self.b.label)]

        @staticmethod
        def compare(a, b):
            return LD(a, b).diff
    patch(R, 'running2list', r2l)
    patch(R, 'handle_sibling_cammands', staticmethod(sib))
    patch(M, 'ListDiff', LD)
    fwd, rev = choose(['forward'], []), choose(['backward'], [])
    d = R(t1, t2)
    return M, d, fwd, rev


@harness('runningconfig.RunningConfigDiff.get_diff', 'get_diff, in any order of requests')
def get_diff(c):
    M, d, fwd, rev = stage(c)
    asked = [choose(True, False) for _ in range(choose(1, 2, 3))]
    for back in asked:
        r = outcome(d.get_diff, reverse=back) if choose(True, False) else outcome(lambda: d.diff_reverse if back else d.diff)
        want = rev if back else fwd
        prove('the diff from the first to the second, or back', r.returned() and r.value == (want or None), (r, back))
        cover('back' if back else 'forth')
    r = outcome(bool, d)
    prove('a diff is true exactly if it has lines', r.returned() and r.value == bool(fwd), r)


get_diff.covers = ('back', 'forth')
get_diff.bound = 'up to 3 requests'


@harness('runningconfig.RunningConfigDiff.running2list', 'running2list')
def running2list(c):
    M = RC()
    R = M.RunningConfigDiff
    t1, t2 = fstr('first'), fstr('second')
    d = R(t1, t2)
    a, b = Lists('a'), Lists('b')
    REP = list(M.REPLACING_COMMANDS.items) if isinstance(M.REPLACING_COMMANDS, VList) else list(M.REPLACING_COMMANDS)

    class Text:
        def __init__(self, of, done=()):
            self.of, self.done = of, tuple(done)

        def replace(self, x, y):
            return Text(self.of, self.done + ((x, y),))
    t1, t2 = Text(1), Text(2)
    seen = []

    def c2l(self, s):
        seen.append(s)
        return a if len(seen) == 1 else b

    def ho(x, y, depth):
        prove('the lists are brought into one order, from the top', x is a and y is b and depth == 0, (x, y, depth))
        return x, y
    patch(R, 'config2list', c2l)
    patch(R, 'handle_orderless', staticmethod(ho))
    r = outcome(d.running2list, t1, t2)
    prove('the two lists', r.returned() and r.value[0] is a and r.value[1] is b, r)
    prove('both configs are parsed, with exit commands as they are entered',
          [(x.of, x.done) for x in seen] == [(1, tuple(map(tuple, REP))), (2, tuple(map(tuple, REP)))], [(x.of, x.done) for x in seen])
    cover('lists')


running2list.covers = ('lists',)


# ------------------------------------------------------------------ order-insensitive lines
@harness('runningconfig.RunningConfigDiff.handle_orderless', 'order-insensitive lines of two levels of any length', replay=False, max_time=300, max_paths=200000)
def orderless_any(c):
    M = RC()
    R = M.RunningConfigDiff
    real = R.handle_orderless
    w = moves.begin()
    depth = fint('depth')
    others = z3.Function('order-insensitive', z3.StringSort(), z3.BoolSort())
    c.assume(others(w.K) == w.ord)

    def match(line, d):
        prove('lines are looked up for the depth of the level', d == depth, d)
        return (True, fint('which')) if c.branch(others(zstr(line))) else (False, None)
    patch(R, 'match_orderless', staticmethod(match))

    def below(x, y, d):
        prove('the same is done for what stands below one line in both', isinstance(x, seqs.Children) and isinstance(y, seqs.Children) and x.base is w.first and y.base is w.second
              and SBool(w.first.key(x.i) == w.second.key(y.i)), (x, y))
        prove('one level deeper', d == depth + 1, d)
        cover('below')
        return x, y
    patch(R, 'handle_orderless', staticmethod(below))
    r = outcome(real, w.list1, w.second, depth)
    if not r.returned():
        if r.value in ('KeyError', 'ValueError', 'IndexError'):
            raise Kill()                  # the contract is about calls that return
        raise Unsupported('raises %s' % r.value)
    seqs.settled()
    st = w.list1.st
    prove('the lists given are the lists returned', r.value[0] is w.list1 and r.value[1] is w.second, r)
    prove('every line with what stands below it is in the first list as often as before', SBool(st['c'] == 1))
    prove('no other line is put in', SBool(z3.Not(st['foreign'])))
    prove('only a line declared order-insensitive that stands once in each is ever moved, so all others keep their order',
          SBool(z3.Implies(st['moved'], z3.And(w.ord, w.first.cnt(w.first.len_) == 1, w.second.cnt(w.second.len_) == 1))))
    for what, e in (('returns', z3.BoolVal(True)), ('moved', st['moved']), ('not moved', z3.Not(st['moved']))):
        if c.raw([e])[0] == z3.sat:
            cover(what)


orderless_any.covers = ('returns', 'below', 'moved', 'not moved')


# ------------------------------------------------------------------ the comparison of two lists of lines
@harness('runningconfig.ListDiff.compare', 'compare two levels of any length', replay=False, max_time=300, max_paths=200000)
def compare_any(c):
    M = RC()
    real = M.ListDiff.compare
    w = seqs.begin()
    a, b = seqs.Lines('first'), seqs.Lines('second')
    w.same = seqs.Same(a, b)
    # the levels below are compared by this very contract (induction over the nesting)
    patch(M.ListDiff, 'compare', staticmethod(lambda x, y: seqs.Compared(x, y)))
    r = outcome(real, a, b)
    seqs.settled()
    prove('returns', r.returned(), r)
    out = r.value
    if not isinstance(out, seqs.QList):
        raise Unsupported('a result of another kind')
    st = out.st
    prove('no diff exactly if the levels have the same lines with the same lines below in the same order', SBool((st['len'] == 0) == w.same.e))
    for s in (a, b):
        s.seen(s.len_)
    prove('additions minus removals of any line are the change of its number of occurrences', SBool(st['p'] - st['m'] == b.cnt(b.len_) - a.cnt(a.len_)))
    prove('every line comes from its config, with what stands below it there, and a line of both with the diff of what stands below', SBool(st['good']))
    prove('every line of a diff is marked as removed, added or of both', SBool(st['nq'] == st['len']))
    if bool(SBool(w.same.e)):
        cover('same')
    else:
        cover('different')


compare_any.covers = ('same', 'different')


def below_h(n1, n2):
    @harness('runningconfig.RunningConfigDiff.handle_orderless', 'what stands below %d and %d lines' % (n1, n2), bound='%d and %d lines of one level, any text, any lines below' % (n1, n2), max_time=300)
    def h(c):
        """order-insensitive lines are also looked for below every line of both that has lines below in both"""
        R = RC().RunningConfigDiff
        real = R.handle_orderless

        def level(name, n):
            out = []
            for i in range(n):
                kids = VList([Seg(lambda: (fstr('below'), None, ''))]) if choose(True, False) else None
                out.append((fstr('%s%d' % (name, i)), kids, ''))
            return out
        a, b = level('a', n1), level('b', n2)
        for l in (a, b):
            for i, x in enumerate(l):
                for y in l[:i]:
                    assume(not_(eqv(x[0], y[0])))
        depth, log = fint('depth'), []
        patch(R, 'match_orderless', staticmethod(lambda line, d: (False, None)))
        patch(R, 'handle_orderless', staticmethod(lambda x, y, d: log.append((x, y, d)) or (x, y)))
        r = outcome(real, VList(a), VList(b), depth)
        prove('returns', r.returned(), r)
        left = list(log)
        for x in a:
            for y in b:
                if x[1] is None or y[1] is None or not bool(eqv(x[0], y[0])):
                    continue
                if not bool(x[1]) or not bool(y[1]):
                    continue
                here = [l for l in left if l[0] is x[1] and l[1] is y[1]]
                prove('the same is done for what stands below a line of both', len(here) == 1 and eqv(here[0][2], depth + 1), log)
                left = [l for l in left if l not in here]
                cover('below')
        for l in left:
            prove('only for lines of both', any(l[0] is x[1] and l[1] is y[1] and bool(eqv(x[0], y[0])) for x in a for y in b), log)
        cover('returns')
    h.covers = ('returns', 'below')


for _a, _b in ((1, 1), (1, 2), (2, 1)):
    below_h(_a, _b)


def compare_h(n1, n2):
    @harness('runningconfig.ListDiff.compare', 'compare %d and %d lines' % (n1, n2), bound='%d and %d lines of one level, any text' % (n1, n2), max_time=300)
    def h(c):
        M = RC()
        k1 = [fstr('a%d' % i) for i in range(n1)]
        k2 = [fstr('b%d' % i) for i in range(n2)]
        l1, l2 = VList([(k, None, '') for k in k1]), VList([(k, None, '') for k in k2])
        r = outcome(M.ListDiff.compare, l1, l2)
        prove('returns', r.returned(), r)
        out = list(r.value.items) if isinstance(r.value, VList) else list(r.value)
        # a line not marked is in both
        same12 = n1 == n2 and all(bool(eqv(a, b)) for a, b in zip(k1, k2))
        prove('no diff exactly if the lines are the same in the same order', (not out) == same12, out)
        if same12:
            cover('same')
            return
        cover('different')
        for mark, mine, other in (('-', k1, k2), ('+', k2, k1)):
            for k in mine:
                # as often as it stands in one config more than in the other
                plus = len([o for o in out if o[2] == mark and bool(eqv(o[0], k))])
                minus = len([o for o in out if o[2] == {'-': '+', '+': '-'}[mark] and bool(eqv(o[0], k))])
                have = len([x for x in mine if bool(eqv(x, k))]) - len([x for x in other if bool(eqv(x, k))])
                prove('marks make up for the difference in number of every line', plus - minus == have, (k, out))
        for o in out:
            if o[2] in ('-', '+'):
                prove('a marked line comes from its config', any(bool(eqv(o[0], k)) for k in (k1 if o[2] == '-' else k2)), o)
            else:
                prove('an unmarked line is in both', any(bool(eqv(o[0], k)) for k in k1) and any(bool(eqv(o[0], k)) for k in k2), o)
    h.covers = ('same', 'different') if n1 == n2 else ('different',)


for _a, _b in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
    compare_h(_a, _b)
