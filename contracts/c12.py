"""C12: contracts of the functions that turn diff lines into commands."""
from pyvc.contract import *


SHORT = ['no license boot level ', 'no transport input ', 'no transport output ', 'no ip address ', 'no ipv6 address ']


def is_no(s):
    return s.startswith('no ')


@harness('runningconfig.RunningConfigDiff.handle_command')
def handle_command(c):
    cmd = inp('cmd', lambda: fstr('cmd'))
    RC = module('runningconfig').RunningConfigDiff
    o = outcome(RC.handle_command, cmd)
    prove('never raises', o.returned())
    out, no = o.value
    short = SHORT
    nono = cmd.startswith('no no ')
    is_short = and_(not_(nono), or_(*[cmd.startswith(s) for s in short]))
    prove("a command is negative iff it starts with 'no ' and not with 'no no '", eqv(no, and_(not_(nono), is_no(cmd))) if isinstance(no, SBool) else (and_(not_(nono), is_no(cmd)) if no else not_(and_(not_(nono), is_no(cmd)))))
    prove("'no no x' is issued as x", implies(nono, eqv(out, cmd[6:].strip())))
    for s in short:
        prove('commands negated without arguments are shortened', implies(and_(not_(nono), cmd.startswith(s)), eqv(out, s.strip())))
    prove('any other command is issued as it is', implies(and_(not_(nono), not_(is_short)), eqv(out, cmd.strip())))


def RC():
    return module('runningconfig')


@harness('runningconfig.RunningConfigDiff.append_command', 'append_command')
def append_command(c):
    M = RC()
    R = M.RunningConfigDiff
    cmd, out, no = fstr('cmd'), fstr('command to issue'), choose(True, False)

    def hc(x):
        prove('the command itself is handled', x is cmd)
        return out, no
    patch(R, 'handle_command', staticmethod(hc))
    old = [Seg(lambda: fstr('other negative'), name='negatives')], [Seg(lambda: fstr('other positive'), name='positives')]
    neg, pos = VList(list(old[0])), VList(list(old[1]))
    r = outcome(R.append_command, cmd, neg, pos)
    prove('returns', r.returned(), r)
    a, b = (neg, pos) if no else (pos, neg)
    o1, o2 = (old[0], old[1]) if no else (old[1], old[0])
    prove('the command comes last in its list', len(a.items) == 2 and a.items[0] is o1[0] and a.items[1] is out, a.items)
    prove('the other list stays', len(b.items) == 1 and b.items[0] is o2[0], b.items)
    cover('negative' if no else 'positive')


append_command.covers = ('negative', 'positive')


@harness('runningconfig.RunningConfigDiff.get_cli', 'get_cli')
def get_cli(c):
    M = RC()
    R = M.RunningConfigDiff
    d = R('', '')
    back = choose(True, False)
    D = choose(['diff'], None)
    pos, neg = choose(fstr('positive'), ''), choose(fstr('negative'), '')
    for s in (pos, neg):
        if isinstance(s, SStr):
            assume(not_(eqv(s, '')))

    def gd(self, reverse=False):
        prove('the diff of the asked direction', bool(reverse) == back, reverse)
        return D
    patch(R, 'get_diff', gd)

    def l2c(self, l):
        prove('the commands of the diff', l is D)
        return pos, neg
    patch(R, 'list2cli', l2c)
    r = outcome(d.get_cli, reverse=back) if choose(True, False) else outcome(lambda: d.cli_reverse if back else d.cli)
    prove('returns', r.returned(), r)
    v = r.value
    if D is None:
        prove('no diff, no command', v == '', r)
        cover('none')
    elif isinstance(pos, SStr) and isinstance(neg, SStr):
        prove('negative commands first, then a line of its own, then positive ones', eqv(v, SStr(z3.Concat(zstr(neg), z3.StringVal('\n!\n'), zstr(pos)))), r)
        cover('both')
    else:
        prove('the commands of the one kind there is', eqv(v, pos if isinstance(pos, SStr) else neg), r)
        cover('one')


get_cli.covers = ('none', 'both', 'one')


def cut(c, M):
    """contracts of the callees of list2cli"""
    R = M.RunningConfigDiff
    patch(M, 'OVERWRITABLE_COMMANDS', VList([]))            # the case that no command is overwritable
    patch(R, 'handle_command', staticmethod(lambda x: (SStr(OUT(zstr(x))), bool(SBool(NEG(zstr(x)))))))
    patch(R, 'remove_duplicate_cammands', staticmethod(lambda l: None))
    patch(R, 'remove_unnecessary_negative_commands', staticmethod(lambda l: None))
    patch(R, 'remove_unnecessary_positive_commands', staticmethod(lambda l: None))
    patch(R, 'indent', lambda self, s: SStr(IND(zstr(s))))
    return R


STR = z3.StringSort()
OUT, NEG = z3.Function('issued', STR, STR), z3.Function('negative', STR, z3.BoolSort())
IND = z3.Function('indented', STR, STR)


def NO(k):
    return SStr(z3.Concat(z3.StringVal('no '), zstr(k)))


@harness('runningconfig.RunningConfigDiff.list2cli', 'one line of a diff', bound='one entry, not overwritable')
def line(c):
    M = RC()
    R = cut(c, M)
    k = fstr('line')
    assume(not_(eqv(k, '')))
    mark = choose('+', '-', '')
    d = R('', '')
    r = outcome(d.list2cli, VList([(k, None, mark)]))
    prove('returns', r.returned(), r)
    if not r.returned():
        return
    pos, neg = r.value
    if mark == '':
        prove('a line in both configs gives no command', and_(eqv(pos, ''), eqv(neg, '')), r)
        cover('same')
        return
    x = k if mark == '+' else NO(k)
    want = SStr(OUT(zstr(x)))
    if bool(SBool(NEG(zstr(x)))):
        prove('a negative command', and_(eqv(neg, want), eqv(pos, '')), r)
        cover('negative')
    else:
        prove('a positive command', and_(eqv(pos, want), eqv(neg, '')), r)
        cover('positive')


line.covers = ('same', 'negative', 'positive')


@harness('runningconfig.RunningConfigDiff.list2cli', 'one section of a diff', bound='one entry, not overwritable')
def section(c):
    M = RC()
    R = cut(c, M)
    real = R.list2cli
    k = fstr('line')
    assume(not_(eqv(k, '')))
    mark = choose('+', '-', '')
    sub = VList([Seg(lambda: (fstr('sub'), None, fstr('mark')))])
    p, n = choose(fstr('positive below'), ''), choose(fstr('negative below'), '')
    body = choose(fstr('body'), '')
    d = R('', '')

    def l2c(self, l):
        if l is sub:
            return p, n
        return real(self, l)

    def l2s(self, l, diff_type=None):
        prove('the lines below are written without marks', l is sub and diff_type is None, (l, diff_type))
        return body
    patch(R, 'list2cli', l2c)
    patch(R, 'list2config', l2s)
    for s in (p, n):
        if isinstance(s, SStr):
            assume(not_(eqv(s, '')))
    r = outcome(d.list2cli, VList([(k, sub, mark)]))
    prove('returns', r.returned(), r)
    if not r.returned():
        return
    pos, neg = r.value
    if mark == '':
        for got, below, kind in ((pos, p, 'positive'), (neg, n, 'negative')):
            if isinstance(below, SStr):
                prove('%s commands below a line are issued under it' % kind, got.startswith(SStr(z3.Concat(zstr(k), z3.StringVal('\n')))) if not isinstance(got, str) else False, r)
                cover(kind + ' below')
            else:
                prove('no %s commands without one below' % kind, eqv(got, ''), r)
    elif mark == '+':
        prove('a new section is positive', eqv(neg, ''), r)
        prove('a new section begins with its line', pos.startswith(k), r)
        cover('new')
    else:
        prove('an old section goes by its line', or_(and_(eqv(neg, SStr(OUT(zstr(NO(k))))), eqv(pos, '')), and_(eqv(pos, SStr(OUT(zstr(NO(k))))), eqv(neg, ''))), r)
        cover('old')


section.covers = ('positive below', 'negative below', 'new', 'old')


def dedupe_h(n):
    @harness('runningconfig.RunningConfigDiff.remove_duplicate_cammands', '%d commands' % n, bound='%d commands, any text' % n)
    def h(c):
        M = RC()
        ks = [fstr('c%d' % i) for i in range(n)]
        l = VList(list(ks))
        r = outcome(M.RunningConfigDiff.remove_duplicate_cammands, l)
        prove('returns', r.returned(), r)
        want = []
        for k in ks:
            if not any(bool(eqv(k, w)) for w in want):
                want.append(k)
        prove('every command once, where it stood first', len(l.items) == len(want) and all(a is b for a, b in zip(l.items, want)), (l.items, want))
        cover('once')
    h.covers = ('once',)


for _n in (1, 2, 3, 4):
    dedupe_h(_n)


def subsumed_h(kind, n):
    @harness('runningconfig.RunningConfigDiff.remove_unnecessary_%s_commands' % kind, '%s, %d commands' % (kind, n), bound='%d commands, any text' % n)
    def h(c):
        M = RC()
        ks = [fstr('c%d' % i) for i in range(n)]
        for k in ks:
            assume(not_(contains(k, '\n')))
        for i in range(n):
            for j in range(i):
                assume(not_(eqv(ks[i], ks[j])))
        coexist = list(M.COEXIST_SHORT_POSITIVE_COMMANDS.items if isinstance(M.COEXIST_SHORT_POSITIVE_COMMANDS, VList) else M.COEXIST_SHORT_POSITIVE_COMMANDS)
        l = VList(list(ks))
        r = outcome(getattr(M.RunningConfigDiff, 'remove_unnecessary_%s_commands' % kind), l)
        prove('returns', r.returned(), r)
        want = []
        free = [kind == 'positive' and any(bool(eqv(k, x)) for x in coexist) for k in ks]
        for i in range(n):
            def covers(j):
                if i == j or free[i] or free[j]:
                    return False
                a, b = (ks[j], ks[i]) if kind == 'negative' else (ks[i], ks[j])
                return bool(b.startswith(a))                      # b is longer: no two are equal
            if not any(covers(j) for j in range(n)):
                want.append(ks[i])
        prove({'negative': 'a command goes exactly if a shorter one undoes it too', 'positive': 'a command goes exactly if a longer one says it too'}[kind],
              len(l.items) == len(want) and all(a is b for a, b in zip(l.items, want)), (l.items, want))
        cover('done')
    h.covers = ('done',)


for _k in ('negative', 'positive'):
    for _n in (2,):
        subsumed_h(_k, _n)


def among_h(mark, others):
    """one line of a diff among any number of others"""
    def h(c):
        M = RC()
        R = cut(c, M)
        c.widen = True
        k = fstr('line')
        assume(not_(eqv(k, '')))
        x = k if mark == '+' else NO(k)

        def other():
            o = fstr('other line')
            if mark == '-':
                assume(not_(o.startswith(k)))            # else the removal is part of setting the new value
            return (o, None, others)
        d = R('', '')
        neg = bool(SBool(NEG(zstr(x))))
        r = outcome(d.list2cli, VList([Seg(other, name='before'), (k, None, mark), Seg(other, name='after')]))
        prove('returns', r.returned(), r)
        if not r.returned():
            return
        w = SStr(OUT(zstr(x)))

        def lines(v):
            if isinstance(v, str):
                return [v] if v else []
            for sep, xs, s in getattr(c, 'joined', ()):
                if s is v:
                    prove('one command per line', sep == '\n', sep)
                    return xs
            return [v]
        mine, theirs = (r.value[1], r.value[0]) if neg else r.value
        has = lambda v: [y for y in lines(v) if not isinstance(y, Seg) and bool(eqv(y, w))]
        prove('the command of the line is issued once, as %s' % ('a negative one' if neg else 'a positive one'), len(has(mine)) == 1, r)
        prove('and not the other way round', not has(theirs), r)
        cover('negative' if neg else 'positive')
    h.__module__ = __name__
    h.covers = ('negative', 'positive')
    harness('runningconfig.RunningConfigDiff.list2cli', 'a %s line among any number of %s lines' % ({'+': 'new', '-': 'removed'}[mark], {'+': 'new', '-': 'removed', '': 'other'}[others]))(h)


for _m in '+-':
    for _o in ('+', '-', ''):
        among_h(_m, _o)
