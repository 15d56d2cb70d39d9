"""C12: CLI generation."""
import itertools, random, re
from harness import base                                        # noqa: F401
from bounded import c11
BOUND = ('all pairs of flat configs of <= 2 lines from 17 commands related by prefix, negation, shortening and overwriting; random trees '
         'of depth <= 4, <= 6 lines per section')

FLAT = ['snmp x', 'snmp x y', 'snmp', 'no snmp x', 'no snmp', 'ip address 1.1.1.1 255.0.0.0', 'ip address 2.2.2.2 255.0.0.0', 'no ip address',
        'ipv6 address 1::1/64', 'description one', 'description two', 'transport input ssh', 'transport input all', 'password 1', 'no transport output none',
        'ip multicast-routing', 'ip multicast-routing vrf a']
SHORT = ['no license boot level', 'no transport input', 'no transport output', 'no ip address', 'no ipv6 address']
OVER = [r'username \S+ privilege [0-9]+ password ', r'password ', r'description ', r'ip address( |$)', r'ipv6 address( |$)']


def gen(rng, depth=0):
    n = rng.choice([0, 1, 2, 3, 5])
    pool = FLAT + (['username u privilege 1 password a', 'username u privilege 1 password b', 'license boot level x', 'license boot level'] if depth == 0 else [])
    pool = pool + (['interface Gi1', 'interface Gi2', 'no interface Gi3', 'ntp server 1', 'router bgp 1'] if depth == 0 else ['address-family a', 'address-family b'])
    out, seen = [], set()
    for _ in range(n + (depth == 0)):
        l = rng.choice(pool)
        if l in seen:
            continue
        seen.add(l)
        sect = not any(l.startswith(x) for x in ('snmp', 'no ', 'ip', 'desc', 'trans', 'pass', 'user', 'lic', 'ntp'))
        k = gen(rng, depth + 1) if depth < 3 and rng.random() < (.8 if sect else 0 if over(l) else .05) else None
        out.append((l, k or None))
    return out


def mutate(rng, t, depth=0):
    t = [(l, mutate(rng, k, depth + 1) or None if k and rng.random() < .8 else k) for l, k in t]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < .4 and t:
            del t[rng.randrange(len(t))]
        elif r < .8:
            for x in gen(rng, depth)[:1]:
                if x[0] not in [l for l, _ in t]:
                    t.insert(rng.randrange(len(t) + 1), x)
        elif len(t) > 1:
            x = t.pop(rng.randrange(len(t)))
            t.insert(rng.randrange(len(t) + 1), x)
    return t


def cases(tier, rng):
    k = 2
    seqs = [list(p) for n in range(k + 1) for p in itertools.permutations(FLAT, n)]
    if tier == 'quick':
        for a in seqs:
            for b in rng.sample(seqs, 12):
                yield {'a': [[l, None] for l in a], 'b': [[l, None] for l in b]}
    else:
        for a in seqs:
            for b in seqs:
                yield {'a': [[l, None] for l in a], 'b': [[l, None] for l in b]}
    for i in range(40000 if tier == 'quick' else 80000):
        a = gen(rng)
        yield {'a': a, 'b': mutate(rng, a) if rng.random() < .8 else gen(rng)}


def image(line, sign):
    """the command a diff line stands for, and whether it is negative"""
    c = line if sign == '+' else ('no ' + line if not line.startswith('no ') else line[3:])
    c = c.strip()
    for s in SHORT:
        if c == s or c.startswith(s + ' '):
            return s, True
    return c, c.startswith('no ')


def parse(lines, ind=0):
    """nested list from cli text indented by two blanks per level"""
    out, i = [], 0
    while i < len(lines):
        l = lines[i]
        if len(l) - len(l.lstrip(' ')) != ind:
            raise ValueError('wrong indentation: %r' % l)
        j = i + 1
        while j < len(lines) and len(lines[j]) - len(lines[j].lstrip(' ')) > ind:
            j += 1
        out.append((l.strip(), parse(lines[i + 1:j], ind + 2)))
        i = j
    return out


def raw(v):
    return [(k, raw(x) if x else []) for k, x, _ in v or []]


def over(c):
    for r in OVER:
        m = re.match(r, c)
        if m:
            return m.group(0).strip()
    return None


def level(d, pos, neg, path):
    """d: diff entries of one section; pos/neg: issued commands of this section"""
    origins = {}
    secs = [(k, v) for k, v, i in d if v is not None and i == '']
    for k, v, i in d:
        if i == '-' or (i == '+' and v is None):
            origins.setdefault(image(k, i), []).append((k, i))
    added_secs = [(k, raw(v)) for k, v, i in d if v is not None and i == '+']
    for what, cmds in (('positive', pos), ('negative', neg)):
        seen_sec = []
        for c, kids in cmds:
            isneg = what == 'negative'
            if c.startswith('no no '):
                return '%s: %r issued' % (path, c)
            if kids or (c, isneg) not in origins and any(k == c for k, _ in secs + added_secs):
                if not isneg and (c, kids) in added_secs:
                    continue
                sub = [v for k, v in secs if k == c]
                if not sub or not kids:
                    return '%s: section %r %r issued without a reason' % (path, c, kids)
                seen_sec.append(c)
                continue
            if (c, isneg) not in origins and not (not isneg and (c, []) in added_secs):
                return '%s: %s command %r does not come from a diff line of this section' % (path, what, c)
    pflat, nflat = [c for c, k in pos if not k], [c for c, k in neg if not k]
    pheads = [c for c, k in pos]
    addleaf = [k for k, v, i in d if i == '+' and v is None]
    for k, v, i in d:
        if i == '' or (v is not None and i == '+'):
            if v is not None and i == '+' and (k, raw(v)) not in pos:
                # overridden by a later command
                if not (over(k) and any(over(c) == over(k) for c in pheads)):
                    return '%s: added section %r not issued' % (path, k)
            continue
        c, isneg = image(k, i)
        if c in (nflat if isneg else pflat):
            continue
        if i == '+':
            if isneg:
                ok = any(c.startswith(x) for x in nflat) or (over(c[3:]) and any(over(x) == over(c[3:]) for x in pheads))
            else:
                ok = any(x.startswith(c) for x in pflat) or (over(c) and any(over(x) == over(c) for x in pheads))
            if not ok:
                return '%s: added line %r neither issued nor overridden (positive %s, negative %s)' % (path, k, pos, neg)
        else:
            ok = any(x.startswith(k) for x in addleaf)
            if isneg:
                ok = ok or any(c.startswith(x) for x in nflat) or (over(c[3:]) and any(over(x) == over(c[3:]) for x in pheads))
            else:
                ok = ok or any(x.startswith(c) for x in pflat) or (over(c) and any(over(x) == over(c) for x in pheads))
            if not ok:
                return '%s: removed line %r neither negated nor covered (positive %s, negative %s)' % (path, k, pos, neg)
    for k, v in secs:
        sp = [kids for c, kids in pos if c == k and kids]
        sn = [kids for c, kids in neg if c == k and kids]
        r = level(v, sp[0] if sp else [], sn[0] if sn else [], path + [k])
        if r:
            return r
    return None


def check(case):
    from ncdiff.runningconfig import RunningConfigDiff
    ta, tb = '\n'.join(c11.text(case['a'])), '\n'.join(c11.text(case['b']))
    r = RunningConfigDiff(ta, tb)
    for nm, d, cli in (('cli', r.diff, r.cli), ('cli_reverse', r.diff_reverse, r.cli_reverse)):
        lines = cli.splitlines()
        if '!' in lines:
            i = lines.index('!')
            neg, pos = [(parse(lines[:i]), parse(lines[i + 1:]))], None
            neg, pos = neg[0]
            if not neg or not pos:
                return '%s: separator without commands on both sides' % nm
            tries = [(pos, neg)]
        else:
            x = parse(lines)
            tries = [(x, []), ([], x)]
        if not d:
            if cli:
                return '%s is not empty for an empty diff' % nm
            continue
        msgs = [level(d, p, n, []) for p, n in tries]
        if all(msgs):
            return '%s\n%s\n--\n%s\n-- diff\n%s\n-- cli\n%s\n%s' % (nm, ta, tb, d, cli, msgs)
    return None
