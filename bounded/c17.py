"""C17: operations in deltas, options, reordering."""
import random
from harness.base import *
from bounded.c01 import pairs, wrap, OPTS, TYPES
BOUND = 'config pairs of C01 x all preferred operations x minimum and replace (depth 0-3) deltas; random depths 0-4 x seeds; option values inside and outside the documented sets'


def cases(tier, rng):
    bad = [('preferred_create', 'delete'), ('preferred_create', None), ('preferred_create', 'MERGE'), ('preferred_replace', 'create'), ('preferred_replace', 'delete'), ('preferred_replace', ''),
           ('preferred_delete', 'merge'), ('preferred_delete', 'create'), ('preferred_delete', None), ('random_depth', -1), ('random_depth', 'x'), ('random_depth', 1.5), ('random_seed', 'x'), ('random_seed', 2.5)]
    for k, v in bad:
        yield {'what': 'bad', 'k': k, 'v': v}
    combos = [dict(o, **t) for o in OPTS for t in TYPES]
    i = 0
    for a, b in pairs(tier, rng):
        for k in range(6 if tier == 'quick' else len(combos)):
            yield {'what': 'ops', 'a': a, 'b': b, 'opts': combos[(i * 7 + k * 13) % len(combos)]}
            i += 1
        if i % 6 == 0:
            yield {'what': 'random', 'a': a, 'b': b, 'depth': rng.randrange(0, 5), 'seed': rng.choice([None, 0, 1, 2222, rng.randrange(10 ** 6)])}


def np(s):
    return s.kw == 'container' and not s.presence


def by_default(c):
    """a leaf or leaf-list below a non-presence container that exists by default: it has a default, and is in no choice or in default cases only"""
    return c.kw in ('leaf', 'leaf-list') and bool(c.defaults) and all(schema().choice_default[ch] == ca for ch, ca in c.cases)


def appear(e, s, op):
    """operation marks of a subtree that must appear"""
    if op == 'create' and np(s):
        if e.get(OP) is not None:
            return 'create on non-presence container %s' % e.tag
        for c in e:
            cs = s.kids[c.tag]
            if by_default(cs):
                if c.get(OP) is not None:
                    return '%s exists by default and carries %s' % (c.tag, c.get(OP))
                continue
            r = appear(c, cs, op)
            if r:
                return r
        return None
    want = None if op == 'merge' else op
    if e.get(OP) != want:
        return 'new node %s carries %s instead of %s' % (e.tag, e.get(OP), want)
    for x in e.iterdescendants():
        if x.get(OP) is not None:
            return 'node %s below new node %s carries %s' % (x.tag, e.tag, x.get(OP))
    return None


def vanish(e, s, op, src):
    if np(s) and op == 'delete':
        if e.get(OP) is not None:
            return 'delete on non-presence container %s' % e.tag
        us = set()
        for c in e:
            cs = s.kids[c.tag]
            u = uid_of(cs, c)
            us.add(u)
            r = vanish(c, cs, op, src.kids[u] if isinstance(src.kids.get(u), T) else None) if u in src.kids else 'deleted node %s is not in the source' % c.tag
            if r:
                return r
        if us != set(src.kids):
            return 'children of vanishing container %s not all deleted' % e.tag
        return None
    if e.get(OP) != op:
        return 'vanishing node %s carries %s instead of %s' % (e.tag, e.get(OP), op)
    if s.kw == 'list':
        if sorted(c.tag for c in e) != sorted(s.key_tags()) or any(c.get(OP) for c in e):
            return 'deleted list entry %s does not name exactly its keys' % e.tag
    elif len(e):
        return 'deleted node %s has children' % e.tag
    return None


def lists(t, tag):
    return [u[1] for u in t.kids if u[0] == tag]


def walk(edit, src, dst, o, depth):
    """edit: element of the delta common to both configs; depth of its children is depth+1"""
    for c in edit:
        s = schema().child(src.sn, c.tag)
        u = uid_of(s, c)
        op = c.get(OP)
        ins, ind = u in src.kids, u in dst.kids
        if not ins and not ind:
            return '%s is in neither config' % (u,)
        if ind and not ins:
            if o['diff_type'] == 'replace':
                r = None if op == 'replace' else 'new node %s carries %s in a replace delta' % (u, op)
            else:
                r = appear(c, s, o['preferred_create'])
        elif ins and not ind:
            r = vanish(c, s, o['preferred_delete'], src.kids[u] if isinstance(src.kids[u], T) else None)
        else:
            a, b = src.kids[u], dst.kids[u]
            if s.is_key:
                r = None if op is None else 'key %s carries %s' % (u, op)
            elif o['diff_type'] == 'replace' and depth == o['replace_depth']:
                r = None if op == 'replace' else '%s at replace depth carries %s' % (u, op)
                if r is None and any(x.get(OP) for x in c.iterdescendants()):
                    r = 'operation below replaced node %s' % (u,)
            elif s.kw == 'leaf':
                w = None if o['preferred_replace'] == 'merge' else 'replace'
                r = None if op == w else 'changed leaf %s carries %s instead of %s' % (u, op, w)
                if a == b:
                    r = 'unchanged leaf %s is in the delta' % (u,)
            elif s.kw == 'leaf-list':
                r = None if op is None else 'leaf-list entry %s carries %s' % (u, op)
                if not s.user:
                    r = 'unchanged leaf-list entry %s is in the delta' % (u,)
            else:
                if op == 'replace' and o['preferred_replace'] == 'replace' and any(
                        (lists(a, t) != lists(b, t) if k.user else set(lists(a, t)) != set(lists(b, t))) and lists(a, t) and lists(b, t)
                        for t, k in s.kids.items() if k.kw == 'leaf-list'):
                    if any(x.get(OP) for x in c.iterdescendants()):
                        return 'operation below replaced node %s' % (u,)
                    if tree(c, s) != b:
                        return 'replaced node %s does not hold the wanted content' % (u,)
                    continue
                r = None if op is None else '%s carries %s' % (u, op)
                if r is None:
                    r = walk(c, a, b, o, depth + 1)
        if r:
            return r
    return None


def shape(e, depth, at):
    """content with the children at depth `at` as a multiset"""
    kids = [shape(c, depth + 1, at) for c in e]
    if depth == at:
        kids = sorted(kids, key=repr)
    return (e.tag, e.text, tuple(sorted(e.attrib.items())), tuple(kids))


def check(case):
    from ncdiff import ConfigDelta
    m = device()
    if case['what'] == 'bad':
        A = Config(m, wrap('<vt:two><vt:a>p</vt:a></vt:two>'))
        kw = {case['k']: case['v']}
        if case['k'] == 'random_seed':
            kw['random_depth'] = 1
        try:
            ConfigDelta(A, Config(m), **kw)
        except ValueError:
            return None
        return '%s=%r accepted' % (case['k'], case['v'])
    A, B = Config(m, case['a']), Config(m, case['b'])
    if case['what'] == 'ops':
        d = ConfigDelta(A, B, **case['opts'])
        nc = d.nc
        if nc.get(OP) is not None:
            return 'the config root carries an operation'
        o = case['opts']
        for e in nc.iter():
            op = e.get(OP)
            if op in ('create', 'delete') and e is not nc:
                s = sn_at(e)
                if np(s):
                    return '%s on non-presence container %s' % (op, e.tag)
            if op not in (None, 'create', 'replace', 'delete', 'remove'):
                return 'operation %r' % op
        r = walk(nc, tree(A.ele), tree(B.ele), o, 0)
        return r and '%s\n%s\n%s\n%s' % (r, A, B, d)
    d0 = ConfigDelta(A, B)
    plain = d0.nc
    d = ConfigDelta(A, B, random_depth=case['depth'], random_seed=case['seed'])
    if d.random_seed is None:
        return 'no seed chosen'
    if case['seed'] is not None and d.random_seed != case['seed']:
        return 'seed %s became %s' % (case['seed'], d.random_seed)
    x, y = d.nc, d.nc
    if exact(x) != exact(y):
        return 'two renderings with the same seed differ'
    z = ConfigDelta(A, B, random_depth=case['depth'], random_seed=d.random_seed).nc
    if exact(x) != exact(z):
        return 'not reproducible from the seed'
    if shape(x, 0, case['depth']) != shape(plain, 0, case['depth']):
        return 'randomising changed more than the order at depth %d\n%s\n%s' % (case['depth'], ser(plain), ser(x))
    for e in x.iter():
        if e is x:
            continue
        s = sn_at(e)
        if s.kw == 'list':
            ks = [c.tag in s.key_tags() for c in e]
            if ks != sorted(ks, reverse=True):
                return 'keys of %s do not come first' % e.tag
    return None


def sn_at(x):
    from bounded.c01 import sn_of
    return sn_of(x)
