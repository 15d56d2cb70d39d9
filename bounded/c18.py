"""C18: compiled schema agrees with the YANG text; recompiling gives an equal model."""
import random
from harness.base import *
BOUND = ('randomly generated module sets (module + submodule + augmenting module + augmenting submodule, groupings with '
         'refine, typedefs, nested choices, rpcs, notifications, deviations) of up to ~40 nodes each, and the mini models')

DATA = ('container', 'list', 'leaf', 'leaf-list', 'choice', 'case', 'anyxml', 'anydata')


def gen_nodes(r, pre, depth, n, cfg=True, groupings=(), state=None):
    out = []
    for i in range(n):
        nm = '%s%d' % (pre, i) if r.random() < .8 else '%s-%d.x_y' % (pre, i)
        k = r.choice(['container', 'list', 'leaf', 'leaf', 'leaf-list', 'choice', 'anyxml', 'uses'] if depth else ['leaf', 'leaf-list', 'leaf', 'anyxml'])
        b = ''
        c = cfg
        if r.random() < .2:
            st = r.choice(['deprecated', 'obsolete', 'current'])
            b += 'status %s; ' % st
        if c and r.random() < .25 and k not in ('uses',):
            b += 'config false; '
            c = False
        elif c and r.random() < .1 and k != 'uses':
            b += 'config true; '
        if k == 'leaf':
            t = r.choice(['string', 'int32', 'boolean', 'empty', 'enumeration { enum a; enum b; }', 'identityref { base bid; }', 'td'])
            b += 'type %s ' % t + ('' if t.endswith('}') else ';')
            if t == 'string' and r.random() < .4:
                b += 'default "d%d"; ' % i
            elif r.random() < .2:
                b += 'mandatory true; '
        elif k == 'leaf-list':
            b += 'type string; '
            if c and r.random() < .5:
                b += 'ordered-by %s; ' % r.choice(['user', 'system'])
            if c and r.random() < .3:
                b += 'default "x"; ' + ('default "y"; ' if r.random() < .5 else '')
        elif k == 'container':
            if r.random() < .4:
                b += 'presence "p"; '
            b += gen_nodes(r, nm.replace('.', '_') + 'c', depth - 1, r.randrange(4), c, groupings)
        elif k == 'list':
            kn = nm.replace('.', '_') + 'k'
            if c or r.random() < .7:
                two = r.random() < .4
                b += 'key "%s%s"; ' % (kn, ' ' + kn + '2' if two else '')
                b += 'leaf %s { type string; } ' % kn + ('leaf %s2 { type string; } ' % kn if two else '')
            if c and r.random() < .5:
                b += 'ordered-by %s; ' % r.choice(['user', 'system'])
            b += gen_nodes(r, nm.replace('.', '_') + 'l', depth - 1, r.randrange(4), c, groupings)
        elif k == 'choice':
            n2 = nm.replace('.', '_')
            cs = ''
            for j in range(r.randrange(1, 4)):
                if r.random() < .5:
                    cs += 'case %sk%d { %s } ' % (n2, j, gen_nodes(r, '%sk%dn' % (n2, j), depth - 1, r.randrange(3), c, groupings))
                else:
                    cs += 'leaf %ss%d { type string; } ' % (n2, j)
            b += cs
        elif k == 'anyxml':
            pass
        if k == 'uses':
            if not groupings:
                continue
            g, gk = groupings[r.randrange(len(groupings))]
            out.append('container %s { uses %s { %s } }' % (nm, g, ('refine %s { default "ref"; }' % gk) if r.random() < .5 else ''))
        else:
            out.append('%s %s { %s }' % (k, nm, b) if b else '%s %s;' % (k, nm))
    return '\n'.join(out)


def gen_modules(seed):
    r = random.Random(seed)
    ms = {}
    sub = r.random() < .5
    gs = [('g1', 'gl')]
    ms['ga'] = '''module ga { yang-version 1.1; namespace "urn:ga"; prefix pa; %s
  revision 2024-01-01;
  identity bid; identity bid1 { base bid; } identity bid2 { base bid; }
  typedef td { type string { length "1..5"; } default "tdd"; }
  grouping g1 { leaf gl { type string; } list gll { key k; ordered-by user; leaf k { type string; } container gc { presence "y"; } } }
  container root { %s container anchor { %s } }
  %s
  rpc r1 { %s %s }
  rpc r2;
  notification n1 { %s }
}''' % ('include ga-sub;' if sub else '', gen_nodes(r, 'a', 2, 4, True, gs),
        gen_nodes(r, 'an', 1, 2, True, gs), gen_nodes(r, 't', 3, 4, True, gs),
        'input { %s }' % gen_nodes(r, 'i', 2, 2, True, gs) if r.random() < .8 else '',
        'output { leaf oo { type string; } %s }' % gen_nodes(r, 'o', 2, 2, True, gs) if r.random() < .8 else '',
        gen_nodes(r, 'nn', 2, 3, True, gs))
    # input/output need at least one node
    ms['ga'] = re.sub(r'(in|out)put \{\s*\}', '', ms['ga'])
    if sub:
        ms['ga-sub'] = '''submodule ga-sub { yang-version 1.1; belongs-to ga { prefix pa; }
  revision 2024-01-01;
  identity sid; typedef tdx { type string; }
  container subtop { leaf s1 { type string; } list sl { key k; leaf k { type int32; } } }
  rpc rs;
}'''
    if r.random() < .8:
        ms['gb'] = '''module gb { yang-version 1.1; namespace "urn:gb"; prefix pb; import ga { prefix a; } %s
  revision 2024-02-01;
  identity bid { base a:bid; } typedef td { type string; }
  augment "/a:root" { %s }
  augment "/a:root/a:anchor" { leaf x { type string; } }
  container btop { uses a:g1; }
}''' % ('include gb-sub;' if r.random() < .4 else '', gen_nodes(r, 'b', 2, 3, True))
        if 'include gb-sub' in ms['gb']:
            ms['gb-sub'] = '''submodule gb-sub { yang-version 1.1; belongs-to gb { prefix pb; } import ga { prefix a; }
  revision 2024-02-01;
  augment "/a:root/a:anchor" { container fromsub { presence "q"; leaf y { type string; } } }
}'''
    if r.random() < .3:
        ms['gd'] = '''module gd { yang-version 1.1; namespace "urn:gd"; prefix pd; import ga { prefix a; }
  revision 2024-02-01;
  deviation "/a:root/a:anchor" { deviate add { must "true()"; } }
}'''
    if r.random() < .4:
        # a module that has nothing to do with the others, and the prefix of one of them
        ms['gz'] = '''module gz { yang-version 1.1; namespace "urn:gz"; prefix %s;
  revision 2024-02-01;
  container root { leaf a0 { type string; } }
}''' % r.choice(['pa', 'pb'])
        if r.random() < .5:
            ms = {'gz': ms.pop('gz'), **ms}
    return ms


def cases(tier, rng):
    yield {'kind': 'mini'}
    for i in range(250 if tier == 'quick' else 3000):
        yield {'kind': 'gen', 'seed': rng.randrange(10 ** 9)}


def pyang_ctx(folder, names):
    from pyang.context import Context
    from pyang.repository import FileRepository
    ctx = Context(FileRepository(folder, use_env=False, no_path_recurse=True))
    for m in names:
        ctx.add_module(m + '.yang', open(os.path.join(folder, m + '.yang')).read())
    ctx.validate()
    return ctx


def oracle(mod, mods):
    """list of (path, attributes) in the module's tree, from the YANG statements"""
    ns = {}
    for m in mods.values():
        if m.keyword == 'module':
            ns[m.arg] = m.search_one('namespace').arg
    out = {}

    def nsof(s):
        m = s.i_module
        return ns[m.i_including_modulename if m.keyword == 'submodule' and getattr(m, 'i_including_modulename', None) else m.i_modulename]

    def rec(s, path, where):
        p = path + ('{%s}%s' % (nsof(s), s.arg),)
        if p in out:
            raise RuntimeError('oracle: duplicate ' + str(p))
        a = {'type': s.keyword}
        kw = s.keyword
        if where in ('input', 'rpc'):
            a['access'] = 'write'
        elif where in ('output', 'notification'):
            a['access'] = 'read-only'
        else:
            cfg, q = True, s
            while q is not None and q.keyword not in ('module', 'submodule'):
                c = q.search_one('config')
                if c is not None and c.arg == 'false':
                    cfg = False
                q = q.parent
            a['access'] = 'read-write' if getattr(s, 'i_config', cfg) else 'read-only'
            if kw in ('container', 'list', 'leaf', 'leaf-list') and not cfg and a['access'] == 'read-write':
                raise RuntimeError('oracle config')
        if kw == 'container':
            a['presence'] = 'true' if s.search_one('presence') else None
        if kw == 'list':
            a['key'] = s.search_one('key').arg if s.search_one('key') else None
        if kw in ('list', 'leaf-list'):
            ob = s.search_one('ordered-by')
            a['ordered-by'] = 'user' if ob and ob.arg == 'user' else None
        st = s.search_one('status')
        a['status'] = st.arg if st and st.arg != 'current' else None
        d = [x.arg for x in s.search('default')]
        a['default'] = ','.join(d) if d else None
        if kw == 'leaf':
            par = s.parent
            a['is_key'] = None
            pp = mod_parent.get(id(s))
            if pp is not None and pp.keyword == 'list' and pp.search_one('key') and s.arg in pp.search_one('key').arg.split():
                a['is_key'] = 'true'
        if kw in ('leaf', 'leaf-list'):
            t = s.search_one('type').arg
            if t not in ('identityref', 'leafref'):
                a['datatype'] = t
            else:
                a['datatype'] = 'identityref:' + s.search_one('type').search_one('base').arg if t == 'identityref' else None
        out[p] = a
        for c in getattr(s, 'i_children', []):
            mod_parent[id(c)] = s
            w = c.keyword if c.keyword in ('input', 'output') else where
            rec(c, p, w)
    mod_parent = {}
    for c in mod.i_children:
        if c.keyword in DATA:
            rec(c, (), 'data')
        elif c.keyword in ('rpc', 'notification'):
            rec(c, (), c.keyword)
    return out


def actual(tree):
    out, dup = {}, None
    def rec(e, path):
        nonlocal dup
        for c in e:
            p = path + (c.tag,)
            if p in out:
                dup = p
            out[p] = dict(c.attrib)
            rec(c, p)
    rec(tree, ())
    return out, dup


def same_tree(a, b):
    return (a.tag == b.tag and dict(a.attrib) == dict(b.attrib) and len(a) == len(b)
            and (a.text or '').strip() == (b.text or '').strip()
            and all(same_tree(x, y) for x, y in zip(a, b)))


def same_model(a, b):
    return (same_tree(a.tree, b.tree) and a.prefixes == b.prefixes and a.prefix == b.prefix and a.url == b.url
            and a.name == b.name and a.urls == b.urls and a.roots == b.roots)


def check(case):
    from ncdiff.model import ModelCompiler
    d = scratch()
    try:
        if case['kind'] == 'mini':
            for f in os.listdir(YANG):
                if f.endswith('.yang'):
                    shutil.copy(os.path.join(YANG, f), d)
            names = ['vt', 'vu', 'vi']
            subs = []
        else:
            ms = gen_modules(case['seed'])
            for n, t in ms.items():
                open(os.path.join(d, n + '.yang'), 'w').write(t)
            names = [n for n in ms if not n.endswith('-sub')]
            subs = [n for n in ms if n.endswith('-sub')]
        ctx = pyang_ctx(d, names)
        errs = [e for e in ctx.errors if e[1] not in ('UNUSED_IMPORT',) and not e[1].startswith('W')]
        from pyang import error
        errs = [e for e in ctx.errors if error.is_error(error.err_level(e[1]))]
        if errs:
            raise Skip()
        mods = {m.arg: m for m in ctx.modules.values()}
        comp = ModelCompiler(d)
        first = {}
        for n in names:
            want = oracle(mods[n], mods)
            m = comp.compile(n)
            first[n] = m
            msg = compare(m, n, want, mods)
            if msg:
                return msg
        # the cache, a fresh compiler over the cache, and a recompilation from the sources
        again = ModelCompiler(d)
        for n in names:
            for what, c in (('the same compiler', comp), ('a new compiler', again)):
                if not same_model(first[n], c.compile(n)):
                    return 'compiling %s again with %s gives another model' % (n, what)
        for n in names + ['dependencies']:
            os.remove(os.path.join(d, n + '.xml'))
        for n in reversed(names):
            c = ModelCompiler(d)
            m = c.compile(n)
            msg = compare(m, n, oracle(mods[n], mods), mods)
            if msg:
                return 'recompiled from source: ' + msg
            if not same_tree(m.tree, first[n].tree):
                return 'recompiling %s from the sources gives another model' % n
        # a compiler that has compiled other modules before
        for n in names:
            os.remove(os.path.join(d, n + '.xml'))
        c = ModelCompiler(d)
        for n in reversed(names):
            if not same_tree(c.compile(n).tree, first[n].tree) and 'values' not in case:
                # 'values' of identityrefs depend on the identities seen: not part of the property
                a, b = strip_values(c.compile(n).tree), strip_values(first[n].tree)
                if not same_tree(a, b):
                    return 'compiling %s after other modules gives another model' % n
        if case['kind'] == 'mini':
            m = new_device()
            for n in ('vt', 'vu'):
                want = m.models[n]
                fresh = new_device(load=())
                r = fresh.load_model(os.path.join(m._vdir, n + '.xml'))
                if not same_model(want, fresh.models[n]) or not same_model(want, r):
                    return 'loading the compiled file of %s gives another model' % n
        for s in subs:
            try:
                comp.compile(s)
                return 'submodule %s compiled' % s
            except ValueError:
                pass
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def strip_values(t):
    t = copy.deepcopy(t)
    for e in t.iter():
        e.attrib.pop('values', None)
    return t


def compare(m, n, want, mods):
    if m.tree.tag != n or m.name != n:
        return '%s: model name %s' % (n, m.name)
    if m.url != mods[n].search_one('namespace').arg or m.prefix != mods[n].search_one('prefix').arg:
        return '%s: url/prefix %s %s' % (n, m.url, m.prefix)
    got, dup = actual(m.tree)
    if dup:
        return '%s: node %s twice' % (n, dup)
    if set(got) != set(want):
        return '%s: missing %s extra %s' % (n, sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3])
    for p, a in want.items():
        for k, v in a.items():
            if got[p].get(k) != v:
                return '%s: %s of %s is %r, YANG says %r' % (n, k, p, got[p].get(k), v)
        for k in ('presence', 'key', 'ordered-by', 'is_key', 'status', 'default'):
            if k not in a and got[p].get(k) is not None:
                return '%s: %s of %s is %r, YANG has none' % (n, k, p, got[p].get(k))
    return None
