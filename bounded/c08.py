"""C08: schema node resolution and its cache."""
import random
from harness.base import *
from bounded.c01 import wrap
BOUND = 'every data path of the mini models, wrong paths built from every name, random lookup/reload histories of <= 60 steps on two models incl. reload with a changed model'


def paths():
    out = []

    def rec(kids, pre):
        for s in kids.values():
            out.append((pre + [s.tag], s))
            rec(s.kids, pre + [s.tag])
    rec(schema().roots, [])
    return out


def node_at(path):
    e = etree.Element(CONFIG)
    for t in path:
        e = etree.SubElement(e, t)
    return e


def model_of(tag):
    return {'urn:vt': 'vt', 'urn:vu': 'vu', 'urn:vi': 'vi'}[tag[1:].split('}')[0]]


def spath(sn):
    """path of a schema element through the model tree, choices/cases left out"""
    p = [sn.tag]
    a = sn.getparent()
    while a is not None and a.getparent() is not None:
        if a.get('type') not in ('choice', 'case'):
            p.append(a.tag)
        a = a.getparent()
    return p[::-1]


def cases(tier, rng):
    for i in range(240 if tier == 'quick' else 1500):
        yield {'seed': rng.randrange(10 ** 9), 'steps': 60 if tier == 'quick' else 200, 'changed': i % 3}


def verify(m, path, want, sn):
    tag = path[0]
    tree_ = m.models[model_of(tag)].tree
    root = sn
    while root.getparent() is not None:
        root = root.getparent()
    if root is not tree_:
        return 'answer for %s is not a node of the currently loaded model' % path
    if spath(sn) != path:
        return '%s resolved to %s' % (path, spath(sn))
    if sn.get('type') != want:
        return '%s resolved to a node of type %s, expected %s' % (path, sn.get('type'), want)
    return None


def check(case):
    from ncdiff.errors import ConfigError, ModelError, ModelMissing
    rng = random.Random(case['seed'])
    m = new_device()
    ps = paths()
    names = sorted({p[-1] for p, _ in ps})
    valid = {tuple(p) for p, _ in ps}
    gone = set()
    kinds = {}
    reloaded = False
    for step in range(case['steps']):
        k = rng.random()
        if k < .07:
            which = rng.choice(['vt', 'vu'])
            if case['changed'] and which == 'vt':
                # reload a compiled file in which /top/np is a list and /two is gone
                mod = m.models['vt']
                x = etree.fromstring(etree.tostring(mod_xml(m)))
                ch = case['changed']
                for c in list(x):
                    if c.tag == '{urn:vt}two' and ch == 2:
                        x.remove(c)
                        gone.add('{urn:vt}two')
                    if c.tag == '{urn:vt}top':
                        for d in list(c):
                            if d.tag == '{urn:vt}a':
                                d.set('type', 'leaf-list')
                                kinds[('{urn:vt}top', '{urn:vt}a')] = 'leaf-list'
                f = os.path.join(m._vdir, 'changed.xml')
                open(f, 'wb').write(etree.tostring(x))
                m.load_model(f)
            else:
                if which == 'vt':
                    gone.clear()
                    kinds.clear()
                m.load_model(which)
            continue
        if k < .75:
            p, s = rng.choice(ps)
        else:
            p, s = rng.choice(ps)
            j = rng.random()
            p = p[:-1] + [rng.choice(names)] if j < .6 else p + [rng.choice(names)]
            s = None
        n = node_at(p)
        if rng.random() < .3:
            # look an ancestor or a sibling up first, with the element text set
            m.get_schema_node(n.getparent()) if n.getparent().getparent() is not None and tuple(p[:-1]) in valid and p[0] not in gone else None
        ok = tuple(p) in valid and p[0] not in gone
        try:
            r = m.get_schema_node(n)
        except (ConfigError, ModelError, ModelMissing) as e:
            if ok:
                return 'step %d: %s raised %s' % (step, p, e)
            continue
        if not ok:
            return 'step %d: unknown node %s resolved to %s' % (step, p, spath(r) if r is not None else None)
        want = kinds.get(tuple(p)) or [q for q in ps if q[0] == p][0][1].kw
        msg = verify(m, p, want, r)
        if msg:
            return 'step %d: %s' % (step, msg)
        if m.get_schema_node(node_at(p)) is not r:
            return 'step %d: two lookups of %s differ' % (step, p)
        s = [q for q in ps if q[0] == p][0][1]
        if s.kw == 'list' and tuple(p) not in kinds:
            from ncdiff.composer import Composer
            if Composer(m, n).keys != s.key_tags():
                return 'keys of %s are %s' % (p, Composer(m, n).keys)
        if Composer_path(m, n) != p:
            return 'path of %s is %s' % (p, Composer_path(m, n))
    return None


def Composer_path(m, n):
    from ncdiff.composer import Composer
    return Composer(m, n).path


_mod = {}


def mod_xml(m):
    """compiled model in file form (with its namespace declarations), from the compiler's cache"""
    for d in os.walk(m._vdir):
        for f in d[2]:
            if f.endswith('vt.xml'):
                return etree.parse(os.path.join(d[0], f)).getroot()
    raise RuntimeError('no compiled file')
