"""C02: edit-config application against the RFC 6241/7950 oracle (harness.base.apply_edit)."""
import itertools
from copy import deepcopy
from harness.base import *
from bounded.c01 import wrap, small_bodies, idr_family
BOUND = 'systematic: every node kind x operation x peer present/absent; random edits with operations at any depth over the mini models'
OPS = [None, 'merge', 'replace', 'create', 'delete', 'remove', 'bogus', 'Delete', '']

NODES = ['<vt:a{o}>q</vt:a>', '<vt:e{o}/>', '<vt:sys{o}>p</vt:sys>', '<vt:usr{o}>p</vt:usr>', '<vt:np{o}><vt:c>q</vt:c></vt:np>', '<vt:np{o}/>',
         '<vt:np{o}><vt:deep><vt:c>q</vt:c></vt:deep></vt:np>', '<vt:pres{o}/>', '<vt:pres{o}><vt:c>q</vt:c></vt:pres>',
         '<vt:lst{o}><vt:name>x</vt:name></vt:lst>', '<vt:lst{o}><vt:name>x</vt:name><vt:v>q</vt:v></vt:lst>',
         '<vt:ulst{o}><vt:name>x</vt:name><vt:v>q</vt:v></vt:ulst>', '<vt:ref{o}>vu:id-three</vt:ref>', '<vt:inst{o}>/vt:top/vt:a</vt:inst>',
         '<vt:idl{o}>vt:id-one</vt:idl>', '<vt:idk{o}><vt:t>vt:id-one</vt:t><vt:v>q</vt:v></vt:idk>', '<vu:aug{o}>q</vu:aug>',
         '<vt:c1a{o}>q</vt:c1a>', '<vt:c2a{o}>q</vt:c2a>', '<vt:c2l{o}>q</vt:c2l>', '<vt:n1a{o}>q</vt:n1a>', '<vt:n2c{o}><vt:z>q</vt:z></vt:n2c>',
         '<vt:c4{o}>q</vt:c4>', '<vt:c1c{o}><vt:z>q</vt:z></vt:c1c>']
BASES = ['', '<vt:a>p</vt:a><vt:e/><vt:sys>p</vt:sys><vt:sys>r</vt:sys><vt:usr>r</vt:usr><vt:usr>p</vt:usr><vt:np><vt:c>p</vt:c></vt:np><vt:pres><vt:c>p</vt:c></vt:pres>'
         '<vt:lst><vt:name>y</vt:name></vt:lst><vt:lst><vt:name>x</vt:name><vt:v>p</vt:v><vt:np><vt:c>p</vt:c></vt:np></vt:lst><vt:ulst><vt:name>y</vt:name></vt:ulst>'
         '<vt:ulst><vt:name>x</vt:name><vt:v>p</vt:v></vt:ulst><vt:ref>vt:id-one</vt:ref><vt:inst>/vt:top/vt:b</vt:inst><vt:idl>vt:id-one</vt:idl><vt:idl>vu:id-three</vt:idl>'
         '<vt:idk><vt:t>vt:id-one</vt:t><vt:v>p</vt:v></vt:idk><vu:aug>p</vu:aug><vt:c1a>p</vt:c1a><vt:c1b>p</vt:c1b>',
         '<vt:pres/><vt:np><vt:deep><vt:c>p</vt:c></vt:deep></vt:np><vt:c2a>p</vt:c2a><vt:c2l>p</vt:c2l><vt:c2l>q</vt:c2l><vu:np><vu:c>p</vu:c></vu:np>',
         '<vt:n1a>p</vt:n1a><vt:n1b>p</vt:n1b><vt:c4>p</vt:c4>', '<vt:n2c><vt:z>p</vt:z></vt:n2c>', '<vt:c1c><vt:z>p</vt:z></vt:c1c>']
ROOTS = [('<vt:rootleaf{o}>q</vt:rootleaf>', '<vt:rootleaf>p</vt:rootleaf>'), ('<vt:rootll{o}>q</vt:rootll>', '<vt:rootll>p</vt:rootll><vt:rootll>q</vt:rootll>'),
         ('<vt:rootul{o}>q</vt:rootul>', '<vt:rootul>p</vt:rootul><vt:rootul>q</vt:rootul>'), ('<vt:pbox{o}/>', '<vt:pbox><vt:a>p</vt:a></vt:pbox>'),
         ('<vt:rootlist{o}><vt:name>x</vt:name></vt:rootlist>', '<vt:rootlist><vt:name>x</vt:name><vt:v>p</vt:v></vt:rootlist>'),
         ('<vt:two{o}><vt:a>q</vt:a></vt:two>', '<vt:two><vt:sys>p</vt:sys></vt:two>')]


def o(op):
    return '' if op is None else ' nc:operation="%s"' % op


def cases(tier, rng):
    for n in NODES:
        for op in OPS:
            for b in BASES:
                yield {'a': wrap('<vt:top>%s</vt:top>' % b), 'e': wrap('<vt:top>%s</vt:top>' % n.format(o=o(op)))}
    for op in OPS:
        for b in BASES:
            yield {'a': wrap('<vt:top>%s</vt:top>' % b if b else ''), 'e': wrap('<vt:top%s><vt:np><vt:c>r</vt:c></vt:np></vt:top>' % o(op))}
            # an operation below an entry/container that is itself merged
            for n in ('<vt:np><vt:c{o}>q</vt:c></vt:np>', '<vt:lst><vt:name>x</vt:name><vt:v{o}>q</vt:v></vt:lst>', '<vt:ulst><vt:name>x</vt:name><vt:v{o}>q</vt:v></vt:ulst>',
                      '<vt:lst><vt:name>x</vt:name><vt:np{o}><vt:c>q</vt:c></vt:np></vt:lst>', '<vt:np><vt:deep><vt:c{o}>q</vt:c></vt:deep></vt:np>',
                      '<vt:lst><vt:name>z</vt:name><vt:v{o}>q</vt:v></vt:lst>', '<vt:pres><vt:c{o}>p</vt:c></vt:pres>',
                      '<vt:lst nc:operation="replace"><vt:name>x</vt:name><vt:v{o}>q</vt:v></vt:lst>', '<vt:np nc:operation="replace"><vt:c{o}>q</vt:c></vt:np>'):
                yield {'a': wrap('<vt:top>%s</vt:top>' % b), 'e': wrap('<vt:top>%s</vt:top>' % n.format(o=o(op)))}
        for n, b in ROOTS:
            for base in ('', b):
                yield {'a': wrap(base), 'e': wrap(n.format(o=o(op)))}
    for f in small_bodies()[5:9]:
        for a, b in itertools.product(f, f):
            yield {'a': wrap(a), 'e': wrap(b)}
    f = idr_family()
    for a, b in itertools.product(f, f):
        yield {'a': a, 'e': b}
    g = Gen(rng, p=.4, vals=STR[:3], defaults=0)
    for n in range(4000 if tier == 'quick' else 40000):
        g.skip = {'inst'} if n % 4 < 2 else set()
        a, b = g.config(), g.config()
        e = etree.fromstring(b)
        if rng.random() < .5:
            # an edit that mostly hits existing nodes
            e = etree.fromstring(a)
            for x in list(e.iter()):
                if x.getparent() is not None and x.text in STR and not sn_of(x).is_key and rng.random() < .5:
                    x.text = rng.choice(STR)
        sprinkle(e, rng)
        if n % 5 == 0:
            for x in list(e.iter())[::3]:
                x.insert(rng.randrange(len(x) + 1), etree.ProcessingInstruction('pi', 'v') if rng.random() < .6 else etree.Comment('c')) if len(x) else None
        yield {'a': a, 'e': ser(e)}


from bounded.c01 import sn_of                                      # noqa: E402


def sprinkle(e, rng, p=.3):
    for x in e.iter():
        if x.getparent() is None:
            continue
        s = sn_of(x)
        if s.is_key or rng.random() >= p:
            continue
        op = rng.choice(['merge', 'replace', 'create', 'remove', 'delete', 'remove', 'replace'])
        x.set(OP, op)


def classify(f):
    from ncdiff.errors import ConfigDeltaError
    try:
        return f(), None
    except ConfigDeltaError as e:
        return None, e


def dedup_ok(e):
    try:
        tree(e)
        return True
    except Bad:
        return False


def check(case):
    m = device()
    A = Config(m, case['a'])
    e = etree.fromstring(case['e'], etree.XMLParser(remove_blank_text=True))
    plain = deepcopy(e)
    etree.strip_tags(plain, etree.Comment, etree.ProcessingInstruction)
    if not dedup_ok(plain):
        return None
    t = tree(A.ele)
    try:
        want, werr = apply_edit(t.copy(), plain), None
    except EditError as x:
        want, werr = None, x
    # A + element and ConfigDelta(delta=...) must agree with the oracle
    for how, f in (('A + element', lambda: A + e), ('ConfigDelta(delta)', lambda: ConfigDelta(A, delta=case['e']).config_dst)):
        C, err = classify(f)
        if werr is not None:
            if err is None:
                return '%s: expected a ConfigDeltaError (%s), got\n%s' % (how, werr, C)
            continue
        if err is not None:
            return '%s: unexpected ConfigDeltaError: %s' % (how, err)
        if has_edit_attr(C.ele):
            return '%s: result carries attributes\n%s' % (how, C)
        got = tree(C.ele)
        if got != norm(want.copy(), validate=False):
            return '%s: result differs from the RFC semantics\n--- got\n%s\n--- want\n%s' % (how, got.show(), want.show())
    return None
