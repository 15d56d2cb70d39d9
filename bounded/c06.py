"""C06: normalisation and validation of input."""
import itertools
from harness.base import *
from bounded.c01 import wrap, small_bodies, idr_family
BOUND = 'systematic sibling layouts of defaults/empties/obsolete nodes (up to 4 siblings in any order), all wrappers, random documents; invalid documents by construction'
WRAPS = {'config': '%s', 'data': '<nc:data xmlns:nc="%s">{}</nc:data>' % NC, 'reply': '<nc:rpc-reply xmlns:nc="%s" message-id="1"><nc:data>{}</nc:data></nc:rpc-reply>' % NC,
         'edit': '<nc:edit-config xmlns:nc="%s"><nc:target><nc:running/></nc:target><nc:config>{}</nc:config></nc:edit-config>' % NC,
         'rpc': '<nc:rpc xmlns:nc="%s" message-id="1"><nc:edit-config><nc:target><nc:running/></nc:target><nc:config>{}</nc:config></nc:edit-config></nc:rpc>' % NC}
DECL = ' xmlns:vt="urn:vt" xmlns:vu="urn:vu"'
SIB = ['<vt:a>p</vt:a>', '<vt:b>dflt</vt:b>', '<vt:b>other</vt:b>', '<vt:dfl>x</vt:dfl><vt:dfl>y</vt:dfl>', '<vt:dfl>y</vt:dfl>', '<vt:udfl>x</vt:udfl><vt:udfl>y</vt:udfl>',
       '<vt:udfl>y</vt:udfl><vt:udfl>x</vt:udfl>', '<vt:np/>', '<vt:np><vt:d>dd</vt:d></vt:np>', '<vt:np><vt:d>dd</vt:d><vt:deep/></vt:np>', '<vt:np><vt:deep><vt:c>p</vt:c></vt:deep></vt:np>',
       '<vt:pres/>', '<vt:lst><vt:name>x</vt:name><vt:w>ww</vt:w></vt:lst>', '<vt:lst/>', '<vt:old>p</vt:old>', '<vt:dep>p</vt:dep>', '<vt:e/>', '<vt:sys>p</vt:sys><vt:sys>q</vt:sys>',
       '<vt:d2>d2d</vt:d2>', '<vu:np><vu:c>p</vu:c></vu:np>', '<vt:usr>b</vt:usr><vt:usr>a</vt:usr>', '<vt:c4> </vt:c4>', '<vt:c1a>  p </vt:c1a>', '<vt:dfl>x</vt:dfl><vt:dfl>y</vt:dfl><vt:dfl>z</vt:dfl>']
NAMES = [set(n.split('>')[0].split('/')[0] for n in s.split('<')[1:2]) for s in SIB]
BAD = [('missing key', '<vt:top><vt:lst><vt:v>p</vt:v></vt:lst></vt:top>', 'validate'),
       ('missing second key', '<vt:top><vt:lst><vt:name>x</vt:name><vt:in><vt:k1>a</vt:k1></vt:in></vt:lst></vt:top>', 'validate'),
       ('missing root list key', '<vt:rootlist><vt:v>p</vt:v></vt:rootlist>', 'validate'),
       ('missing key after valid entry', '<vt:top><vt:lst><vt:name>x</vt:name></vt:lst><vt:lst><vt:v>p</vt:v></vt:lst></vt:top>', 'validate'),
       ('nested missing key', '<vt:top><vt:ulst><vt:name>x</vt:name><vt:uin><vt:k2>a</vt:k2></vt:uin></vt:ulst></vt:top>', 'validate'),
       ('unknown leaf', '<vt:top><vt:nosuch>p</vt:nosuch></vt:top>', 'always'), ('unknown deep', '<vt:top><vt:np><vt:a>p</vt:a></vt:np></vt:top>', 'always'),
       ('wrong namespace', '<vt:top><vu:e>p</vu:e></vt:top>', 'always'), ('unknown root', '<vt:nosuch/>', 'always'), ('unknown model', '<x:top xmlns:x="urn:zz"/>', 'always'),
       ('unloaded model root', '<x:foo xmlns:x="urn:vi"/>', 'always'), ('unknown empty container', '<vt:top><vt:nosuch/></vt:top>', 'always'),
       ('attribute in an obsolete container', '<vt:top><vt:oldc><vt:c nc:operation="delete">p</vt:c></vt:oldc></vt:top>', 'validate'),
       ('attribute deep in an obsolete container', '<vt:top><vt:oldc><vt:in><vt:x nc:operation="merge">p</vt:x></vt:in></vt:oldc></vt:top>', 'validate'),
       ('attribute on an obsolete leaf', '<vt:top><vt:old nc:operation="merge">p</vt:old></vt:top>', 'validate'), ('obsolete entry without key', '<vt:top><vt:oldlst><vt:v>p</vt:v></vt:oldlst></vt:top>', 'validate'),
       ('attribute in a deprecated container', '<vt:top><vt:depc><vt:oc nc:operation="merge">p</vt:oc></vt:depc></vt:top>', 'validate'), ('deprecated entry without key', '<vt:top><vt:deplst><vt:v>p</vt:v></vt:deplst></vt:top>', 'validate'),
       ('grandchild as child', '<vt:top><vt:c>p</vt:c></vt:top>', 'always'), ('case name as node', '<vt:top><vt:one><vt:c1a>p</vt:c1a></vt:one></vt:top>', 'always')]
ATTRB = ['<vt:top%s><vt:a>p</vt:a></vt:top>', '<vt:top><vt:np%s><vt:c>p</vt:c></vt:np></vt:top>', '<vt:top><vt:lst%s><vt:name>x</vt:name></vt:lst></vt:top>',
         '<vt:top><vt:a%s>p</vt:a></vt:top>', '<vt:top><vt:lst><vt:name%s>x</vt:name></vt:lst></vt:top>', '<vt:top><vt:sys%s>p</vt:sys></vt:top>', '<vt:top><vt:pres%s/></vt:top>',
         '<vt:rootleaf%s>p</vt:rootleaf>', '<vt:top><vt:lst><vt:name>x</vt:name><vt:np%s><vt:c>p</vt:c></vt:np></vt:lst></vt:top>', '<vt:top><vt:a>p</vt:a><vt:ulst%s><vt:name>x</vt:name></vt:ulst></vt:top>']
ATTR = [' nc:operation="merge"', ' nc:operation="delete"', ' yang:insert="first"', ' yang:value="x"', ' yang:key="[name=\'x\']"',
        ' nc:operation=""', ' yang:value=""', ' yang:insert="after" yang:value="x"', ' nc:operation="merge" yang:insert="last"', ' other="1" nc:operation="remove"']


def cases(tier, rng):
    for n in range(1, 4 if tier == 'quick' else 5):
        combos = list(itertools.permutations(range(len(SIB)), n))
        if n > 2:
            combos = [combos[rng.randrange(len(combos))] for _ in range(2500 if tier == 'quick' else 20000)]
        for c in combos:
            if len(set(x for i in c for x in NAMES[i])) < len(c):
                continue
            yield {'k': 'body', 'body': '<vt:top>%s</vt:top>' % ''.join(SIB[i] for i in c), 'opt': [rng.random() < .5, rng.random() < .3]}
    for b in ('<vt:kdef><vt:name>kd</vt:name></vt:kdef>', '<vt:kdef><vt:name>kd</vt:name><vt:v>vd</vt:v></vt:kdef>',
              '<vt:kdef><vt:name>kd</vt:name><vt:v>p</vt:v></vt:kdef><vt:kdef><vt:name>x</vt:name><vt:v>vd</vt:v></vt:kdef>'):
        for v in (True, False):
            yield {'k': 'body', 'body': b, 'opt': [v, False]}
    for w in WRAPS:
        for b in ('<vt:top{d}><vt:a>p</vt:a><vt:b>dflt</vt:b></vt:top><vu:utop{d}><vu:a>q</vu:a></vu:utop>', '', '<vt:rootll{d}>p</vt:rootll><vt:rootll{d}>q</vt:rootll>'):
            yield {'k': 'wrap', 'w': w, 'body': b.format(d=DECL)}
    for n, b, when in BAD:
        yield {'k': 'bad', 'name': n, 'body': b, 'when': when}
    for b in ATTRB:
        for a in ATTR:
            yield {'k': 'bad', 'name': 'attribute', 'body': b % a, 'when': 'validate'}
    g = Gen(rng, p=.5, vals=STR[:3], obsolete=True, defaults=.5, empties=.3)
    for n in range(1500 if tier == 'quick' else 12000):
        yield {'k': 'doc', 'doc': g.config(), 'opt': [rng.random() < .6, rng.random() < .4]}


def doc(body):
    return '<nc:config xmlns:nc="%s" xmlns:yang="%s"%s>%s</nc:config>' % (NC, YN, DECL, body)


def expect(xml, opt):
    e = etree.fromstring(xml, etree.XMLParser(remove_blank_text=True))
    return norm(rawtree(e), *opt)


def rawtree(e, sn=None):
    """like tree(), but tolerates list entries without content (dropped by normalisation)"""
    for x in list(e.iter()):
        s = None
        if x is not e and len(x) == 0 and x.tag == '{urn:vt}lst' and x.getparent() is not None:
            x.getparent().remove(x)
    return tree(e, sn)


class Reply:
    pass


def check(case):
    from ncdiff.errors import ConfigError, ModelMissing
    m = device()
    k = case['k']
    if k == 'bad':
        x = doc(case['body'])
        for val in (True, False):
            if case['when'] == 'validate' and not val:
                continue
            try:
                C = Config(m, x, validate=val)
            except (ConfigError, ModelMissing):
                continue
            return '%s: accepted (validate=%s)\n%s' % (case['name'], val, C)
        try:
            Config(m, etree.fromstring(x))
        except (ConfigError, ModelMissing):
            return None
        return '%s: accepted as element' % case['name']
    if k == 'wrap':
        want = tree(etree.fromstring(doc(case['body'])))
        norm(want)
        if case['w'] == 'config':
            x = doc(case['body'])
        else:
            x = WRAPS[case['w']].format(case['body'])
        from ncclient.operations.rpc import RPCReply
        forms = [x, etree.fromstring(x)]
        if case['w'] == 'reply':
            r = RPCReply(x)
            r.parse()
            forms.append(r)
        for f in forms:
            C = Config(m, f)
            if tree(C.ele) != want or C.ele.tag != CONFIG:
                return 'wrapper %s (%s): got\n%s' % (case['w'], type(f).__name__, C)
        return None
    x = doc(case['body']) if k == 'body' else case['doc']
    val, dep = case['opt']
    want = expect(x, (val, dep))
    C = Config(m, x, validate=val, remove_deprecated=dep)
    got = tree(C.ele)
    if got != want:
        return 'validate=%s remove_deprecated=%s\n--- got\n%s\n--- want\n%s' % (val, dep, got.show(), want.show())
    p = etree.fromstring(x)
    etree.indent(p)
    for q in list(p.iter())[1::3]:
        if q.text and not q.text.strip() and not len(q):
            continue                             # the blank beside a comment is the XML parser's to drop
        q.insert(0, etree.Comment('c')) if len(q) else q.append(etree.Comment('c'))
    for f in (p, ser(p)):
        if tree(Config(m, f, validate=val, remove_deprecated=dep).ele) != got:
            return 'whitespace or comments change the config built from %s' % type(f).__name__
    D = Config(m, C.xml, validate=val, remove_deprecated=dep)
    if tree(D.ele) != got:
        return 'not idempotent\n%s' % D
    s = [c.tag for c in etree.fromstring(x) if c.tag in {q.tag for q in C.ele}]
    if [q.tag for q in C.ele] != [t for t in s if t in [q.tag for q in C.ele]][:len(C.ele)] and len(s) == len(C.ele):
        return 'order of roots changed'
    return None
