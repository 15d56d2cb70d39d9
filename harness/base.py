"""Concrete harness shared by the bounded stand-ins and the counterexample search.

Everything here is independent of ncdiff's own algorithms: the schema oracle is
read from the YANG text with pyang, the abstract trees and the edit-config
semantics (RFC 6241 / RFC 7950) are written from the RFCs.
"""
import copy, itertools, logging, os, random, re, shutil, sys, tempfile
for _p in ('/repo/src', '/opt/venv/lib/python3.12/site-packages'):
    if _p not in sys.path:
        sys.path.insert(0, _p) if _p == '/repo/src' else sys.path.append(_p)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
HERE = os.path.dirname(os.path.abspath(__file__))
YANG = os.path.join(HERE, 'yang')

from lxml import etree                                            # noqa: E402
from ncclient.devices.default import DefaultDeviceHandler         # noqa: E402

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YN = 'urn:ietf:params:xml:ns:yang:1'
OP, INS, VALT, KEYT = '{%s}operation' % NC, '{%s}insert' % YN, '{%s}value' % YN, '{%s}key' % YN
CONFIG = '{%s}config' % NC
NSM = {'nc': NC, 'vt': 'urn:vt', 'vu': 'urn:vu', 'yang': YN}
CAPS = ['urn:vt?module=vt&revision=2024-01-01', 'urn:vu?module=vu', 'urn:vi?module=vi']

_tmpdirs = []


def scratch():
    d = tempfile.mkdtemp(prefix='ncdiff-verif-')
    _tmpdirs.append(d)
    return d


def cleanup():
    while _tmpdirs:
        shutil.rmtree(_tmpdirs.pop(), ignore_errors=True)


import atexit                                                      # noqa: E402
atexit.register(cleanup)


class FakeSession:
    id = '1'

    def __init__(self, caps=CAPS):
        self._server_capabilities = list(caps)
        self.server_capabilities = list(caps)

    def add_listener(self, l): pass
    def remove_listener(self, l): pass
    def get_listener_instance(self, c): return None


_devcls = {}


def new_device(caps=CAPS, folder=None, load=('vt', 'vu'), edit=None):
    """A ModelDevice over a private copy of the mini YANG models. edit(name,text)->text"""
    from ncdiff.manager import ModelDevice
    if ModelDevice not in _devcls:
        _devcls[ModelDevice] = type('VDevice', (ModelDevice,), {
            'server_capabilities': property(lambda s: s._vcaps)})
    d = scratch()
    src = folder or YANG
    for f in sorted(os.listdir(src)):
        if f.endswith('.yang'):
            t = open(os.path.join(src, f)).read()
            if edit:
                t = edit(f[:-5], t)
            if t is not None:
                open(os.path.join(d, f), 'w').write(t)
    m = _devcls[ModelDevice](FakeSession(caps), DefaultDeviceHandler())
    m._vcaps = list(caps)
    m._vdir = d
    m.scan_models(folder=d, download='ignore')
    for x in load:
        m.load_model(x)
    return m


_dev = None


def device():
    global _dev
    if _dev is None:
        _dev = new_device()
    return _dev


# ---------------------------------------------------------------- schema oracle
class SN:
    """Schema node as the YANG text says (through pyang, not through ncdiff)."""

    def __init__(self, stmt, ns, cases):
        self.name, self.ns, self.kw = stmt.arg, ns, stmt.keyword
        self.tag = '{%s}%s' % (ns, stmt.arg)
        self.cases = cases                      # tuple of (choice-id, case-name)
        one = stmt.search_one
        self.keys = one('key').arg.split() if self.kw == 'list' and one('key') else []
        self.user = bool(one('ordered-by') and one('ordered-by').arg == 'user')
        self.presence = one('presence') is not None
        self.config = bool(getattr(stmt, 'i_config', False))
        self.defaults = [x.arg for x in stmt.search('default')]
        self.status = one('status').arg if one('status') else 'current'
        self.is_key = hasattr(stmt, 'i_is_key')
        t = one('type')
        self.dtype = t.arg if t is not None else None
        self.kids = {}
        self.stmt = stmt
        self.parent = None

    def key_tags(self):
        return ['{%s}%s' % (self.ns, k.split(':')[-1]) for k in self.keys]

    def __repr__(self):
        return 'SN(%s %s)' % (self.kw, self.name)


class Schema:
    def __init__(self, folder=YANG, modules=('vt', 'vu', 'vi')):
        from pyang.context import Context
        from pyang.repository import FileRepository
        ctx = Context(FileRepository(folder, use_env=False, no_path_recurse=True))
        mods = {}
        for m in modules:
            mods[m] = ctx.add_module(m + '.yang', open(os.path.join(folder, m + '.yang')).read())
        ctx.validate()
        self.ns = {m: s.search_one('namespace').arg for m, s in mods.items()}
        self.prefix = {m: s.search_one('prefix').arg for m, s in mods.items()}
        self.url2mod = {u: m for m, u in self.ns.items()}
        self.mods = mods
        self.roots, self.choice_default = {}, {}
        for m in modules:
            self._kids(mods[m], self.roots, (), None)

    def _kids(self, stmt, into, cases, parent):
        for c in getattr(stmt, 'i_children', []):
            if c.keyword in ('choice',):
                d = c.search_one('default')
                self.choice_default[id(c)] = d.arg if d is not None else None
                for k in c.i_children:
                    kid = (id(c), k.arg)
                    if k.keyword == 'case':
                        self._kids(k, into, cases + (kid,), parent)
                    else:
                        self._node(k, into, cases + (kid,), parent)
            elif c.keyword in ('container', 'list', 'leaf', 'leaf-list'):
                self._node(c, into, cases, parent)

    def _node(self, c, into, cases, parent):
        ns = self.ns[c.i_module.i_modulename]
        n = SN(c, ns, cases)
        n.parent = parent
        into[n.tag] = n
        self._kids(c, n.kids, (), n)

    def child(self, sn, tag):
        kids = self.roots if sn is None else sn.kids
        return kids.get(tag)


_schema = None


def schema():
    global _schema
    if _schema is None:
        _schema = Schema()
    return _schema


# ---------------------------------------------------------------- abstract trees
class Bad(Exception):
    pass


def tok_instance(text):
    """instance-identifier -> list of ('name',qname) / ('sep',s) / ('lit',value)"""
    i, out = 0, []
    while i < len(text):
        c = text[i]
        if c in '\'"':
            j, v = i + 1, ''
            while True:
                if j >= len(text):
                    raise Bad('unterminated literal')
                if text[j] == c:
                    if j + 1 < len(text) and text[j + 1] == c:
                        v += c
                        j += 2
                        continue
                    break
                v += text[j]
                j += 1
            out.append(('lit', v))
            i = j + 1
        elif c in '/[]=.*':
            out.append(('sep', c))
            i += 1
        else:
            j = i
            while j < len(text) and text[j] not in '/[]=\'"*':
                j += 1
            out.append(('name', text[i:j]))
            i = j
    return out


def canon(sn, text, nsmap, sch=None):
    """Value denoted by a leaf/leaf-list text."""
    sch = sch or schema()
    if sn.dtype == 'empty':
        return None
    if text is None:
        return None
    if sn.dtype == 'identityref':
        if ':' in text:
            p, n = text.split(':', 1)
            if p in nsmap:
                return ('id', nsmap[p], n)
            if p in sch.ns:
                return ('id', sch.ns[p], n)
            raise Bad('prefix ' + p)
        if None in nsmap:
            return ('id', nsmap[None], text)
        raise Bad('no default ns')
    if sn.dtype == 'instance-identifier':
        out, cur = [], None
        depth = 0
        for k, v in tok_instance(text):
            if k == 'name':
                if v.isdigit() and depth:
                    out.append(('pos', v))
                    continue
                if ':' in v:
                    p, n = v.split(':', 1)
                    u = nsmap.get(p) or sch.ns.get(p)
                    if u is None:
                        raise Bad('prefix ' + p)
                    if not depth:
                        cur = u
                else:
                    u, n = cur, v
                    if u is None:
                        raise Bad('unqualified')
                out.append(('q', u, n))
            else:
                if v == '[':
                    depth += 1
                if v == ']':
                    depth -= 1
                out.append((k, v))
        return ('inst',) + tuple(out)
    return text


class T:
    """Abstract container/list-entry/root content: kids in document order."""
    __slots__ = ('sn', 'kids')

    def __init__(self, sn, kids=None):
        self.sn = sn
        self.kids = kids if kids is not None else {}     # uid -> value | T   (insertion ordered)

    def order(self):
        o = {}
        for (tag, key) in self.kids:
            s = schema().child(self.sn, tag)
            if s.user and s.kw in ('list', 'leaf-list'):
                o.setdefault(tag, []).append(key)
        return o

    def __eq__(self, other):
        if not isinstance(other, T):
            return False
        if set(self.kids) != set(other.kids) or self.order() != other.order():
            return False
        return all(self.kids[u] == other.kids[u] for u in self.kids)

    def le(self, other):
        """Inclusion as the documentation describes it."""
        for u, v in self.kids.items():
            if u not in other.kids:
                return False
            w = other.kids[u]
            if isinstance(v, T):
                if not isinstance(w, T) or not v.le(w):
                    return False
            elif v != w:
                return False
        for tag, ks in self.order().items():
            oks = other.order().get(tag, [])
            pos = [oks.index(k) for k in ks]
            if pos != sorted(pos):
                return False
        return True

    def copy(self):
        return T(self.sn, {u: (v.copy() if isinstance(v, T) else v) for u, v in self.kids.items()})

    def show(self, ind=0):
        out = []
        for (tag, key), v in self.kids.items():
            n = tag.split('}')[1]
            k = '' if key is None else '[%s]' % (key,)
            if isinstance(v, T):
                out.append('  ' * ind + n + k + ':')
                out.append(v.show(ind + 1))
            else:
                out.append('  ' * ind + '%s%s = %r' % (n, k, v))
        return '\n'.join(x for x in out if x)


def need_valid(*xmls):
    """skip inputs whose values use undeclared prefixes (products of the random mutators)"""
    for x in xmls:
        try:
            tree(etree.fromstring(x))
        except Bad:
            raise Skip()


def uid_of(sn, e):
    if sn.kw == 'leaf-list':
        return (e.tag, canon(sn, e.text, e.nsmap))
    if sn.kw == 'list':
        ks = []
        for kt in sn.key_tags():
            k = e.find(kt)
            if k is None:
                raise Bad('missing key')
            ks.append(canon(sn.kids[kt], k.text, k.nsmap))
        return (e.tag, tuple(ks))
    return (e.tag, None)


def tree(e, sn=None):
    """Abstract content of a real lxml config element."""
    t = T(sn)
    for c in e:
        s = schema().child(sn, c.tag)
        if s is None:
            raise Bad('unknown ' + c.tag)
        u = uid_of(s, c)
        if u in t.kids:
            raise Bad('duplicate %s' % (u,))
        t.kids[u] = tree(c, s) if s.kw in ('container', 'list') else canon(s, c.text, c.nsmap)
    return t


def prune(t):
    """Drop empty non-presence containers (they denote nothing)."""
    for u in list(t.kids):
        v = t.kids[u]
        if isinstance(v, T):
            prune(v)
            if not v.kids and v.sn.kw == 'container' and not v.sn.presence:
                del t.kids[u]
    return t


def norm(t, validate=True, deprecated=False):
    """Normal form of a config: C06's removals applied to an abstract tree (bottom-up)."""
    drop = []
    byll = {}
    for u, v in t.kids.items():
        s = schema().child(t.sn, u[0])
        if isinstance(v, T):
            norm(v, validate, deprecated)
            if not v.kids and (s.kw == 'list' or not s.presence):
                drop.append(u)
                continue
        elif s.kw == 'leaf' and s.defaults and not s.is_key and v == s.defaults[0]:
            drop.append(u)
            continue
        elif s.kw == 'leaf-list' and s.defaults:
            byll.setdefault(u[0], (s, []))[1].append(u)
        if validate and (s.status == 'obsolete' or (deprecated and s.status == 'deprecated')):
            drop.append(u)
    for s, us in byll.values():
        vs = [u[1] for u in us]
        if vs == s.defaults if s.user else set(vs) == set(s.defaults):
            drop += us
    for u in set(drop):
        del t.kids[u]
    return t


def has_edit_attr(e):
    return any(x.attrib for x in e.iter())


# ---------------------------------------------------------------- RFC 6241/7950 edit-config
class Skip(Exception):
    """The case lies outside the property's domain."""


class EditError(Exception):
    pass


def _place(t, u, ins, ref):
    """Reposition uid u (already in t.kids) in its user-ordered list."""
    tag = u[0]
    seq = [k for k in t.kids if k[0] == tag and k != u]
    if ins == 'first':
        seq.insert(0, u)
    elif ins == 'last':
        seq.append(u)
    else:
        if ref == u:
            return
        if ref not in seq:
            raise EditError('bad reference')
        i = seq.index(ref)
        seq.insert(i if ins == 'before' else i + 1, u)
    vals = dict(t.kids)
    others = [k for k in t.kids if k[0] != tag]
    t.kids.clear()
    for k in others + seq:
        t.kids[k] = vals[k]


def parse_pred(sn, text, nsmap):
    vals = {}
    for m in re.finditer(r'''\[\s*([^=\s]+)\s*=\s*(?:'([^']*)'|"([^"]*)")\s*\]''', text):
        n = m.group(1)
        n = n.split(':', 1)[1] if ':' in n else (n.split('}')[1] if '}' in n else n)
        vals[n] = m.group(2) if m.group(2) is not None else m.group(3)
    out = []
    for k, kt in zip(sn.keys, sn.key_tags()):
        if k not in vals:
            raise EditError('bad key predicate')
        out.append(canon(sn.kids[kt], vals[k] or None, nsmap))
    return (sn.tag, tuple(out))


def strip(e, sn):
    return tree(e, sn) if sn.kw in ('container', 'list') else canon(sn, e.text, e.nsmap)


def _same_choice_other_case(a, b):
    for (ch, ca) in a.cases:
        for (ch2, ca2) in b.cases:
            if ch == ch2 and ca != ca2:
                return True
    return False


def apply_edit(t, edit, keep_empty=False):
    """Apply element `edit` (children with operation attributes) to abstract tree t, in document order."""
    for c in edit:
        s = schema().child(t.sn, c.tag)
        if s is None:
            raise Bad('unknown ' + c.tag)
        op = c.get(OP, 'merge')
        u = uid_of(s, c)
        exists = u in t.kids
        if op not in ('merge', 'replace', 'create', 'delete', 'remove'):
            raise EditError('unknown operation')
        if op in ('delete', 'remove'):
            if not exists and op == 'delete':
                raise EditError('data-missing')
            t.kids.pop(u, None)
            continue
        if op == 'create' and exists:
            raise EditError('data-exists')
        if s.kw in ('leaf', 'leaf-list'):
            t.kids[u] = canon(s, c.text, c.nsmap)
        elif op == 'merge':
            sub = t.kids.get(u)
            if sub is None:
                sub = T(s)
                if s.kw == 'list':
                    for kt in s.key_tags():
                        k = c.find(kt)
                        sub.kids[(kt, None)] = canon(s.kids[kt], k.text, k.nsmap)
            else:
                sub = sub.copy()
            apply_edit(sub, c)
            t.kids[u] = sub
        else:
            t.kids[u] = strip(c, s)
        v = t.kids[u]
        if isinstance(v, T) and s.kw == 'container' and not s.presence and not prune(v.copy()).kids:
            if s.cases:
                raise Skip()         # whether an empty container of a case selects the case is left open
            del t.kids[u]
            continue
        if s.user and s.kw in ('list', 'leaf-list') and c.get(INS) is not None:
            ins = c.get(INS)
            ref = None
            if ins in ('before', 'after'):
                if s.kw == 'leaf-list':
                    if c.get(VALT) is None:
                        raise EditError('missing value')
                    ref = (c.tag, canon(s, c.get(VALT) or None, c.nsmap))
                else:
                    if c.get(KEYT) is None:
                        raise EditError('missing key')
                    ref = parse_pred(s, c.get(KEYT), c.nsmap)
            _place(t, u, ins, ref)
        if s.cases:
            for w in list(t.kids):
                if w != u and _same_choice_other_case(schema().child(t.sn, w[0]), s):
                    del t.kids[w]
    return t


# ---------------------------------------------------------------- random configs
STR = ['p', 'q', 'r', 's']


class Gen:
    def __init__(self, rng, p=.35, maxn=3, vals=STR, choices=True, ns_variants=True, obsolete=False, defaults=.25,
                 empties=.0, skip=()):
        self.R, self.p, self.maxn, self.vals = rng, p, maxn, vals
        self.choices, self.ns_variants = choices, ns_variants
        self.obsolete, self.defaults, self.empties, self.skip = obsolete, defaults, empties, set(skip)

    def nsmap(self):
        R = self.R
        if not self.ns_variants or R.random() < .5:
            return dict(NSM)
        v = [{'nc': NC, 'a': 'urn:vt', 'b': 'urn:vu', 'y': YN}, {'nc': NC, 'vt': 'urn:vu', 'vu': 'urn:vt', 'yang': YN}]
        if 'inst' in self.skip:
            # instance-identifiers cannot be written where a namespace has no prefix
            v += [{'nc': NC, None: 'urn:vt', 'vu': 'urn:vu', 'yang': YN}] * 2
        return R.choice(v)

    def value(self, sn, e):
        R = self.R
        rev = {}
        for k, v in e.nsmap.items():
            if k is not None:
                rev.setdefault(v, k)
        if sn.dtype == 'identityref':
            u, n = R.choice([('urn:vt', 'id-one'), ('urn:vt', 'id-two'), ('urn:vu', 'id-three'), ('urn:vu', 'id-one')])
            if e.nsmap.get(None) == u and R.random() < .5:
                return n
            if u not in rev:
                return n if e.nsmap.get(None) == u else '%s:%s' % (rev['urn:vu'], 'id-three')
            return '%s:%s' % (rev[u], n)
        if sn.dtype == 'instance-identifier':
            f = R.choice(["/{t}:top/{t}:a", "/{t}:top/{t}:lst[{t}:name='x']/{t}:v", '/{t}:top/{t}:lst[{t}:name="x"]/{t}:v',
                          "/{t}:top/{t}:in[{t}:k1='x'][{t}:k2='y']", "/{t}:top/{u}:aug", "/{u}:utop/a"])
            return f.format(t=rev['urn:vt'], u=rev['urn:vu'])
        if sn.dtype == 'empty':
            return None
        if sn.defaults and R.random() < self.defaults:
            return R.choice(sn.defaults)
        return R.choice(self.vals)

    def fill(self, e, sn, top=False):
        R = self.R
        kids = list((schema().roots if sn is None else sn.kids).values())
        if sn is not None and sn.kw == 'list':
            kids = [sn.kids[k] for k in sn.key_tags()] + [k for k in kids if not k.is_key]
        picked = {}
        for s in kids:
            if not s.config or s.name in self.skip:
                continue
            if s.status != 'current' and not self.obsolete:
                continue
            if s.cases:
                if not self.choices:
                    continue
                ok = True
                for ch, ca in s.cases:
                    if picked.setdefault(ch, R.choice(self.case_names(kids, ch) + [None])) != ca:
                        ok = False
                        break
                if not ok:
                    continue
                pr = .7
            else:
                pr = self.p
            if s.is_key:
                x = etree.SubElement(e, s.tag)
                x.text = self.value(s, x)
                continue
            if R.random() >= pr:
                continue
            if s.kw == 'leaf':
                x = etree.SubElement(e, s.tag)
                x.text = self.value(s, x)
            elif s.kw == 'leaf-list':
                if s.defaults and R.random() < self.defaults:
                    vs = list(s.defaults)
                    R.shuffle(vs)
                    for v in vs:
                        etree.SubElement(e, s.tag).text = v
                    continue
                seen = set()
                for _ in range(R.randint(1, self.maxn)):
                    x = etree.SubElement(e, s.tag)
                    x.text = self.value(s, x)
                    c = canon(s, x.text, x.nsmap)
                    if c in seen:
                        e.remove(x)
                    seen.add(c)
            elif s.kw == 'container':
                x = etree.SubElement(e, s.tag)
                if R.random() >= self.empties:
                    self.fill(x, s)
            elif s.kw == 'list':
                seen = set()
                for _ in range(R.randint(1, self.maxn)):
                    x = etree.SubElement(e, s.tag, nsmap=self.nsmap() if R.random() < .2 else None)
                    self.fill(x, s)
                    u = uid_of(s, x)
                    if u in seen:
                        e.remove(x)
                    seen.add(u)
        return e

    def case_names(self, kids, ch):
        return sorted({ca for k in kids for c, ca in k.cases if c == ch})

    def config(self):
        e = etree.Element(CONFIG, nsmap=self.nsmap())
        self.fill(e, None)
        return etree.tostring(e, encoding='unicode')


def ser(e):
    return etree.tostring(e, encoding='unicode')


def exact(e):
    """Order-, attribute- and namespace-exact structural dump of an element."""
    return (e.tag, e.text, e.tail, tuple(sorted(e.attrib.items())),
            tuple(sorted((k or '', v) for k, v in e.nsmap.items())), tuple(exact(c) for c in e))


def Config(*a, **k):
    from ncdiff.config import Config as C
    return C(*a, **k)


def ConfigDelta(*a, **k):
    from ncdiff.config import ConfigDelta as C
    return C(*a, **k)
