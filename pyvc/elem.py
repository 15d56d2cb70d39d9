"""Symbolic XML elements: the part of the lxml API ncdiff uses, on trees with unknown parts.

Assumed contract of lxml (checked against lxml itself by pyvc/selftest.py on random concrete trees):
the methods below have the same effect on tag, text, tail, attributes, parent and child order as lxml's.
Iterating over an element is iteration over a snapshot of its children; changing the children other than
by removing the current one while iterating directly over an element is outside the subset."""
import z3
from . import core
from .core import Kill, Unsupported, SBool, SInt, SStr, POISON, and_, or_, not_, eqv, fstr, fint, fbool
from .values import C, Obj, Seg, Pred, VList, VDict, VSet, view, log_value, norm

LAZY = object()


def tag_pred(tag):
    p = Pred(('tag', tag if isinstance(tag, str) else str(tag.e)), lambda x: eqv(x.tag, tag))
    p.key_value = tag
    return p


class VAttr(Obj):
    """attributes; known: name -> value (None: absent). open: other names undecided until asked."""

    def __init__(self, owner, known=None, open=False, others=None):
        self._born()
        self.owner, self.known, self.open = owner, dict(known or {}), open
        self.doms = {}                # name -> list of possible values (None = absent, LAZY = any string)
        self.others = others          # Seg of (name, value): attributes with unknown names

    def _find(self, name):
        if isinstance(name, str):
            if name in self.known:
                return name
        else:
            for k in list(self.known):
                if bool(eqv(name, k)):
                    return k
        return None

    def get(self, name, default=None):
        k = self._find(name)
        if k is not None:
            v = self.known[k]
            return default if v is None else v
        if not self.open:
            return default
        if not isinstance(name, str):
            raise Unsupported('attribute with a symbolic name')
        v = self.resolve(name)
        return default if v is None else v

    def resolve(self, name):
        dom = self.doms.get(name, [None, LAZY])
        dom = dom(self.owner) if callable(dom) else dom
        v = dom[C().choose(len(dom))] if len(dom) > 1 else dom[0]
        if v is LAZY:
            v = fstr(name.split('}')[-1])
        self.known[name] = v
        return v

    def _write(self, name, v):
        o = self.owner
        if o.frozen:
            C().prove('frame: %s is not modified' % o.frozen, False, 'attribute %s written' % (name,))
            raise Kill()
        if not hasattr(self, 'written'):
            self.written = set()
        self.written.add(name if isinstance(name, str) else '?')
        o._log('attr', name if isinstance(name, str) else '?')
        self.known[name] = v

    def havoc(self, name):
        if name == '?':
            raise Unsupported('attributes written in a loop')
        self.known.pop(name, None)
        self.open = True
        self.doms[name] = [None, LAZY]

    def __getitem__(self, name):
        v = self.get(name)
        if v is None:
            raise KeyError(str(name))
        return v

    def __setitem__(self, name, v):
        if not isinstance(v, (str, SStr)):
            raise TypeError('Argument must be bytes or unicode, got %r' % type(v).__name__)
        if not isinstance(name, str):
            k = self._find(name)
            if k is None:
                raise Unsupported('attribute with a symbolic name set')
            name = k
        self._write(name, v)

    def __delitem__(self, name):
        if isinstance(name, AttrName):
            self._write('?', None)
            self.known.pop('?', None)
            self.deleted = True
            return
        if self.get(name) is None:
            raise KeyError(name)
        self._write(name, None)

    def pop(self, name, *d):
        v = self.get(name)
        if v is None:
            if d:
                return d[0]
            raise KeyError(name)
        self._write(name, None)
        return v

    def __contains__(self, name):
        return self.get(name) is not None

    def names(self):
        its = [k for k, v in self.known.items() if v is not None]
        if self.open:
            if self.others is None:
                raise Unsupported('iteration over undecided attributes')
            its = its + [self.others]
        return its

    def keys(self):
        return VList(self.names())

    def pairs(self):
        return VList([(k, self.known[k]) if not isinstance(k, Seg) else k for k in self.names()])

    def __iter__(self):
        return iter(self.keys())

    def length(self):
        return self.keys().length()

    def __bool__(self):
        return bool(self.keys())

    def values(self):
        return VList([self.known[k] for k in self.names()])

    def update(self, o):
        from . import rt
        for k, v in rt.vc_items(o):
            self[k] = v

    def snapshot(self):
        return (dict(self.known), self.open, dict(self.doms), self.others)

    def copy_from(self, o):
        """copy of attributes (SubElement(attrib=...)): undecided names are shared lazily"""
        if isinstance(o, VAttr):
            self.known.update({k: v for k, v in o.known.items() if v is not None})
            if o.open:
                self.open = True
                self.doms = _Shared(o)
                self.others = o.others
        else:
            from . import rt
            for k, v in rt.vc_items(o):
                self.known[k] = v


class _Shared(dict):
    """domain of an attribute copied from another element: its value there"""

    def __init__(self, src):
        self.src = src
        self.base = src.snapshot()

    def get(self, name, d=None):
        if dict.__contains__(self, name):
            return dict.get(self, name)
        # value at the time of the copy: writes to src afterwards must not be seen
        known, open_, doms, others = self.base
        if name in known:
            return [known[name]]
        if name not in self.src.known:
            v = self.src.resolve(name)
            self.base[0][name] = v
            return [v]
        if name in self.src.known and not self.src.written_after(name, self.base):
            return [self.src.known[name]]
        raise Unsupported('attribute of a copy, changed in the original')


VAttr.written_after = lambda self, name, base: name in getattr(self, 'written', ())


class AttrName:
    pass


class SymElem(Obj):
    _n = 0

    def __init__(self, tag=None, text=LAZY, tail=None, attrib=None, nsmap=None, parent=None, kids=(), label='e', open=False):
        self._born()
        self.label = label
        self._tag = tag if tag is not None else fstr('tag')
        self._text, self._tail = text, tail
        self.attrib = VAttr(self, attrib, open)
        self._nsmap = nsmap
        self.parent = parent
        self.kids = VList(kids)
        self.kids.owner = self
        for k in kids:
            if isinstance(k, SymElem):
                k.parent = self
        self.seg = None
        self.frozen = getattr(C(), 'freeze', None)         # no element may change (asked for by the harness)
        self.sn = None
        self.ghost = {}
        self.live = []
        self.unordered = False

    # ---------------------------------------------------------------- scalars
    @property
    def tag(self):
        return self._tag

    @tag.setter
    def tag(self, v):
        self._mod('tag')
        self._tag = v

    def seg_dry_log(self):
        return None

    def _mod(self, what):
        if self.frozen:
            C().prove('frame: %s is not modified' % self.frozen, False, what)
            raise Kill()

    def _lazy_text(self):
        if C().choose(2) == 0:
            return None
        return fstr('text')

    @property
    def text(self):
        if self._text is LAZY:
            self._text = self._lazy_text()
        return self._text

    @text.setter
    def text(self, v):
        self._mod('text')
        self._log('text')
        if not (v is None or isinstance(v, (str, SStr))):
            raise TypeError('Argument must be bytes or unicode, got %r' % type(v).__name__)
        self._text = v

    def havoc_text(self):
        self._text = LAZY

    @property
    def tail(self):
        if self._tail is LAZY:
            self._tail = None if C().choose(2) == 0 else fstr('tail')
        return self._tail

    @tail.setter
    def tail(self, v):
        self._mod('tail')
        self._log('text')
        self._tail = v

    @property
    def nsmap(self):
        if self._nsmap is None:
            p = self.parent
            if p is not None:
                self._nsmap = VDict(p.nsmap) if not isinstance(p.nsmap, dict) else dict(p.nsmap)
            else:
                self._nsmap = VDict()
        return self._nsmap

    def __getattribute__(self, name):
        return object.__getattribute__(self, name)

    # ---------------------------------------------------------------- attributes
    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def set(self, name, v):
        self.attrib[name] = v

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.pairs()

    # ---------------------------------------------------------------- structure
    def getparent(self):
        return self.parent

    def iterancestors(self, tag=None):
        out, p = [], self.parent
        while p is not None:
            out.append(p)
            if p.parent is None and p.ghost.get('up') is not None:
                out.append(p.ghost['up'])
                break
            p = p.parent
        if tag is not None:
            raise Unsupported('iterancestors(tag)')
        return VList(out)

    def getroottree(self):
        r = self
        while r.parent is not None:
            r = r.parent
        return Tree(r)

    def getroot(self):
        return self

    def _kids(self):
        if self.unordered:
            raise Unsupported('order of children is unknown after a loop')
        return self.kids.norm()

    def getchildren(self):
        return VList(self._kids())

    def iterchildren(self, *tags, tag=None, reversed=False):
        if tags:
            tag = tags[0]
        if reversed:
            raise Unsupported('reversed children')
        return VList(self._matching(tag))

    def _matching(self, tag):
        if tag is None or isinstance(tag, str) and tag == '*':
            return list(self._kids())
        p = tag_pred(tag)
        out = []
        for k in list(self._kids()):
            if isinstance(k, Seg):
                v = view(k, p)
                if v is not None:
                    out.append(v)
            elif bool(eqv(k.tag, tag)):
                out.append(k)
        return out

    def findall(self, path, namespaces=None):
        path = self._simple(path)
        return VList(self._matching(path))

    def find(self, path, namespaces=None):
        path = self._simple(path)
        try:
            return VList(self._matching(path))[0]
        except IndexError:
            return None

    def findtext(self, path, default=None):
        e = self.find(path)
        return default if e is None else (e.text or '')

    def _simple(self, path):
        if isinstance(path, str) and path.startswith('./'):
            path = path[2:]
        if isinstance(path, str) and any(c in path.split('}')[-1] for c in '/[.*'):
            raise Unsupported('find by path %r' % path)
        return path

    def __iter__(self):
        from .values import Loop, seg_iter
        items = list(self._kids())
        if any(isinstance(x, Seg) for x in items):
            return seg_iter(items, Loop())
        return iter(items)

    def length(self):
        return VList(self._kids()).length() if not self.unordered else fint('len', 0)

    def __len__(self):
        n = self.length()
        if isinstance(n, SInt):
            raise Unsupported('native len of an element with unknown children')
        return n

    def __bool__(self):
        raise Unsupported('truth value of an element')

    def __getitem__(self, k):
        return VList(self._kids())[k]

    def iter(self, *tags, tag=None):
        if tags or tag is not None:
            raise Unsupported('iter(tag)')
        out = [self]
        for k in self._kids():
            if isinstance(k, Seg):
                raise Unsupported('iter() over unknown descendants')
            out += k.iter().items
        return VList(out)

    def itersiblings(self, *tags, tag=None, preceding=False):
        if tags:
            tag = tags[0]
        if self.parent is None:
            return VList([])
        items = self.parent._kids()
        i = next(j for j, x in enumerate(items) if x is self)
        part = items[:i] if preceding else items[i + 1:]
        tmp = SymElem('x')
        tmp.kids.items = list(part)
        out = tmp._matching(tag)
        if preceding:
            out = [Rev(x) if isinstance(x, Seg) else x for x in reversed(out)]
        return RevList(out) if preceding else VList(out)

    def getnext(self):
        r = self.itersiblings()
        try:
            return r[0]
        except IndexError:
            return None

    def getprevious(self):
        r = self.itersiblings(preceding=True)
        try:
            return r[0]
        except IndexError:
            return None

    # ---------------------------------------------------------------- changes
    def _chg(self, what):
        self._mod('children (%s)' % what)
        if self.live and not (what == 'remove'):
            pass

    def _detach(self, e):
        p = e.parent
        if p is not None:
            p._mod('children (detach)')
            items = p.kids.norm()
            for i, x in enumerate(items):
                if x is e:
                    del items[i]
                    break
            else:
                if not p.unordered:
                    raise Unsupported('detaching a member of a segment')
            p._log_struct(e)
        e.parent = None

    def _log_struct(self, e):
        c = C()
        for d in c.dry:
            if self.oid < d.birth0:
                if e is d.y and e.seg is not None:
                    d.log.append(('dirty', d.seg.oid))
                else:
                    d.log.append(('struct', self.oid))

    def remove(self, e):
        self._chg('remove')
        items = self.kids.norm()
        for i, x in enumerate(items):
            if x is e:
                del items[i]
                e.parent = None
                self._log_struct(e)
                return
        if isinstance(e, Loose) and e.parent is self:
            self.loosen()
            self._log('loosen')
            e.parent = None
            return
        if isinstance(e, SymElem) and e.parent is self:
            raise Unsupported('removing a member of a segment')
        raise ValueError('Element is not a child of this node.')

    def loosen(self):
        """some unspecified members of the segments are gone"""
        self.kids.items[:] = [x.sub() if isinstance(x, Seg) else x for x in self.kids.norm()]

    def _log_insert(self, e):
        from .values import Template
        c = C()
        for d in c.dry:
            if self.oid < d.birth0:
                if e.oid >= d.birth0 and e is not d.y and e.seg is None:
                    d.log.append(('mixin', self.oid, Template(e, d)))     # a node made in this iteration
                else:
                    d.log.append(('struct', self.oid))

    def mix(self, ts):
        """any number of new members (instances of the templates ts) stand anywhere among the children"""
        C().approx.add('members inserted by a loop')
        runs, cur = [], []
        for x in self.kids.norm():
            if isinstance(x, Seg):
                cur.append(x)
            else:
                runs += [cur, x]
                cur = []
        runs.append(cur)
        out = []
        if getattr(C(), 'generic', None) is not None:
            # asked for by the harness: a segment of arbitrary nodes covers the new members
            for r in runs:
                if not isinstance(r, list):
                    out.append(r)
                elif any(getattr(x, 'any', False) for x in r):
                    out += r
                else:
                    out += r + [C().generic(self)]
            self.kids.items[:] = out
            return
        for r in runs:
            if not isinstance(r, list):
                out.append(r)
                continue
            segs, tmap = [], {}
            for x in r:
                m = getattr(x, 'mixed', None)
                if m is not None:
                    for y in m[0]:
                        if not any(y is z for z in segs):
                            segs.append(y)
                    tmap.update({t.fingerprint(): t for t in m[1]})
                else:
                    segs.append(x)
            tmap.update({t.fingerprint(): t for t in ts})
            tl = list(tmap.values())

            def make(segs=segs, tl=tl):
                i = C().choose(len(segs) + len(tl))
                return segs[i].sub().draw() if i < len(segs) else tl[i - len(segs)].draw()
            n = Seg(make, name='mix')
            n.mixed = (segs, tl)
            out.append(n)
        self.kids.items[:] = out

    def append(self, e):
        self._chg('append')
        self._detach(e)
        self.kids.norm().append(e)
        e.parent = self
        self._log_insert(e)

    def extend(self, es):
        from . import rt
        for e in rt.iterate(es):
            self.append(e)

    def insert(self, i, e):
        self._chg('insert')
        self._detach(e)
        items = self._kids()
        if i == 0:
            items.insert(0, e)
        elif any(isinstance(x, Seg) for x in items) or isinstance(i, SInt):
            raise Unsupported('insert at an index')
        else:
            items.insert(i, e)
        e.parent = self
        self._log_insert(e)

    def replace(self, old, new):
        self._chg('replace')
        self._detach(new)
        items = self.kids.norm()
        for i, x in enumerate(items):
            if x is old:
                items[i] = new
                old.parent = None
                new.parent = self
                self._log_struct(old)
                return
        raise ValueError('Element is not a child of this node.')

    def _beside(self, e, off):
        p = self.parent
        if p is None:
            raise TypeError('Only processing instructions and comments can be siblings of the root element')
        p._chg('insert')
        if e is self:
            return
        self._detach(e)
        items = p._kids()
        i = next(j for j, x in enumerate(items) if x is self)
        items.insert(i + off, e)
        e.parent = p
        p._log_insert(e)

    def addnext(self, e):
        self._beside(e, 1)

    def addprevious(self, e):
        self._beside(e, 0)

    # ---------------------------------------------------------------- identity
    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return hash(('elem', self.oid))

    def clone_into(self, f, memo):
        n = SymElem(f(self._tag), text=None)
        memo[id(self)] = n
        n._text = LAZY if self._text is LAZY else f(self._text)
        n._tail = LAZY if self._tail is LAZY else f(self._tail)
        n.attrib.known = {k: f(v) for k, v in self.attrib.known.items()}
        n.attrib.open, n.attrib.doms = self.attrib.open, self.attrib.doms
        n.parent = f(self.parent) if self.parent is not None else None
        n.kids.items = [f(x) for x in self.kids.items]
        n.ghost = {k: f(v) if isinstance(v, (SStr, SBool, SInt, tuple, Obj)) else v for k, v in self.ghost.items()}
        n.sn = self.sn
        n.frozen = self.frozen
        n.label = self.label
        return n

    def __repr__(self):
        return '<%s>' % self.label

    def __str__(self):
        return '<elem>'

    def __format__(self, s):
        return '<elem>'

    def xpath(self, *a, **k):
        raise Unsupported('xpath()')


class Tree:
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root

    def iter(self, *a, **k):
        return self.root.iter(*a, **k)


class Rev:
    """a segment seen backwards (preceding siblings)"""

    def __init__(self, seg):
        self.seg = seg


class RevList:
    def __init__(self, items):
        self.items_ = items

    def norm(self):
        out = []
        for x in self.items_:
            if isinstance(x, Rev):
                for y in reversed(norm([x.seg])):
                    out.append(Rev(y) if isinstance(y, Seg) else y)
            else:
                out.append(x)
        self.items_ = out
        return out

    def __getitem__(self, k):
        if k < 0 or not isinstance(k, int):
            raise Unsupported('index into preceding siblings')
        i, n = 0, k
        while True:
            items = self.norm()
            if i >= len(items):
                raise IndexError('list index out of range')
            if isinstance(items[i], Rev):
                items[i].seg.unfold(False)
                continue
            if n == 0:
                return items[i]
            n -= 1
            i += 1

    def __bool__(self):
        try:
            self[0]
            return True
        except IndexError:
            return False

    def __contains__(self, x):
        from .values import contains
        return contains([y.seg if isinstance(y, Rev) else y for y in self.norm()], x)

    def items_list(self):
        its = self.norm()
        if any(isinstance(x, Rev) for x in its):
            return None
        return its

    def __iter__(self):
        its = self.items_list()
        if its is None:
            raise Unsupported('iteration over unknown preceding siblings')
        return iter(its)

    def length(self):
        return VList([y.seg if isinstance(y, Rev) else y for y in self.norm()]).length()


# ==================================================================== schema nodes
class Schema:
    """the schema as seen through device.get_schema_node: one symbolic schema node per (parent, tag)"""
    TYPES = ['leaf', 'leaf-list', 'container', 'list']

    @staticmethod
    def node(tag, type=None, label='schema', parent=None, **attrs):
        s = SymElem(tag, text=None, label=label, open=True)
        s.parent = parent
        s.attrib.doms = {
            'type': Schema.TYPES,
            'ordered-by': lambda o: ['user', None] if o.get('type') in ('list', 'leaf-list') else [None],
            'presence': lambda o: ['true', None] if o.get('type') == 'container' else [None],
            'is_key': lambda o: ['true', None] if o.get('type') == 'leaf' else [None],
            'status': [None, 'deprecated', 'obsolete'],
            'default': lambda o: [None, LAZY] if o.get('type') in ('leaf', 'leaf-list') else [None],
            'datatype': lambda o: ['string', 'identityref:base', 'instance-identifier'] if o.get('type') in ('leaf', 'leaf-list') else [None],
            'access': ['read-write', 'read-only', 'write'],
        }
        if type is not None:
            s.attrib.known['type'] = type
        s.attrib.known.update({k.replace('_', '-') if k != 'is_key' else k: v for k, v in attrs.items()})
        s.frozen = 'the model'
        return s


def schema_of(node):
    """schema node of a data node (stub of device.get_schema_node; its own contract is C08)"""
    if node.sn is None:
        p = node.parent
        if p is None:
            raise Unsupported('schema node of a detached element')
        reg = p.ghost.setdefault('schema', [])
        for t, s in reg:
            if bool(eqv(t, node.tag)):
                node.sn = s
                break
        else:
            node.sn = Schema.node(node.tag, parent=p.sn)
            reg.append((node.tag, node.sn))
    return node.sn


# ==================================================================== etree facade
class _Parser:
    def __init__(self, *a, **k):
        self.k = k


class ETree:
    Comment = ('comment',)
    ProcessingInstruction = ('pi',)
    _Element = SymElem
    XMLParser = _Parser

    @staticmethod
    def Element(tag, attrib=None, nsmap=None, **extra):
        e = SymElem(tag, text=None, nsmap=None if nsmap is None else nsmap, label='new')
        e.frozen = None
        if attrib is not None:
            e.attrib.copy_from(attrib)
        for k, v in extra.items():
            e.attrib.known[k] = v
        return e

    @staticmethod
    def SubElement(parent, tag, attrib=None, nsmap=None, **extra):
        e = ETree.Element(tag, attrib, nsmap, **extra)
        parent.append(e)
        return e

    @staticmethod
    def iselement(x):
        return isinstance(x, SymElem)

    @staticmethod
    def tostring(e, *a, **k):
        return fstr('xml')

    @staticmethod
    def strip_tags(e, *tags):
        # comments and processing instructions carry no data; the trees here have none (see ASSUMPTIONS)
        return None

    @staticmethod
    def QName(a, b=None):
        if b is None:
            raise Unsupported('QName of one argument')
        return '{' + a + '}' + b

    @staticmethod
    def register_namespace(p, u):
        return None

    def XML(*a, **k):
        raise Unsupported('parsing XML')


def deepcopy(x):
    """assumed contract of copy.deepcopy: an equal, disjoint copy"""
    if isinstance(x, SymElem):
        h = x.ghost.get('deepcopy')
        if h is not None:
            return h()
        n = SymElem(x._tag, text=x.text, label='copy of ' + x.label, nsmap=x._nsmap)
        n.frozen = None
        n._tail = x._tail
        n.attrib.copy_from(x.attrib)
        n.sn, n.ghost = x.sn, dict(x.ghost)
        n.ghost['copy_of'] = x
        for k in x._kids():
            if isinstance(k, Seg):
                raise Unsupported('deepcopy of unknown children')
            n.append(deepcopy(k))
        return n
    if isinstance(x, (VList, VDict, VSet)):
        return x.copy()
    import copy
    return copy.deepcopy(x)


# ==================================================================== schema as functions of (context, tag)
_SF = {}


def sfn(name, *sorts):
    if name not in _SF:
        _SF[name] = z3.Function(name, *sorts)
    return _SF[name]


class SNode(Obj):
    """schema node of the children with one tag: its attributes are functions of the tag (and of the parent's
    schema node, ctx), so two lookups of the same node agree"""
    OPTIONAL = ('ordered-by', 'presence', 'is_key', 'status', 'default', 'datatype')

    def __init__(self, tag, ctx='', up=None, concrete=False):
        self._born()
        self._t, self.ctx, self.up, self.concrete = tag, ctx, up, concrete
        self.tag = tag

    def get(self, name, default=None):
        e = core.zstr(self._t)
        if name == 'type':
            v = sfn('s_type' + self.ctx, z3.StringSort(), z3.StringSort())(e)
            C().assume(z3.Or([v == t for t in Schema.TYPES]))
            if self.concrete:
                for t in Schema.TYPES:
                    if C().branch(v == t):
                        return t
                raise Kill()
            return core.SStr(v)
        has = sfn('s_has_%s%s' % (name, self.ctx), z3.StringSort(), z3.BoolSort())(e)
        if not C().branch(has):
            return default
        if name in ('presence', 'is_key'):
            return 'true'
        if name == 'ordered-by':
            return 'user'
        return core.SStr(sfn('s_%s%s' % (name, self.ctx), z3.StringSort(), z3.StringSort())(e))

    def is_(self, name, value):
        """spec-side: condition that attribute name has the value, without forking"""
        e = core.zstr(self._t)
        if name == 'type':
            return core.SBool(sfn('s_type' + self.ctx, z3.StringSort(), z3.StringSort())(e) == value)
        has = sfn('s_has_%s%s' % (name, self.ctx), z3.StringSort(), z3.BoolSort())(e)
        if value is None:
            return core.SBool(z3.Not(has))
        if name in ('presence', 'is_key', 'ordered-by'):
            return core.SBool(has)
        return core.SBool(z3.And(has, sfn('s_%s%s' % (name, self.ctx), z3.StringSort(), z3.StringSort())(e) == core.zstr(value)))

    def find(self, path):
        return SNode(path, self.ctx + '/', self)

    def getparent(self):
        if self.up is None:
            return GNode(core.SInt(sfn('s_up' + self.ctx, z3.StringSort(), z3.IntSort())(core.zstr(self._t))))
        return self.up

    def clone_into(self, f, memo):
        n = SNode(f(self._t), self.ctx, self.up, self.concrete)
        memo[id(self)] = n
        return n

    def __eq__(self, o):
        if isinstance(o, SNode) and o.ctx == self.ctx:
            return core.eqv(self._t, o._t)
        return self is o

    __hash__ = None

    def __format__(self, s):
        return '<schema>'

    __str__ = __repr__ = lambda s: '<schema>'


class GNode(Obj):
    """a schema node above: known by a number; its type and its parent are functions of it"""
    TYPES = ('container', 'list', 'case', 'choice', 'module')

    def __init__(self, id):
        self._born()
        self.id = id

    def type_is(self, t):
        return core.SBool(sfn('g_type', z3.IntSort(), z3.StringSort())(core.zint(self.id)) == t)

    def get(self, name, default=None):
        if name != 'type':
            raise Unsupported('attribute %s of an ancestor schema node' % name)
        v = sfn('g_type', z3.IntSort(), z3.StringSort())(core.zint(self.id))
        C().assume(z3.Or([v == t for t in self.TYPES]))
        return core.SStr(v)

    def getparent(self):
        return GNode(core.SInt(sfn('g_up', z3.IntSort(), z3.IntSort())(core.zint(self.id))))

    def clone_into(self, f, memo):
        n = GNode(f(self.id))
        memo[id(self)] = n
        return n

    def __eq__(self, o):
        return core.eqv(self.id, o.id) if isinstance(o, GNode) else False

    def __ne__(self, o):
        return core.not_(self == o)

    __hash__ = None
    __str__ = __repr__ = lambda s: '<schema node above>'


class FnAttr(VAttr):
    """attributes of a node that is only read: presence and value are functions of the node and the name"""

    def __init__(self, ident, names=()):
        Obj._born(self)
        self.ident, self.given = ident, list(names)
        self.known, self.open = {}, False

    def has(self, name):
        return core.SBool(sfn('a_has', z3.IntSort(), z3.StringSort(), z3.BoolSort())(core.zint(self.ident), core.zstr(name)))

    def val(self, name):
        return core.SStr(sfn('a_val', z3.IntSort(), z3.StringSort(), z3.StringSort())(core.zint(self.ident), core.zstr(name)))

    def get(self, name, default=None):
        return self.val(name) if bool(self.has(name)) else default

    def names(self):
        if not self.given:
            def mk():
                n = fstr('attr')
                C().assume(core.zbool(self.has(n)))
                return n
            self.given = [Seg(mk)]
        return list(self.given)

    def focus(self, name):
        """the attribute name is present: any others before and after it"""
        C().assume(core.zbool(self.has(name)))
        a, b = self.names() + FnAttr(self.ident).names()
        self.given = [a, name, b]

    def __getitem__(self, name):
        if not bool(self.has(name)):
            raise KeyError(str(name))
        return self.val(name)

    def __contains__(self, name):
        return bool(self.has(name))

    def pairs(self):
        raise Unsupported('items of abstract attributes')

    def __setitem__(self, name, v):
        raise Unsupported('write to abstract attributes')

    __delitem__ = pop = None


class LooseSiblings:
    """siblings of a node whose place is not tracked: anything (over-approximation)"""

    def __init__(self, of):
        self.of, self.first, self.some = of, None, None

    def __bool__(self):
        if self.some is None:
            self.some = bool(fbool('has siblings'))
        return self.some

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported('sibling of a loose node')
        if not bool(self):
            raise IndexError('list index out of range')
        if self.first is None:
            self.first = self.of.like()
        return self.first

    def __contains__(self, x):
        return bool(self) and bool(fbool('is sibling'))

    def norm(self):
        return [self]

    def length(self):
        n = fint('siblings', 0)
        C().assume((core.zint(n) > 0) == bool(self))
        return n


class Loose(SymElem):
    """a member of a segment that is not the focus of the argument; its siblings are abstract"""
    like = None                 # makes another one with the same parent and tag

    def itersiblings(self, *tags, tag=None, preceding=False):
        C().approx.add('loose siblings')
        return LooseSiblings(self)
