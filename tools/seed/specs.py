"""Planted changes: written from the property texts and the code, see mk.py."""
SPECS = []


def bug(id, property, edits, needs, breaks, demo, lib=True):
    SPECS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, lib=lib))


bug('C01-choice-same-case', 'C01',
    [('netconf.py', '''                    if choice_node not in choice_nodes or \\
                       s_node.getparent() == choice_nodes[choice_node]:
''', '''                    if choice_node not in choice_nodes:
''')],
    'two configs that use the same case of a choice, where one leaf of the case is added and another one removed',
    'the delta no longer deletes the removed leaf, so applying it to the source does not give the destination',
    '''
from lib import *
d = device()
a = config(d, '<top><c1a>1</c1a></top>')
b = config(d, '<top><c1b>2</c1b></top>')
assert a + (b - a) == b, str(b - a)
assert b + (-(b - a)) == a
''')

bug('C02-create-existing-leaflist', 'C02',
    [('netconf.py', '''        if this_operation == 'merge' or \\
           this_operation == 'replace':
            if s_node.get('ordered-by') == 'user' and \\
               child_other.get(insert_tag) is not None:
                if child_other.get(insert_tag) == 'first':
                    scope = parent_self.getchildren()
                    siblings = self._get_sequence(scope, child_other.tag,
                                                  parent_self)
                    if siblings[0] != child_self:
                        siblings[0].addprevious(child_self)
                elif''', '''        if this_operation in ('merge', 'replace', 'create') and \\
           (this_operation != 'create' or
                s_node.get('ordered-by') != 'user'):
            if s_node.get('ordered-by') == 'user' and \\
               child_other.get(insert_tag) is not None:
                if child_other.get(insert_tag) == 'first':
                    scope = parent_self.getchildren()
                    siblings = self._get_sequence(scope, child_other.tag,
                                                  parent_self)
                    if siblings[0] != child_self:
                        siblings[0].addprevious(child_self)
                elif''')],
    'a create operation on a system-ordered leaf-list entry that already exists',
    'creating an existing entry is silently accepted instead of raising a config-delta error',
    '''
from lib import *
from ncdiff.errors import ConfigDeltaError
d = device()
a = config(d, '<top><sys>x</sys></top>')
try:
    a + edit('<top><sys nc:operation="create">x</sys></top>')
except ConfigDeltaError:
    pass
else:
    raise SystemExit('create of an existing entry was accepted')
a + edit('<top><sys nc:operation="create">y</sys></top>')
''')

bug('C03-after-adjacent', 'C03',
    [('netconf.py', '''                if sibling != child_self:
                    sibling.addnext(child_self)
''', '''                if sibling not in (child_self, child_self.getnext()):
                    sibling.addnext(child_self)
''')],
    'insert="after" of an existing user-ordered list entry whose direct successor is the reference entry',
    'the entry stays before its reference instead of moving behind it',
    '''
from lib import *
d = device()
a = config(d, '<top><ulst><name>a</name></ulst><ulst><name>b</name></ulst><ulst><name>c</name></ulst></top>')
r = a + edit("<top><ulst yang:insert='after' yang:key=\\"[vt:name='b']\\"><name>a</name></ulst></top>")
assert texts(r, 'name') == ['b', 'a', 'c'], texts(r, 'name')
r = a + edit("<top><ulst yang:insert='after' yang:key=\\"[vt:name='c']\\"><name>a</name></ulst></top>")
assert texts(r, 'name') == ['b', 'c', 'a'], texts(r, 'name')
''')

bug('C04-elder-sibling', 'C04',
    [('calculator.py', 'immediate_elder_sibling = elder_siblings[0]', 'immediate_elder_sibling = elder_siblings[-1]')],
    'user-ordered lists with at least three entries that agree in the first one but not in the order of the others',
    'configs in different user order compare as included and equal',
    '''
from lib import *
d = device()
a = config(d, '<top><usr>1</usr><usr>2</usr><usr>3</usr></top>')
b = config(d, '<top><usr>1</usr><usr>3</usr><usr>2</usr></top>')
assert not a <= b and not b <= a and a != b and not a == b
assert a == config(d, '<top><usr>1</usr><usr>2</usr><usr>3</usr></top>')
''')

bug('C05-filter-shares', 'C05',
    [('config.py', 'config = type(self)(self.device,  deepcopy(self.ele))\n', 'config = type(self)(self.device, self)\n')],
    'filter() by an expression that matches something, on a config used afterwards',
    'filtering a config removes the unmatched nodes from the config itself',
    '''
from lib import *
d = device()
a = config(d, '<top><a>1</a><sys>x</sys></top>')
before = str(a)
f = a.filter('//vt:a')
assert str(a) == before
f.ele[0][0].text = 'changed'
assert str(a) == before
''')

bug('C06-leaflist-default-prefix', 'C06',
    [('config.py', "                    values == defaults or\n", "                    values == defaults[:len(values)] or\n")],
    'a user-ordered leaf-list holding only the leading ones of its default values',
    'configured leaf-list entries are dropped as if they were the default set',
    '''
from lib import *
d = device()
a = config(d, '<top><udfl>x</udfl></top>')
assert texts(a, 'udfl') == ['x'], str(a)
assert not config(d, '<top><udfl>x</udfl><udfl>y</udfl></top>')
''')

bug('C07-nested-match', 'C07',
    [('config.py', '''            for node in results:
                if etree.iselement(node):
                    ancestors |= set(list(node.iterancestors()))
                    filtrates.add(node)
''', '''            for node in results:
                if etree.iselement(node):
                    filtrates -= set(list(node.iterancestors()))
                    ancestors |= set(list(node.iterancestors()))
                    filtrates.add(node)
''')],
    'an expression that matches a node and one of its own descendants',
    'the outer match loses the parts of its subtree that are not matched themselves',
    '''
from lib import *
d = device()
a = config(d, '<top><a>1</a><np><c>x</c><deep><c>y</c></deep></np></top>')
f = a.filter('//vt:deep/vt:c | //vt:np')
assert texts(f, 'c') == ['x', 'y'] and texts(f, 'a') == [], str(f)
f = a.filter('//vt:np')
assert texts(f, 'c') == ['x', 'y'] and texts(f, 'a') == [], str(f)
''')

bug('C08-reload-keeps-root', 'C08',
    [('manager.py', "                          if self.roots[k.split(' ')[0]] != m.name}\n",
      "                          if ' ' not in k or\n                          self.roots[k.split(' ')[0]] != m.name}\n")],
    'a model reloaded after one of its root nodes was looked up',
    'lookups of root nodes keep answering from the old model',
    '''
from lib import *
d = device()
a = config(d, '<top><a>1</a></top>')
old = d.get_schema_node(a.ele[0])
d.load_model('vt')
new = d.get_schema_node(a.ele[0])
assert new is not old and new.getroottree().getroot() is d.models['vt'].tree
n = d.get_schema_node(a.ele[0][0])
assert n.getroottree().getroot() is d.models['vt'].tree
''')

bug('C09-omit-prefix', 'C09',
    [('manager.py', '''        elif dst[1] == Tag.OMIT_BY_INHERITANCE:
            if default_ns == tag_ns:
                return tag_ns, format_tag('', tag_name)
            else:
                return tag_ns, format_tag(convert(tag_ns), tag_name)
        elif dst[1] == Tag.OMIT_BY_MODULE:
            if default_ns == tag_ns:
                return tag_ns, format_tag('', tag_name)
''', '''        elif dst[1] == Tag.OMIT_BY_INHERITANCE:
            if default_ns == tag_ns:
                return tag_ns, format_tag('', tag_name)
            else:
                return tag_ns, format_tag(convert(tag_ns), tag_name)
        elif dst[1] == Tag.OMIT_BY_MODULE:
            if default_ns == tag_ns:
                return default_ns, format_tag('', tag_name)
            elif default_ns:
                return default_ns, format_tag(convert(tag_ns), tag_name)
''')],
    'YTool notation of a path that enters another module and stays in it',
    'the returned default is not the namespace of the tag',
    '''
from lib import *
from ncdiff.composer import Tag
d = device()
assert d.convert_tag('urn:vt', '{urn:vu}aug', dst=Tag.YTOOL) == ('urn:vu', 'vu:aug')
assert d.convert_tag('urn:vt', '{urn:vt}a', dst=Tag.YTOOL) == ('urn:vt', 'a')
''')

bug('C10-default-ns', 'C10',
    [('ref.py', '''            # RFC7950 section 9.10.3
            url_to_prefix = {v: k for k, v in to_node.nsmap.items()}
''', '''            # RFC7950 section 9.10.3
            url_to_prefix = {v: k for k, v in self.node.nsmap.items()}
            url_to_prefix.update({v: k for k, v in to_node.nsmap.items()})
''')],
    'an identityref moved into a node that does not declare the namespace its value needs',
    'the value is written with a prefix the receiving node does not know instead of raising a config error',
    '''
from lib import *
from ncdiff.errors import ConfigError
from ncdiff.config import Config
d = device()
a = config(d, '<top><ref>id-one</ref></top>')
b = etree.XML('<nc:config xmlns:nc="%s"><t:top xmlns:t="urn:vt"><t:ref xmlns:q="urn:vu">q:id-three</t:ref></t:top></nc:config>' % NC)
try:
    r = a + b
except ConfigError:
    pass
else:
    e = r.ele.find('.//{urn:vt}ref')
    p = e.text.rpartition(':')[0] or None
    assert e.nsmap.get(p) == 'urn:vu', etree.tostring(e)
t = etree.XML('<t:top xmlns:t="urn:vt"><t:ref>t:id-one</t:ref></t:top>')
from ncdiff.ref import IdentityRef
try:
    v = IdentityRef(d, b.find('.//{urn:vt}ref'), to_node=t[0]).converted
except ConfigError:
    pass
else:
    raise SystemExit('dangling %s' % v)
''')

bug('C11-orderless-depth', 'C11',
    [('runningconfig.py', '''            if depth == current_depth and re.search(regx, line):
''', '''            if depth <= current_depth and re.search(regx, line):
''')],
    'a command that is order-insensitive at one depth only, standing reordered at a deeper level',
    'a difference in the order of order-sensitive lines is not reported',
    '''
from lib import *
from ncdiff import RunningConfigDiff
a = 'interface Gi1\\n logging host A\\n logging host B\\n'
b = 'interface Gi1\\n logging host B\\n logging host A\\n'
import ncdiff.runningconfig as rc
import re
assert any(re.search(r, 'logging host A') and dep == 0 for r, dep in rc.ORDERLESS_COMMANDS)
assert not any(re.search(r, 'logging host A') and dep == 1 for r, dep in rc.ORDERLESS_COMMANDS)
assert RunningConfigDiff(a, b)
assert not RunningConfigDiff(a, a)
assert not RunningConfigDiff('logging host A\\nlogging host B\\n', 'logging host B\\nlogging host A\\n')
''')

bug('C12-positive-prefix-key', 'C12',
    [('runningconfig.py', '''                        key for key in positive_keys if key[:key_len] == k]
''', '''                        key for key in positive_keys if k[:len(key)] == key]
''')],
    'a removed line and an added line that is a shorter prefix of it',
    'the removed line is never negated',
    '''
from lib import *
from ncdiff import RunningConfigDiff
c = RunningConfigDiff('hostname x\\nfoo bar baz\\n', 'hostname x\\nfoo bar\\n').cli
assert 'no foo bar baz' in c.splitlines(), c
''')

bug('C13-attr-one-way', 'C13',
    [('model.py', '''        if ModelDiff.node_less(node1, node2) and \\
           ModelDiff.node_less(node2, node1):
            return True
''', '''        if ModelDiff.node_less(node1, node2) and \\
           len(node1) == len(node2):
            return True
''')],
    'a newer model in which an attribute is added, or a node is added two levels below a changed node',
    'the diff of differing models is falsy',
    '''
from lib import *
from ncdiff.model import ModelDiff
d = device()
e = device(edit=lambda n, t: t.replace('container deep { leaf c', 'container deep { leaf fresh { type string; } leaf c'))
f = device(edit=lambda n, t: t.replace('leaf a { type string; }', 'leaf a { type string; mandatory true; }', 1))
assert ModelDiff(d.models['vt'], e.models['vt'])
assert ModelDiff(e.models['vt'], d.models['vt'])
assert ModelDiff(d.models['vt'], f.models['vt'])
assert ModelDiff(f.models['vt'], d.models['vt'])
assert not ModelDiff(d.models['vt'], device().models['vt'])
''')

bug('C14-models-of-first', 'C14',
    [('config.py', '''        check_models(self.models)
        for model in self.models:
            diff = ModelDiff(self.config1.device.models[model],
''', '''        check_models(self.models)
        for model in self.config1.models or self.models:
            diff = ModelDiff(self.config1.device.models[model],
''')],
    'two devices, a first operand that uses fewer models than the second one, and a model that differs only in the second',
    'configs of incompatible models are combined',
    '''
from lib import *
from ncdiff.errors import ModelIncompatible
d = device()
e = device(edit=lambda n, t: t.replace('utop { leaf a', 'utop { leaf fresh { type string; } leaf a'))
a = config(d, '<top><a>1</a></top>')
b = config(e, '<top><a>2</a></top><vu:utop><vu:a>1</vu:a></vu:utop>')
for f in (lambda: a + b, lambda: b + a, lambda: a - b, lambda: b - a):
    try:
        f()
    except ModelIncompatible:
        continue
    raise SystemExit('combined')
''')

bug('C15-worker-error', 'C15',
    [('model.py', '''                except Exception:
                    logger.exception('Got error while downloading')
                self.downloader.download_queue.task_done()
''', '''                except (AttributeError, KeyError, OSError, ValueError):
                    logger.exception('Got error while downloading')
                self.downloader.download_queue.task_done()
''')],
    'a download that fails with an exception class other than the usual ones (a timeout of the RPC, say)',
    'the worker dies without marking its module done, so the scan never finishes',
    '''
from lib import *
import threading, queue
import ncdiff.model as M
threading.excepthook = lambda a: None
from ncclient.operations.errors import TimeoutExpiredError


class Dl:
    def __init__(self):
        self.download_queue = queue.Queue()
        self.seen = []

    def download(self, m):
        self.seen.append(m)
        raise TimeoutExpiredError('late')


d = Dl()
for m in 'abc':
    d.download_queue.put(m)
ts = [M.DownloadWorker(d) for _ in range(2)]
for t in ts:
    t.daemon = True
    t.start()
j = threading.Thread(target=d.download_queue.join, daemon=True)
j.start()
j.join(20)
assert not j.is_alive(), 'scan hangs'
assert sorted(d.seen) == ['a', 'b', 'c']
''')

bug('C16-readable-state', 'C16',
    [('manager.py', '''                         if v in models and
                            (get_access_type(v, k) == 'read-write' or
                             get_access_type(v, k) == 'read-only')]
''', '''                         if v in models and
                            get_access_type(v, k) != 'write' and
                            len(self.models[v].tree.find(k)) > 0]
''')],
    'a get limited to a model that has a leaf or leaf-list at its root',
    'readable roots without children are left out of the filter',
    '''
from lib import *
import ncclient.manager as m
from ncclient import operations
sent = []
m.Manager.execute = lambda self, cls, *a, **k: sent.append((cls, a, k))
d = device()
d.execute('get', models='vt')
f = [c.tag for c in sent[-1][2]['filter']]
want = [r for r, n in d.roots.items() if n == 'vt' and d.models['vt'].tree.find(r).get('access') in ('read-write', 'read-only')]
assert sorted(f) == sorted(want), set(want) - set(f)
assert len(f) == len(set(f))
''')

bug('C17-delete-first-key', 'C17',
    [('netconf.py', '''                keys = self._get_list_keys(schema_node)
                for key in keys:
                    key_node = reference_child.find(key)
                    e = etree.SubElement(child, key, nsmap=key_node.nsmap)
''', '''                keys = self._get_list_keys(schema_node)
                for key in keys[:1]:
                    key_node = reference_child.find(key)
                    e = etree.SubElement(child, key, nsmap=key_node.nsmap)
''')],
    'a vanished non-presence container holding an entry of a list with two keys',
    'the deleted entry does not name all its keys',
    '''
from lib import *
from ncdiff.config import ConfigDelta
d = device(edit=lambda n, t: t.replace('container np {', 'container np { list two { key "k1 k2"; leaf k1 { type string; } leaf k2 { type string; } }', 1))
a = config(d, '<top><a>1</a><np><two><k1>1</k1><k2>2</k2></two></np></top>')
b = config(d, '<top><a>1</a></top>')
nc = ConfigDelta(a, b).nc
e = nc.find('.//{urn:vt}two')
assert e.get(OP) == 'delete' and [c.text for c in e] == ['1', '2'], etree.tostring(nc)
''')

bug('C18-rpc-output-access', 'C18',
    [('model.py', '''                if mode == 'rpc' and c.keyword in ['input', 'output']:
                    self.depict_a_schema_node(module, n, c, mode=c.keyword)
''', '''                if mode == 'rpc' and c.keyword in ['input', 'output'] and \\
                   c.i_children and c.i_children[0].keyword == 'leaf':
                    self.depict_a_schema_node(module, n, c, mode=c.keyword)
''')],
    'an RPC whose output starts with a container or list',
    'RPC output nodes are compiled with access write',
    '''
from lib import *
d = device(edit=lambda n, t: t.replace('output { leaf q { type string; } }', 'output { container oc { leaf q { type string; } } }'))
t = d.models['vt'].tree
assert t.find('.//{urn:vt}q').get('access') == 'read-only'
assert t.find('.//{urn:vt}oc').get('access') == 'read-only'
assert t.find('.//{urn:vt}p').get('access') == 'write'
''')
