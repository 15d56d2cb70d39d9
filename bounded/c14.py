"""C14: compatibility gate."""
import itertools
from harness.base import *
from bounded.c01 import wrap
BOUND = 'all pairs of 8 configs (using none, one or both of two models) on all pairs of 14 device variants (different leaf, extra node, prefix, URL, prefix or URL in which one character differs, unloaded models, a prefix or URL changed by a later scan), both operand orders, +, - and delta building'

VARIANTS = ['same', 'leaf', 'extra', 'uleaf', 'prefix', 'url', 'no-vt', 'no-vu', 'kind', 'none', 'rescan', 'url/', 'PREFIX', 'rescan/']
BODIES = {'': '', 'vt': '<vt:two xmlns:vt="{vt}"><vt:a>p</vt:a></vt:two>', 'vt2': '<vt:rootleaf xmlns:vt="{vt}">q</vt:rootleaf>', 'vu': '<vu:utop xmlns:vu="urn:vu"><vu:a>p</vu:a></vu:utop>',
          'both': '<vu:utop xmlns:vu="urn:vu"><vu:a>q</vu:a></vu:utop><vt:two xmlns:vt="{vt}"><vt:a>p</vt:a></vt:two>'}


URLS = {'url': 'urn:vt2', 'url/': 'urn:vt/'}


def edit(var):
    def f(name, t):
        if name == 'vt':
            # independent of vu so that the variants change one model only
            if var == 'leaf':
                t = t.replace('container two { leaf a { type string; }', 'container two { leaf a { type uint8; }')
            if var == 'extra':
                t = t.replace('leaf rootleaf { type string; }', 'leaf rootleaf { type string; } leaf rootextra { type string; }')
            if var == 'kind':
                t = t.replace('leaf-list rootul { type string; ordered-by user; }', 'leaf-list rootul { type string; }')
            if var == 'prefix':
                t = t.replace('prefix vt;', 'prefix vtx;')
            if var == 'PREFIX':
                t = t.replace('prefix vt;', 'prefix VT;')
            if var in URLS:
                t = t.replace('namespace "urn:vt";', 'namespace "%s";' % URLS[var])
        if name == 'vu' and var == 'uleaf':
            t = t.replace('container utop { leaf a { type string; }', 'container utop { leaf a { type string { length "1..9"; } } leaf b { type string; }')
        return t
    return f


_devs = {}


def dev(var, k):
    if (var, k) not in _devs:
        caps = [c.replace('urn:vt?', URLS[var] + '?') if var in URLS else c for c in CAPS]
        load = ['vt', 'vu']
        if var == 'no-vt':
            load.remove('vt')
        if var == 'no-vu':
            load.remove('vu')
        if var == 'none':
            load = []
        m = _devs[(var, k)] = new_device(caps=caps, load=load, edit=edit(var))
        if var.startswith('rescan'):
            # the table follows the folder scanned last, the loaded models stay
            d = scratch()
            for f in os.listdir(YANG):
                t = open(os.path.join(YANG, f)).read()
                open(os.path.join(d, f), 'w').write((t.replace('prefix vt;', 'prefix vtz;') if var == 'rescan' else t.replace('"urn:vt"', '"urn:vt/"')) if f == 'vt.yang' else t)
            m.scan_models(folder=d, download='ignore')
    return _devs[(var, k)]


DIFF = {'same': set(), 'leaf': {'vt'}, 'extra': {'vt'}, 'kind': {'vt'}, 'uleaf': {'vu'}, 'prefix': {'vt'}, 'url': {'vt'}, 'url/': {'vt'}, 'PREFIX': {'vt'}, 'no-vt': set(), 'no-vu': set(), 'none': set(), 'rescan': {'vt'}, 'rescan/': {'vt'}}
MISS = {'no-vt': {'vt'}, 'no-vu': {'vu'}, 'none': {'vt', 'vu'}}
USES = {'': set(), 'vt': {'vt'}, 'vt2': {'vt'}, 'vu': {'vu'}, 'both': {'vt', 'vu'}}


def cases(tier, rng):
    for v1, v2 in itertools.product(VARIANTS, repeat=2):
        for b1, b2 in itertools.product(BODIES, repeat=2):
            if USES[b1] & MISS.get(v1, set()) or USES[b2] & MISS.get(v2, set()):
                continue
            yield {'v1': v1, 'v2': v2, 'b1': b1, 'b2': b2, 'one': v1 == v2 and (len(b1) + len(b2)) % 2 == 0}


def check(case):
    from ncdiff import Config, ConfigDelta
    from ncdiff.errors import ModelMissing, ModelIncompatible
    v1, v2 = case['v1'], case['v2']
    d1, d2 = dev(v1, 0), dev(v2, 0 if case['one'] else 1)
    url = lambda v: URLS.get(v, 'urn:vt')
    A = Config(d1, wrap(BODIES[case['b1']].format(vt=url(v1)), ' '))
    B = Config(d2, wrap(BODIES[case['b2']].format(vt=url(v2)), ' '))
    used = USES[case['b1']] | USES[case['b2']]
    missing = used & (MISS.get(v1, set()) | MISS.get(v2, set()))
    # vu augments vt: models of vt differ as soon as the augmenting module's prefix/url context differs; only vt and vu own content counts here
    differ = set()
    if not case['one'] and v1 != v2:
        differ = used & (DIFF[v1] | DIFF[v2])
        # a changed namespace of vt also changes nothing in vu's own nodes
    for nm, f in (('+', lambda: A + B), ('-', lambda: A - B), ('ConfigDelta', lambda: ConfigDelta(A, B)), ('reversed +', lambda: B + A), ('reversed -', lambda: B - A),
                  ('config + delta', lambda: A + (B - Config(d2))), ('delta + config', lambda: (B - Config(d2)) + A), ('config - delta', lambda: A - (Config(d2) - B))):
        try:
            r = f()
            got = None
        except ModelMissing:
            got = 'missing'
        except ModelIncompatible:
            got = 'incompatible'
        allowed = ({'missing'} if missing else set()) | ({'incompatible'} if differ else set()) or {None}
        if got not in allowed:
            return '%s of configs using %s on devices %s and %s: %s, expected %s' % (nm, sorted(used), v1, v2, got, sorted(map(str, allowed)))
        if got is None and nm == '-' and not hasattr(r, 'nc'):
            return 'no delta'
    return None
