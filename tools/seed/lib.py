"""Small offline device for the demonstrations (no network, scratch folder only)."""
import atexit, logging, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
from lxml import etree
from ncclient.devices.default import DefaultDeviceHandler
HERE = os.path.dirname(os.path.abspath(__file__))
CAPS = ['urn:vt?module=vt&revision=2024-01-01', 'urn:vu?module=vu', 'urn:vi?module=vi']
NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YN = 'urn:ietf:params:xml:ns:yang:1'
OP, INS = '{%s}operation' % NC, '{%s}insert' % YN


class FakeSession:
    id = '1'

    def __init__(self, caps):
        self._server_capabilities = self.server_capabilities = list(caps)

    def add_listener(self, l): pass
    def remove_listener(self, l): pass
    def get_listener_instance(self, c): return None


def scratch():
    d = tempfile.mkdtemp(prefix='ncdiff-demo-')
    atexit.register(shutil.rmtree, d, True)
    return d


def device(load=('vt', 'vu'), edit=None, caps=CAPS):
    from ncdiff.manager import ModelDevice
    cls = type('D', (ModelDevice,), {'server_capabilities': property(lambda s: s._caps)})
    d = scratch()
    for f in ('vt', 'vu', 'vi'):
        t = open(os.path.join(HERE, f + '.yang')).read()
        open(os.path.join(d, f + '.yang'), 'w').write(edit(f, t) if edit else t)
    m = cls(FakeSession(caps), DefaultDeviceHandler())
    m._caps = list(caps)
    m._dir = d
    m.scan_models(folder=d, download='ignore')
    for x in load:
        m.load_model(x)
    return m


def xml(body, root='config'):
    return ('<nc:%s xmlns:nc="%s" xmlns:yang="%s" xmlns="urn:vt" xmlns:vt="urn:vt" xmlns:vu="urn:vu">%s</nc:%s>'
            % (root, NC, YN, body, root))


def config(dev, body, **kw):
    from ncdiff.config import Config
    return Config(dev, xml(body), **kw)


def edit(body):
    return etree.XML(xml(body))


def texts(cfg, tag):
    return [e.text for e in cfg.ele.iter('{urn:vt}' + tag)]
