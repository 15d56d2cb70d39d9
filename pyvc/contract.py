"""What a contract module uses.

    @harness('manager.ModelDevice.convert_ns', name='...')
    def h(c): ...            # builds symbolic arguments, calls the loaded real function, states obligations

prove(name, cond) states an obligation; outcome(fn, *a) runs a call and returns ('return', value) or
('raise', exception class name, exception); cover(name) marks a point that some path must reach."""
import dis, re, sys
import z3
from . import core, load
from .core import (SBool, SInt, SStr, Kill, Unsupported, and_, or_, not_, implies, eqv, fstr, fint, fbool, zbool, zstr)
from .values import AbsSet, Seg, Pred, VList, VDict, VSet, view, C
from .elem import FnAttr, SymElem, SNode, GNode, Schema, schema_of, ETree, LAZY, VAttr, deepcopy, Loose
from . import rt

HARNESSES = {}


def harness(function, name=None, bound=None, replay=True, **limits):
    def deco(f):
        f.bound, f.replay = bound, replay
        m = f.__module__
        HARNESSES.setdefault(m, []).append((function, name or f.__name__, f, limits))
        return f
    return deco


class Native:
    """replay of a counterexample: the same harness on the real modules with the concrete inputs"""
    native = True

    def __init__(self, inputs, choices):
        self.values, self.choices = inputs, list(choices)
        self.failed = None

    def choose(self, n):
        return self.choices.pop(0)

    def cover(self, name):
        pass


class Broken(Exception):
    pass


def native():
    return isinstance(core.CTX, Native)


def prove(name, cond, info=None):
    if native():
        if not cond:
            core.CTX.failed = '%s: does not hold%s' % (name, '' if info is None else ' (%s)' % (info,))
            raise Broken()
        return True
    if core.CTX.only is not None and not name.startswith(core.CTX.only):
        return True                       # another property's obligation
    if name in getattr(core.CTX, 'skip', ()):
        return True
    r = core.CTX.prove(name, cond, info)
    if r is False:
        raise Kill()                      # this path has its failure
    if not isinstance(cond, bool):
        core.CTX.assume(cond)             # proved (or undecided): later obligations may rely on it
    return r


def cover(name):
    core.CTX.cover(name)


def assume(e):
    if native():
        if not e:
            raise Kill()
        return
    core.CTX.assume(zbool(e))


def choose(*alts):
    c = core.CTX
    i = c.choose(len(alts))
    if not native():
        c.choices.append(i)
    return alts[i]


def inp(name, make):
    """a named symbolic input: make() builds it; in a replay it is the concrete value"""
    c = core.CTX
    if native():
        return c.values[name]
    c.inputs[name] = v = make()
    return v


def contains(s, sub):
    return SBool(z3.Contains(zstr(s), zstr(sub))) if isinstance(s, SStr) or isinstance(sub, SStr) else sub in s


def seglist(make, name='seg'):
    """list of any number of members"""
    return VList([Seg(make, name=name)])


INTERNAL = ('ArithRef', 'CharRef', 'BoolRef', 'SeqRef', 'Poison', '<lambda>', '<locals>', 'NoneType: symbolic')
_names = None


def internal(e):
    """an error of the machinery (a facade or a stub that lacks something the code now uses), not of the code"""
    global _names
    if not isinstance(e, (TypeError, AttributeError, NameError, NotImplementedError, UnboundLocalError)):
        return False
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and '/repo/' in tb.tb_frame.f_code.co_filename and tb.tb_frame.f_code.co_code[tb.tb_lasti] == dis.opmap['RAISE_VARARGS']:
        return False                             # raised by the code on purpose
    if tb is not None and '/z3/' in tb.tb_frame.f_code.co_filename:
        return True
    if _names is None:
        _names = {k for n, m in list(sys.modules.items()) if n.startswith(('pyvc', 'contracts')) for k, v in vars(m).items()
                  if isinstance(v, type) and v.__module__ == n}
    msg = str(e)
    if any(w in msg for w in INTERNAL):
        return True
    ws = set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", msg))
    if ws & _names:
        return True
    if isinstance(e, AttributeError) and 'object has no attribute' in msg:
        o = getattr(e, 'obj', None)              # an object the harness made without its constructor
        return o is not None and type(o).__module__.startswith(load.PKG)
    return False


class Outcome(tuple):
    kind = property(lambda s: s[0])
    value = property(lambda s: s[1])

    def returned(self):
        return self[0] == 'return'


def outcome(fn, *a, **k):
    try:
        return Outcome(('return', fn(*a, **k)))
    except RecursionError:
        raise Unsupported('recursion')
    except z3.Z3Exception as e:
        raise Unsupported('z3: %s' % str(e)[:100])
    except Exception as e:
        if internal(e):
            raise Unsupported('engine: %s: %s' % (type(e).__name__, str(e)[:150]))
        return Outcome(('raise', type(e).__name__, e))


def module(n):
    """the module of /repo: rewritten for symbolic execution, or as it is in a replay"""
    if native():
        import importlib, sys
        if '/repo/src' not in sys.path:
            sys.path.insert(0, '/repo/src')
        return importlib.import_module('ncdiff.' + n)
    return load.module(n)


patch = core.patch          # patch(obj, name, value): replace a callee by its contract, for this path


_specs = {}


def spec(name):
    import os, types
    key = (name, native())
    if key not in _specs:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', name + '.py')
        if native():
            m = types.ModuleType(name)
            exec(compile(open(path).read(), path, 'exec'), m.__dict__)
            _specs[key] = m
        else:
            _specs[key] = load.spec(path)
    return _specs[key]


def same(a, b):
    """structural equality of results as bool / SBool"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return and_(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, VList) and isinstance(b, VList):
        return same(tuple(a.need('=')), tuple(b.need('=')))
    if (a is None) != (b is None):
        return False
    return eqv(a, b)


def replay(f, inputs, choices):
    """None, or the message of the obligation that fails on the real code"""
    core.CTX = c = Native(inputs, choices)
    try:
        f(c)
    except Broken:
        return c.failed
    except (Kill, Unsupported):
        return None
    finally:
        core.unpatch()
        core.CTX = None
    return None
