"""Loads /repo/src/ncdiff/*.py through a mechanical rewriting of the syntax tree.

What the rewriting changes (and nothing else): container displays and comprehensions build the run time's
containers; `in`, subscripts, `.format`, `.join`, `%`, f-strings, `.items()` and attribute assignment call the run time;
for loops go through rt.Loop; builtins are shadowed (rt.BUILTINS); lxml.etree, copy.deepcopy, re, logging and
functools.lru_cache are replaced by their assumed contracts.  Docstrings and decorators stay, no statement is
dropped or reordered."""
import ast, importlib, importlib.abc, importlib.util, os, sys, types
from . import rt
SRC = '/repo/src/ncdiff'
PKG = 'ncdiff_vc'
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)


def N(s):
    return ast.Name(s, ast.Load())


def RT(f):
    return ast.Attribute(N('__rt__'), f, ast.Load())


def call(f, *a):
    return ast.Call(RT(f), list(a), [])


def lam(args, body):
    return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)


def names_in(target):
    return [n.id for n in ast.walk(target) if isinstance(n, ast.Name)]


class Assigned(ast.NodeVisitor):
    """locals assigned in a statement list (not in nested functions)"""

    def __init__(self):
        self.names = []
        self.aug = set()            # assigned by augmented assignments only
        self.plain = set()

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if isinstance(n.target, ast.Name):
            self.aug.add(n.target.id)
            if n.target.id not in self.names:
                self.names.append(n.target.id)
        else:
            self.visit(n.target)

    def visit_FunctionDef(self, n):
        self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.plain.add(n.id)
            if n.id not in self.names:
                self.names.append(n.id)

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infunc = 0
        self.globals_ = [set()]

    def at(self, new, old):
        return ast.fix_missing_locations(ast.copy_location(new, old))

    def visit_FunctionDef(self, n):
        self.infunc += 1
        g = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Nonlocal, ast.Global)):
                g |= set(x.names)
        self.globals_.append(g)
        n.body = [self.visit(s) for s in n.body]
        flat = []
        for s in n.body:
            flat += s if isinstance(s, list) else [s]
        n.body = flat
        self.globals_.pop()
        self.infunc -= 1
        # defaults are evaluated natively (constants); decorators stay
        if self.infunc and not n.decorator_list:      # a nested function can be replaced by its contract
            return [n, self.at(ast.Assign([ast.Name(n.name, ast.Store())], call('vc_nested', ast.Constant(n.name), N(n.name))), n)]
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return self.at(call('vlist', n), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return self.at(call('vset', ast.List(n.elts, ast.Load())), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        return self.at(call('vdict', ast.List(n.keys, ast.Load()), ast.List(n.values, ast.Load())), n)

    def fn(self, target, body):
        """lambda over one member, unpacking the target"""
        if isinstance(target, ast.Name):
            return lam([target.id], body)
        if isinstance(target, ast.Tuple) and all(isinstance(e, ast.Name) for e in target.elts):
            ns = [e.id for e in target.elts]
            inner = lam(ns, body)
            return lam(['__v'], ast.Call(inner, [ast.Starred(call('unpack', N('__v'), ast.Constant(len(ns))), ast.Load())], []))
        raise SyntaxError('comprehension target')

    def cond(self, e):
        """the condition of a comprehension, whose truth may be a formula"""
        if isinstance(e, ast.BoolOp):
            return self.at(call('vc_and' if isinstance(e.op, ast.And) else 'vc_or', *[lam([], self.cond(v)) for v in e.values]), e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.at(call('vc_not', self.cond(e.operand)), e)
        return self.visit(e)

    def comp(self, kind, n, elt, safe=False):
        gens = n.generators
        g = gens[0]
        it = self.visit(g.iter)
        conds = [self.fn(g.target, self.cond(c)) for c in g.ifs]
        if len(gens) == 1:
            body = self.fn(g.target, elt)
            if kind == 'list' and isinstance(g.target, ast.Name) and isinstance(elt, ast.Name) and elt.id == g.target.id:
                body = ast.Constant(None)
            return self.at(call('vc_comp', ast.Constant(kind), it, body, ast.Tuple(conds, ast.Load()), ast.Constant(safe)), n)
        inner = ast.ListComp(elt, gens[1:])
        inner_e = self.comp_raw(inner)
        r = call('flatten', call('vc_comp', ast.Constant('list'), it, self.fn(g.target, inner_e), ast.Tuple(conds, ast.Load())))
        if kind == 'set':
            r = call('vc_set', r)
        if kind == 'dict':
            r = call('vc_dict', r)
        return self.at(r, n)

    @staticmethod
    def is_safe(*es):
        """expressions that cannot raise (given values of the expected types)"""
        for e in es:
            for x in ast.walk(e):
                if isinstance(x, ast.Call):
                    if not (isinstance(x.func, ast.Attribute) and x.func.attr in ('get', 'getparent', 'startswith', 'endswith', 'strip')):
                        return False
                elif isinstance(x, (ast.Subscript, ast.BinOp, ast.ListComp, ast.GeneratorExp, ast.Starred, ast.IfExp, ast.Lambda, ast.Await, ast.NamedExpr)):
                    return False
        return True

    def comp_raw(self, n):
        return self.comp('list', n, n.elt)

    def visit_ListComp(self, n):
        return self.comp('list', n, self.visit(n.elt), self.is_safe(n.elt, *[i for g in n.generators for i in g.ifs]))

    def visit_SetComp(self, n):
        return self.comp('set', n, self.visit(n.elt), self.is_safe(n.elt, *[i for g in n.generators for i in g.ifs]))

    def visit_GeneratorExp(self, n):
        return self.comp('gen', n, self.visit(n.elt), self.is_safe(n.elt, *[i for g in n.generators for i in g.ifs]))

    def visit_DictComp(self, n):
        return self.comp('dict', n, ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()),
                         self.is_safe(n.key, n.value, *[i for g in n.generators for i in g.ifs]))

    def visit_Compare(self, n):
        self.generic_visit(n)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            if len(n.ops) > 1:
                raise SyntaxError('chained in')
            r = call('vc_in', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return self.at(r, n)
        ty = lambda x: call('untype', x) if isinstance(x, ast.Name) and x.id in ('str', 'int', 'list', 'dict', 'set', 'tuple', 'bool') else x
        n.left, n.comparators = ty(n.left), [ty(x) for x in n.comparators]
        return self.at(n, n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.at(call('vc_mod', n.left, n.right), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            k = n.slice
            if isinstance(k, ast.Slice):
                k = ast.Call(N('slice'), [k.lower or ast.Constant(None), k.upper or ast.Constant(None), k.step or ast.Constant(None)], [])
            return self.at(call('vc_getitem', n.value, k), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    parts.append(ast.JoinedStr([v]))
                else:
                    parts.append(self.visit(v.value))
        return self.at(call('vc_fstring', ast.List(parts, ast.Load())), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute):
            f = n.func
            if f.attr == 'format':
                return self.at(ast.Call(RT('vc_format'), [f.value] + n.args, n.keywords), n)
            if f.attr == 'join' and len(n.args) == 1 and not n.keywords:
                return self.at(call('vc_join', f.value, n.args[0]), n)
            if f.attr == 'items' and not n.args and not n.keywords:
                return self.at(call('vc_items', f.value), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if not self.infunc:
            return n
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return self.at(ast.Expr(call('vc_setattr', t.value, ast.Constant(t.attr), n.value)), n)
        if any(isinstance(t, ast.Attribute) for t in n.targets):
            # a = b.c = v
            self.n += 1
            tmp = '__t%d' % self.n
            out = [self.at(ast.Assign([ast.Name(tmp, ast.Store())], n.value), n)]
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    out.append(self.at(ast.Expr(call('vc_setattr', t.value, ast.Constant(t.attr), N(tmp))), n))
                else:
                    out.append(self.at(ast.Assign([t], N(tmp)), n))
            return out
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if self.infunc and isinstance(n.target, ast.Attribute):
            t = n.target
            cur = ast.Attribute(t.value, t.attr, ast.Load())
            return self.at(ast.Expr(call('vc_setattr', t.value, ast.Constant(t.attr), ast.BinOp(cur, n.op, n.value))), n)
        return n

    def visit_For(self, n):
        a = Assigned()
        for s in n.body:
            a.visit(s)
        tgt = names_in(n.target)
        names = [x for x in a.names if x not in tgt]
        self.generic_visit(n)
        if not self.infunc:
            return n
        self.n += 1
        L = '__L%d' % self.n

        def carry(nm):
            return self.at(ast.Assign([ast.Name(nm, ast.Store())],
                                      ast.Call(ast.Attribute(N(L), 'carry', ast.Load()), [ast.Constant(nm), lam([], N(nm)), ast.Constant(nm in a.aug and nm not in a.plain)], [])), n)
        glob = self.globals_[-1]
        names = [x for x in names if x not in glob]
        pre = [self.at(ast.If(ast.Attribute(N(L), 'sym', ast.Load()), [carry(x) for x in names], []), n)] if names else []
        chk = [self.at(ast.Expr(ast.Call(ast.Attribute(N(L), 'chk', ast.Load()), [ast.Constant(x), lam([], N(x))], [])), n) for x in names]
        body = n.body
        if names:
            body = [self.at(ast.Try(n.body, [], [], chk), n)]
        n.iter = self.at(ast.Call(ast.Attribute(N(L), 'iter', ast.Load()), [n.iter], []), n)
        n.body = pre + body
        if pre:
            n.orelse = [self.at(ast.If(ast.Attribute(N(L), 'sym', ast.Load()),
                                       [carry(x) for x in names + tgt], []), n)] + n.orelse
        else:
            n.orelse = [self.at(ast.If(ast.Attribute(N(L), 'sym', ast.Load()), [carry(x) for x in tgt], []), n)] + n.orelse
        init = self.at(ast.Assign([ast.Name(L, ast.Store())], ast.Call(RT('Loop'), [], [])), n)
        return [init, n]

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module == 'lxml':
            return self.at(ast.Assign([ast.Name('etree', ast.Store())], RT('ETree')), n)
        if n.level == 0 and n.module == 'copy':
            return self.at(ast.Assign([ast.Name('deepcopy', ast.Store())], RT('deepcopy')), n)
        if n.level == 0 and n.module == 'functools':
            return self.at(ast.Assign([ast.Name('lru_cache', ast.Store())], RT('lru_cache')), n)
        return n

    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name == 're':
                out.append(self.at(ast.Assign([ast.Name(a.asname or 're', ast.Store())], RT('RE')), n))
            elif a.name == 'logging':
                out.append(self.at(ast.Assign([ast.Name(a.asname or 'logging', ast.Store())], ast.Call(RT('Logging'), [], [])), n))
            else:
                out.append(self.at(ast.Import([a]), n))
        return out


_mods = {}


def module(name):
    """load /repo/src/ncdiff/<name>.py rewritten"""
    if name in _mods:
        return _mods[name]
    if PKG not in sys.modules:
        p = types.ModuleType(PKG)
        p.__path__ = []
        sys.modules[PKG] = p
    path = os.path.join(SRC, name + '.py')
    src = open(path).read()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
    # relative imports first
    for x in ast.walk(tree):
        if isinstance(x, ast.ImportFrom) and x.level == 1 and x.module and x.col_offset == 0:
            module(x.module)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    m = types.ModuleType('%s.%s' % (PKG, name))
    m.__file__, m.__package__ = path, PKG
    m.__dict__['__rt__'] = rt
    m.__dict__['__builtins__'] = rt.BUILTINS
    sys.modules[m.__name__] = m
    setattr(sys.modules[PKG], name, m)
    execute(tree, path, m)
    _mods[name] = m
    return m


def execute(tree, path, m):
    from . import core
    c, core.CTX = core.CTX, None            # loading is not part of any path
    try:
        exec(compile(tree, path, 'exec'), m.__dict__)
    finally:
        core.CTX = c


def spec(path):
    """load a specification module (plain Python spec functions) through the same rewriting"""
    src = open(path).read()
    tree = Rewrite().visit(ast.parse(src, path))
    ast.fix_missing_locations(tree)
    m = types.ModuleType('spec_' + os.path.basename(path)[:-3])
    m.__file__ = path
    m.__dict__['__rt__'] = rt
    m.__dict__['__builtins__'] = rt.BUILTINS
    execute(tree, path, m)
    return m
