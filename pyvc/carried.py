"""Names a while loop carries from one iteration to the next: assigned in the loop and possibly read, in the loop or
after it, before being assigned again.  A loop that carries none is decided by one arbitrary iteration."""
import ast, os
from . import load


def find(path):
    mod, *names = path.split('.')
    node = ast.parse(open(os.path.join(load.SRC, mod + '.py')).read())
    for n in names:
        for x in ast.walk(node):
            if isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == n and x is not node:
                node = x
                break
        else:
            return None
    return node


class Flow:
    """forward pass: `d` is the set of names definitely assigned; reads outside it are recorded"""

    def __init__(self, names):
        self.names, self.early = names, set()

    def expr(self, e, d):
        if e is None:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)) and x.id in self.names and x.id not in d:
                self.early.add(x.id)

    def store(self, t, d):
        self.expr(t, d)
        return d | {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def block(self, body, d):
        for s in body:
            d = self.stmt(s, d)
        return d

    def stmt(self, s, d):
        if isinstance(s, ast.Assign):
            self.expr(s.value, d)
            for t in s.targets:
                d = self.store(t, d)
            return d
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, d)
            return self.store(s.target, d) if s.value is not None else d
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, d)
            if isinstance(s.target, ast.Name) and s.target.id not in d:
                self.early.add(s.target.id)
            return d
        if isinstance(s, ast.If):
            self.expr(s.test, d)
            return self.block(s.body, d) & self.block(s.orelse, d)
        if isinstance(s, (ast.While, ast.For)):
            self.expr(s.test if isinstance(s, ast.While) else s.iter, d)
            inner = self.store(s.target, d) if isinstance(s, ast.For) else d
            self.block(s.body, inner)
            self.block(s.orelse, d)
            return d
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, d)
                if i.optional_vars is not None:
                    d = self.store(i.optional_vars, d)
            return self.block(s.body, d)
        if isinstance(s, ast.Try):
            b = self.block(s.body, d)
            outs = []
            for h in s.handlers:
                outs.append(self.block(h.body, d | ({h.name} if h.name else set())))
            b = self.block(s.orelse, b)
            r = b
            for o in outs:
                r = r & o
            self.block(s.finalbody, d)
            return r
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            self.expr(getattr(s, 'value', None) or getattr(s, 'exc', None), d)
            return d | self.names                     # what follows is not reached this way
        for c in ast.iter_child_nodes(s):
            self.expr(c, d)
        return d


def carried(path):
    """None: no such function or a loop not handled"""
    f = find(path)
    if f is None:
        return None
    out = set()
    for w in ast.walk(f):
        if isinstance(w, ast.While):
            names = {x.id for s in w.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
                h.name for s in w.body for h in ast.walk(s) if isinstance(h, ast.ExceptHandler) and h.name}
            fl = Flow(names)
            fl.expr(w.test, set())
            fl.block(w.body, set())
            inside = {id(x) for s in w.body for x in ast.walk(s)} | {id(x) for x in ast.walk(w.test)}
            after = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
            out |= fl.early | (after & names)
    return out
