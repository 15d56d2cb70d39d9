"""mutate.py gen N SEED OUTDIR | test OUTDIR | check OUTDIR: a mutation study (development aid, not a check).
Every mutant is a patched copy of /repo bound over /repo in a private mount namespace."""
import ast, copy, json, os, random, subprocess, sys, concurrent.futures as cf
SRC = '/repo/src/ncdiff'
FILES = ['calculator', 'composer', 'config', 'manager', 'model', 'netconf', 'ref', 'runningconfig', '__init__']
SKIP = {'__str__', '__repr__', 'ns_help', 'emit_tree', 'emit_children', 'get_width', 'get_depth_str', 'get_flags_str', 'get_name_str', 'get_datatype_str', 'get_diff_str',
        'compare_print', 'type_values', 'type_union_values', 'type_identityref_values', 'set_leaf_datatype_value', 'prune', 'print_node', 'print_value', '__dir__', 'ns'}
PROPS = {'calculator': ['C04', 'C01', 'C02', 'C05'], 'composer': ['C08', 'C10', 'C16', 'C01'], 'config': ['C06', 'C04', 'C14', 'C01', 'C07', 'C05', 'C17'],
         'manager': ['C08', 'C16', 'C09', 'C10', 'C15'], 'model': ['C13', 'C15', 'C18', 'C08'], 'netconf': ['C01', 'C17', 'C02', 'C03', 'C05'], 'ref': ['C10'],
         'runningconfig': ['C11', 'C12'], '__init__': ['C16']}


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.stack, self.out = [], []

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        if not any(s in SKIP for s in self.stack):
            for st in n.body:
                self.visit(st)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def add(self, n, kind, *a):
        if any(not s[:1].isupper() for s in self.stack):
            self.out.append(('.'.join(self.stack), n, kind, a))

    def visit_Call(self, n):
        s = ast.unparse(n)
        if s.startswith(('logger', 'logging', 'print', 'warnings')):
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('addnext', 'addprevious', 'append'):
            self.add(n, 'meth')
        if len(n.args) == 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args):
            self.add(n, 'swap')
        self.generic_visit(n)

    def visit_Raise(self, n):
        pass

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.add(n, 'cmp')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.add(n, 'bool')
        for i in range(len(n.values)):
            self.add(n, 'drop', i)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, 'not')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and not ast.unparse(n).startswith('logg'):
            self.add(n, 'delete')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, 'flip')
        elif isinstance(n.value, int):
            self.add(n, 'int')
        elif isinstance(n.value, str) and 2 < len(n.value) < 20 and ' ' not in n.value:
            self.add(n, 'str')

    def visit_Break(self, n):
        self.add(n, 'pass')
    visit_Continue = visit_Break

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, 'delete')
        self.generic_visit(n)


def mutate(n, kind, a, rng):
    m = copy.deepcopy(n)
    if kind == 'cmp':
        t = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}
        m.ops = [t[type(n.ops[0])]()]
    elif kind == 'bool':
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'drop':
        del m.values[a[0]]
        if len(m.values) == 1:
            m = m.values[0]
    elif kind == 'not':
        m = m.operand
    elif kind in ('delete', 'pass'):
        return 'pass'
    elif kind == 'flip':
        m.value = not m.value
    elif kind == 'int':
        m.value = m.value + 1
    elif kind == 'str':
        alt = {'before': 'after', 'after': 'before', 'first': 'last', 'last': 'first', 'create': 'merge', 'merge': 'replace', 'replace': 'merge', 'delete': 'remove', 'remove': 'delete',
               'leaf': 'leaf-list', 'leaf-list': 'leaf', 'list': 'container', 'container': 'list', 'user': 'system', 'system': 'user', 'case': 'choice', 'choice': 'case'}.get(m.value)
        if alt is None:
            return None
        m.value = alt
    elif kind == 'swap':
        m.args = m.args[::-1]
    elif kind == 'meth':
        alt = {'addnext': 'addprevious', 'addprevious': 'addnext'}.get(m.func.attr)
        if alt is None:
            return None
        m.func.attr = alt
    s = ast.unparse(m)
    return '(' + s + ')' if isinstance(m, (ast.BoolOp, ast.Compare, ast.UnaryOp)) else s


def gen(n, seed, out):
    rng = random.Random(seed)
    per = {}
    for f in FILES:
        src = open('%s/%s.py' % (SRC, f)).read()
        v = Sites()
        v.visit(ast.parse(src))
        for q, node, kind, a in v.out:
            r = mutate(node, kind, a, rng)
            if r is None:
                continue
            lines = src.split('\n')
            starts = [0]
            for l in lines:
                starts.append(starts[-1] + len(l.encode()) + 1)
            b = src.encode()
            i, j = starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset
            new = (b[:i] + r.encode() + b[j:]).decode()
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            if ast.unparse(ast.parse(new)) == ast.unparse(ast.parse(src)):
                continue
            per.setdefault(f + '.' + q, []).append({'file': f, 'func': q, 'line': node.lineno, 'kind': kind, 'old': b[i:j].decode()[:200], 'new': r[:200], 'i': i, 'j': j, 'text': r})
    for l in per.values():
        rng.shuffle(l)
    picks, k = [], 0
    while len(picks) < n and any(per.values()):
        ks = sorted(x for x in per if per[x])
        rng.shuffle(ks)
        for x in ks:
            picks.append(per[x].pop())
    picks = picks[:n]
    os.makedirs(out, exist_ok=True)
    json.dump(picks, open(out + '/mutants.json', 'w'), indent=1)
    print(len(picks))


def inside(m, cmd, verif=False, timeout=700):
    """run cmd with the mutant in place of /repo; returns (rc, output)"""
    d = '/tmp/mm/w%d' % os.getpid()
    subprocess.run(['rm', '-rf', d])
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'])
    p = d + '/repo/src/ncdiff/%s.py' % m['file']
    b = open(p, 'rb').read()
    open(p, 'wb').write(b[:m['i']] + m['text'].encode() + b[m['j']:])
    sh = 'mount --bind %s/repo /repo && ' % d
    if verif:
        subprocess.run('mkdir %s/verif && cd %s && cp -a check.py known_findings.json bounded contracts harness pyvc %s/verif/' % (d, os.environ.get('VERIF_SRC', '/verif'), d), shell=True)
        sh += 'mount --bind %s/verif /verif && cd /verif && ' % d
    try:
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', sh + cmd], capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
    finally:
        subprocess.run(['rm', '-rf', d])


def t1(m):
    rc, o = inside(m, 'bash /opt/vp/test.sh /tmp/mm/r%d.json >/dev/null 2>&1; cat /tmp/mm/r%d.json' % (os.getpid(), os.getpid()))
    try:
        r = json.loads(o[o.index('{'):])
        ok = len([1 for k, v in r.items() if v == 'passed']) if not isinstance(next(iter(r.values())), list) else len(r.get('passed', r.get('pass', [])))
        return ok
    except Exception as e:
        return -1


def c1(a):
    m, props = a
    for opt in os.environ.get('MUT_OPTS', '--no-contracts --no-bounded').split():            # the quick part of all first
        for p in m.get('props') or props:
            rc, o = inside(m, 'nice timeout 600 python3-vt check.py %s --tier quick %s' % (p, opt), verif=True)
            if rc == 1:
                return p + (' b' if opt == '--no-contracts' else ''), [l for l in o.splitlines() if 'VIOLATION' in l][:1], [l[:200] for l in o.splitlines() if l.startswith(('FAILED', 'failing'))][:3]
            if rc not in (0, 1):
                return 'ERR ' + p, [o[-300:]], []
    return None, [], []


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'gen':
        gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    elif cmd == 'test':
        ms = json.load(open(sys.argv[2] + '/mutants.json'))
        with cf.ProcessPoolExecutor(7) as ex:
            for m, r in zip(ms, ex.map(t1, ms)):
                m['passed'] = r
        json.dump(ms, open(sys.argv[2] + '/mutants.json', 'w'), indent=1)
        print({k: len([1 for m in ms if m['passed'] == k]) for k in {m['passed'] for m in ms}})
    elif cmd == 'check':
        ms = [m for m in json.load(open(sys.argv[2] + '/mutants.json')) if m['passed'] == 102]
        out = sys.argv[2] + '/results.json'
        res = json.load(open(out)) if os.path.exists(out) else []
        done = {(r['file'], r['i'], r['text']) for r in res}
        todo = [m for m in ms if (m['file'], m['i'], m['text']) not in done]
        with cf.ProcessPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 2) as ex:
            for m, r in zip(todo, ex.map(c1, [(m, PROPS[m['file']]) for m in todo])):
                m['caught'], m['viol'], m['why'] = r
                res.append(m)
                json.dump(res, open(out, 'w'), indent=1)
