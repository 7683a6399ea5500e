"""
Development tool: systematic small changes of the library, to find behaviour
which neither the repository's tests nor the checks look at.

  mutate.py list FILE...            all mutants, as json lines
  mutate.py run MUTANTS OUT [N]     stable tests on copies, N in parallel
  mutate.py check OUT REPORT [..]   the checks on the survivors

Copies live under /tmp/mut; nothing here is used by a check.
"""
import ast
import hashlib
import json
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf

SRC = os.environ.get('MUT_SRC', '/repo')
ROOT = '/tmp/mut'
SKIPFUNC = {'demo', '__nice__', '_demo_geoimg_with_nodata', 'print_graph', '_validate', 'perterb', '_debug_paths'}


def seg(src_lines, node):
    return (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset)


class Gen(ast.NodeVisitor):
    def __init__(self, path):
        self.path = path
        self.text = open(os.path.join(SRC, path)).read()
        self.lines = self.text.split('\n')
        self.out = []
        self.func = []

    def offset(self, line, col):
        # col is in utf8 bytes
        pre = self.lines[line - 1].encode()[:col].decode()
        return sum(len(x) + 1 for x in self.lines[:line - 1]) + len(pre)

    def span(self, node):
        return self.offset(node.lineno, node.col_offset), self.offset(node.end_lineno, node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.text[a:b]

    def emit(self, node, new, kind):
        a, b = self.span(node)
        old = self.text[a:b]
        if old == new:
            return
        self.out.append({'file': self.path, 'a': a, 'b': b, 'old': old, 'new': new, 'kind': kind, 'line': node.lineno,
                         'func': '.'.join(self.func)})

    def visit_FunctionDef(self, node):
        if node.name in SKIPFUNC:
            return
        self.func.append(node.name)
        for n in node.body:
            self.visit(n)
        for d in node.args.defaults:
            if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                self.emit(d, repr(not d.value), 'default')
        self.func.pop()

    def visit_ClassDef(self, node):
        self.func.append(node.name)
        for n in node.body:
            self.visit(n)
        self.func.pop()

    def visit_Raise(self, node):
        pass

    def visit_Assert(self, node):
        pass

    def visit_JoinedStr(self, node):
        pass

    def visit_If(self, node):
        t = self.src(node.test)
        if any(w in t for w in ('TRACE', 'DEBUG', 'TYPE_CHECKING', 'USE_SLOTS', '__debug__')):
            return
        self.emit(node.test, f'not ({t})', 'negate')
        if isinstance(node.test, ast.BoolOp):
            for v in node.test.values:
                rest = [self.src(x) for x in node.test.values if x is not v]
                op = ' and ' if isinstance(node.test.op, ast.And) else ' or '
                self.emit(node.test, '(' + op.join(f'({r})' for r in rest) + ')', 'dropcond')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.emit(node, f'({self.src(node.body)})', 'ifexp')
        self.emit(node, f'({self.src(node.orelse)})', 'ifexp')
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            l, r = self.src(node.left), self.src(node.comparators[0])
            sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in'}
            op = sw.get(type(node.ops[0]))
            if op:
                self.emit(node, f'{l} {op} {r}', 'compare')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        l, r = self.src(node.left), self.src(node.right)
        sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.MatMult: 'SWAP', ast.Pow: '*'}
        op = sw.get(type(node.op))
        if op == 'SWAP':
            self.emit(node, f'{r} @ {l}', 'swapmul')
        elif op and not isinstance(node.left, ast.Constant) or (op and not isinstance(getattr(node.left, 'value', None), str)):
            self.emit(node, f'{l} {op} {r}', 'binop')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)):
            self.emit(node, f'({self.src(node.operand)})', 'unary')
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.emit(node, repr(not node.value), 'bool')
        elif isinstance(node.value, int):
            self.emit(node, repr(node.value + 1), 'const')
        elif isinstance(node.value, float):
            self.emit(node, repr(node.value * 1.5 + .5), 'const')

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            t = self.src(node.value)
            if not t.startswith(('warnings', 'print', 'rich', 'super', 'debug', 'ub.schedule')):
                self.emit(node, 'pass', 'dropcall')
            self.generic_visit(node)

    def visit_Assign(self, node):
        t = node.targets[0]
        if isinstance(t, (ast.Subscript, ast.Attribute)) and self.func and self.func[-1] != '__init__':
            self.emit(node, 'pass', 'dropassign')
        self.visit(node.value)

    def visit_AugAssign(self, node):
        self.emit(node, 'pass', 'dropaug')
        self.visit(node.value)

    def visit_Call(self, node):
        name = self.src(node.func)
        if name.split('.')[0] in ('warnings', 'print', 'rich', 'debug_array_event'):
            return
        for k in node.keywords:
            if k.arg and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                rest = [self.src(a) for a in node.args] + [
                    (f'{q.arg}={self.src(q.value)}' if q.arg else f'**{self.src(q.value)}') for q in node.keywords if q is not k]
                self.emit(node, f'{name}({", ".join(rest)})', 'dropkw')
        if len(node.args) == 2 and not node.keywords and name not in ('isinstance', 'getattr', 'hasattr', 'setattr', 'range', 'zip', 'cast'):
            self.emit(node, f'{name}({self.src(node.args[1])}, {self.src(node.args[0])})', 'swapargs')
        base = name.split('.')[-1]
        sw = {'min': 'max', 'max': 'min', 'ceil': 'floor', 'floor': 'ceil', 'any': 'all', 'all': 'any', 'copy': None, 'round': None}
        if base in sw and sw[base] and (name == base or name.startswith('np.')):
            self.emit(node.func, name[:-len(base)] + sw[base], 'func')
        elif base in ('sorted', 'reversed', 'abs', 'copy', 'inv') and (len(node.args) == 1 or (isinstance(node.func, ast.Attribute) and not node.args)):
            if node.args:
                self.emit(node, f'({self.src(node.args[0])})', 'unwrap')
            elif isinstance(node.func, ast.Attribute):
                self.emit(node, f'({self.src(node.func.value)})', 'unwrap')
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.slice, ast.Slice) and self.src(node.slice) == '::-1':
            self.emit(node, f'({self.src(node.value)})', 'noreverse')
        self.generic_visit(node)


def listing(files):
    muts = []
    for f in files:
        g = Gen(f)
        g.visit(ast.parse(g.text))
        muts += g.out
    for m in muts:
        m['id'] = hashlib.sha1(json.dumps([m['file'], m['a'], m['b'], m['new']]).encode()).hexdigest()[:10]
    return muts


def apply(m, root):
    p = os.path.join(root, m['file'])
    src = open(os.path.join(SRC, m['file'])).read()
    assert src[m['a']:m['b']] == m['old']
    new = src[:m['a']] + m['new'] + src[m['b']:]
    try:
        compile(new, p, 'exec')
    except SyntaxError:
        return False
    with open(p, 'w') as f:
        f.write(new)
    return True


def restore(m, root):
    shutil.copyfile(os.path.join(SRC, m['file']), os.path.join(root, m['file']))


def make_copy(i):
    d = f'{ROOT}/w{i}'
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(SRC, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return d


def to_nodeid(name):
    return name


def test(root, cache):
    """does a stable test fail?"""
    env = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               XDG_CACHE_HOME=cache + '/cache', XDG_CONFIG_HOME=cache + '/config', XDG_DATA_HOME=cache + '/data', TMPDIR=cache + '/tmp',
               PYTHONPATH=root, OMP_NUM_THREADS='1', OPENCV_FOR_THREADS_NUM='1')
    os.makedirs(cache + '/tmp', exist_ok=True)
    desel = open(f'{ROOT}/deselect').read().split('\n')
    cmd = ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=120', 'delayed_image', 'tests']
    for d in desel:
        if d:
            cmd += ['--deselect', d]
    r = subprocess.run(cmd, cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return r.returncode, r.stdout[-600:]


def run(muts, out, n):
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)['id'] for x in open(out)}
    todo = [m for m in muts if m['id'] not in done]
    import queue
    pool = queue.Queue()
    for i in range(n):
        pool.put((i, make_copy(i)))

    def one(m):
        i, root = pool.get()
        try:
            if not apply(m, root):
                return m, 'syntax'
            try:
                rc, tail = test(root, f'{ROOT}/cache{i}')
            except subprocess.TimeoutExpired:
                rc, tail = 99, 'timeout'
            return m, 'survives' if rc == 0 else 'killed'
        finally:
            restore(m, root)
            pool.put((i, root))
    with cf.ThreadPoolExecutor(n) as ex, open(out, 'a') as f:
        for fut in cf.as_completed([ex.submit(one, m) for m in todo]):
            m, v = fut.result()
            m['verdict'] = v
            f.write(json.dumps(m) + '\n')
            f.flush()


ORDER = {
    'delayed_image/delayed_nodes.py': 'C03 C08 C09 C02 C06 C14 C15 C24 C11 C04 C21 C01',
    'delayed_image/delayed_leafs.py': 'C03 C10 C08 C02 C15 C24 C14 C11 C22 C21',
    'delayed_image/delayed_base.py': 'C03 C02 C21 C04 C14 C05',
    'delayed_image/helpers.py': 'C03 C11 C08 C02 C06 C14 C24 C01 C21',
    'delayed_image/lazy_loaders.py': 'C10 C24 C03 C22',
    'delayed_image/util/util_network_text.py': 'C23 C21',
}


def check(out, report, skip=()):
    muts = [json.loads(x) for x in open(out)]
    muts = [m for m in muts if m['verdict'] == 'survives']
    done = set()
    if os.path.exists(report):
        done = {json.loads(x)['id'] for x in open(report)}
    root = make_copy('c')
    with open(report, 'a') as f:
        for m in muts:
            if m['id'] in done:
                continue
            if not apply(m, root):
                continue
            m['caught'] = None
            m['odd'] = []
            try:
                for c in ORDER.get(m['file'], 'C02 C23 C21 C16 C17 C18').split():
                    env = dict(os.environ, MC_REPO=root, MC_FIRST='1')
                    try:
                        r = subprocess.run(['bash', '/tmp/mut/verif/run.sh', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
                        rc, o = r.returncode, r.stdout
                    except subprocess.TimeoutExpired:
                        rc, o = 98, ''
                    if rc == 1 and 'VIOLATION' in o:
                        m['caught'] = c
                        break
                    if rc != 0:
                        m['odd'].append([c, rc])
            finally:
                restore(m, root)
            f.write(json.dumps(m) + '\n')
            f.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for m in listing(sys.argv[2:]):
            print(json.dumps(m))
    elif sys.argv[1] == 'run':
        run([json.loads(x) for x in open(sys.argv[2])], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 8)
    elif sys.argv[1] == 'check':
        check(sys.argv[2], sys.argv[3])
