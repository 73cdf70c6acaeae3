"""Development aid: mutation testing of the checks.  Never run by a check.

  python3 tools/mutate.py SEED COUNT FILE[:lo-hi] ... -- CHECK ...

Applies COUNT random small syntactic changes to scratch copies of /repo's package, runs the given checks against each copy
(8 at a time, one process each, reduced numbers of cases) until one reports a violation, and lists the survivors in
/tmp/mut/survivors.SEED.jsonl."""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

SRC = '/repo'
TOP = '/tmp/mut'
SCALE = os.environ.get('MUT_SCALE', '0.15')


def offsets(src):
    o, k = [0], 0
    for l in src.split('\n'):
        k += len(l.encode()) + 1
        o.append(k)
    return o


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src.encode()
        self.off = offsets(src)
        self.out = []      # (start, end, replacement, what, line)
        self.fn = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.src[a:b].decode()

    def add(self, n, rep, what):
        a, b = self.pos(n)
        self.out.append((a, b, rep, what, n.lineno, '.'.join(self.fn)))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for b in n.body:
            self.visit(b)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            m = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '=='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '=='], ast.Eq: ['!='], ast.NotEq: ['=='],
                 ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
            for op in m.get(type(n.ops[0]), []):
                self.add(n, f'{l} {op} {r}', 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        l, r = self.text(n.left), self.text(n.right)
        m = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Mod: ['+'], ast.BitAnd: ['|'], ast.BitOr: ['&', '^'],
             ast.BitXor: ['|'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.Div: ['*']}
        for op in m.get(type(n.op), []):
            self.add(n, f'({l} {op} {r})', 'bin')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if type(n.value) is int:
            self.add(n, str(n.value + 1), 'const+1')
            if n.value:
                self.add(n, f'({n.value - 1})', 'const-1')
            if n.value > 2:
                self.add(n, '0', 'const 0')
        elif type(n.value) is bool:
            self.add(n, str(not n.value), 'bool')
        elif type(n.value) is str and self.fn and n.value:
            pass

    def visit_BoolOp(self, n):
        ts = [self.text(v) for v in n.values]
        self.add(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(ts) + ')', 'boolop')
        for k in range(len(ts)):
            self.add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(ts[:k] + ts[k + 1:]) + ')', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, '(' + self.text(n.operand) + ')', 'unary')
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, 'True', 'if True')
        self.add(n.test, 'False', 'if False')
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(' + self.text(n.body) + ')', 'ifexp')
        self.add(n, '(' + self.text(n.orelse) + ')', 'ifexp')
        self.generic_visit(n)

    def stmt(self, n):
        if self.fn:
            self.add(n, 'pass', 'delete')

    def visit_Expr(self, n):
        t = self.text(n)
        if not t.startswith(('pywasm.log', "'", '"')):
            self.stmt(n)
            self.generic_visit(n)

    def visit_Assign(self, n):
        self.stmt(n)
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Assert(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.stmt(n)

    def visit_Return(self, n):
        if n.value is not None:
            self.stmt(n)
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, 'pass', 'break')

    def visit_Continue(self, n):
        self.add(n, 'break', 'continue')

    def visit_Call(self, n):
        t = self.text(n.func)
        if t.startswith('pywasm.log'):
            return
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = self.text(n.args[0]), self.text(n.args[1])
            self.add(n, f'{t}({b}, {a})', 'swap')
        if t in ('min', 'max'):
            self.add(n.func, 'max' if t == 'min' else 'min', 'minmax')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        for a, b in (('_i8', '_u8'), ('_i16', '_u16'), ('_i32', '_u32'), ('_i64', '_u64'), ('_f32', '_f64')):
            for x, y in ((a, b), (b, a)):
                if n.attr.endswith(x):
                    self.add(n, self.text(n.value) + '.' + n.attr[:-len(x)] + y, 'attr')
        self.generic_visit(n)

    def visit_Slice(self, n):
        for k in ('lower', 'upper'):
            v = getattr(n, k)
            if v is not None and not isinstance(v, ast.Constant):
                self.add(v, '(' + self.text(v) + ' + 1)', 'slice')
        self.generic_visit(n)


def mutants(path, lo=0, hi=10 ** 9):
    src = open(path).read()
    c = Collect(src)
    c.visit(ast.parse(src))
    out = []
    for a, b, rep, what, line, fn in c.out:
        if lo <= line <= hi:
            new = (c.src[:a] + rep.encode() + c.src[b:]).decode()
            if new != src:
                out.append((path, line, fn, what, c.src[a:b].decode(), rep, new))
    return out


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    k = sys.argv.index('--')
    files, checks = sys.argv[3:k], sys.argv[k + 1:]
    ms = []
    for f in files:
        f, _, r = f.partition(':')
        lo, _, hi = r.partition('-')
        ms += mutants(os.path.join(SRC, f), int(lo or 0), int(hi or 10 ** 9))
    if os.environ.get('MUT_AGAIN'):
        want = set()
        for l in open(os.environ['MUT_AGAIN']):
            r = json.loads(l)
            want.add((r['file'], r['line'], r['what'], r['old'], r['new']))
        ms = [m for m in ms if (os.path.basename(m[0]), m[1], m[3], m[4][:200], m[5][:200]) in want]
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    byl = {}
    for m in ms:                       # at most one mutant per line and kind first
        byl.setdefault((m[0], m[1]), []).append(m)
    order = []
    while byl and len(order) < count:
        keys = list(byl)
        rnd.shuffle(keys)
        for key in keys:
            order.append(byl[key].pop())
            if not byl[key]:
                del byl[key]
    order = order[:count]
    print(len(ms), 'possible mutants,', len(order), 'chosen', flush=True)
    os.makedirs(TOP, exist_ok=True)
    ver = os.path.join(TOP, f'verif{seed}')
    shutil.rmtree(ver, ignore_errors=True)
    shutil.copytree('/verif', ver, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
    os.makedirs(ver + '/evidence', exist_ok=True)
    os.makedirs(ver + '/replays', exist_ok=True)
    kills = {c: 0 for c in checks}
    hints = {}
    lock = threading.Lock()
    log = open(os.path.join(TOP, f'log.{seed}'), 'w')
    surv = open(os.path.join(TOP, f'survivors.{seed}.jsonl'), 'w')

    def one(i):
        path, line, fn, what, old, rep, new = order[i]
        d = os.path.join(TOP, f'm{seed}-{i}')
        shutil.copytree(os.path.join(SRC, 'pywasm'), os.path.join(d, 'pywasm'), ignore=shutil.ignore_patterns('__pycache__'))
        os.chmod(d, 0o755)
        with open(os.path.join(d, os.path.relpath(path, SRC)), 'w') as f:
            f.write(new)
        env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS='1', VERIF_SCALE=SCALE, VERIF_NOSHRINK='1', VERIF_GB='3', VERIF_SEED='1', VERIF_WALL='200')
        t = time.time()
        res = None
        with lock:
            cs = sorted(checks, key=lambda c: (-hints.get((fn, c), 0) - hints.get((path, line // 30, c), 0) * 2, -kills[c]))
        odd = []
        for c in cs:
            try:
                p = subprocess.run(['python3-vt', '-B', ver + '/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(c + ':timeout')
                continue
            if p.returncode == 1 and b'VIOLATION property=' in p.stdout:
                res = c
                break
            if p.returncode != 0:
                if b'HARNESS' in p.stdout or p.returncode == 2:
                    odd.append(c + ':' + p.stdout.decode(errors='replace')[-300:])
                else:
                    odd.append(f'{c}:rc{p.returncode}')
                if b'ImportError' in p.stdout or b'SyntaxError' in p.stdout or b'AttributeError: module' in p.stdout:
                    res = 'import'
                    break
        shutil.rmtree(d, ignore_errors=True)
        with lock:
            if res in kills:
                kills[res] += 1
                hints[fn, res] = hints.get((fn, res), 0) + 1
                hints[path, line // 30, res] = hints.get((path, line // 30, res), 0) + 1
            r = dict(i=i, file=os.path.basename(path), line=line, fn=fn, what=what, old=old[:200], new=rep[:200], killed=res, odd=odd, t=round(time.time() - t))
            log.write(json.dumps(r) + '\n')
            log.flush()
            if res is None:
                surv.write(json.dumps(r) + '\n')
                surv.flush()
                print('SURVIVED', json.dumps(r)[:600], flush=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('MUT_J', '8'))) as ex:
        list(ex.map(one, range(len(order))))
    print('kills', kills, flush=True)
    shutil.rmtree(ver, ignore_errors=True)


main()
