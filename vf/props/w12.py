"""W12: modules run as WASI commands: exit codes, output, input, what runs and what is left afterwards."""
import os
import io

from .. import drive, enc, gen, wasi
from ..diffprop import h64
from ..runner import Test, check

ID = 'W12'
RULE = ('a case is a generated program (functions with loops, direct, indirect and re-entrant host calls, gathered writes to stdout and stderr, scattered reads of stdin that are echoed, counters, exits, '
        'returns and traps) with generated standard input and a kind of standard streams (in-memory pipes, host files, host pipes whose writer is open or closed); non-trivial = the reference ran '
        'at least 2 writes and ended by process exit or a trap, or echoed input; distinct by generated bytes')
ASSUME = ['programs end within 400 reference steps', 'exit codes are compared modulo 2^32',
          'input requested from a pipe whose writer stays open never exceeds what is in the pipe']
before, after = wasi.before, wasi.after
B = 40000          # input buffer
MODES = ['mem', 'files', 'pipes']
CODES = [0, 1, 2, 3, 42, 126, 127, 128, 255, 256, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffff00]
TRAPS = ['unreachable', 'div', 'load', 'badptr', 'host', 'hostplain', 'indirect']


class Boom(Exception):
    pass


def text(s):
    k = s.pick(6)
    if k == 5:
        return bytes(s.byte() for _ in range(s.pick(5))) * s.pick(300)
    return bytes(s.byte() if s.chance(3) else s.of(b'hello\n\0 %s\xff') for _ in range(s.pick(12)))


def ops(s, i, nf, depth=0):
    out = []
    for _ in range(s.pick(5) + (depth == 0)):
        k = s.weighted([(6, 'w'), (3, 'R'), (4, 'call'), (2, 'loop'), (2, 'count'), (2, 'exit'), (1, 'ret'), (1, 'trap'), (1, 'cb'), (1, 'if'), (1, 'probe')])
        if k == 'w':
            out.append(('w', s.of([1, 1, 2]), [text(s) for _ in range(1 + s.pick(3))]))
        elif k == 'R':
            out.append(('R', s.of([1, 3, 10, 100, 5000, 0]), 1 + s.pick(9), s.of([0, 1, 7, 4000])))
        elif k in ('call', 'cb'):
            if i + 1 < nf:
                out.append((k, i + 1 + s.pick(nf - i - 1), s.pick(3)))
        elif k == 'loop':
            if depth < 2:
                out.append(('loop', 1 + s.pick(3), ops(s, i, nf, depth + 1)))
        elif k == 'if':
            if depth < 2:
                out.append(('if', s.pick(5), ops(s, i, nf, depth + 1)))
        elif k == 'exit':
            out.append(('exit', s.of(CODES) if s.pick(4) else s.bits(32), s.pick(3)))
        elif k == 'trap':
            out.append(('trap', s.of(TRAPS)))
        else:
            out.append((k,))
    return out


def program(s):
    nf = 1 + s.pick(4)
    funcs = [ops(s, i, nf) for i in range(nf)]
    if s.pick(3):
        k = s.pick(nf)
        funcs[k].append(('exit', s.of(CODES), s.pick(3)) if s.pick(3) else ('trap', s.of(TRAPS)))
        if k:
            funcs[0].append((s.of(['call', 'call', 'cb']), k, s.pick(3)))
    mode = s.weighted([(4, 'mem'), (2, 'files'), (2, 'pipes')])
    data = b''.join(text(s) for _ in range(s.pick(5)))[:8000]
    return funcs, mode, data, s.pick(4)


class Exit(Exception):
    pass


class Trap(Exception):
    pass


class Return(Exception):
    pass


class Model:
    def __init__(self, funcs, data):
        self.funcs, self.data = funcs, data
        self.out = {1: b'', 2: b''}
        self.pos = self.count = self.steps = self.writes = self.written = self.maxdepth = self.depth = 0
        self.starved = False      # asked for more input than there is
        self.echo = 0

    def run(self):
        try:
            self.call(0)
        except Exit as e:
            return 'exit', e.args[0]
        except Trap as e:
            return 'trap', e.args[0]
        return 'end', 0

    def call(self, i):
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        try:
            self.block(self.funcs[i])
        except Return:
            pass
        self.depth -= 1

    def put(self, fd, b):
        self.out[fd] += b
        self.writes += 1
        self.written += len(b)

    def block(self, ops):
        for op in ops:
            self.steps += 1
            if self.steps > 400 or self.written > 30000:
                raise OverflowError
            k = op[0]
            if k == 'w':
                self.put(op[1], b''.join(op[2]))
            elif k == 'R':
                b = self.data[self.pos:self.pos + op[1]]
                self.pos += len(b)
                self.starved |= len(b) < op[1]
                self.echo += bool(b)
                self.put(1, b)
            elif k in ('call', 'cb'):
                self.call(op[1])
            elif k == 'loop':
                for _ in range(op[1]):
                    self.block(op[2])
            elif k == 'if':
                if self.count % 5 == op[1]:
                    self.block(op[2])
            elif k == 'count':
                self.count += 1
            elif k == 'exit':
                raise Exit(op[1])
            elif k == 'ret':
                raise Return
            elif k == 'trap':
                raise Trap(op[1])
            else:
                self.count += 3


def build(funcs):
    """_start plus the functions; globals: count, errors, written"""
    m = enc.Mod()
    imps = ['fd_write', 'fd_read', 'proc_exit']
    vt = {'i': 'i32', 'I': 'i64'}
    for n in imps:
        m.imports.append(('wasi_snapshot_preview1', n, 'func', m.type(tuple(vt[c] for c in wasi.FUNCS[n]), () if n == 'proc_exit' else ('i32',))))
    m.imports.append(('env', 'boom', 'func', m.type(('i32',), ())))
    m.imports.append(('env', 'cb', 'func', m.type(('i32',), ())))
    W, RD, X, BOOM, CB = range(5)
    base = 5
    nf = len(funcs)
    vv = m.type((), ())
    m.mems.append((1, 1))
    m.exports.append(('memory', 'mem', 0))
    for _ in range(3):
        m.globals.append(('i32', True, [('i32.const', 0)]))
    for k, n in enumerate(('count', 'errors', 'written')):
        m.exports.append((n, 'global', k))
    m.tables.append(('funcref', nf + 1, nf + 1))
    m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', base + i)] for i in range(nf)], 0, [('i32.const', 0)]))
    top = [1024]
    c = lambda v: ('i32.const', v & 0xffffffff)
    g = lambda i: ('local.get', i)

    def place(b):
        a = top[0]
        top[0] += (len(b) + 7) // 8 * 8
        if top[0] > B:
            raise OverflowError
        if b:
            m.datas.append(enc.Data('active', b, [c(a)]))
        return a

    def note(k, e):
        return [('global.get', k)] + e + [('i32.add',), ('global.set', k)]

    def err(e):          # e leaves an errno
        return note(1, e + [c(0), ('i32.ne',)])

    def gen_(ops, d):
        o = []
        for op in ops:
            k = op[0]
            if k == 'w':
                iov = b''.join(place(x).to_bytes(4, 'little') + len(x).to_bytes(4, 'little') for x in op[2])
                a = place(iov)
                o += err([c(op[1]), c(a), c(len(op[2])), c(8), ('call', W)]) + note(2, [c(8), ('i32.load', 2, 0)])
            elif k == 'R':
                _, n, l1, l2 = op
                # locals: 0 total, 1 first length, 2 second length
                mn = lambda x, y: x + y + x + y + [('i32.lt_u',), ('select',)]
                left = [c(n), g(0), ('i32.sub',)]
                body = mn([c(l1)], left) + [('local.set', 1)] + mn([c(l2)], left + [g(1), ('i32.sub',)]) + [('local.set', 2)]
                body += [c(16), g(0), c(B), ('i32.add',), ('i32.store', 2, 0), c(20), g(1), ('i32.store', 2, 0)]
                body += [c(24), g(0), c(B), ('i32.add',), g(1), ('i32.add',), ('i32.store', 2, 0), c(28), g(2), ('i32.store', 2, 0)]
                body += [c(12), c(0), ('i32.store', 2, 0)] + err([c(0), c(16), c(2), c(12), ('call', RD)])
                body += [g(0), c(12), ('i32.load', 2, 0), ('i32.add',), ('local.set', 0)]
                body += [c(12), ('i32.load', 2, 0), c(0), ('i32.ne',), g(0), c(n), ('i32.lt_u',), ('i32.and',), ('br_if', 0)]
                o += [c(0), ('local.set', 0)]
                if n:
                    o += [('loop', None, body)]
                o += [c(16), c(B), ('i32.store', 2, 0), c(20), g(0), ('i32.store', 2, 0)]
                o += err([c(1), c(16), c(1), c(8), ('call', W)]) + note(2, [c(8), ('i32.load', 2, 0)])
            elif k == 'call':
                call = [('call', base + op[1])] if op[2] % 2 == 0 else [c(op[1]), ('call_indirect', vv, 0)]
                if op[2] == 2:
                    call = [c(7), ('block', None, [('loop', None, call)]), ('drop',)]
                o += call
            elif k == 'cb':
                o += [c(op[1]), ('call', CB)]
            elif k == 'loop':
                lv = 3 + d
                o += [c(op[1]), ('local.set', lv), ('loop', None, gen_(op[2], d + 1) + [g(lv), c(-1), ('i32.add',), ('local.tee', lv), ('br_if', 0)])]
            elif k == 'if':
                o += [('global.get', 0), c(5), ('i32.rem_u',), c(op[1]), ('i32.eq',), ('if', None, gen_(op[2], d + 1), None)]
            elif k == 'count':
                o += note(0, [c(1)])
            elif k == 'probe':
                o += note(0, [c(3)])
            elif k == 'exit':
                e = [c(op[1]), ('call', X)]
                o += e if op[2] == 0 else [('block', None, e)] if op[2] == 1 else [c(1), ('if', None, e, None)]
            elif k == 'ret':
                o += [('return',)]
            elif k == 'trap':
                o += {'unreachable': [('unreachable',)], 'div': [c(1), c(0), ('i32.div_u',), ('drop',)], 'load': [c(65533), ('i32.load', 2, 0), ('drop',)],
                      'badptr': [c(1), c(65532), c(2), c(8), ('call', W), ('drop',), ('unreachable',)], 'host': [c(1), ('call', BOOM)],
                      'hostplain': [c(0), ('call', BOOM)], 'indirect': [c(nf), ('call_indirect', vv, 0)]}[op[1]]
        return o
    for i, f in enumerate(funcs):
        m.func([], [], ['i32'] * 6, gen_(f, 0), f'f{i}')
    m.func([], [], [], [('call', base)], '_start')
    m.func(['i32', 'i32'], ['i32'], [], [g(0), g(1), ('i32.add',)], 'add')
    return m


class Streams:
    """the three standard streams of one run"""

    def __init__(self, mode, data, closed):
        self.mode = mode
        self.files, self.fds = [], []
        if mode == 'mem':
            self.std = None
            self.pipes = (data, b'', b'')
            return
        self.pipes = (None, None, None)
        if mode == 'files':
            fs = []
            for k, b in enumerate((data, b'', b'')):
                n = os.path.join(self.dir(), f's{k}')
                with open(n, 'wb') as f:
                    f.write(b)
                fs.append(open(n, 'r' if k == 0 else 'r+'))
            self.files = fs
            self.std = fs
        else:
            ps = [os.pipe() for _ in range(3)]
            os.write(ps[0][1], data)
            if closed:
                os.close(ps[0][1])
            else:
                self.fds.append(ps[0][1])
            self.fds += [ps[1][0], ps[2][0]]
            self.outs = [ps[1][0], ps[2][0]]
            self.files = [os.fdopen(ps[0][0], 'r'), os.fdopen(ps[1][1], 'w'), os.fdopen(ps[2][1], 'w')]
            self.std = self.files

    def dir(self):
        return Streams.where

    def output(self, g):
        if self.mode == 'mem':
            return {k: g.wasi.fd[k].pipe.read() for k in (1, 2)}, g.wasi.fd[1].pipe.getvalue(), g.wasi.fd[2].pipe.getvalue()
        if self.mode == 'files':
            r = []
            for k in (1, 2):
                with open(os.path.join(self.dir(), f's{k}'), 'rb') as f:
                    r.append(f.read())
            return {1: r[0], 2: r[1]}, r[0], r[1]
        r = []
        for fd in self.outs:
            os.set_blocking(fd, False)
            try:
                r.append(os.read(fd, 1 << 17))
            except BlockingIOError:
                r.append(b'')
        return {1: r[0], 2: r[1]}, r[0], r[1]

    def close(self):
        for f in self.files:
            try:
                f.close()
            except OSError:
                pass
        for fd in self.fds:
            os.close(fd)


def run(b, ctx):
    s = gen.Src(b)
    funcs, mode, data, again = program(s)
    Streams.where = ctx.data['dir']
    model = Model(funcs, data)
    try:
        how, val = model.run()
        code = enc.encode(build(funcs))
    except OverflowError:
        return ctx.discard()
    once(ctx, funcs, mode, data, model, how, val, code, None, again)
    ctx.tag(how)
    ctx.tag(mode)
    if model.writes >= 2 and how != 'end' or model.echo:
        ctx.good(h=h64(b))


class CG(wasi.Guest):
    def __init__(self, code, streams, pw=None):
        self.pw = pw or drive.PW()
        self.own = []
        std = streams.std
        if std is None:
            self.own = [open(os.devnull, 'r'), open(os.devnull, 'w'), open(os.devnull, 'w')]
            std = self.own
        with wasi.stdio(std):
            self.wasi = drive.attempt(drive.pywasm.wasi.Preview1, ['prog'], {}, {})
        for k, x in enumerate(streams.pipes):
            if x is not None:
                self.wasi.fd[k].pipe = io.BytesIO(x)
        self.wasi.bind(self.pw.rt)
        rt = self.pw.rt
        self.inst = None

        def boom(_, args):
            if args[0]:
                raise Boom(SystemError, 3)
            raise Boom()

        def cb(_, args):
            rt.invocate(self.inst, f'f{args[0]}', [])
            return []
        ft = drive.functype(['i32'], [])
        rt.imports = dict(rt.imports)
        rt.imports['env'] = {'boom': rt.allocate_func_host(ft, boom), 'cb': rt.allocate_func_host(ft, cb)}
        self.inst = self.pw.instance(code)
        self.mem = self.pw.memory(self.inst, 'memory')


def once(ctx, funcs, mode, data, model, how, val, code, pw, again):
    st = Streams(mode, data, model.starved)
    g = None
    try:
        g = CG(code, st, pw)
        rt = g.pw.rt
        sysexit = False
        if again == 3 and how == 'exit':
            g.wasi.return_on_exit = 0
            sysexit = True
        try:
            r = ('ret', drive.attempt(g.wasi.main, rt, g.inst))
        except drive.Raised as e:
            r = ('raised', e.e)
        w = f'{mode}: expected {how} {val}, main gave {r!r}'
        if how == 'trap':
            check(r[0] == 'raised' and not isinstance(r[1], SystemExit), w)
            if val in ('host', 'hostplain'):
                check(isinstance(r[1], Boom), lambda: w + ': the exception of the host function is lost')
        elif sysexit:
            check(r[0] == 'raised' and isinstance(r[1], SystemExit) and type(r[1].code) is int and (r[1].code - val) % (1 << 32) == 0, w)
        else:
            check(r[0] == 'ret' and type(r[1]) is int and (r[1] - val) % (1 << 32) == 0, w)
        out, whole1, whole2 = st.output(g)
        check(out == model.out, lambda: f'{mode}, {how} {val}: output {out!r:.600}, expected {model.out!r:.600}')
        check((whole1, whole2) == (model.out[1], model.out[2]), lambda: f'{mode}: the captured streams hold {whole1!r:.300} and {whole2!r:.300}, written were {model.out!r:.600}')
        state = [g.pw.global_bits(g.inst, n) for n in ('count', 'errors', 'written')]
        check(state == [model.count, 0, model.written], lambda: f'{mode}, {how} {val}: counter, failed calls and bytes written are {state}, expected {[model.count, 0, model.written]}')
        # the runtime goes on working
        r = g.pw.call(g.inst, 'add', [('i32', 20), ('i32', 22)])
        check(r == [('i32', 42)], f'afterwards 20+22 = {r}')
    finally:
        st.close()
        if g is not None:
            g.close()
    if pw is None and again in (1, 2, 3):
        # another command in the same runtime
        m2 = Model(funcs, data[::-1])
        try:
            how2, val2 = m2.run()
        except OverflowError:
            return
        once(ctx, funcs, 'mem' if again == 2 else mode, data[::-1], m2, how2, val2, code, g.pw, 0)


def nostart(case, ctx):
    """a module without a usable _start is refused with an exception, not an exit code"""
    kind = case
    m = enc.Mod()
    m.mems.append((1, 1))
    m.exports.append(('memory', 'mem', 0))
    m.globals.append(('i32', True, [('i32.const', 0)]))
    m.exports.append(('ran', 'global', 0))
    body = [('i32.const', 1), ('global.set', 0)]
    if kind == 'none':
        m.func([], [], [], body, 'start')
    elif kind == 'case':
        m.func([], [], [], body, '_Start')
    elif kind == 'space':
        m.func([], [], [], body, ' _start')
    elif kind == 'global':
        m.func([], [], [], body, 'f')
        m.exports.append(('_start', 'global', 0))
    elif kind == 'mem':
        m.func([], [], [], body, 'f')
        m.exports.append(('_start', 'mem', 0))
    elif kind == 'table':
        m.func([], [], [], body, 'f')
        m.tables.append(('funcref', 1, 1))
        m.exports.append(('_start', 'table', 0))
    g = wasi.Guest(mod=enc.encode(m))
    try:
        try:
            r = drive.attempt(g.wasi.main, g.pw.rt, g.inst)
            check(False, f'module without a start routine ({kind}): main returned {r!r}')
        except drive.Raised as e:
            check(not isinstance(e.e, SystemExit), f'module without a start routine ({kind}): the process is exited')
        check(g.pw.global_bits(g.inst, 'ran') == 0, f'module without a start routine ({kind}): another function ran')
        ctx.good()
    finally:
        g.close()


def show(b):
    f, mode, data, again = program(gen.Src(b))
    return f'{mode} stdin={data!r:.200} again={again}\n' + '\n'.join(f'f{i}: {x!r:.600}' for i, x in enumerate(f))


def tests(tier):
    return [Test('programs', run, strategy=lambda: gen.strategy(160, 600), n=(16000, 300000), setup=wasi.setup, teardown=wasi.teardown, show=show),
            Test('no start', nostart, cases=lambda t, sh, n: [k for i, k in enumerate(('none', 'case', 'space', 'global', 'mem', 'table')) if i % n == sh],
                 setup=wasi.setup, teardown=wasi.teardown)]
