"""W13: the command line, run as a process."""
import math
import os
import struct
import subprocess
import sys

from .. import enc, gen, wasi
from ..diffprop import h64
from ..runner import REPO, Test, check

ID = 'W13'
RULE = ('a case is a generated command line run as a process: a module with generated functions and a choice of function and arguments of generated types and spellings, or a WASI command that reports '
        'everything it was given, with generated arguments, variables, directory mappings, standard input and way of ending, or a faulty command line; non-trivial = the command line carried at least '
        'one argument, variable or mapping, or had to fail; distinct by generated bytes')
ASSUME = ['of several settings of one variable or guest directory the last holds', 'integer arguments are decimal and in the signed range of their type', 'command lines are valid UTF-8 in a UTF-8 locale', 'exit codes are compared modulo 256',
          'the text before and after the printed list, and error messages, are not judged']
before, after = wasi.before, wasi.after
VT = ['i32', 'i64', 'f32', 'f64', 'v128']


def pyw(args, cwd, stdin=b'', timeout=120):
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'PYTHONPATH': REPO, 'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1', 'SECRET': 'host'}
    try:
        p = subprocess.run([sys.executable, '-B', '-m', 'pywasm'] + args, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        check(False, f'{args!r} does not end within {timeout} s')
    return p.returncode, p.stdout, p.stderr


# -- plain modules ------------------------------------------------------------------------------------------------------
def value(s, t):
    """-> (spelling, bits)"""
    if t in ('i32', 'i64'):
        w = int(t[1:])
        x = s.of([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, s.bits(w), s.bits(8), (1 << w) - 1 - s.bits(8)])
        v = x - (1 << w) if x >> (w - 1) else x
        return str(v), x
    if t == 'v128':
        x = bytes(s.of([0, 255, s.byte(), k]) for k in range(16))
        return '0x' + x.hex(), int.from_bytes(x, 'little')
    w = int(t[1:])
    x = s.of([0, 1 << (w - 1), s.bits(w), s.bits(w), s.bits(w)])
    if w == 64:
        v = struct.unpack('<d', x.to_bytes(8, 'little'))[0]
    else:
        v = struct.unpack('<f', x.to_bytes(4, 'little'))[0]
    if math.isnan(v):
        return 'nan', None
    k = s.pick(8)
    if k == 0:
        v = float(s.pick(20) - 10)
        txt = str(int(v))
    elif k == 1:
        v = s.of([math.inf, -math.inf])
        txt = s.of(['inf', 'Infinity'])
        txt = ('-' if v < 0 else '') + txt
    else:
        txt = repr(v)
    return txt, int.from_bytes(struct.pack('<d' if w == 64 else '<f', v), 'little')


NAMES = ['f', 'main', '_start', 'run me', 'add-one', '--help', 'é中', '', '_initialize', 'F', 'mem0', '-v', '0']


def plain(s):
    names = []
    for _ in range(1 + s.pick(4)):
        n = s.of(NAMES)
        if n not in names:
            names.append(n)
    funcs = []
    for n in names:
        ps = [s.of(VT) for _ in range(s.pick(5))]
        body, rs = [], []
        for _ in range(s.pick(4)):
            k = s.pick(4)
            if k and ps:
                i = s.pick(len(ps))
                rs.append(ps[i])
                body.append(('p', i))
                ints = [j for j, t in enumerate(ps) if t in ('i32', 'i64') and t == ps[i]]
                if k == 1 and ps[i] in ('i32', 'i64') and len(ints) > 1:
                    body[-1] = ('sub', i, s.of(ints))
            else:
                t = s.of(VT)
                rs.append(t)
                body.append(('c', value(s, t)[1] or 0))
        funcs.append((n, ps, rs, body, s.chance(2)))
    which = s.pick(len(funcs))
    args = [value(s, t) for t in funcs[which][1]]
    bad = s.weighted([(10, None), (1, 'many'), (1, 'few'), (1, 'missing'), (1, 'number'), (1, 'kind'), (1, 'file'), (1, 'module'), (1, 'import')])
    return funcs, which, args, bad, s.pick(4), s.pick(3)


def plainmod(funcs, bad):
    m = enc.Mod()
    if bad == 'import':
        m.imports.append(('no', 'such', 'func', m.type((), ())))
    m.mems.append((1, 1))
    for n, ps, rs, body, trap in funcs:
        code = []
        for (t, b) in zip(rs, body):
            if b[0] == 'p':
                code.append(('local.get', b[1]))
            elif b[0] == 'sub':
                code += [('local.get', b[1]), ('local.get', b[2]), (t + '.sub',)]
            else:
                code.append((t + '.const', b[1]))
        if trap:
            code = [('i32.const', 70000), ('i32.load', 2, 0), ('drop',)] + code
        m.func(ps, rs, [], code, n)
    m.globals.append(('i32', False, [('i32.const', 1)]))
    m.exports.append(('a memory', 'mem', 0))
    m.exports.append(('a global', 'global', 0))
    return m


def opt(name, v, how):
    """an option in one of the spellings of argparse"""
    if how and v and not v.startswith('-'):
        return [name, v]
    return [f'{name}={v}']


def expected(funcs, which, args):
    n, ps, rs, body, trap = funcs[which]
    if trap:
        return None
    out = []
    for t, b in zip(rs, body):
        if b[0] == 'p':
            out.append((t, args[b[1]][1]))
        elif b[0] == 'sub':
            out.append((t, (args[b[1]][1] - args[b[2]][1]) % (1 << int(t[1:]))))
        else:
            out.append((t, b[1]))
    return out


def same(t, bits, v):
    """does the printed value v mean these bits"""
    if t in ('i32', 'i64'):
        w = int(t[1:])
        return type(v) is int and v == (bits - (1 << w) if bits >> (w - 1) else bits)
    if t == 'v128':
        return isinstance(v, (bytes, bytearray)) and int.from_bytes(v, 'little') == bits and len(v) == 16
    if type(v) is not float:
        return False
    f = '<f' if t == 'f32' else '<d'
    if bits is not None:
        x = struct.unpack(f, bits.to_bytes(int(t[1:]) // 8, 'little'))[0]
        if not math.isnan(x):
            return not math.isnan(v) and math.copysign(1, x) == math.copysign(1, v) and x == v
    return math.isnan(v)


def plain_run(b, ctx):
    s = gen.Src(b)
    funcs, which, args, bad, how, spell = plain(s)
    name = funcs[which][0]
    txt = [a[0] for a in args]
    ps = funcs[which][1]
    if bad == 'many':
        txt = txt + [s.of(['0', '1', txt[-1] if txt else '2'])]
    elif bad == 'few':
        if not txt:
            return ctx.discard()
        txt = txt[:-1]
    elif bad == 'missing':
        name = name + '1'
        if any(f[0] == name for f in funcs):
            return ctx.discard()
    elif bad == 'number':
        if not txt:
            return ctx.discard()
        k = s.pick(len(txt))
        txt[k] = s.of(['abc', '', '1,5', '--', '0xzz', '1 2'] + (['1.5', '1e3', 'nan'] if ps[k][0] == 'i' else []))
    elif bad == 'kind':
        name, txt = s.of(['a memory', 'a global']), []
    code = enc.encode(plainmod(funcs, bad))
    if bad == 'module':
        code = s.of([code[:-1 - s.pick(4)], b'', b'\0asm\2\0\0\0' + code[8:], code[1:], code[:8] + b'\x0d' + code[8:], b'(module)'])
    d = ctx.data['dir']
    file = os.path.join(d, s.of(['m.wasm', 'a b.wasm', 'é.wasm', 'm', 'x=y:z']))
    with open(file, 'wb') as f:
        f.write(code)
    try:
        pos = [file if how & 1 else os.path.join('.', os.path.basename(file))]
        if bad == 'file':
            pos = [pos[0] + 'x']
        o = []
        if name != '_start' or how & 2:
            o += opt('--func', name, spell == 1)
        a = [x for t in txt for x in opt('--func-args', t, spell == 1)]
        argv = pos + o + a if spell == 0 else o + a + pos if spell == 1 else a + o + pos
        rc, out, err = pyw(argv, d)
    finally:
        os.unlink(file)
    show = lambda: f'{argv!r} on {funcs!r:.900}: status {rc}, output {out!r:.500}, errors {err[-300:]!r}'
    want = None if bad else expected(funcs, which, args)
    if want is None:
        check(rc != 0 and rc < 128 and rc > 0, show)
        check(b'[' not in out, show)
        ctx.good(h=h64(b))
        ctx.tag('must fail: ' + (bad or 'trap'))
        return
    check(rc == 0, show)
    line = out.decode().strip()
    try:
        got = eval(line, {'__builtins__': {}, 'nan': math.nan, 'inf': math.inf, 'bytearray': bytearray, 'bytes': bytes})
    except Exception:
        got = None
    check(isinstance(got, (list, tuple)) and len(got) == len(want) and all(same(t, x, v) for (t, x), v in zip(want, got)), lambda: f'expected {want!r}: ' + show())
    ctx.tag(f'{len(args)} arguments')
    if args or want:
        ctx.good(h=h64(b))


# -- WASI commands --------------------------------------------------------------------------------------------------------
REPORT = None


def report(kind, code):
    """writes to stdout: errno, count, length, data of args and of environ; per preopen its name and the content of its file "mark"; then stdin"""
    m = enc.Mod()
    ix = {}
    vt = {'i': 'i32', 'I': 'i64'}
    for n in ('args_sizes_get', 'args_get', 'environ_sizes_get', 'environ_get', 'fd_prestat_get', 'fd_prestat_dir_name', 'path_open', 'fd_read', 'fd_write', 'proc_exit', 'fd_close'):
        ix[n] = len(ix)
        m.imports.append(('wasi_snapshot_preview1', n, 'func', m.type(tuple(vt[c] for c in wasi.FUNCS[n]), () if n == 'proc_exit' else ('i32',))))
    m.mems.append((4, 4))
    m.exports.append(('memory', 'mem', 0))
    c = lambda v: ('i32.const', v & 0xffffffff)
    ld = lambda a: [c(a), ('i32.load', 2, 0)]
    st = lambda a, e: [c(a)] + e + [('i32.store', 2, 0)]
    call = lambda n, *a: [x for y in a for x in (y if isinstance(y, list) else [c(y)])] + [('call', ix[n])]
    out = lambda fd, p, n: st(64, p) + st(68, n) + call('fd_write', fd, 64, 1, 72) + [('drop',)]
    BUF = 65536
    o = []
    for k in ('args', 'environ'):
        o += st(0, call(k + '_sizes_get', 4, 8)) + st(12, call(k + '_get', 4096, BUF))
        o += out(1, [c(0)], [c(16)]) + out(1, [c(BUF)], ld(8))
    g = ('local.get', 0)
    # preopens
    body = call('fd_prestat_get', [g], 80) + [('br_if', 1)]
    body += st(0, call('fd_prestat_dir_name', [g], BUF, ld(84))) + st(4, ld(84)) + out(1, [c(0)], [c(8)]) + out(1, [c(BUF)], ld(84))
    body += st(0, call('path_open', [g], 0, 96, 4, 0, [('i64.const', 2)], [('i64.const', 0)], 0, 88)) + st(4, [c(0)])
    body += st(64, [c(BUF)]) + st(68, [c(1000)]) + ld(0) + [('i32.eqz',), ('if', None, st(0, call('fd_read', ld(88), 64, 1, 4)) + call('fd_close', ld(88)) + [('drop',)], None)]
    body += out(1, [c(0)], [c(8)]) + out(1, [c(BUF)], ld(4))
    body += [g, c(1), ('i32.add',), ('local.set', 0), ('br', 0)]
    m.datas.append(enc.Data('active', b'mark', [c(96)]))
    m.datas.append(enc.Data('active', b'to stderr\xff\0\n', [c(112)]))
    o += [c(3), ('local.set', 0), ('block', None, [('loop', None, body)])]
    o += st(0, [c(0xfffffffe)]) + out(1, [c(0)], [c(4)])
    # stdin
    o += [('loop', None, st(64, [c(BUF)]) + st(68, [c(3000)]) + st(4, [c(0)]) + call('fd_read', 0, 64, 1, 4) + [('drop',)] + out(1, [c(BUF)], ld(4)) + ld(4) + [('br_if', 0)])]
    o += out(2, [c(112)], [c(12)])
    if kind == 'exit':
        o += call('proc_exit', code)
    elif kind == 'trap':
        o += [('unreachable',)]
    m.func([], [], ['i32'], o, '_start')
    m.func([], [], [], out(1, [c(112)], [c(3)]), 'other')
    return m


def wtext(s, empty=True):
    k = s.pick(6)
    if k == 0:
        return s.of(['--help', '-v', '--wasi', '=', 'a=b', '-', '--', ':', 'a:b', '$HOME', '*', '"', "'", '\\', '\n', '-x=1'])
    if k == 1:
        return ''.join(s.of('é中\U0001f600 a') for _ in range(1 + s.pick(4)))
    if k == 2 and empty:
        return ''
    return ''.join(s.of('abcXYZ 019_=') for _ in range(1 + s.pick(7)))


GUESTS = ['a', 'dir', '.', '/', '/x', 'a/b', 'é', 'two words', 'tmp', '-d', '=', 'mark']


def wconf(s):
    args = [wtext(s) for _ in range(s.pick(5))]
    envs = []
    for _ in range(s.pick(6)):
        k = s.of(envs)[0] if envs and s.chance(4) else wtext(s, False).replace('=', '') or 'K'
        envs.append((k, s.of(['=', 'a=b', '==', k + '=', '=' + k, 'x=1=']) if s.chance(4) else wtext(s)))
    dirs = []
    for _ in range(s.pick(5)):
        dirs.append((s.of(dirs)[0] if dirs and s.chance(4) else s.of(GUESTS), s.of(['d', 'h:x', 'a b', 'é', 'e=f', '::', ':']), s.pick(2)))
    kind = s.weighted([(4, 'exit'), (2, 'return'), (1, 'trap')])
    code = s.of([0, 1, 2, 3, 42, 127, 128, 254, 255, 256, 257, 0x1ff, 0xffffffff, 0x80000000, s.bits(32)])
    stdin = bytes(s.byte() for _ in range(s.pick(9))) * s.of([0, 1, 1, 400, 3000])
    return args, envs, dirs, kind, code, stdin, s.pick(8)


def wasi_run(b, ctx):
    s = gen.Src(b)
    args, envs, dirs, kind, code, stdin, spell = wconf(s)
    d = os.path.join(ctx.data['dir'], f'w{ctx.evaluations}')
    os.mkdir(d)
    try:
        with open(os.path.join(d, 'r.wasm'), 'wb') as f:
            f.write(enc.encode(report(kind, code)))
        o, pre = [], {}
        for k, (gname, h, rel) in enumerate(dirs):
            h = f'{k}{h}'
            os.mkdir(os.path.join(d, h))
            with open(os.path.join(d, h, 'mark'), 'wb') as f:
                f.write(f'mark of {k}'.encode())
            pre[gname] = f'mark of {k}'.encode()
            o.append(opt('--wasi-dirs', gname + ':' + (h if rel else os.path.join(d, h)), spell & 1))
        groups = [o, [opt('--wasi-args', x, spell & 1) for x in args], [opt('--wasi-envs', k + '=' + v, spell & 1) for k, v in envs]]
        if spell & 2:
            groups = groups[::-1]
        flat = [x for gr in groups for y in gr for x in y]
        w = opt('--wasi', 'preview1', spell & 1)
        file = './r.wasm' if spell & 4 else os.path.join(d, 'r.wasm')
        argv = w + flat + [file] if spell & 2 else [file] + flat + w
        rc, out, err = pyw(argv, d, stdin)
    finally:
        wasi.rmtree(d)
    ctxt = lambda: f'{argv!r} ({kind} {code}, {len(stdin)} bytes of input): status {rc}, output {out!r:.900}, errors {err[-300:]!r}'
    want = {'exit': code & 255, 'return': 0}.get(kind)
    if want is None:
        check(0 < rc < 128, lambda: 'a trap: ' + ctxt())
    else:
        check(rc == want, lambda: f'expected status {want}: ' + ctxt())
    pos = [0]

    def take(n):
        r = out[pos[0]:pos[0] + n]
        pos[0] += n
        check(len(r) == n, lambda: 'the output is cut short: ' + ctxt())
        return r

    def u32():
        return int.from_bytes(take(4), 'little')
    for k, exp in (('arguments', [file] + args), ('environment', [f'{k}={v}' for k, v in dict(envs).items()])):
        e1, n, size, e2 = u32(), u32(), u32(), u32()
        data = take(size)
        got = data.split(b'\0')[:-1] if data else []
        x = [t.encode() for t in exp]
        if k == 'environment':
            got, x = sorted(got), sorted(x)
        check((e1, e2, n) == (0, 0, len(x)) and got == x, lambda: f'{k}: the guest sees {got!r}, expected {x!r}: ' + ctxt())
    seen = {}
    while True:
        e = u32()
        if e == 0xfffffffe:
            break
        check(e == 0, lambda: f'preopen name fails with {e}: ' + ctxt())
        name = take(u32())
        e = u32()
        check(e == 0, lambda: f'the file in preopen {name!r} fails with {e}: ' + ctxt())
        seen[name.decode(errors='replace')] = take(u32())
    check(seen == pre, lambda: f'directories: the guest sees {seen!r}, expected {pre!r}: ' + ctxt())
    rest = out[pos[0]:]
    check(rest == stdin, lambda: f'input of {len(stdin)} bytes {stdin[:60]!r} arrives as {len(rest)} bytes {rest[:60]!r}: ' + ctxt())
    msg = b'to stderr\xff\0\n'
    check(err == msg if kind != 'trap' else err.startswith(msg), lambda: 'standard error: ' + ctxt())
    ctx.tag('wasi ' + kind)
    if args or envs or dirs or stdin:
        ctx.good(h=h64(b))


BADLINES = [['--wasi', 'preview1'], ['--wasi', 'preview2', 'FILE'], ['--wasi', 'preview1', 'NOFILE'], ['--wasi', 'preview1', 'EMPTY'], ['FILE', 'FILE'], [], ['--nosuch', 'FILE'], ['NOFILE'], ['EMPTY'],
            ['--wasi', 'preview1', '--wasi-dirs', 'a:NOFILE', 'FILE'], ['--wasi', 'preview1', 'NOSTART'], ['NOSTART'], ['--func', 'missing', 'NOSTART'], ['FILE']]


def bad_run(line, ctx):
    """command lines that cannot work end with a non-zero status without running anything"""
    d = ctx.data['dir']
    m = enc.Mod()
    m.func([], [], [], [], 'start')
    for n, b in (('FILE', enc.encode(report('exit', 0))), ('EMPTY', b''), ('NOSTART', enc.encode(m))):
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b)
    rc, out, err = pyw(list(line), d)
    check(0 < rc < 128 and b'[' not in out, f'{line!r}: status {rc}, output {out!r:.300}, errors {err[-300:]!r}')
    ctx.good()
    ctx.tag('faulty command line')


def tests(tier):
    k = dict(setup=wasi.setup, teardown=wasi.teardown)
    return [Test('functions', plain_run, strategy=lambda: gen.strategy(60, 250), n=(800, 12000), show=lambda b: repr(plain(gen.Src(b))), **k),
            Test('wasi', wasi_run, strategy=lambda: gen.strategy(60, 250), n=(600, 9000), show=lambda b: repr(wconf(gen.Src(b))), **k),
            Test('faulty', bad_run, cases=lambda t, sh, n: [x for i, x in enumerate(BADLINES) if i % n == sh], **k)]
