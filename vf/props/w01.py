"""W01: arguments and environment."""
import struct

from .. import drive, gen, wasi
from ..diffprop import h64
from ..runner import Test, check

ID = 'W01'
RULE = ('a case is a generated argument list and environment (any Unicode text without NUL, empty strings, long strings, many strings) with generated, possibly unaligned buffer addresses, '
        'some ending exactly at the end of memory, in a memory filled with a nonzero pattern; non-trivial = at least 2 strings, one of them not ASCII or empty or over 100 bytes; distinct by generated bytes')
ASSUME = ['strings contain neither NUL nor lone surrogates', 'the order of environment strings is not judged', 'the pointer array and the string buffer do not overlap']
before, after = wasi.before, wasi.after
PAGES = 4
CODE = None


def text(s, keylike=False):
    k = s.pick(12)
    if k < 5:
        t = ''.join(s.of('abcXYZ019-_./ ') for _ in range(s.pick(12)))
    elif k < 8:
        t = ''.join(s.of('aé中\U0001f600ü\u0301\u200d\uffff\U0010ffff\x01\x7f\x80') for _ in range(s.pick(10)))
    elif k == 8:
        t = ''
    elif k == 9:
        t = s.of('xé中') * (100 + s.pick(1500))
    elif k == 10:
        t = s.of(['=', 'a=b', '==', '\n', '"', "'", '\\', '--', ' ', '\t', '$HOME', '%s', '{}', ':', '-'])
    else:
        t = ''.join(chr(c) for c in (s.pick(0x110000 // 256) << 8 | s.byte() for _ in range(1 + s.pick(8))) if c and not 0xd800 <= c < 0xe000)
    return t.replace('\0', '')


def config(s):
    n = s.weighted([(6, 1 + s.pick(6)), (1, 0), (1, 20 + s.pick(60)), (1, 1)])
    args = [text(s) for _ in range(n)]
    n = s.weighted([(6, 1 + s.pick(6)), (1, 0), (1, 20 + s.pick(40)), (1, 1)])
    envs = {}
    for _ in range(n):
        k = text(s)[:60] or 'K'
        envs[k] = text(s)
    if s.chance(2) and envs:       # names that sort differently with and without the "="
        k = s.of(list(envs))
        envs[k + s.of(['!', '0', 'a', '-', '='])] = text(s)
    return args, envs


def fetch(g, s, kind, want):
    """call the two functions of a kind at generated addresses; -> the strings delivered"""
    size = PAGES * wasi.PAGE
    w = lambda m: f'{kind}: {m}'
    enc = [x.encode() for x in want]
    n, total = len(enc), sum(len(x) + 1 for x in enc)

    def poison():
        k = 1 + s.pick(255)
        pat = bytes((k + 7 * i) % 255 + 1 for i in range(255))
        g.mem.data[:] = (pat * (size // 255 + 1))[:size]
        return bytearray(g.mem.data)
    mem = poison()
    a, b = s.of([(8, 16), (0, 4), (size - 8, size - 4), (1, 5), (size - 4, 4), (4, size - 4), (16 + s.pick(65000), 140000 + s.pick(65000))])
    r = drive.attempt(g.call, kind + '_sizes_get', a, b)
    check(r == 0, lambda: w(f'sizes refused with {wasi.code(r)}'))
    check(g.u32(a) == n, lambda: w(f'count {g.u32(a)}, configured are {n}: {want!r}'))
    check(g.u32(b) == total, lambda: w(f'size {g.u32(b)}, the strings with their NULs take {total}: {want!r}'))
    mem[a:a + 4], mem[b:b + 4] = struct.pack('<I', n), struct.pack('<I', total)
    check(g.mem.data == mem, w('sizes: memory outside the two results was changed'))
    mem = poison()
    lay = s.pick(6)
    if lay == 0:
        p, q = 0, 4 * n
    elif lay == 1:
        q = size - total
        p = q - 4 * n
    elif lay == 2:
        p = size - 4 * n
        q = p - total
    elif lay == 3:
        p = 1 + s.pick(9999)
        q = p + 4 * n + s.pick(3)
    elif lay == 4:
        q = s.pick(9999)
        p = q + total + s.pick(3)
    else:
        p, q = 4096 + 4 * s.pick(255), 131072 + s.pick(4096)
    r = drive.attempt(g.call, kind + '_get', p, q)
    check(r == 0, lambda: w(f'strings refused with {wasi.code(r)} (array at {p}, {n} strings; buffer at {q}, {total} bytes; memory {size})'))
    now = bytes(g.mem.data)
    check(len(now) == size, w('the memory changed size'))
    got, used = [], []
    for k in range(n):
        x, = struct.unpack_from('<I', now, p + 4 * k)
        check(q <= x < q + total, lambda: w(f'string {k} of {n} at {x}, outside the buffer {q}..{q + total}'))
        e = now.find(b'\0', x)
        check(x <= e < q + total, lambda: w(f'string {k} of {n} at {x} is not terminated inside the buffer'))
        got.append(now[x:e])
        used.append((x, e + 1))
    used.sort()
    for (_, e), (x, _) in zip(used, used[1:]):
        check(e <= x, w('strings overlap'))
    want2, got2 = (enc, got) if kind == 'args' else (sorted(enc), sorted(got))
    check(got2 == want2, lambda: w(f'delivered {got2!r:.1500}, configured {want2!r:.1500}'))
    rest = bytearray(now)
    for x, e in [(p, p + 4 * n)] + used:
        rest[x:e] = mem[x:e]
    check(rest == mem, lambda: w(f'memory outside the array ({p}, {n} strings) and the buffer ({q}, {total} bytes) was changed at '
                                 f'{[i for i in range(size) if rest[i] != mem[i]][:5]}'))
    return got


def run(b, ctx):
    global CODE
    if CODE is None:
        CODE = wasi.enc.encode(wasi.module(pages=PAGES, maximum=PAGES, start=([], [])))
    s = gen.Src(b)
    args, envs = config(s)
    g = wasi.Guest(args=args, envs=envs, mod=CODE, two=True)
    try:
        es = [k + '=' + v for k, v in envs.items()]
        for kind, want in (('args', args), ('environ', es)):
            first = fetch(g, s, kind, want)
            if s.pick(3) == 0:
                check(fetch(g, s, kind, want) == first, f'{kind}: a second call delivers something else')
        al = args + es
        ctx.tag(f'{min(len(args), 10)}+ args' if len(args) > 9 else f'{len(args)} args')
        if len(al) >= 2 and any(not x or not x.isascii() or len(x) > 100 for x in al):
            ctx.good(h=h64(b))
    finally:
        g.close()


def show(b):
    a, e = config(gen.Src(b))
    return f'args={a!r} envs={e!r}'


def tests(tier):
    return [Test('strings', run, strategy=lambda: gen.strategy(60, 400), n=(4000, 100000), setup=wasi.setup, teardown=wasi.teardown, show=show)]
