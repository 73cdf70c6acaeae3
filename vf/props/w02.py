"""W02: reads, writes, seeks and sizes of regular files."""
import os
import struct

from .. import gen, wasi, wops, wprop
from ..diffprop import h64
from ..runner import Test, check

ID = 'W02'
RULE = ('a case is a generated history of data calls on several descriptors (some sharing a file) of pre-existing and new files, or around gigabytes in sparse ones; '
        'non-trivial = at least 3 calls succeeded, among them a data transfer; distinct by generated bytes')
ASSUME = ['the kernel is the POSIX file model: the same calls run on a twin file tree', 'positional calls on descriptors without FD_SEEK and '
          'allocation without write access are not judged', 'fd_advise is only required to have no effect']
before, after = wasi.before, wasi.after
MIX = [(8, 'write'), (8, 'read'), (4, 'pread'), (4, 'pwrite'), (6, 'seek'), (4, 'tell'), (3, 'allocate'), (3, 'setsize'), (1, 'sync'), (1, 'advise'),
       (3, 'setflags'), (1, 'fdstat'), (1, 'close'), (2, 'open'), (1, 'renumber')]


def body(s, d, ctx, b):
    es = [('d', 'root', None), ('f', 'root/a', bytes((s.byte() ^ k) & 0xff for k in range(s.pick(120)))), ('f', 'root/b', bytes(range(s.pick(40))))]
    w = wprop.Mix(d, {'root': 'root'}, wprop.plant(es), pipes=(bytes(range(97, 97 + s.pick(26))), b'', b''))
    try:
        w.odd, w.badfd = 0, 1
        w.names = ['a', 'a', 'b', 'c']
        for k in range(2 + s.pick(3)):
            w.op_open(s, s.of(['a', 'a', 'b', 'c']) if k else 'a')
        w.go(s, MIX, 25)
        return w
    finally:
        w.close()


def nontrivial(w):
    return w.ok >= 3 and any(k in ('fd_read', 'fd_write', 'fd_pread', 'fd_pwrite') and o == 'ok' for k, o in w.kinds)


EDGES = [1 << 31, 1 << 32, 3 << 31, (1 << 33) - 4096, 1 << 34]
READ, WRITE, SEEK = (1 << 1 | 1 << 2 | 1 << 5), 1 << 6, 1 << 8 | 1 << 22


def far(b, ctx):
    """the same calls around offsets of gigabytes, in files that are mostly holes"""
    s = gen.Src(b)
    d = ctx.data['dir']
    os.makedirs(os.path.join(d, 'far'), exist_ok=True)
    twin = os.open(os.path.join(d, 'twin'), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    mine = -1
    g = wasi.Guest(dirs={'/': os.path.join(d, 'far')})
    trace = []
    w = lambda: '\n'.join(trace[-20:]) + '\n'
    try:
        g.put(1024, b'f')
        r = g.call('path_open', 3, 0, 1024, 1, 9, READ | WRITE | SEEK, 0, 0, 512)
        check(r == 0, lambda: f'opening a new file: {wasi.code(r)}')
        fd = g.u32(512)
        mine = os.open(os.path.join(d, 'far', 'f'), os.O_RDWR)
        moved = 0
        for _ in range(12):
            if not s.left:
                break
            k = s.weighted([(4, 'pwrite'), (4, 'pread'), (3, 'write'), (3, 'read'), (4, 'seek'), (2, 'tell'), (2, 'size'), (2, 'allocate')])
            at = s.of(EDGES) + s.pick(40) - 20
            parts = [s.pick(12) for _ in range(s.pick(4))]
            data = bytes((s.byte() or 1) for _ in range(sum(parts)))
            p, q = 8192, 0
            g.put(8192, b'\xa5' * 64)
            for i, n in enumerate(parts):
                g.put(2048 + 8 * i, struct.pack('<II', 8192 + q, n))
                q += n
            if k in ('pwrite', 'write'):
                g.put(8192, data)
            trace.append(f'{k} of parts {parts} at {at:#x}' if k[0] == 'p' else f'{k} {at:#x} {parts}')
            if k == 'pwrite':
                r = g.call('fd_pwrite', fd, 2048, len(parts), at, 512)
                check(r == 0 and g.u32(512) == os.pwrite(twin, data, at), lambda: w() + f'{wasi.code(r)}, {g.u32(512)} bytes')
            elif k == 'pread':
                want = os.pread(twin, sum(parts), at)
                r = g.call('fd_pread', fd, 2048, len(parts), at, 512)
                check(r == 0 and g.u32(512) == len(want) and g.get(8192, 64) == want.ljust(64, b'\xa5'),
                      lambda: w() + f'{wasi.code(r)}, {g.u32(512)} bytes, {g.get(8192, 48).hex()}, expected {len(want)}: {want.hex()}')
                moved += want.strip(b'\0') != b''
            elif k == 'write':
                r = g.call('fd_write', fd, 2048, len(parts), 512)
                check(r == 0 and g.u32(512) == os.write(twin, data), lambda: w() + f'{wasi.code(r)}, {g.u32(512)} bytes')
                moved += data != b''
            elif k == 'read':
                want = os.read(twin, sum(parts))
                r = g.call('fd_read', fd, 2048, len(parts), 512)
                check(r == 0 and g.u32(512) == len(want) and g.get(8192, 64) == want.ljust(64, b'\xa5'),
                      lambda: w() + f'{wasi.code(r)}, {g.u32(512)} bytes, {g.get(8192, 48).hex()}, expected {len(want)}: {want.hex()}')
                moved += want.strip(b'\0') != b''
            elif k == 'seek':
                wh = s.weighted([(4, 0), (2, 1), (2, 2)])
                o = at if wh == 0 else s.of([-1, 1]) * s.of([s.pick(30), 1 << 31, 1 << 32])
                try:
                    want = os.lseek(twin, o, wh)
                except OSError:
                    want = None
                r = g.call('fd_seek', fd, o, wh, 512)
                check((r == 0) == (want is not None) and (r or g.u64(512) == want), lambda: w() + f'seeking by {o} from {wh}: {wasi.code(r)}, {g.u64(512)}, expected {want}')
            elif k == 'tell':
                want = os.lseek(twin, 0, 1)
                r = g.call('fd_tell', fd, 512)
                check(r == 0 and g.u64(512) == want, lambda: w() + f'{wasi.code(r)}, {g.u64(512)}, expected {want}')
            elif k == 'size':
                os.ftruncate(twin, at)
                r = g.call('fd_filestat_set_size', fd, at)
                check(r == 0, lambda: w() + f'{wasi.code(r)}')
            else:
                n = s.of([at, s.pick(50), 1 << 32])
                a = s.of([0, at])
                if a + n > os.fstat(twin).st_size:
                    os.ftruncate(twin, a + n)
                r = g.call('fd_allocate', fd, a, n)
                check(r == 0, lambda: w() + f'allocating {n} at {a}: {wasi.code(r)}')
            x, y = os.fstat(mine).st_size, os.fstat(twin).st_size
            check(x == y, lambda: w() + f'the file has {x} bytes, expected {y}')
        for e in [0] + EDGES:
            x, y = (os.pread(f, 512, max(e - 256, 0)) for f in (mine, twin))
            check(x == y, lambda: w() + f'the files differ around {e:#x}')
        if moved:
            ctx.good(h=h64(b))
    finally:
        g.close()
        for f in (twin, mine):
            if f >= 0:
                os.close(f)


def tests(tier):
    return [Test('far', far, strategy=lambda: gen.strategy(90, 250), n=(1200, 30000), setup=wasi.setup, teardown=wasi.teardown, show=lambda b: f'bytes {b.hex()}'),
            wprop.test('history', body, (6000, 200000), nontrivial, 120, 600)]
