"""W11: pointers and lengths of every WASI call."""
import os
import socket
import struct
import time

from .. import drive, gen, wasi, wprop
from ..diffprop import h64
from ..runner import HangViolation, Test, check

ID = 'W11'
RULE = ('a case is a generated sequence of WASI calls by one of two instances, each call with buffers that lie inside the memory, end exactly at its end, cross it, lie beyond it, have lengths up to '
        '2^32-1 or wrap around 2^32; non-trivial = a call with at least one buffer that is out of range or ends at the last byte; distinct by generated bytes')
ASSUME = ['buffers of length 0 may have any address', 'padding at the end of records need not be accessed', 'a scatter list entry that receives no data, and the unused part of a listing or link buffer, need not be inside the memory',
          'what a call with a bad output buffer did to the host before it failed is not judged', 'lengths of in-range random fills are at most 64 KiB (the memory)']
before, after = wasi.before, wasi.after
SIZE = wasi.PAGE
ALLR = (1 << 30) - 1
GDIR = '/rœt€'
M32 = (1 << 32) - 1
TREE = [('d', 'root', None), ('d', 'root/d', None), ('f', 'root/file', b'contents of the file'), ('f', 'root/d/f', b'inner'), ('l', 'root/link', b'd/f'), ('f', 'root/other', b'x' * 3000)]


class Bufs:
    """places the buffers of one call"""

    def __init__(self, s, hostile):
        self.s, self.hostile = s, hostile
        self.slot = 0
        self.end = False
        self.bad = self.edge = False
        self.ins, self.outs, self.must = [], [], []
        self.init = []
        self.said = []
        self.least = None

    def place(self, n, lenarg):
        """-> (pointer, length); a hostile length only where the guest passes one"""
        s = self.s
        self.slot += 1
        at = self.slot * 0x1000 + s.pick(9)
        if not (self.hostile and s.pick(2)):
            return at, n
        self.hostile -= 1
        k = s.pick(8 if lenarg else 5)
        if k in (0, 1) and self.end:
            k = 2
        if k == 0:
            self.end = self.edge = True
            return SIZE - n, n
        self.bad = self.bad or n > 0 or k > 4
        if k == 1:
            self.end = True
            return SIZE - n + 1 + (s.pick(n) if n > 1 else 0), n
        if k == 2:
            return SIZE + s.of([0, 1, 2, 4, 8, 100, SIZE]), n
        if k == 3:
            return s.of([M32, M32 - 3, M32 - 7, 1 << 31, (1 << 31) - 1, (1 << 31) + 4, M32 - n + 1 & M32, M32 - n & M32]), n
        if k == 4:
            return M32 - s.pick(SIZE), n
        if k == 5:
            return at, s.of([SIZE, SIZE - at + 1, SIZE + 1, M32, 1 << 31, (1 << 31) - 1, (1 << 28) - 1, M32 - at + 1 + s.pick(20)])
        if k == 6:
            return M32 - s.pick(16), 0x20 + s.pick(32)
        return at, M32 - s.pick(at)

    def oob(self, p, n):
        return n > 0 and p + n > SIZE

    def inp(self, data, lenarg=True, n=None):
        """an input buffer; n: how many bytes the length argument counts when it is not bytes"""
        p, k = self.place(len(data), lenarg)
        self.ins.append((p, k))
        fit = data[:max(0, SIZE - p)]
        if fit:
            self.init.append((p, fit))
        self.said.append(f'in {p:#x}+{k:#x}')
        return p, k

    def out(self, n, lenarg=False, must=True):
        p, k = self.place(n, lenarg)
        self.outs.append((p, k))
        if must:
            self.must.append((p, k))
        self.said.append(f'out {p:#x}+{k:#x}')
        return p, k


class Stage:
    def __init__(self, d):
        self.dir = wasi.tempfile.mkdtemp(dir=d)
        wprop.plant(TREE)(self.dir)
        self.socks = []
        self.g = wasi.Guest(args=['prog', 'arg', 'é'], envs={'K': 'v', 'L': ''}, dirs={GDIR: os.path.join(self.dir, 'root')}, pipes=(b'standard input' * 20, b'', b''))
        g = self.g
        self.inst = [(g.inst, g.mem)]
        i2 = g.pw.instance(g.pw.decode(wasi.CODE))
        self.inst.append((i2, g.pw.memory(i2, 'memory')))
        self.file = self.open(b'file')
        self.sub = self.open(b'd', 2)
        w = g.wasi
        a, self.peer = socket.socketpair()
        self.socks += [self.peer]
        self.peer.setblocking(False)
        self.sock = self.give(a)
        self.lname = b'\0vfw11-%d-%d' % (os.getpid(), id(self))
        l = socket.socket(socket.AF_UNIX)
        l.bind(self.lname)
        l.listen(8)
        self.list = self.give(l)

    def give(self, a):
        w = self.g.wasi
        n = len(w.fd)
        w.fd.append(w.File(host_fd=a.detach(), host_flag=os.O_RDWR, host_name='s', host_status=w.FILE_STATUS_OPENED, pipe=None, wasm_fd=n, wasm_flag=0, wasm_name='s',
                           wasm_rights_base=ALLR, wasm_rights_root=ALLR, wasm_status=w.FILE_STATUS_OPENED, wasm_type=w.FILETYPE_SOCKET_STREAM))
        return n

    def open(self, name, of=0):
        g = self.g
        g.put(0, name)
        base = ALLR & ~(wasi.R['FD_WRITE'] if of else 0)
        r = g.call('path_open', 3, 0, 0, len(name), of, base, ALLR, 0, 64)
        check(r == 0, f'path_open of {name!r}: {wasi.code(r)}')
        return g.u32(64)

    def close(self):
        self.g.close()
        for x in self.socks:
            x.close()
        wasi.rmtree(self.dir)


def iovs(b, s, writes):
    """-> (array pointer, count, [(ptr, len)]); array and data placed as buffers"""
    k = s.pick(4)
    vec = []
    for _ in range(k):
        n = s.of([4, 1, 0, 20, 100])
        if writes:
            vec.append(b.inp(bytes(97 + i % 20 for i in range(n))))
        else:
            p, q = b.out(n, lenarg=True, must=False)
            vec.append((p, q))
    raw = b''.join(struct.pack('<II', p, n) for p, n in vec)
    b.iov = True
    p, n = b.inp(raw, lenarg=False)
    if s.pick(12) == 0 and b.hostile:
        b.hostile -= 1
        b.bad = True
        big = s.of([k + 8192, 1 << 29, M32, 1 << 31, (1 << 31) - 1])
        b.ins[-1] = (p, 8 * big)
        return p, big, vec
    return p, k, vec


def path(b, s, names):
    t = s.of(names)
    return b.inp(t)


def calls(st, b, s):
    """-> (name, args, vec or None)"""
    g = st.g
    F, D, S = st.file, 3, st.sock
    rnd64 = lambda: s.of([0, 1, 5, 1 << 20])
    name = s.of(['args_get', 'args_sizes_get', 'clock_res_get', 'clock_time_get', 'environ_get', 'environ_sizes_get', 'fd_fdstat_get', 'fd_filestat_get', 'fd_pread', 'fd_prestat_dir_name',
                 'fd_prestat_get', 'fd_pwrite', 'fd_read', 'fd_readdir', 'fd_seek', 'fd_tell', 'fd_write', 'path_create_directory', 'path_filestat_get', 'path_filestat_set_times', 'path_link',
                 'path_open', 'path_readlink', 'path_remove_directory', 'path_rename', 'path_symlink', 'path_unlink_file', 'poll_oneoff', 'random_get', 'sock_accept', 'sock_recv', 'sock_send'])
    ex, new = [b'file', b'd/f', b'other', b'link', b'd'], [b'new', b'd/new', b'new2', b'n' * 60]
    if name in ('args_get', 'environ_get'):
        l = g.wasi.args if name == 'args_get' else ['K=v', 'L=']
        p, _ = b.out(4 * len(l))
        q, _ = b.out(sum(len(x.encode()) + 1 for x in l))
        return name, (p, q), None
    if name in ('args_sizes_get', 'environ_sizes_get'):
        return name, (b.out(4)[0], b.out(4)[0]), None
    if name == 'clock_res_get':
        return name, (s.pick(4), b.out(8)[0]), None
    if name == 'clock_time_get':
        return name, (s.pick(4), 0, b.out(8)[0]), None
    if name == 'fd_fdstat_get':
        return name, (s.of([F, D, S, 0]), b.out(24)[0]), None
    if name == 'fd_filestat_get':
        return name, (F, b.out(64)[0]), None
    if name == 'fd_prestat_get':
        return name, (D, b.out(8)[0]), None
    if name == 'fd_prestat_dir_name':
        full = len(GDIR.encode())
        p, n = b.out(s.of([full, full, full - 1, full - 2, len(GDIR), len(GDIR) - 1, 1, full + 1]), lenarg=True, must=False)
        b.must.append((p, full))
        b.least = full
        return name, (D, p, n), None
    if name in ('fd_read', 'fd_pread'):
        p, k, v = iovs(b, s, False)
        o = b.out(4)[0]
        return name, ((s.of([F, 0]), p, k, o) if name == 'fd_read' else (F, p, k, rnd64(), o)), v
    if name in ('fd_write', 'fd_pwrite'):
        p, k, v = iovs(b, s, True)
        o = b.out(4)[0]
        return name, ((s.of([F, 1]), p, k, o) if name == 'fd_write' else (F, p, k, rnd64() & 0xff, o)), None
    if name == 'fd_readdir':
        p, n = b.out(s.of([300, 24, 30, 60, s.pick(24), s.pick(24), s.pick(100)]), lenarg=True, must=False)
        return name, (s.of([D, st.sub]), p, n, 0, b.out(4)[0]), None
    if name == 'fd_seek':
        return name, (F, s.pick(30), 0, b.out(8)[0]), None
    if name == 'fd_tell':
        return name, (F, b.out(8)[0]), None
    if name in ('path_create_directory', 'path_remove_directory', 'path_unlink_file'):
        return name, (D, *path(b, s, new if name == 'path_create_directory' else ex + new)), None
    if name == 'path_filestat_get':
        return name, (D, 1, *path(b, s, ex), b.out(64)[0]), None
    if name == 'path_filestat_set_times':
        return name, (D, 1, *path(b, s, ex), 1 << 60, 1 << 59, 5), None
    if name == 'path_link':
        return name, (D, 0, *path(b, s, ex), D, *path(b, s, new)), None
    if name == 'path_open':
        return name, (D, 1, *path(b, s, ex + new), s.of([0, 1, 9]), ALLR, ALLR, 0, b.out(4)[0]), None
    if name == 'path_readlink':
        p, n = path(b, s, [b'link'])
        q, k = b.out(s.of([40, 2, 3]), lenarg=True, must=False)
        if k:
            b.must.append((q, min(k, 3)))
        return name, (D, p, n, q, k, b.out(4)[0]), None
    if name == 'path_rename':
        return name, (D, *path(b, s, ex), D, *path(b, s, new)), None
    if name == 'path_symlink':
        p, n = path(b, s, [b'd', b'file'])
        return name, (p, n, D, *path(b, s, new)), None
    if name == 'poll_oneoff':
        n = 1 + s.pick(3)
        sub = b''.join(struct.pack('<QB7xI4xQQH6x', i, 0, s.pick(2), 0, 0, 0) for i in range(n))
        p, k = b.inp(sub, lenarg=False)
        b.ins[0] = (p, k - 6)                 # nor the padding behind a subscription be read
        o, _ = b.out(32 * n, must=False)
        b.must.append((o, 32 * n - 21))       # the padding after an event need not be written
        q = b.out(4)[0]
        if s.pick(8) == 0 and b.hostile:
            n = s.of([3000, 1 << 28, M32, 1 << 31])
            b.ins[0] = (p, 48 * n)
            b.outs[0] = (o, 32 * n)
            b.bad = True
        return name, (p, o, n, q), None
    if name == 'random_get':
        p, n = b.out(s.of([8, 1, 100, 0]), lenarg=True)
        return name, (p, n), None
    if name == 'sock_accept':
        c = socket.socket(socket.AF_UNIX)
        st.socks.append(c)
        c.connect(st.lname)
        return name, (st.list, 0, b.out(4)[0]), None
    if name == 'sock_recv':
        st.peer.send(b'data from the peer')
        p, k, v = iovs(b, s, False)
        return name, (S, p, k, 0, b.out(4)[0], b.out(2)[0]), v
    if name == 'sock_send':
        p, k, v = iovs(b, s, True)
        return name, (S, p, k, 0, b.out(4)[0]), None
    raise AssertionError(name)


def drain(sock):
    out = b''
    try:
        while True:
            d = sock.recv(65536)
            if not d:
                return out
            out += d
    except OSError:
        return out


def once(st, s, ctx, trace):
    g = st.g
    b = Bufs(s, s.weighted([(5, 1), (3, 2), (2, 0), (1, 3)]))
    b.iov = False
    name, args, vec = calls(st, b, s)
    inst, mem = st.inst[s.pick(2)]
    other = st.inst[1][1] if mem is st.inst[0][1] else st.inst[0][1]
    g.inst, g.mem = inst, mem
    k = s.byte()
    pat = bytes((k + 7 * i) % 255 + 1 for i in range(255))
    mem.data[:] = (pat * (SIZE // 255 + 1))[:SIZE]
    for p, d in b.init:
        g.put(p, d)
    m0, o0 = bytes(mem.data), bytes(other.data)
    bad_in = any(b.oob(p, n) for p, n in b.ins)
    if bad_in:
        t0 = wasi.snapshot(st.dir), [bytes(f.pipe.getvalue()) for f in g.wasi.fd[:3]]
    if name == 'sock_recv' and not vec or name == 'sock_recv' and sum(n for _, n in vec) == 0:
        return False
    drain(st.peer)
    desc = f'{name}{tuple(hex(a) for a in args)} [{", ".join(b.said)}]' + (f' list {[(hex(p), hex(n)) for p, n in vec]}' if vec else '')
    w = lambda m: '\n'.join(trace[-8:]) + f'\n{desc}: {m}'
    t = time.process_time()
    try:
        r = g.call(name, *args)
    except drive.Raised as e:
        r = e
    except HangViolation as e:
        raise HangViolation(w(e.msg))
    t = time.process_time() - t
    check(t < 1, lambda: w(f'took {t:.1f} s of processor time'))
    ok = not isinstance(r, drive.Raised) and r == 0
    trace.append(f'{desc} -> {r if isinstance(r, drive.Raised) else wasi.code(r)}')
    now = bytes(mem.data)
    check(len(now) == SIZE, lambda: w(f'the memory has {len(now)} bytes now'))
    check(bytes(other.data) == o0, lambda: w('the memory of another instance was changed'))
    if now != m0:
        free = bytearray(SIZE)
        for p, n in b.outs:
            if p < SIZE:
                free[p:p + n] = bytes([1]) * (min(p + n, SIZE) - p)
        for i in range(0, SIZE, 4096):
            if now[i:i + 4096] != m0[i:i + 4096]:
                for j in range(i, min(i + 4096, SIZE)):
                    check(now[j] == m0[j] or free[j], lambda: w(f'byte {j:#x} of the memory was changed, outside every output buffer'))
    if ok:
        check(b.least is None or args[2] >= b.least, lambda: w(f'succeeded although the {b.least} bytes do not fit'))
        for p, n in b.must:
            check(not b.oob(p, n), lambda: w(f'succeeded although {n} bytes at {p:#x} are not inside the memory'))
        # entries of a scatter list after the last data are not needed
        check(not bad_in or vec is not None, lambda: w(f'succeeded although {[(hex(p), hex(n)) for p, n in b.ins if b.oob(p, n)]} are not inside the memory'))
        if vec is not None:
            at = {'fd_read': 3, 'fd_pread': 4, 'sock_recv': 4}[name]
            got = struct.unpack_from('<I', now, args[at])[0]
            for j, (p, n) in enumerate(vec):
                if got and n:
                    check(args[1] + 8 * j + 8 <= SIZE, lambda: w(f'succeeded although the list at {args[1]:#x} is not inside the memory'))
                    check(not b.oob(p, n), lambda: w(f'{got} bytes were reported as received into {n} bytes at {p:#x}, which are not inside the memory'))
                    got -= min(n, got)
            check(got == 0, lambda: w('more bytes reported than there is room'))
        if name == 'fd_readdir':
            used = struct.unpack_from('<I', now, args[4])[0]
            check(used <= args[2], lambda: w(f'{used} bytes were reported in a buffer of {args[2]} bytes'))
            i = 0
            while i + 24 <= used:         # complete entries have to be there
                at = args[1] + i
                n = struct.unpack_from('<I', now, at + 16)[0] if at + 21 <= SIZE else 0
                check(at + 21 <= SIZE and (i + 24 + n > used or at + 24 + n <= SIZE), lambda: w(f'{used} bytes were reported in a buffer of {args[2]} bytes at {args[1]:#x}'))
                i += 24 + n
    if bad_in:
        if name in ('fd_read', 'fd_pread', 'sock_recv'):
            pass
        else:
            t1 = wasi.snapshot(st.dir), [bytes(f.pipe.getvalue()) for f in g.wasi.fd[:3]]
            check(t1 == t0, lambda: w('failed, but the host files or streams have changed'))
            d = drain(st.peer)
            check(d == b'', lambda: w(f'failed, but {len(d)} bytes were sent'))
    if name == 'path_open' and ok:
        g.call('fd_close', struct.unpack_from('<I', now, args[8])[0])
    ctx.tag(f'{name} ' + ('raised' if isinstance(r, drive.Raised) else 'ok' if ok else 'error') + (' bad' if b.bad else ' edge' if b.edge else ''))
    return b.bad or b.edge


def run(b, ctx):
    s = gen.Src(b)
    st = Stage(ctx.data['dir'])
    try:
        trace, good = [], 0
        for _ in range(8):
            if s.left == 0:
                break
            good += once(st, s, ctx, trace)
        if good:
            ctx.good(h=h64(b))
    finally:
        st.close()


def tests(tier):
    return [Test('pointers', run, strategy=lambda: gen.strategy(50, 260), n=(12000, 400000), setup=wasi.setup, teardown=wasi.teardown,
                 show=lambda b: f'bytes {b.hex()} (the calls are in the message)')]
