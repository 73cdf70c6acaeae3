"""W09: clocks, polling, randomness, signals."""
import os
import select
import signal
import socket
import struct
import threading
import time

from .. import drive, gen, wasi
from ..diffprop import h64
from ..runner import HangViolation, Test, check

ID = 'W09'
RULE = ('a case is a generated sequence of calls: clock readings bracketed by host readings, or polls over mixes of relative and absolute clocks (due, near, far), files, pipes, sockets and streams '
        '(ready or not, some becoming ready while waiting) with garbage in the padding, or random fills; non-trivial = a successful poll with at least 2 subscriptions, 3 clock readings, or a random '
        'fill of at least 16 bytes; distinct by generated bytes')
ASSUME = ['the host clocks are not set back during the run', 'waking up may be late by up to 10 s on a loaded machine', 'the byte counts and flags of events are not judged',
          'waiting for processor time is not generated', 'the epoch of the monotonic clock is not judged, only differences']
before, after = wasi.before, wasi.after
SIZE = wasi.PAGE
LATE = 10.0
U64 = (1 << 64) - 1
ALLR = (1 << 30) - 1


def poison(g, s):
    k = s.byte()
    pat = bytes((k + 7 * i) % 255 + 1 for i in range(255))
    g.mem.data[:] = (pat * (len(g.mem.data) // 255 + 1))[:len(g.mem.data)]
    return bytearray(g.mem.data)


def same(g, mem, ranges, what):
    now = bytearray(g.mem.data)
    check(len(now) == len(mem), f'{what}: the memory changed size')
    for a, n in ranges:
        now[a:a + n] = mem[a:a + n]
    check(now == mem, lambda: f'{what}: memory was changed at {[i for i in range(len(mem)) if now[i] != mem[i]][:5]}, outside the results')


# -- clocks
HOST = [time.time_ns, time.monotonic_ns, time.process_time_ns, time.thread_time_ns]


def clocks(b, ctx):
    s = gen.Src(b)
    g = wasi.Guest()
    try:
        good = 0
        prev = {}
        for _ in range(2 + s.pick(8)):
            k = s.weighted([(8, s.pick(4)), (2, 4 + s.pick(3)), (1, s.of([0xffffffff, 0x80000000, 1 << 16, 256, 0x7fffffff]))])
            p = s.of([8, 0, SIZE - 8, 1 + s.pick(60000)])
            mem = poison(g, s)
            if s.chance(4):
                r = drive.attempt(g.call, 'clock_res_get', k, p)
                if k < 4 and r == 0:
                    v = g.u64(p)
                    check(0 < v <= 10 ** 9, f'the resolution of clock {k} is {v} ns')
                    same(g, mem, [(p, 8)], 'clock_res_get')
                else:
                    check(k > 1 and r != 0, f'clock_res_get of clock {k}: {wasi.code(r)}')
                    same(g, mem, [], f'clock_res_get of clock {k} failed')
                continue
            t0 = HOST[k]() if k < 4 else 0
            r = drive.attempt(g.call, 'clock_time_get', k, s.of([0, 1, 10 ** 9, U64, s.bits(64)]), p)
            t1 = HOST[k]() if k < 4 else 0
            if k >= 4:
                check(r != 0, f'there is no clock {k}, but its time was reported as {g.u64(p)}')
                same(g, mem, [], f'clock_time_get of clock {k} failed')
                continue
            check(r == 0, f'clock_time_get of clock {k}: {wasi.code(r)}')
            v = g.u64(p)
            same(g, mem, [(p, 8)], 'clock_time_get')
            if k == 1:
                if k in prev:
                    pv, p0, p1 = prev[k]
                    check(v >= pv, f'monotonic time went back from {pv} to {v}')
                    check(t0 - p1 - 10 ** 6 <= v - pv <= t1 - p0 + 10 ** 6, lambda: f'monotonic time advanced by {v - pv} ns while between {t0 - p1} and {t1 - p0} ns passed')
            else:
                check(t0 <= v <= t1, lambda: f'clock {k} read {v}, the host clock was between {t0} and {t1}')
            prev[k] = v, t0, t1
            good += 1
        if good >= 3:
            ctx.good(h=h64(b))
    finally:
        g.close()


# -- polling
class Stage:
    """a guest with descriptors of every pollable kind; for each: ready(kind) as the host sees it, or None when always"""

    def __init__(self, d, s):
        self.keep = []
        self.fds = {}           # guest fd -> host object to ask, or None: always ready
        root = os.path.join(d, 'poll')
        os.makedirs(root, exist_ok=True)
        with open(os.path.join(root, 'f'), 'wb') as f:
            f.write(b'data'[:s.pick(5)])
        std, pipes = [], []
        for k in range(3):
            kind = s.pick(3)
            if kind == 0:
                pipes.append(b'abc' if s.pick(2) else b'')
                std.append(open(os.devnull, 'w' if k else 'r'))
                self.fds[k] = None
            elif kind == 1:
                pipes.append(None)
                std.append(open(os.path.join(root, 'f'), 'r+'))
                self.fds[k] = None
            else:
                pipes.append(None)
                r, w = os.pipe()
                os.set_blocking(w, False)
                full = s.pick(2)
                if full:
                    try:
                        while True:
                            os.write(w, bytes(65536))
                    except BlockingIOError:
                        pass
                self.keep += [r, w]
                self.fds[k] = w if k else r
                std.append(open(self.fds[k], 'w' if k else 'r', closefd=False))
        self.std = std
        self.g = wasi.Guest(dirs={'/': root}, pipes=pipes, std=std)
        self.socks = {}
        self.quiet = []          # sockets a writer thread may make ready
        for _ in range(s.pick(3)):
            a, b = socket.socketpair()
            a.setblocking(False)
            k = s.pick(4)
            if k == 1:
                b.send(b'hello')
            elif k == 2:
                b.shutdown(socket.SHUT_WR)
            elif k == 3:
                try:
                    while True:
                        a.send(bytes(65536))
                except BlockingIOError:
                    pass
            fd = self.file(a, s.pick(8))
            if k in (0, 3):
                self.quiet.append(b)
            self.keep += [a, b]
        self.norights = [3]
        g = self.g
        for k in range(1 + s.pick(2)):
            g.put(0, b'f')
            r = g.call('path_open', 3, 1, 0, 1, 0, ALLR if k == 0 else ALLR & ~wasi.R['POLL_FD_READWRITE'] & (1 << 27) - 1, 0, 0, 64)
            check(r == 0, f'path_open of a plain file: {wasi.code(r)}')
            if k == 0:
                self.fds[g.u32(64)] = None
            else:
                self.norights.append(g.u32(64))

    def file(self, sock, odd):
        w = self.g.wasi
        n = len(w.fd)
        base = ALLR if odd else ALLR & ~wasi.R['POLL_FD_READWRITE']
        w.fd.append(w.File(host_fd=os.dup(sock.fileno()), host_flag=os.O_RDWR, host_name='s', host_status=w.FILE_STATUS_OPENED, pipe=None, wasm_fd=n, wasm_flag=0, wasm_name='s',
                           wasm_rights_base=base, wasm_rights_root=base, wasm_status=w.FILE_STATUS_OPENED, wasm_type=w.FILETYPE_SOCKET_STREAM))
        self.norights = getattr(self, 'norights', [])
        if odd:
            self.fds[n] = sock.fileno()
            return n
        self.norights.append(n)

    def ready(self, fd, kind):
        h = self.fds[fd]
        if h is None:
            return True
        r, w, _ = select.select([h] if kind == 1 else [], [h] if kind == 2 else [], [], 0)
        return bool(r or w)

    def close(self):
        self.g.close()
        for x in self.keep:
            try:
                x.close() if isinstance(x, socket.socket) else os.close(x)
            except OSError:
                pass
        for f in self.std:
            try:
                f.close()
            except OSError:
                pass


def poll(b, ctx):
    s = gen.Src(b)
    st = Stage(ctx.data['dir'], s)
    g = st.g
    try:
        good = 0
        trace = []
        for _ in range(1 + s.pick(3)):
            good += once(s, st, g, trace, ctx)
        if good:
            ctx.good(h=h64(b))
    finally:
        st.close()


def once(s, st, g, trace, ctx):
    n = s.weighted([(6, 1 + s.pick(5)), (2, 2 + s.pick(2)), (1, 10 + s.pick(20)), (1, 0)])
    subs, bad = [], None
    uds = [s.bits(64) for _ in range(3)]
    patient = s.chance(6)        # nothing is ready or due yet
    idle = [fd for fd in sorted(st.fds) if patient and not st.ready(fd, 1)]
    for k in range(n):
        ud = s.of(uds) if s.chance(2) else s.bits(32) << 32 | k
        kind = s.weighted([(7, 'rel'), (6, 'abs'), (7, 'read'), (5, 'write'), (1, 'bad')])
        ck = s.pick(2)
        if kind in ('rel', 'abs'):
            d = s.weighted([(0 if patient else 3, 0), (4, 10 ** 6 * (1 + s.pick(25))), (1, 1 + s.pick(99999)), (20 if patient else 5, 'far')])
            if d == 'far':
                d = s.of([40 * 10 ** 9, 3000 * 10 ** 9, 10 ** 13 + s.bits(32), U64 >> 1, (U64 >> 1) + 1, U64, U64 - s.bits(32), 1 << 62])
            elif kind == 'abs' and d == 0:
                d = s.of([-10 ** 6, -10 ** 15, 0, -10 ** 9])
            subs.append((ud, 0, (ck, kind, d)))
        elif kind == 'bad':
            if s.pick(3):
                continue
            bad = s.of(['tag', 'clock', 'fd', 'rights'])
            subs.append((ud, bad, s.byte()))
        elif patient:
            if idle:
                subs.append((ud, 1, s.of(idle)))
        else:
            t = 1 if kind == 'read' else 2
            subs.append((ud, t, s.of(sorted(st.fds))))
    # something has to happen soon
    soon = any(t == 0 and (d[2] if d[1] == 'rel' else max(d[2], 0)) < 10 ** 9 for _, t, d in subs) or any(t in (1, 2) and st.ready(d, t) for _, t, d in subs)
    thread = None
    if not soon and subs and not bad:
        late = [q for q in st.quiet if any(t == 1 and st.fds[d] == p.fileno() for _, t, d in subs for p in st.keep if isinstance(p, socket.socket) and peer(p, q, st))]
        if late and s.pick(4):
            q = late[0]
            thread = threading.Thread(target=lambda: (time.sleep(0.002 * (1 + s.i % 7)), q.send(b'!')), daemon=True)
            ctx.tag('poll woken by a writer')
        else:
            subs.insert(s.pick(len(subs) + 1), (7, 0, (s.pick(2), s.of(['rel', 'abs']), 10 ** 6 * (1 + s.pick(20)))))
    n = len(subs)
    mem = poison(g, s)
    ins = s.of([0x1000, 0x1000 + s.pick(9), 0, SIZE - 48 * n])
    out = s.of([0x6000, 0x6000 + s.pick(9), 0x9000])
    cnt = s.of([0xe000, 0xe001, 0x5ffc, 0xf000])
    base = [time.time_ns(), time.monotonic_ns()]
    cur = bytearray()
    for ud, t, x in subs:
        r = bytearray(s.byte() for _ in range(4)) * 12
        r[0:8] = struct.pack('<Q', ud)
        if t == 0:
            ck, kind, d = x
            v = d if kind == 'rel' else max(0, min(base[ck] + d, U64)) if d < U64 >> 1 else d
            r[8] = 0
            r[16:20] = struct.pack('<I', ck)
            r[24:32] = struct.pack('<Q', v)
            r[40:42] = struct.pack('<H', kind == 'abs')
        elif t == 'tag':
            r[8] = 3 + x % 253
        elif t == 'clock':
            r[8] = 0
            r[16:20] = struct.pack('<I', (4, 5, 0xffffffff, 0x80000000, 256, 65536)[x % 6])
            r[24:32] = bytes(8)
        elif t in ('fd', 'rights'):
            r[8] = 1 + x % 2
            r[16:20] = struct.pack('<I', (len(g.wasi.fd) + x, 0xffffffff - x)[x % 2] if t == 'fd' else st.norights[x % len(st.norights)])
        else:
            r[8] = t
            r[16:20] = struct.pack('<I', x)
        cur += r
    g.put(ins, cur)
    mem[ins:ins + len(cur)] = cur
    desc = f'poll_oneoff of {[(hex(u), ("clock", "read", "write")[t] if not isinstance(t, str) else t, x) for u, t, x in subs]}' + (' with a writer' if thread else '')
    pre = {k: st.ready(k[0], k[1]) for k in {(x, t) for _, t, x in subs if t in (1, 2)}}
    t0 = [time.time_ns(), time.monotonic_ns()]
    if thread:
        thread.start()
    try:
        r = drive.attempt(g.call, 'poll_oneoff', ins, out, n, cnt)
    finally:
        if thread:
            thread.join()
    t1 = [time.time_ns(), time.monotonic_ns()]
    if bad or n == 0:
        check(r != 0, f'{desc}: succeeded')
        same(g, mem, [(out, 32 * n)], desc)
        return 0
    check(r == 0, f'{desc}: failed with {wasi.code(r)}')
    ne = g.u32(cnt)
    check(1 <= ne <= n, f'{desc}: {ne} events')
    got = {}
    for k in range(ne):
        e = g.get(out + 32 * k, 32)
        ud, er = struct.unpack_from('<QH', e)
        check(er == 0, f'{desc}: event {k} reports {wasi.code(er)}')
        got[ud, e[10]] = got.get((ud, e[10]), 0) + 1
    same(g, mem, [(out, 32 * n), (cnt, 4)], desc)
    must, may = {}, {}
    due = []
    for ud, t, x in subs:
        if t == 0:
            ck, kind, d = x
            if kind == 'rel':
                lo, hi = t0[ck] + d, t1[ck] + d
                yes, maybe = d == 0, lo <= t1[ck]
                due.append(t0[1] + d)
            else:
                v = max(0, min(base[ck] + d, U64)) if d < U64 >> 1 else d
                yes, maybe = v <= t0[ck], v <= t1[ck]
                due.append(max(v - t0[ck], 0) + t0[1])
        else:
            yes = pre[x, t]
            maybe = yes or thread is not None and st.ready(x, t)
            if yes:
                due.append(t0[1])
        must[ud, t] = must.get((ud, t), 0) + bool(yes)
        may[ud, t] = may.get((ud, t), 0) + bool(maybe)
    if thread:
        due.append(t0[1] + 10 ** 8)
    for k, c in got.items():
        check(c <= may.get(k, 0), lambda: f'{desc}: {c} events {k[0]:#x} of type {k[1]} were reported, at most {may.get(k, 0)} could have happened in {t1[1] - t0[1]} ns')
    for k, c in must.items():
        check(got.get(k, 0) >= c, lambda: f'{desc}: {got.get(k, 0)} events {k[0]:#x} of type {k[1]} were reported, {c} had happened before the call')
    if t1[1] - min(due) > LATE * 1e9:
        raise HangViolation(f'{desc}: returned {(t1[1] - min(due)) / 1e9} s after the first event')
    return n >= 2


def peer(p, q, st):
    """p and q are the two ends of one pair"""
    return st.keep.index(q) == st.keep.index(p) + 1


# -- randomness, yielding
def rnd(b, ctx):
    s = gen.Src(b)
    g = wasi.Guest()
    try:
        last = None
        for _ in range(1 + s.pick(4)):
            n = s.weighted([(3, s.pick(64)), (3, 16 + s.pick(2000)), (1, SIZE), (1, 4096 + s.pick(20000)), (1, 0)])
            p = s.of([0, SIZE - n, s.pick(SIZE) % (SIZE - n + 1)])
            mem = poison(g, s)
            r = drive.attempt(g.call, 'random_get', p, n)
            check(r == 0, f'random_get({p}, {n}): {wasi.code(r)}')
            same(g, mem, [(p, n)], f'random_get({p}, {n})')
            now = g.get(p, n)
            if n >= 16:
                for i in [*range(0, n - 15, 16), n - 16]:
                    check(now[i:i + 16] != bytes(mem[p + i:p + i + 16]), lambda: f'random_get({p}, {n}) left bytes {i}.. as they were')
                check(last is None or last != now[:16], 'two fills begin alike')
                if n >= 4096:
                    check(len(set(now)) >= 200, f'{n} random bytes take {len(set(now))} values only')
                    check(now[:16] not in now[16:], 'the random bytes repeat')
                last = now[:16]
                ctx.good(h=h64(b))
            if s.pick(4) == 0:
                mem = bytearray(g.mem.data)
                check(drive.attempt(g.call, 'sched_yield') == 0, 'sched_yield failed')
                same(g, mem, [], 'sched_yield')
    finally:
        g.close()


# -- signals
def sig(n, ctx):
    g = wasi.Guest()
    try:
        mem = poison(g, gen.Src(b''))
        pid = os.fork()
        if pid == 0:
            c = 255
            try:
                c = 200
                r = g.call('proc_raise', n)
                c = r if g.mem.data == mem else 201
            finally:
                os._exit(c)
        end = time.time() + 30
        stop = False
        while True:
            p, st = os.waitpid(pid, os.WNOHANG | os.WUNTRACED)
            if p and os.WIFSTOPPED(st) and not stop:
                stop = True
                os.kill(pid, signal.SIGKILL)
            elif p and not os.WIFSTOPPED(st):
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise HangViolation(f'proc_raise({n}) does not return')
            time.sleep(0.002)
        if stop or os.WIFSIGNALED(st):
            check(0 < n <= 30, f'proc_raise({n}) ended the process')
        else:
            c = os.WEXITSTATUS(st)
            check(c < 200, f'proc_raise({n}) raised a host exception' if c == 200 else f'proc_raise({n}) changed memory' if c == 201 else 'the child failed')
            if n == 0:
                check(c == 0, f'proc_raise(0): {wasi.code(c)}')
            elif n not in (13, 16, 17, 22, 27):     # these are ignored by default
                check(wasi.code(c) in ('INVAL', 'NOSYS', 'NOTSUP'), f'proc_raise({n}): {wasi.code(c)}')
        ctx.good()
    finally:
        g.close()


def sigs(tier, shard, nshards):
    ns = [*range(0, 34), 64, 127, 128, 255, 256, 257, 1 << 16, 0x7fffffff, 0x80000000, 0xffffffff]
    return ns[shard::nshards]


def tests(tier):
    kw = dict(setup=wasi.setup, teardown=wasi.teardown)
    return [Test('poll', poll, strategy=lambda: gen.strategy(80, 400), n=(7000, 250000), **kw),
            Test('clocks', clocks, strategy=lambda: gen.strategy(20, 120), n=(800, 20000), **kw),
            Test('random', rnd, strategy=lambda: gen.strategy(12, 40), n=(600, 10000), **kw),
            Test('raise', sig, cases=sigs, shards=4, **kw)]
