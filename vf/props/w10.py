"""W10: sockets, against a model of byte streams and message queues."""
import fcntl
import os
import select
import socket
import struct
import termios
import threading
import time

from .. import drive, gen, wasi
from ..diffprop import h64
from ..runner import HangViolation, Test, check

ID = 'W10'
RULE = ('a case is a generated history of socket calls by the guest (accept, receive plain/peeking/waiting for all, send, plain reads and writes, shutdown, close, renumber) and actions of its peers '
        '(connect, send, read, shut down, close), over TCP, local stream and datagram sockets with generated scatter/gather lists; non-trivial = at least 2 calls moved bytes; distinct by generated bytes')
ASSUME = ['flags of a receive that reports the end of the stream, and of one with no room, are not judged', 'after a TCP peer has closed and the guest sends, resets may arrive at any time',
          'calls that would block for ever are not generated', 'accepted sockets may have any of the rights of the listener']
before, after = wasi.before, wasi.after
SIZE = wasi.PAGE
ALLR = (1 << 30) - 1
IOV, LENP, FLAGP, DATA = 0x400, 0x100, 0x200, 0x2000
DEAD = {'PIPE', 'CONNRESET', 'NOTCONN', 'CONNABORTED'}


def pattern(tag, pos, n):
    return bytes((tag * 89 + i * 7 + (i >> 8) * 31) & 255 for i in range(pos, pos + n))


class Conn:
    def __init__(self, kind, peer, tag):
        self.kind, self.peer, self.tag = kind, peer, tag
        self.pend = b''          # towards the guest, stream
        self.msgs = []           # towards the guest, datagrams
        self.fromguest = []      # what the peer has yet to read: bytes (messages for datagrams)
        self.inpos = self.outpos = 0
        self.peershut = self.peergone = self.rd = self.wr = self.wild = self.lost = False
        self.nonblock = False
        self.rights = ALLR

    @property
    def unread(self):
        return sum(map(len, self.fromguest))

    @property
    def eof(self):
        return self.peershut or self.peergone or self.rd


class Room:
    def __init__(self, s, d):
        self.s = s
        self.fds0 = set(os.listdir('/proc/self/fd'))
        self.mine = []
        self.trace = []
        self.moved = 0
        self.g = wasi.Guest(dirs={'/': d})
        self.stdfds = {f.fileno() for f in self.g.own}
        self.conns = {}          # guest fd -> Conn
        self.lists = {}          # guest fd -> (kind, listener, [queued Conn], nonblock)
        self.tag = 0
        self.mem = None
        self.closed = []

    def own(self, x):
        self.mine.append(x)
        return x

    def say(self):
        return '\n'.join(self.trace[-25:]) + '\n'

    # -- set-up by the host
    def give(self, sock, kind, base=ALLR, flags=0, root=None):
        w = self.g.wasi
        n = len(w.fd)
        w.fd.append(w.File(host_fd=sock.detach(), host_flag=os.O_RDWR | (os.O_NONBLOCK if flags & 4 else 0), host_name='s', host_status=w.FILE_STATUS_OPENED, pipe=None, wasm_fd=n,
                           wasm_flag=flags, wasm_name='s', wasm_rights_base=base, wasm_rights_root=base if root is None else root, wasm_status=w.FILE_STATUS_OPENED,
                           wasm_type=w.FILETYPE_SOCKET_DGRAM if kind == 'dgram' else w.FILETYPE_SOCKET_STREAM))
        return n

    def rights(self):
        s = self.s
        if not s.chance(2):
            return ALLR
        return s.of([ALLR & ~wasi.R['FD_READ'], ALLR & ~wasi.R['FD_WRITE'], ALLR & ~wasi.R['SOCK_SHUTDOWN'], wasi.R['FD_READ'] | wasi.R['FD_WRITE'], 0, ALLR & ~wasi.R['SOCK_ACCEPT'], s.bits(32)])

    def newconn(self):
        s = self.s
        kind = s.weighted([(5, 'unix'), (2, 'dgram')])
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_DGRAM if kind == 'dgram' else socket.SOCK_STREAM)
        self.own(b)
        c = Conn(kind, b, self.nexttag())
        c.rights = self.rights()
        c.nonblock = s.chance(4)
        a.setblocking(not c.nonblock)
        b.setblocking(False)
        fd = self.give(a, kind, c.rights, 4 if c.nonblock else 0)
        self.conns[fd] = c
        self.trace.append(f'descriptor {fd}: {kind} socket, rights {c.rights:#x}' + ', non-blocking' * c.nonblock)

    def nexttag(self):
        self.tag += 1
        return self.tag

    def newlist(self):
        s = self.s
        kind = s.of(['tcp', 'unix'])
        l = socket.socket(socket.AF_INET if kind == 'tcp' else socket.AF_UNIX, socket.SOCK_STREAM)
        if kind == 'tcp':
            l.bind(('127.0.0.1', 0))
        else:
            l.bind(b'\0vfw10-%d-%d' % (os.getpid(), self.nexttag() * 1000000 + time.monotonic_ns() % 1000000))
        l.listen(16)
        nb = s.chance(6)
        l.setblocking(not nb)
        name = l.getsockname()
        r = self.rights()
        root = s.of([r, ALLR, wasi.R['FD_READ'] | wasi.R['FD_WRITE'] | wasi.R['SOCK_SHUTDOWN']])
        fd = self.give(l, kind, r, 4 if nb else 0, root)
        self.lists[fd] = [kind, name, [], nb, r, root]
        self.trace.append(f'descriptor {fd}: listening {kind} socket, rights {r:#x}, inheriting {root:#x}' + ', non-blocking' * nb)

    # -- peers
    def op_connect(self):
        s = self.s
        if not self.lists:
            return
        fd = s.of(sorted(self.lists))
        kind, name, q, nb = self.lists[fd][:4]
        if len(q) > 5:
            return
        k = self.own(socket.socket(socket.AF_INET if kind == 'tcp' else socket.AF_UNIX, socket.SOCK_STREAM))
        k.connect(name)
        k.setblocking(False)
        if kind == 'tcp':
            k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        q.append(Conn(kind, k, self.nexttag()))
        self.trace.append(f'a client connects to {fd}')

    def somepeer(self):
        cs = list(self.conns.values()) + [c for l in self.lists.values() for c in l[2]]
        return self.s.of(cs) if cs else None

    def who(self, c):
        return next((f for f in self.conns if self.conns[f] is c), 'queued')

    def op_peersend(self, c=None, n=None):
        s = self.s
        c = c or self.somepeer()
        if c is None or c.peershut or c.peergone or c.rd or c.wild or c.lost or len(c.pend) > 60000 or len(c.msgs) > 6:
            return
        if n is None:
            n = s.weighted([(6, 1 + s.pick(40)), (2, s.pick(3000)), (1, 1), (1, 10000 + s.pick(20000))])
        if c.kind == 'dgram':
            n = min(n, 3000)
        if n == 0 and c.kind != 'dgram':
            return
        d = pattern(c.tag, c.inpos, n)
        try:
            k = c.peer.send(d)
        except (BrokenPipeError, ConnectionError):
            return
        check2(k == n, 'host send was partial')
        c.inpos += n
        if c.kind == 'dgram':
            c.msgs.append(d)
        else:
            c.pend += d
        self.trace.append(f'peer of {self.who(c)} sends {n} bytes')

    def op_peershut(self):
        c = self.somepeer()
        if c is None or c.kind == 'dgram' or c.peergone or c.peershut:
            return
        try:
            c.peer.shutdown(socket.SHUT_WR)
        except OSError:
            return
        c.peershut = True
        self.trace.append(f'peer of {self.who(c)} shuts down its sending side')

    def op_peerclose(self):
        c = self.somepeer()
        if c is None or c.peergone or c.kind == 'dgram':
            return
        if c.kind == 'tcp' or self.s.pick(3):
            self.peerread(c)
        if c.unread:
            c.lost = True        # the guest may see a reset
        c.peer.close()
        c.peergone = True
        self.trace.append(f'peer of {self.who(c)} closes' + ' with unread data' * c.lost)

    def op_peerread(self):
        c = self.somepeer()
        if c is not None and not c.peergone:
            self.peerread(c)
            self.trace.append(f'peer of {self.who(c)} reads everything')

    def peerread(self, c):
        """the peer finds exactly what the guest was told it sent"""
        if c.wild:
            return
        w = lambda m: self.say() + f'peer of {self.who(c)}: {m}'
        if c.kind == 'dgram':
            got = []
            while True:
                try:
                    got.append(c.peer.recv(70000))
                except (BlockingIOError, ConnectionError):
                    break
                if not got[-1] and len(got) > len(c.fromguest):
                    got.pop()
                    break
            check(got == c.fromguest, lambda: w(f'received messages {[x[:40].hex() for x in got]} ({[*map(len, got)]}), sent were {[x[:40].hex() for x in c.fromguest]} ({[*map(len, c.fromguest)]})'))
            c.fromguest = []
            return
        want, got, end = b''.join(c.fromguest), b'', time.time() + 10
        while True:
            try:
                d = c.peer.recv(1 << 20)
            except BlockingIOError:
                if len(got) >= len(want) and not c.wr:
                    break
                check(time.time() < end, lambda: w(f'{len(got)} bytes arrived, {len(want)} were sent' + ', and the end of the stream' * c.wr))
                select.select([c.peer], [], [], 0.05)
                continue
            except ConnectionError:
                break
            if d == b'':
                check(c.wr, lambda: w('sees the end of the stream though the guest did not shut down'))
                break
            got += d
        check(got == want, lambda: w(f'received {len(got)} bytes {got[:60].hex()}, sent were {len(want)} bytes {want[:60].hex()}'))
        c.fromguest = []

    # -- memory
    def fresh(self):
        k = self.s.byte()
        pat = bytes((k + 11 * i) % 255 + 1 for i in range(255))
        self.g.mem.data[:] = (pat * (SIZE // 255 + 1))[:SIZE]

    def vec(self, total=None):
        """a scatter/gather list over disjoint parts of memory -> [(addr, len)]"""
        s = self.s
        k = s.weighted([(5, 1), (5, 2), (3, 3), (2, 4 + s.pick(5)), (1, 0)])
        at, out = DATA + s.pick(5), []
        for _ in range(k):
            n = s.weighted([(5, 1 + s.pick(12)), (3, 1 + s.pick(200)), (2, 0), (1, 1000 + s.pick(6000))])
            if at + n > 0xe000:
                break
            out.append((at, n))
            at += n + s.of([0, 0, 1, 5, 100])
        if out and s.chance(1):
            n = out[-1][1]
            out[-1] = (SIZE - n, n)
        if s.chance(3):
            out.reverse()
        if s.chance(3) and len(out) > 1:
            out = out[1:] + out[:1]
        return out

    def putvec(self, v):
        at = self.s.of([IOV, IOV + 3, IOV + 8])
        self.g.put(at, b''.join(struct.pack('<II', a, n) for a, n in v))
        return at

    def call(self, desc, name, *args):
        self.mem = bytearray(self.g.mem.data)
        self.trace.append(desc + f' = {name}{args}')
        try:
            r = self.g.call(name, *args)
        except drive.Raised as e:
            check(False, lambda: self.say() + f'host exception {e!r}')
        except HangViolation as e:
            raise HangViolation(self.say() + e.msg)
        self.trace[-1] += f' -> {wasi.code(r)}'
        return r

    def judge(self, writes, free=()):
        """memory holds exactly the writes"""
        now = bytearray(self.g.mem.data)
        check(len(now) == SIZE, lambda: self.say() + 'the memory changed size')
        for a, b in writes:
            self.mem[a:a + len(b)] = b
        for a, n in free:
            self.mem[a:a + n] = now[a:a + n]
        if now != self.mem:
            d = [i for i in range(SIZE) if now[i] != self.mem[i]]
            check(False, lambda: self.say() + f'memory differs at {d[:6]} ({len(d)} bytes): {bytes(now[d[0]:d[0] + 24]).hex()}, expected {bytes(self.mem[d[0]:d[0] + 24]).hex()}')

    def failed(self, r, codes, free=()):
        check(r != 0, lambda: self.say() + f'succeeded, expected {codes or "an error"}')
        if codes:
            check(wasi.code(r) in codes, lambda: self.say() + f'expected {sorted(codes)}')
        self.judge([], free)

    # -- the guest's calls
    def someconn(self):
        return self.s.of(sorted(self.conns)) if self.conns else None

    def settle(self, fd, c):
        """wait until everything the peer sent has reached the guest's socket"""
        if c.kind != 'tcp':
            return
        end = time.time() + 10
        h = self.g.wasi.fd[fd].host_fd
        while struct.unpack('i', fcntl.ioctl(h, termios.FIONREAD, bytes(4)))[0] < len(c.pend):
            check2(time.time() < end, 'loopback delivery is slow')
            time.sleep(0.001)
        if c.peershut or c.peergone:
            p = select.poll()
            p.register(h, select.POLLRDHUP)
            check2(p.poll(10000), 'loopback delivery is slow')

    def op_recv(self, plain=False):
        s = self.s
        fd = self.someconn()
        if fd is None:
            return
        c = self.conns[fd]
        fl = 0 if plain else s.weighted([(5, 0), (3, 1), (3, 2), (1, 3)])
        v = self.vec()
        if plain and c.kind == 'dgram':
            v = v[:1]            # how plain reads take messages is not judged
        room = sum(n for _, n in v)
        need = 'FD_READ'
        late = None
        if c.wild or c.lost:
            if not (c.pend or c.eof or c.nonblock) or c.rights & wasi.R[need] == 0:
                return
        elif c.rights & wasi.R[need]:
            have = len(c.pend) if c.kind != 'dgram' else len(c.msgs)
            if room == 0 and (plain or have == 0):
                return
            if not have and not c.eof and not c.nonblock:
                self.op_peersend(c)
                have = len(c.pend) if c.kind != 'dgram' else len(c.msgs)
                if not have:
                    return
            if fl & 2 and c.kind != 'dgram' and have < room and not c.eof and not c.nonblock:
                if fl & 1 or s.pick(2) == 0 or room - have > 30000:
                    # peeking waits too, and would find the same data again
                    self.op_peersend(c, room - have)
                    if len(c.pend) < room:
                        return
                else:
                    late = pattern(c.tag, c.inpos, room - have)
                    c.inpos += len(late)
                    cut = s.pick(len(late))
                    sock = c.peer

                    def later():
                        for d in (late[:cut], late[cut:]):
                            time.sleep(0.003)
                            if d:
                                sock.send(d)
            self.settle(fd, c)
        self.fresh()
        at = self.putvec(v)
        th = None
        if late is not None:
            th = threading.Thread(target=later, daemon=True)
            th.start()
        try:
            if plain:
                r = self.call(f'read {v}', 'fd_read', fd, at, len(v), LENP)
            else:
                r = self.call(f'receive {v}', 'sock_recv', fd, at, len(v), fl, LENP, FLAGP)
        finally:
            if th:
                th.join()
        self.outcome(fd, c, r, v, room, fl, plain, late or b'', need)

    def outcome(self, fd, c, r, v, room, fl, plain, late, need):
        if not c.rights & wasi.R[need]:
            return self.failed(r, {'NOTCAPABLE'})
        free = [] if plain else [(FLAGP, 2)]
        if c.wild or c.lost:
            if r:
                c.pend = b''
                return self.failed(r, DEAD | {'AGAIN'})
            return self.judge([], [(LENP, 4)] + free + v)
        pend = c.pend + late
        if c.kind == 'dgram':
            if not c.msgs:
                return self.failed(r, {'AGAIN'}) if not c.rd else self.failed(r, {'AGAIN'}) if r else self.judge([(LENP, bytes(4))], free)
            data = c.msgs[0]
        elif not pend and not c.eof:
            return self.failed(r, {'AGAIN'})
        else:
            data = pend
        check(r == 0, lambda: self.say() + f'failed, but there are {len(pend)} bytes, {len(c.msgs)} messages' + ', and the end' * c.eof)
        n = min(room, len(data))
        got = self.g.u32(LENP)
        if plain and 0 < got < n:
            n = got             # short reads are fine, data is not lost
        check(got == n, lambda: self.say() + f'count {got}, expected {n} of {len(data)}')
        writes, i = [(LENP, struct.pack('<I', n))], 0
        for a, k in v:
            d = data[i:i + min(k, n - i)]
            if d:
                writes.append((a, d))
            i += len(d)
        flag = None if plain or room == 0 or n == 0 else int(c.kind == 'dgram' and len(data) > room)
        if flag is not None:
            writes.append((FLAGP, struct.pack('<H', flag)))
            free = []
        self.judge(writes, free)
        if n:
            self.moved += 1
        if not fl & 1:
            if c.kind == 'dgram':
                c.msgs.pop(0)
            else:
                c.pend = pend[n:]
        else:
            c.pend = pend

    def op_read(self):
        self.op_recv(True)

    def op_send(self, plain=False):
        s = self.s
        fd = self.someconn()
        if fd is None:
            return
        c = self.conns[fd]
        v = self.vec()
        if s.chance(3) and len(v) > 1:
            v[1] = (v[0][0], min(v[1][1], SIZE - v[0][0]))         # reading one place twice is fine
        if c.kind == 'dgram':
            v = [(a, min(n, 1000)) for a, n in v]
            if plain:
                v = v[:1]        # how plain writes become messages is not judged
        total = sum(n for _, n in v)
        if c.unread > 40000 and not c.peergone:
            self.peerread(c)
        if c.kind == 'dgram' and len(c.fromguest) > 5:
            self.peerread(c)
        self.fresh()
        pos = c.outpos
        for a, n in v:
            self.g.put(a, pattern(c.tag + 100, pos, n))
            pos += n
        at = self.putvec(v)
        data = b''.join(self.g.get(a, n) for a, n in v)
        r = self.call(f'send {v}', 'fd_write' if plain else 'sock_send', fd, at, len(v), *([] if plain else [0]), LENP)
        if not c.rights & wasi.R['FD_WRITE']:
            return self.failed(r, {'NOTCAPABLE'})
        if c.wr or c.peergone or c.wild or c.lost:
            if c.kind == 'tcp' and c.peergone and total:
                c.wild = True
            if r == 0:
                check(total == 0 or c.kind == 'tcp' and c.peergone and not c.wr, lambda: self.say() + 'succeeded though nobody can receive it')
                return self.judge([], [(LENP, 4)])
            return self.failed(r, DEAD)
        check(r == 0, lambda: self.say() + 'failed')
        got = self.g.u32(LENP)
        self.judge([(LENP, struct.pack('<I', got))])
        if plain and c.kind != 'dgram' and 0 < got < total:
            pass
        else:
            check(got == total, lambda: self.say() + f'count {got}, expected {total}')
        c.outpos += got
        if got or c.kind == 'dgram' and not (plain and not total):
            c.fromguest.append(data[:got])
            if got:
                self.moved += 1
        if c.kind == 'dgram' and plain and total == 0:
            self.drain(c)        # how plain writes become messages is not judged

    def drain(self, c):
        try:
            while True:
                c.peer.recv(70000)
        except OSError:
            pass
        c.fromguest = []

    def op_write(self):
        self.op_send(True)

    def op_fill(self):
        """a non-blocking socket takes what fits and then says so"""
        s = self.s
        fds = [f for f in sorted(self.conns) if self.conns[f].nonblock and self.conns[f].kind != 'dgram' and self.conns[f].rights & wasi.R['FD_WRITE']]
        if not fds:
            return
        fd = s.of(fds)
        c = self.conns[fd]
        if c.wr or c.peergone or c.wild or c.lost:
            return
        for _ in range(400):
            n = 50000
            self.fresh()
            self.g.put(DATA, pattern(c.tag + 100, c.outpos, n))
            at = self.putvec([(DATA, 20000), (DATA + 20000, n - 20000)])
            r = self.call('fill', 'sock_send', fd, at, 2, 0, LENP)
            if r:
                self.failed(r, {'AGAIN'})
                break
            k = self.g.u32(LENP)
            check(0 < k <= n, lambda: self.say() + f'count {k} of {n}')
            self.judge([(LENP, struct.pack('<I', k))])
            c.fromguest.append(pattern(c.tag + 100, c.outpos, k))
            c.outpos += k
        else:
            check2(False, 'the buffer never filled')
        self.moved += 1
        self.peerread(c)

    def op_shutdown(self):
        s = self.s
        fd = self.someconn()
        if fd is None:
            return
        c = self.conns[fd]
        how = s.weighted([(4, 2), (3, 1), (3, 3), (2, s.of([0, 4, 5, 7, 255, 0x80000000, 0xffffffff]))])
        self.fresh()
        r = self.call('shutdown', 'sock_shutdown', fd, how)
        if not c.rights & wasi.R['SOCK_SHUTDOWN']:
            return self.failed(r, {'NOTCAPABLE'})
        if how not in (1, 2, 3):
            if how == 0 and r == 0:
                return self.judge([])
            return self.failed(r, {'INVAL'})
        if r and (c.peergone or c.peershut or c.wild or c.lost or c.wr or c.rd or c.kind == 'dgram'):
            return self.failed(r, {'NOTCONN'})
        check(r == 0, lambda: self.say() + 'failed')
        self.judge([])
        c.rd = c.rd or bool(how & 1)
        c.wr = c.wr or bool(how & 2)
        if not c.peergone and c.kind != 'dgram':
            self.peerread(c)

    def op_accept(self):
        s = self.s
        if not self.lists:
            return
        lf = s.of(sorted(self.lists))
        kind, name, q, nb, rights, root = self.lists[lf]
        ok = rights & wasi.R['SOCK_ACCEPT']
        if not q and not nb and ok:
            return
        fl = s.of([0, 4])
        h = self.g.wasi.fd[lf].host_fd
        if q:
            check2(select.select([h], [], [], 10)[0], 'loopback delivery is slow')
        blocking = os.get_blocking(h)
        self.fresh()
        r = self.call('accept', 'sock_accept', lf, fl, LENP)
        check(os.get_blocking(h) == blocking, lambda: self.say() + 'the blocking mode of the listener changed')
        if not ok:
            return self.failed(r, {'NOTCAPABLE'})
        if not q:
            return self.failed(r, {'AGAIN'})
        check(r == 0, lambda: self.say() + 'failed with a connection waiting')
        fd = self.g.u32(LENP)
        self.judge([(LENP, struct.pack('<I', fd))])
        check(fd not in self.conns and fd not in self.lists and fd > 3, lambda: self.say() + f'descriptor {fd} is in use')
        if kind == 'tcp':
            a = socket.fromfd(self.g.wasi.fd[fd].host_fd, socket.AF_INET, socket.SOCK_STREAM)
            try:
                pn = a.getpeername()
            except OSError:
                pn = None
            a.close()
            c = next((c for c in q if not c.peergone and c.peer.getsockname() == pn), q[0])
        else:
            c = q[0]
        q.remove(c)
        self.conns[fd] = c
        if fd in self.closed:
            self.closed.remove(fd)
        c.nonblock = fl == 4
        self.moved += 1
        # the descriptor as the guest sees it
        r = self.call('fdstat', 'fd_fdstat_get', fd, LENP)
        check(r == 0, lambda: self.say() + 'failed')
        st = self.g.get(LENP, 24)
        b, i = struct.unpack('<QQ', st[8:])
        check(st[0] == 6, lambda: self.say() + f'the accepted socket has type {st[0]}')
        check(struct.unpack('<H', st[2:4])[0] == fl, lambda: self.say() + f'flags {st[2]}, asked for {fl}')
        check(not b & ~rights and not i & ~root, lambda: self.say() + f'the accepted socket has rights {b:#x}, {i:#x}, the listener has {rights:#x}, {root:#x}')
        for k in ('FD_READ', 'FD_WRITE', 'SOCK_SHUTDOWN'):
            check(b & wasi.R[k] or not rights & wasi.R[k], lambda: self.say() + f'the accepted socket lacks {k}')
        c.rights = b
        check(os.get_blocking(self.g.wasi.fd[fd].host_fd) == (fl == 0), lambda: self.say() + 'the accepted socket has the wrong blocking mode')

    def op_stat(self):
        fds = sorted(self.conns) + sorted(self.lists)
        if not fds:
            return
        fd = self.s.of(fds)
        self.fresh()
        r = self.call('fdstat', 'fd_fdstat_get', fd, LENP)
        check(r == 0, lambda: self.say() + 'failed')
        st = self.g.get(LENP, 24)
        self.judge([], [(LENP, 24)])
        c = self.conns.get(fd)
        rights = c.rights if c else self.lists[fd][4]
        nb = c.nonblock if c else self.lists[fd][3]
        check(st[0] == (5 if c and c.kind == 'dgram' else 6) and st[2:4] == (b'\4\0' if nb else b'\0\0') and struct.unpack('<Q', st[8:16])[0] == rights,
              lambda: self.say() + f'attributes {st.hex()}, rights {rights:#x}, non-blocking {nb}')

    def op_setnonblock(self):
        fd = self.someconn()
        if fd is None:
            return
        c = self.conns[fd]
        fl = self.s.of([4, 0])
        self.fresh()
        r = self.call('set flags', 'fd_fdstat_set_flags', fd, fl)
        if not c.rights & wasi.R['FD_FDSTAT_SET_FLAGS']:
            return self.failed(r, {'NOTCAPABLE'})
        check(r == 0, lambda: self.say() + 'failed')
        self.judge([])
        c.nonblock = fl == 4
        check(os.get_blocking(self.g.wasi.fd[fd].host_fd) == (fl == 0), lambda: self.say() + 'the socket has the wrong blocking mode')

    def gone(self, c):
        """the guest has let go of the connection"""
        if c.peergone:
            return
        if c.kind == 'dgram':
            return self.peerread(c)
        if c.pend:
            c.wild = True         # closing with unread data resets the connection
        c.wr = True
        self.peerread(c)

    def op_close(self):
        fd = self.someconn()
        if fd is None:
            return
        self.fresh()
        r = self.call('close', 'fd_close', fd)
        check(r == 0, lambda: self.say() + 'failed')
        self.judge([])
        self.gone(self.conns.pop(fd))
        self.closed.append(fd)

    def op_renumber(self):
        a, b = self.someconn(), self.someconn()
        if a is None:
            return
        self.fresh()
        r = self.call('renumber', 'fd_renumber', a, b)
        check(r == 0, lambda: self.say() + 'failed')
        self.judge([])
        if a != b:
            c = self.conns.pop(b)
            self.conns[b] = self.conns.pop(a)
            self.closed.append(a)
            self.gone(c)

    def op_wrong(self):
        """calls on things that are not sockets, not open, or not in the right state"""
        s = self.s
        k = s.pick(4)
        bad = self.closed + [len(self.g.wasi.fd) + s.pick(9), 0xffffffff, 0x80000000 + s.pick(9)]
        fd, codes = {0: lambda: (s.pick(4), {'NOTSOCK', 'NOTCAPABLE'}), 1: lambda: (s.of(bad), {'BADF'}), 2: lambda: (s.of(sorted(self.lists) or [3]), None),
                     3: lambda: (s.of(bad), {'BADF'})}[k]()
        name = s.of(['sock_recv', 'sock_send', 'sock_shutdown', 'sock_accept'])
        if k == 2 and name in ('sock_accept', 'sock_shutdown'):
            return
        self.fresh()
        at = self.putvec([(DATA, 10)])
        args = {'sock_recv': (fd, at, 1, s.pick(4), LENP, FLAGP), 'sock_send': (fd, at, 1, 0, LENP), 'sock_shutdown': (fd, 1 + s.pick(3)), 'sock_accept': (fd, s.of([0, 4]), LENP)}[name]
        self.failed(self.call('wrong', name, *args), codes)
        if s.pick(2) and self.conns:
            fd = self.someconn()
            self.fresh()
            self.failed(self.call('accept on a connection', 'sock_accept', fd, 0, LENP), None)

    def audit(self):
        """one host descriptor per guest descriptor, and none of the harness's was closed"""
        live = set(os.listdir('/proc/self/fd'))
        mine = {str(x.fileno()) for x in self.mine if x.fileno() >= 0} | {str(f) for f in self.stdfds}
        want = 1 + len(self.conns) + len(self.lists)         # the directory
        have = [n for n in live - self.fds0 - mine if os.path.exists(f'/proc/self/fd/{n}') or os.path.islink(f'/proc/self/fd/{n}')]
        have = [n for n in have if openfd(int(n))]
        check(len(have) == want, lambda: self.say() + f'{len(have)} host descriptors are open for {want} guest descriptors')
        for n in mine:
            check(openfd(int(n)), lambda: self.say() + 'a host descriptor that is not pywasm\'s was closed')

    def close(self):
        self.g.close()
        lost = False
        for x in self.mine + [c.peer for l in self.lists.values() for c in l[2]]:
            try:
                x.close()
            except OSError:
                lost = True
        check(not lost, lambda: self.say() + 'a host descriptor that is not pywasm\'s was closed')


def openfd(n):
    try:
        os.fstat(n)
        return True
    except OSError:
        return False


def check2(cond, msg):
    """a condition of the harness, not of the code under test"""
    if not cond:
        raise RuntimeError(msg)


MIX = [(10, 'recv'), (3, 'read'), (8, 'send'), (3, 'write'), (8, 'peersend'), (3, 'peerread'), (2, 'peershut'), (1, 'peerclose'), (6, 'accept'), (6, 'connect'), (2, 'shutdown'), (2, 'stat'),
       (2, 'setnonblock'), (1, 'fill'), (2, 'close'), (1, 'renumber'), (2, 'wrong')]


def run(b, ctx):
    s = gen.Src(b)
    room = Room(s, ctx.data['dir'])
    try:
        for _ in range(1 + s.pick(3)):
            room.newconn()
        for _ in range(s.pick(3)):
            room.newlist()
        for k in range(30):
            if s.left == 0:
                break
            getattr(room, 'op_' + s.weighted(MIX))()
            if k % 5 == 4:
                room.audit()
        room.audit()
        for c in room.conns.values():
            if not c.peergone:
                room.peerread(c)
        for t in room.trace:
            if ' -> ' in t:
                ctx.tag(t.split(' = ')[1].split('(')[0] + ' ' + t.split(' -> ')[1])
        if room.moved >= 2:
            ctx.good(h=h64(b))
    finally:
        room.close()


def tests(tier):
    return [Test('history', run, strategy=lambda: gen.strategy(150, 700), n=(4000, 150000), setup=wasi.setup, teardown=wasi.teardown,
                 show=lambda b: f'bytes {b.hex()} (the history is in the message)')]
