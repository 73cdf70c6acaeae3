"""Histories of WASI calls as tests."""
import os
import traceback

from . import drive, gen, wasi, wops
from .diffprop import h64
from .runner import Test, Violation, check, from_repo


def plant(entries):
    """entries: [(kind, path, content)] -> build(root)"""
    def build(root):
        for k, p, c in entries:
            q = os.path.join(root, p)
            if k == 'd':
                os.makedirs(q, exist_ok=True)
            elif k == 'f':
                with open(q, 'wb') as f:
                    f.write(c)
            elif k == 'L':
                os.symlink(os.path.join(root, c), q)
            elif k == 'l':
                os.symlink(c, q)
            elif k == 'h':
                os.link(os.path.join(root, c), q, follow_symlinks=False)
            elif k == 'p':
                os.mkfifo(q)
            elif k == 's':
                import socket
                s = socket.socket(socket.AF_UNIX)
                # the path of a socket is limited to about 100 bytes
                cwd = os.open('.', os.O_RDONLY)
                try:
                    os.chdir(os.path.dirname(q))
                    s.bind(os.fsencode(os.path.basename(q)))
                finally:
                    os.fchdir(cwd)
                    os.close(cwd)
                    s.close()
    return build


class Mix(wops.Ops):
    """one world plus a weighted choice of operations"""

    def go(self, s, mix, n):
        for k in range(n):
            if s.left == 0:
                break
            getattr(self, 'op_' + s.weighted(mix))(s)
            if k % 5 == 4:
                self.tree()
        self.tree('at the end: ')
        self.hostfds('at the end: ')


    def finish(self):
        """the program ends: every descriptor is gone, and so are the host's"""
        r = drive.attempt(self.g.wasi.main, self.g.pw.rt, self.g.inst)
        w = lambda: '\n'.join(self.trace[-25:]) + '\nat the end of the program: '
        check(r == 0, lambda: w() + f'main returned {r!r}')
        for fd in [k for k in self.m if self.m[k].kind != 'std']:
            self.drop(fd)
        self.hostfds('after the program: ')
        for k, (a, b) in self.pipes0.items():
            if a is not None:
                check(a.getvalue() == b.getvalue(), lambda: w() + f'pipe {k} holds {a.getvalue()[:200]!r}, expected {b.getvalue()[:200]!r}')
        # the host opens files of its own, which may get the numbers of descriptors the program had
        mine = []
        try:
            for k in range(len(self.g.wasi.fd) + 4):
                mine.append(os.open(self.dir, os.O_RDWR | os.O_TMPFILE, 0o600))
                os.write(mine[-1], b'of the host')
            for n, fd in enumerate(dict.fromkeys(self.closed[:4] + [k for k in range(3, len(self.g.wasi.fd))][:8])):
                if fd not in self.m:
                    for name, a in (('fd_write', (fd, 64, 1, 80)), ('fd_read', (fd, 64, 1, 80)), ('fd_filestat_set_size', (fd, 0)), ('fd_seek', (fd, 0, 0, 80)),
                                    ('fd_pread', (fd, 64, 1, 0, 80)), ('fd_fdstat_get', (fd, 128)), ('fd_prestat_get', (fd, 128)), ('fd_sync', (fd,)))[n % 3:n % 3 + 5]:
                        self.put(64, (96).to_bytes(4, 'little') + (8).to_bytes(4, 'little'))
                        r = self.g.call(name, *a)
                        check(wasi.code(r) == 'BADF', lambda: w() + f'{name} on descriptor {fd}, which is closed: {wasi.code(r)}')
                    self.close_(fd)
            for fd in mine:
                try:
                    ok = os.pread(fd, 100, 0) == b'of the host'
                except OSError:
                    ok = False
                check(ok, lambda: w() + 'a file that the host opened afterwards was changed or closed')
        finally:
            for fd in mine:
                try:
                    os.close(fd)
                except OSError:
                    pass


def test(name, body, n, nontrivial, small=80, big=500):
    """body(src, dir, ctx) -> Mix that has been driven"""
    def run(b, ctx):
        w = body(gen.Src(b), ctx.data['dir'], ctx, b)
        if w is None:
            return
        for k, o in w.kinds:
            ctx.tag(f'{k} {o}')
        if nontrivial(w):
            ctx.good(h=h64(b))
    return Test(name, run, strategy=lambda: gen.strategy(small, big), n=n, setup=wasi.setup, teardown=wasi.teardown,
                show=lambda b: f'bytes {b.hex()} (the history is in the message)')
