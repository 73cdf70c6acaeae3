"""The WASI operations as generated steps over wasi.World.  Every parameter is drawn from a gen.Src."""
import errno
import os
import stat
import struct
import time

from .runner import check
from .wasi import ANY, ESCAPE, Err, MF, PATHR, R, World, code, codes, ftype

P1, P2, IOV, DATA, BUF, OUT = 0x1000, 0x3000, 0x5000, 0x6000, 0x9000, 0xf000
ALLR = (1 << 30) - 1
NAMES = ['a', 'b', 'c', 'd', 'e', 'd/a', 'd/b', 'd/e', 'd/e/f', 'l', 'k']
LINKS = ['a', 'd', 'nope', 'l', 'k', 'd/e', './a', 'b', '../a', 'd/../b', 'd/l', 'e']
ODD = ['', '.', '..', './', 'd/.', 'd/..', 'a/', 'd/', 'l/', 'a/x', 'd//e', 'nope/x', 'd/../a', 'l/a', 'k/a', 'd/e/../b', 'a/..', 'd/e/', 'nope/',
       'a/.', 'nope/../a', 'l/..', 'n' * 255, 'n' * 256, 'x/' * 2100, '\u00e9\u4e2d', 'sp ace', 'a\0b', '\0', '...', '..a', 'd/..a', 'a\n', '\ud800']
BADU = [b'\xff', b'a\xc3', b'\xe2\x82', b'\x80a', b'd/\xff', b'\xed\xa0\x80']
ESC = ['../x', '..', 'd/../..', 'd/../../x', '/', '/etc', './../a', 'd/e/../../../x', '../A/a', 'nope/../../x']


class Ops(World):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.names = NAMES
        self.links = LINKS
        self.odd = 3             # of 16
        self.badfd = 2           # of 32
        self.fullrights = True

    # -- choosing
    def fd(self, s, kinds=('file', 'dir', 'std')):
        k = s.pick(32)
        if k >= 32 - self.badfd:
            c = s.pick(3)
            if c == 0 and self.closed:
                return s.of(self.closed)
            if c == 1:
                return s.of(sorted(self.m) or [3])
            return s.of([len(self.g.wasi.fd), 100, (1 << 32) - 1, 1 << 31, len(self.g.wasi.fd) + 1])
        fs = [n for n in sorted(self.m) if self.m[n].kind in kinds]
        return s.of(fs) if fs else s.of(sorted(self.m) or [3])

    def dirfd(self, s):
        return self.fd(s, ('dir',))

    def filefd(self, s):
        return self.fd(s, ('file',))

    def path(self, s, addr=P1):
        """-> (str or None when not UTF-8, ptr, len)"""
        if s.pick(16) >= 16 - self.odd:
            if s.pick(8) == 7:
                b = s.of(BADU)
                self.put(addr, b)
                return None, addr, len(b)
            p = s.of(ODD + ESC)
        else:
            p = s.of(self.names)
        try:
            b = p.encode()
        except UnicodeEncodeError:
            b = p.encode(errors='surrogatepass')
            p = None
        self.put(addr, b)
        self.said.append(p if len(b) < 300 else f'{len(b)} bytes')
        return p, addr, len(b)

    def within(self, f, p, follow, parent=False):
        """common part of path calls on the model side; parent: the call acts on the directory entry itself"""
        if p is None:
            raise Err('ILSEQ', 'INVAL', 'NOENT')
        if '\0' in p:
            raise Err('ILSEQ', 'INVAL', 'NOENT', ESCAPE, 'NOTDIR')
        if f.kind != 'dir':
            raise Err('NOTDIR', 'NOTCAPABLE', 'BADF')
        if len(p.encode()) > 4095:
            raise Err(ANY)      # longer than the host takes: not found or too long
        self.resolve(f, (p.rstrip('/') if parent and not p.startswith('/') else p), follow)

    def iovs(self, s, total=None):
        """scatter/gather list -> (count, [(ptr, len)])"""
        n = s.pick(5)
        l, p = [], DATA
        for _ in range(n):
            k = s.weighted([(2, 0), (4, 1 + s.pick(8)), (4, 1 + s.pick(60)), (1, 300)])
            l.append((p, k))
            p += k + s.pick(3)
        if s.chance(2) and len(l) > 1:
            l[-1] = (l[0][0], l[-1][1])        # two entries naming the same bytes
        if s.chance(2) and l:
            l.reverse()
        self.put(IOV, b''.join(struct.pack('<II', a, b) for a, b in l))
        return len(l), l

    def gather(self, l):
        return b''.join(bytes(self.mem[a:a + n]) for a, n in l)

    def scatter(self, l, data):
        out, i = [], 0
        for a, n in l:
            c = data[i:i + n]
            if c:
                out.append((a, c))
            i += len(c)
        return out

    def fill(self, s, l):
        for a, n in l:
            self.put(a, bytes((s.byte() + 7 * i) & 0xff for i in range(n)))

    # -- data
    def op_write(self, s):
        fd = self.fd(s, ('file', 'file', 'std')) if s.chance(15) else self.fd(s)
        n, l = self.iovs(s)
        self.fill(s, l)

        def model():
            f = self.file(fd, 'FD_WRITE')
            d = self.gather(l)
            if f.pipe is not None:
                k = f.pipe.write(d)
            else:
                k = os.write(f.tfd, d)
            return [(OUT, struct.pack('<I', k))]
        self.step('fd_write', (fd, IOV, n, OUT), model)

    def op_read(self, s):
        fd = self.fd(s, ('file', 'file', 'std')) if s.chance(15) else self.fd(s)
        n, l = self.iovs(s)

        def model():
            f = self.file(fd, 'FD_READ')
            want = sum(k for _, k in l)
            d = f.pipe.read(want) if f.pipe is not None else os.read(f.tfd, want)
            return self.scatter(l, d) + [(OUT, struct.pack('<I', len(d)))]
        self.step('fd_read', (fd, IOV, n, OUT), model)

    def off(self, s):
        return s.weighted([(4, s.pick(12)), (3, s.pick(200)), (1, 1000 + s.pick(2000)), (1, -1 - s.pick(20))])

    def op_pread(self, s):
        fd, o = self.filefd(s), self.off(s)
        n, l = self.iovs(s)

        def model():
            f = self.file(fd, 'FD_READ')
            if f.pipe is not None or f.kind == 'std':
                raise Err('SPIPE', 'NOTCAPABLE', 'BADF', 'INVAL')
            if not f.base & R['FD_SEEK']:
                raise Unjudged
            d = os.pread(f.tfd, sum(k for _, k in l), o)
            return self.scatter(l, d) + [(OUT, struct.pack('<I', len(d)))]
        if self.seekless(fd, 'FD_READ') or (o < 0 and not sum(k for _, k in l)):
            return
        self.step('fd_pread', (fd, IOV, n, o, OUT), model)

    def seekless(self, fd, right):
        """positional calls without FD_SEEK, and on streams, are not judged"""
        f = self.m.get(fd)
        return f is not None and f.base & R[right] and (f.kind == 'std' or not f.base & R['FD_SEEK'])

    def op_pwrite(self, s):
        fd, o = self.filefd(s), self.off(s)
        n, l = self.iovs(s)
        self.fill(s, l)

        def model():
            f = self.file(fd, 'FD_WRITE')
            return [(OUT, struct.pack('<I', os.pwrite(f.tfd, self.gather(l), o)))]
        if self.seekless(fd, 'FD_WRITE') or (o < 0 and not sum(k for _, k in l)):
            return
        self.step('fd_pwrite', (fd, IOV, n, o, OUT), model)

    def op_seek(self, s):
        fd = self.filefd(s)
        wh = s.weighted([(4, 0), (4, 1), (3, 2), (1, 3), (1, 255)])
        o = s.weighted([(5, s.pick(30)), (5, -s.pick(30)), (1, 5000), (1, -5000), (1, -(1 << 63)), (1, (1 << 63) - 1)])

        def model():
            f = self.file(fd, 'FD_SEEK', {'SPIPE'})
            if wh > 2:
                raise Err('INVAL')
            try:
                return [(OUT, struct.pack('<Q', os.lseek(f.tfd, o, wh)))]
            except OSError:
                raise Err('INVAL', 'OVERFLOW')
        self.step('fd_seek', (fd, o, wh, OUT), model)

    def op_tell(self, s):
        fd = self.filefd(s)

        def model():
            f = self.file(fd, 'FD_TELL')
            return [(OUT, struct.pack('<Q', os.lseek(f.tfd, 0, 1)))]
        f = self.m.get(fd)
        if f is not None and not f.base & R['FD_TELL'] and f.base & R['FD_SEEK']:
            return      # FD_SEEK implies FD_TELL in the specification; pywasm asks for FD_TELL itself: not judged
        self.step('fd_tell', (fd, OUT), model)

    def op_allocate(self, s):
        fd, o, n = self.filefd(s), s.pick(300), 1 + s.pick(300)
        if s.pick(6) == 0:      # beyond the largest file there can be
            o, n = s.of([(1, (1 << 63) - 1), ((1 << 63) - 1, 1), ((1 << 62) + 5, (1 << 62) + 5), (-1, 5), (3, -1), (-(1 << 63), 1), (1 << 62, (1 << 63) - 1)])

        def model():
            f = self.file(fd, 'FD_ALLOCATE')
            if o < 0 or n < 0 or o + n >= 1 << 63:
                raise Err('INVAL', 'FBIG')
            os.posix_fallocate(f.tfd, o, n)
            return []
        f = self.m.get(fd)
        if f is not None and f.base & R['FD_ALLOCATE'] and not f.wr:
            return      # allocation without write access: not judged
        self.step('fd_allocate', (fd, o, n), model)

    def op_setsize(self, s):
        fd = self.filefd(s)
        n = s.weighted([(5, s.pick(40)), (3, s.pick(400)), (1, -1), (1, -(1 << 63))])

        def model():
            f = self.file(fd, 'FD_FILESTAT_SET_SIZE')
            os.ftruncate(f.tfd, n)
            return []
        self.step('fd_filestat_set_size', (fd, n), model)

    def op_sync(self, s):
        name = s.of(['fd_sync', 'fd_datasync'])
        fd = self.fd(s, ('file',))
        right = name.upper()
        f = self.m.get(fd)
        if f is not None and f.kind != 'file' and f.base & R[right]:
            return
        self.step(name, (fd,), lambda: self.desc(fd, right) and [])

    def op_advise(self, s):
        fd = self.fd(s, ('file',))
        f = self.m.get(fd)
        if f is not None and f.kind == 'dir' and f.base & R['FD_ADVISE']:
            return
        self.step('fd_advise', (fd, s.pick(100), s.pick(100), s.pick(6)), lambda: self.desc(fd, 'FD_ADVISE') and [])

    def op_setflags(self, s):
        fd = self.filefd(s)
        v = s.weighted([(6, s.pick(2)), (4, s.of([0, 1, 4, 5])), (1, s.pick(32))])

        def model():
            f = self.desc(fd, 'FD_FDSTAT_SET_FLAGS', {'ISDIR'})
            if (f.flags ^ v) & ~5:
                raise Err('INVAL', 'NOTSUP')
            f.flags = v
            if f.tfd is not None:
                import fcntl
                fl = fcntl.fcntl(f.tfd, fcntl.F_GETFL) & ~os.O_APPEND
                fcntl.fcntl(f.tfd, fcntl.F_SETFL, fl | (os.O_APPEND if v & 1 else 0))
            return []
        f = self.m.get(fd)
        if f is not None and f.kind == 'dir' and f.base & R['FD_FDSTAT_SET_FLAGS']:
            return
        self.step('fd_fdstat_set_flags', (fd, v), model)

    # -- descriptors
    def op_fdstat(self, s):
        self.fdstat(self.fd(s))

    def fdstat(self, fd):
        def model():
            f = self.desc(fd)
            t = {'std': 2, 'dir': 3, 'file': 4}[f.kind]
            return [(OUT, bytes([t])), (OUT + 2, struct.pack('<H', f.flags)), (OUT + 8, struct.pack('<QQ', f.base, f.inh))]
        return self.step('fd_fdstat_get', (fd, OUT), model, free=[OUT + 1, OUT + 4, OUT + 5, OUT + 6, OUT + 7])

    def op_setrights(self, s):
        fd = self.fd(s)
        f = self.m.get(fd)
        b, i = (f.base, f.inh) if f else (ALLR, ALLR)
        k = s.pick(8)
        nb = b & ~(1 << s.pick(30)) if k < 4 else b & s.bits(32) if k == 4 else b if k == 5 else b | 1 << s.pick(31) if k == 6 else s.bits(64)
        ni = i if s.pick(2) else i & s.bits(32) if s.pick(2) else i | 1 << s.pick(64)

        def model():
            f = self.desc(fd)
            if nb & ~f.base or ni & ~f.inh:
                raise Err('NOTCAPABLE')
            f.base, f.inh = nb, ni
            return []
        self.step('fd_fdstat_set_rights', (fd, nb, ni), model)

    def op_prestat(self, s):
        fd = self.fd(s, ('dir',)) if s.chance(12) else self.fd(s)

        def model():
            f = self.desc(fd)
            if f.pre is None:
                raise Err('BADF', 'INVAL', 'NOTDIR', 'NOTSUP', 'NOTCAPABLE')
            return [(OUT, b'\0'), (OUT + 4, struct.pack('<I', len(f.pre.encode())))]
        ok, _ = self.step('fd_prestat_get', (fd, OUT), model, free=[OUT + 1, OUT + 2, OUT + 3])
        f = self.m.get(fd)
        n = len(f.pre.encode()) if f is not None and f.pre is not None else 3
        k = s.weighted([(4, n), (2, n + s.pick(5)), (2, s.pick(n + 1))])

        def model2():
            f = self.desc(fd)
            if f.pre is None:
                raise Err('BADF', 'INVAL', 'NOTDIR', 'NOTSUP', 'NOTCAPABLE')
            if k < n:
                raise Err('NAMETOOLONG')
            return [(BUF, f.pre.encode())]
        self.step('fd_prestat_dir_name', (fd, BUF, k), model2)

    def op_close(self, s):
        self.close_(self.fd(s))

    def close_(self, fd):
        def model():
            self.desc(fd)
            self.drop(fd)
            return []
        self.step('fd_close', (fd,), model)

    def drop(self, fd):
        f = self.m.pop(fd)
        self.closed.append(fd)
        for x in (f.tfd, f.mfd):
            if x is not None:
                os.close(x)
                self.mine.remove(x)

    def op_renumber(self, s):
        a, b = self.fd(s), self.fd(s)
        if s.pick(8) == 7:
            b = a

        def model():
            f = self.desc(a)
            self.desc(b)
            if a == b:
                return []
            self.drop(b)
            self.closed.remove(b)
            self.m[b] = self.m.pop(a)
            self.closed.append(a)
            return []
        self.step('fd_renumber', (a, b), model)

    # -- metadata
    def stat_writes(self, st):
        return [(OUT + 8, struct.pack('<Q', st.st_ino)), (OUT + 16, bytes([ftype(st.st_mode)])),
                (OUT + 24, struct.pack('<QQQQQ', st.st_nlink, st.st_size, st.st_atime_ns, st.st_mtime_ns, st.st_ctime_ns))]

    STATPAD = list(range(OUT, OUT + 8)) + list(range(OUT + 17, OUT + 24))

    def op_fstat(self, s):
        fd = self.fd(s, ('file', 'dir'))

        def model():
            f = self.desc(fd, 'FD_FILESTAT_GET')
            return self.stat_writes(os.fstat(f.mfd))
        f = self.m.get(fd)
        if f is not None and f.kind == 'std' and f.base & R['FD_FILESTAT_GET']:
            return
        self.step('fd_filestat_get', (fd, OUT), model, free=self.STATPAD)

    def op_stat(self, s):
        fd, fl = self.dirfd(s), s.pick(2)
        p, a, n = self.path(s)

        def model():
            f = self.desc(fd, 'PATH_FILESTAT_GET')
            self.within(f, p, fl)
            os.stat(p, dir_fd=f.tfd, follow_symlinks=bool(fl))
            return self.stat_writes(os.stat(p, dir_fd=f.mfd, follow_symlinks=bool(fl)))
        self.step('path_filestat_get', (fd, fl, a, n, OUT), model, free=self.STATPAD)

    def times(self, s):
        t = lambda: s.weighted([(4, s.pick(1000) * 10**9 + s.pick(10**4)), (3, 1600000000 * 10**9 + s.bits(32)), (2, (2 * 10**9 + s.bits(32) % 130000000) * 10**9 + s.pick(1000)), (1, 0), (1, 1)])
        return t(), t(), s.weighted([(3, 1), (3, 4), (3, 5), (2, 2), (2, 8), (2, 10), (1, 6), (1, 9), (1, 0), (1, 3), (1, 12), (1, 15)])

    def timed(self, name, args, model, where, at, mt, fl):
        """where() -> (dir fd or None, path, follow) on pywasm's tree, to read the times before and after"""
        def read():
            try:
                return where()
            except OSError:
                return None
        s0, t0 = read(), time.time_ns()
        ok, _ = self.step(name, args, model)
        s1, t1 = read(), time.time_ns()
        if s0 is None or s1 is None:
            return
        w = lambda: '\n'.join(self.trace[-25:]) + '\n'
        if not ok:
            check((s0.st_atime_ns, s0.st_mtime_ns) == (s1.st_atime_ns, s1.st_mtime_ns), lambda: w() + 'a failed call changed the times')
            return
        for what, given, set_, now, x0, x1 in (('access', at, 1, 2, s0.st_atime_ns, s1.st_atime_ns), ('modification', mt, 4, 8, s0.st_mtime_ns, s1.st_mtime_ns)):
            if fl & set_:
                check(x1 == given, lambda: w() + f'{what} time is {x1}, {given} was requested')
            elif fl & now:
                check(t0 - 20_000_000 <= x1 <= t1 + 20_000_000, lambda: w() + f'{what} time is {x1}, the current time was requested ({t0}..{t1})')
            else:
                check(x1 == x0, lambda: w() + f'{what} time changed from {x0} to {x1} without being requested')

    def op_settimes(self, s):
        fd = self.fd(s, ('file', 'dir'))
        at, mt, fl = self.times(s)

        def model():
            f = self.desc(fd, 'FD_FILESTAT_SET_TIMES')
            if fl & 3 == 3 or fl & 12 == 12:
                raise Err('INVAL')
            return []
        f = self.m.get(fd)
        if f is not None and f.kind == 'std' and f.base & R['FD_FILESTAT_SET_TIMES']:
            return

        def where():
            if f is None or f.mfd is None:
                raise OSError
            return os.fstat(f.mfd)
        self.timed('fd_filestat_set_times', (fd, at, mt, fl), model, where, at, mt, fl)

    def op_psettimes(self, s):
        fd, lf = self.dirfd(s), s.pick(2)
        p, a, n = self.path(s)
        at, mt, fl = self.times(s)
        f0 = self.m.get(fd)

        def model():
            f = self.desc(fd, 'PATH_FILESTAT_SET_TIMES')
            if fl & 3 == 3 or fl & 12 == 12:
                raise Err('INVAL')
            self.within(f, p, lf)
            os.stat(p, dir_fd=f.tfd, follow_symlinks=bool(lf))
            return []

        def where():
            if f0 is None or p is None or '\0' in p or f0.mfd is None:
                raise OSError
            try:
                self.resolve(f0, p, lf)
            except Err:
                raise OSError
            return os.stat(p, dir_fd=f0.mfd, follow_symlinks=bool(lf))
        bad = fl & 3 == 3 or fl & 12 == 12
        if bad and f0 is not None:      # which of two errors is reported is not judged
            try:
                self.within(f0, p, lf)
                os.stat(p, dir_fd=f0.tfd, follow_symlinks=bool(lf))
            except (Err, OSError):
                return
        self.timed('path_filestat_set_times', (fd, lf, a, n, at, mt, fl), model, where, at, mt, fl)

    # -- paths
    def op_mkdir(self, s):
        fd = self.dirfd(s)
        p, a, n = self.path(s)

        def model():
            f = self.desc(fd, 'PATH_CREATE_DIRECTORY')
            self.within(f, p, False, True)
            os.mkdir(p, dir_fd=f.tfd)
            return []
        self.step('path_create_directory', (fd, a, n), model)

    def op_rmdir(self, s):
        fd = self.dirfd(s)
        p, a, n = self.path(s)

        def model():
            f = self.desc(fd, 'PATH_REMOVE_DIRECTORY')
            self.within(f, p, False, True)
            self.dots(p)
            os.rmdir(p, dir_fd=f.tfd)
            return []
        self.step('path_remove_directory', (fd, a, n), model)

    def dots(self, p):
        """removing or renaming "." and ".." fails; with which code is not judged"""
        c = [x for x in p.split('/') if x]
        if not c or c[-1] in ('.', '..'):
            raise Err(ANY)

    def op_unlink(self, s):
        fd = self.dirfd(s)
        p, a, n = self.path(s)

        def model():
            f = self.desc(fd, 'PATH_UNLINK_FILE')
            self.within(f, p, False, True)
            self.dots(p)
            try:
                os.unlink(p, dir_fd=f.tfd)
            except IsADirectoryError:
                raise Err('ISDIR', 'PERM')
            return []
        self.step('path_unlink_file', (fd, a, n), model)

    def op_rename(self, s):
        fd, td = self.dirfd(s), self.dirfd(s)
        p, a, n = self.path(s)
        q, b, k = self.path(s, P2)

        def model():
            f, t = self.m.get(fd), self.m.get(td)
            if f is None or t is None:
                raise Err('BADF')
            f, t = self.desc(fd, 'PATH_RENAME_SOURCE'), self.desc(td, 'PATH_RENAME_TARGET')
            if p is None or q is None or '\0' in (p or '') + (q or ''):
                raise Err(ANY if p != q else {'ILSEQ', 'INVAL', 'NOENT'})      # which of two errors is not judged
            errs = set()
            for x, y in ((f, p), (t, q)):
                try:
                    self.within(x, y, False, True)
                except Err as e:
                    errs |= e.codes
            if errs:
                raise Err(errs | {'NOENT', 'NOTDIR', 'EXIST', 'NOTEMPTY', 'BUSY', 'INVAL', 'NAMETOOLONG', 'LOOP'})
            self.dots(p)
            self.dots(q)
            try:
                os.rename(p, q, src_dir_fd=f.tfd, dst_dir_fd=t.tfd)
            except OSError as e:
                raise Err(codes(e), self.alone(f, p, False), self.alone(t, q))
            return []
        self.step('path_rename', (fd, a, n, td, b, k), model)

    def alone(self, f, p, follow=None):
        """the error one of two paths gives by itself: which of two is reported is not judged"""
        try:
            if follow is None:
                os.stat((os.path.dirname(p.rstrip('/')) or '.') + '/.', dir_fd=f.tfd)
                return {'NOENT', 'NOTDIR'} if p.endswith('/') or not p else set()
            os.stat(p, dir_fd=f.tfd, follow_symlinks=follow)
        except OSError as e:
            return codes(e)
        return set()

    def op_link(self, s):
        fd, td, fl = self.dirfd(s), self.dirfd(s), s.pick(2)
        p, a, n = self.path(s)
        q, b, k = self.path(s, P2)

        def model():
            f, t = self.m.get(fd), self.m.get(td)
            if f is None or t is None:
                raise Err('BADF')
            f, t = self.desc(fd, 'PATH_LINK_SOURCE'), self.desc(td, 'PATH_LINK_TARGET')
            if p is None or q is None or '\0' in (p or '') + (q or ''):
                raise Err(ANY if p != q else {'ILSEQ', 'INVAL', 'NOENT'})      # which of two errors is not judged
            errs = set()
            for x, y, z, o in ((f, p, fl, False), (t, q, 0, True)):
                try:
                    self.within(x, y, z, o)
                except Err as e:
                    errs |= e.codes
            if errs:
                raise Err(errs | {'NOENT', 'NOTDIR', 'EXIST', 'PERM', 'BUSY', 'INVAL', 'NAMETOOLONG', 'LOOP', 'ACCES'})
            try:
                os.link(p, q, src_dir_fd=f.tfd, dst_dir_fd=t.tfd, follow_symlinks=bool(fl))
            except OSError as e:
                raise Err(codes(e), self.alone(f, p, bool(fl)), self.alone(t, q))
            return []
        self.step('path_link', (fd, fl, a, n, td, b, k), model)

    def op_symlink(self, s):
        fd = self.dirfd(s)
        t = s.of(self.links) if s.chance(13) else s.of(['/etc/passwd', '../../x', '', 'x\0y', 'n' * 300, '\u00e9/\u00e9'])
        tb = t.encode()
        self.said.append(t)
        self.put(P1, tb)
        q, b, k = self.path(s, P2)
        # a target that leads outside may be refused or stored (it can never be followed)

        def model():
            f = self.desc(fd, 'PATH_SYMLINK')
            if '\0' in t:
                raise Err(ANY)
            if t == '':
                raise Err(ANY)
            self.within(f, q, False, True)
            os.symlink(t, q, dir_fd=f.tfd)
            return []
        if q is not None and os.path.normpath(os.path.join(os.path.dirname(q), t)).split('/')[0] in ('', '..'):
            return self.adaptive_symlink(fd, t, len(tb), q, b, k, model)
        self.step('path_symlink', (P1, len(tb), fd, b, k), model)

    def adaptive_symlink(self, fd, t, n, q, b, k, model):
        try:
            r = self.g.call('path_symlink', P1, n, fd, b, k)
        except Exception as e:
            check(False, '\n'.join(self.trace[-25:]) + f'\npath_symlink to {t}: host exception {e!r}')
        self.trace.append(f'path_symlink({t!r}, {fd}, {q!r}) -> {code(r)}')
        if r == 0:
            # host programs follow links as well
            check(not t.startswith('/') and not (os.path.normpath(t).split('/')[0] == '..' and '/' not in q), lambda: '\n'.join(self.trace[-25:]) +
                  f'\na link {q!r} in descriptor {fd} leads to {t!r}, outside of its directory')
            try:
                model()
            except (Err, OSError) as e:
                check(False, lambda: '\n'.join(self.trace[-25:]) + f'\npath_symlink {t!r} {q!r} succeeded, expected {e!r}')

    def op_readlink(self, s):
        fd = self.dirfd(s)
        p, a, n = self.path(s)
        k = s.weighted([(4, 500), (3, s.pick(8)), (1, 0)])

        def model():
            f = self.desc(fd, 'PATH_READLINK')
            self.within(f, p, False)
            d = os.readlink(os.fsencode(p), dir_fd=f.tfd).replace(os.fsencode(self.b), os.fsencode(self.a))[:k]
            return [(BUF, d)] * (d != b'') + [(OUT, struct.pack('<I', len(d)))]
        if k == 0:
            return
        self.step('path_readlink', (fd, a, n, BUF, k, OUT), model)

    def op_open(self, s, p=None):
        fd = self.dirfd(s)
        lf = 1 - s.pick(2)
        if p is None:
            p, a, n = self.path(s)
        else:
            a, n = P1, len(p.encode())
            self.put(P1, p.encode())
            self.said.append(p)
        of = s.weighted([(6, 0), (5, 1), (2, 5), (3, 2), (2, 8), (2, 9), (1, s.pick(16))])
        rw = s.weighted([(4, R['FD_READ']), (4, R['FD_READ'] | R['FD_WRITE']), (2, R['FD_WRITE']), (1, 0)])
        if self.fullrights and s.chance(12):
            base, inh = (ALLR & ~(R['FD_READ'] | R['FD_WRITE'])) | rw, ALLR
        else:
            base, inh = s.bits(32) & ~(R['FD_READ'] | R['FD_WRITE']) | rw, s.bits(32)
        if s.chance(1, 32):
            base |= 1 << (30 + s.pick(34))
        if of & 2 or s.pick(5) == 4:        # directories are opened for reading
            base &= ~R['FD_WRITE']
        ff = s.weighted([(6, 0), (3, 1), (1, 4), (1, 5)])
        self.open_(fd, lf, p, a, n, of, base, inh, ff)

    def open_(self, fd, lf, p, a, n, of, base, inh, ff):
        new = {}

        def model():
            f = self.desc(fd, 'PATH_OPEN')
            also = set()
            try:
                self.within(f, p, lf and of & 5 != 5)
            except Err as e:
                also = e.codes
            if of & 8 and not f.base & R['PATH_FILESTAT_SET_SIZE']:
                raise Err('PERM', 'NOTCAPABLE', also)
            if of & 1 and not f.base & R['PATH_CREATE_FILE']:
                raise Err('NOTCAPABLE', 'PERM', also, {'EXIST'})
            if also:
                raise Err(also, {'INVAL', 'EXIST', 'ISDIR'} if of & 1 else set())
            slash = {'ISDIR', 'NOENT', 'NOTDIR', 'LOOP', 'EXIST', 'NAMETOOLONG', 'PERM', 'ACCES'} if of & 1 else set()
            eb = base & f.inh
            acc = {0: os.O_RDONLY, 1: os.O_RDONLY, 2: os.O_WRONLY, 3: os.O_RDWR}[(1 if eb & R['FD_READ'] else 0) | (2 if eb & R['FD_WRITE'] else 0)]
            fl = acc | (0 if lf else os.O_NOFOLLOW) | (os.O_CREAT if of & 1 else 0) | (os.O_DIRECTORY if of & 2 else 0) | \
                (os.O_EXCL if of & 4 else 0) | (os.O_TRUNC if of & 8 else 0) | (os.O_APPEND if ff & 1 else 0)
            try:
                t = self.own(os.open(p, fl, 0o644, dir_fd=f.tfd))
            except OSError as e:
                if e.errno in (errno.ELOOP, errno.ENOTDIR) and not lf:
                    raise Err('LOOP', 'NOTDIR')
                if e.errno == errno.EINVAL:
                    raise Err('INVAL', 'NOTDIR', 'ISDIR', 'EXIST', 'NOENT', 'LOOP', 'NAMETOOLONG', 'ACCES', 'PERM')
                raise Err(codes(e), slash if p.endswith('/') or e.errno == errno.EISDIR else set())
            st = os.fstat(t)
            new.update(t=t, st=st, f=f)
            return []

        def opaque(get):
            k = struct.unpack('<I', get(OUT, 4))[0]
            check(k not in self.m, lambda: '\n'.join(self.trace[-25:]) + f'\npath_open returned descriptor {k}, which is open')
            f, st = new['f'], new['st']
            kind = 'dir' if stat.S_ISDIR(st.st_mode) else 'file' if stat.S_ISREG(st.st_mode) else 'std'
            m = MF(kind, base & f.inh, inh & f.inh, ff, new['t'],
                   self.own(os.open(p, os.O_PATH | (0 if lf and not (of & 5 == 5) else os.O_NOFOLLOW), dir_fd=f.mfd)))
            m.wr = bool(base & f.inh & R['FD_WRITE'])
            self.m[k] = m
            new['k'] = k
            if k in self.closed:
                self.closed.remove(k)
            return [(OUT, struct.pack('<I', k))]
        ok, _ = self.step('path_open', (fd, lf, a, n, of, base, inh, ff, OUT), model, opaque=opaque)
        if ok:
            # granted rights: at most what was asked for and what the directory passes on, at least that less what does not apply
            k = new['k']
            m = self.m[k]
            r = self.g.call('fd_fdstat_get', k, OUT)
            gb, gi = struct.unpack('<QQ', self.g.get(OUT + 8, 16))
            self.mem[OUT:OUT + 24] = self.g.get(OUT, 24)
            na = R['FD_SEEK'] if m.kind == 'dir' else PATHR
            w = lambda: '\n'.join(self.trace[-25:]) + '\n'
            check(r == 0, lambda: w() + f'fd_fdstat_get on the new descriptor: {code(r)}')
            for what, g, e in (('base', gb, m.base), ('inheriting', gi, m.inh)):
                check(not g & ~e, lambda: w() + f'descriptor {k} has {what} rights {g:#x}, more than requested and passed on ({e:#x})')
                check(not e & ~g & ~na, lambda: w() + f'descriptor {k} has {what} rights {g:#x}, expected {e:#x}')
                if m.kind in ('dir', 'file'):
                    check(not g & na, lambda: w() + f'descriptor {k} is a {m.kind} and has {what} rights {g:#x}, among them {g & na:#x} which cannot apply to it')
            m.base, m.inh = gb, gi
        return ok

    # -- directories
    def op_readdir(self, s):
        fd = self.dirfd(s)
        self.readdir(fd, lambda: s.weighted([(2, 4096), (3, 24 + s.pick(80)), (2, 30 + s.pick(30)), (1, s.pick(24))]))

    def entries(self, f):
        """{name bytes: (inode, type)} on pywasm's tree; the inode of ".." in a preopened directory is not judged"""
        p = f'/proc/self/fd/{f.mfd}'
        out = {}
        for e in os.listdir(os.fsencode(p)):
            st = os.lstat(os.fsencode(p) + b'/' + e)
            out[e] = (st.st_ino, ftype(st.st_mode))
        out[b'.'] = (os.fstat(f.mfd).st_ino, 3)
        out[b'..'] = (None, 3)
        return out

    def readdir(self, fd, bufsize, limit=60):
        """a whole listing: calls with changing buffer sizes, resumed from the last complete entry"""
        f = self.m.get(fd)
        if f is None or not f.base & R['FD_READDIR'] or f.kind != 'dir':
            codes_ = {'BADF'} if f is None else {'NOTCAPABLE', 'NOTDIR', 'BADF'}
            def model():
                raise Err(codes_)
            self.step('fd_readdir', (fd, BUF, 100, 0, OUT), model)
            return
        want = self.entries(f)
        seen, cookie, cookies = [], 0, [0]
        w = lambda: '\n'.join(self.trace[-25:]) + f'\nlisting of descriptor {fd}: '
        big = max(len(n) for n in want) + 24
        for n in range(limit):
            size = bufsize() if n < limit - 20 else 4096
            got = []

            def opaque(get):
                used = struct.unpack('<I', get(OUT, 4))[0]
                check(used <= size, lambda: w() + f'{used} bytes reported for a buffer of {size}')
                got.append(get(BUF, used))
                return [(BUF, got[0]), (OUT, struct.pack('<I', used))]
            self.step('fd_readdir', (fd, BUF, size, cookie, OUT), lambda: [], free=[], opaque=opaque)
            buf, i, new = got[0], 0, []
            while i + 24 <= len(buf):
                nxt, ino, nl, ty = struct.unpack('<QQIB', buf[i:i + 21])
                nm = buf[i + 24:i + 24 + nl]
                cut = len(nm) < nl
                # even an entry that was cut short must be one of the directory's
                cand = [x for x in want if len(x) == nl] if cut else [nm] * (nm in want)
                check(cand, lambda: w() + f'entry {nm!r} of length {nl} is not in the directory')
                check(any(want[x][0] in (ino, None) and want[x][1] == ty for x in cand),
                      lambda: w() + f'entry {nm!r} has inode {ino} and type {ty}, expected {[want[x] for x in cand]}')
                if cut:
                    break
                new.append((nm, nxt))
                i += 24 + nl
            seen += [x for x, _ in new]
            if new:
                cookie = new[-1][1]
                cookies += [c for _, c in new]
            if len(buf) < size:
                check(i == len(buf), lambda: w() + f'{len(buf)} of {size} bytes were filled, ending in a partial entry')
                break
            check(len(buf) == size, 'unreachable')
            if not new and size >= big:
                check(False, w() + f'a buffer of {size} bytes made no progress')
        else:
            check(False, w() + 'the end was never reported')
        check(sorted(seen) == sorted(want), lambda: w() + f'returned {seen}, the directory has {sorted(want)}')
        self.kinds.add(('readdir', min(len(want), 5)))
        return cookies


    def op_resume(self, s):
        """any cookie that was returned resumes the listing after its entry"""
        fd = self.dirfd(s)
        f = self.m.get(fd)
        if f is None or not f.base & R['FD_READDIR'] or f.kind != 'dir':
            return
        if sum(len(n) + 24 for n in self.entries(f)) > 5000:
            return

        def opaque(into):
            def judge(get):
                used = struct.unpack('<I', get(OUT, 4))[0]
                check(used < 6000, lambda: '\n'.join(self.trace[-25:]) + f'\n{used} bytes used in a buffer of 6000')
                into.append(get(BUF, used))
                return [(BUF, into[0]), (OUT, struct.pack('<I', used))]
            return judge
        whole = []
        self.step('fd_readdir', (fd, BUF, 6000, 0, OUT), lambda: [], opaque=opaque(whole))
        b, i, at = whole[0], 0, []
        while i < len(b):
            nxt, _, nl, _ = struct.unpack('<QQIB', b[i:i + 21])
            i += 24 + nl
            at.append((nxt, i))
        if s.chance(5):
            # a cookie from when the directory was larger
            size = s.of([1, 24, 25, 60, 300, 6000])
            past = s.of([at[-1][0] + 1, at[-1][0] + 2, at[-1][0] + 1000, 1 << 32, (1 << 63) + 5, (1 << 64) - 1])
            none = []
            self.step('fd_readdir', (fd, BUF, size, past, OUT), lambda: [], opaque=opaque(none))
            check(len(none[0]) < size, lambda: '\n'.join(self.trace[-25:]) + f'\nlisting on from cookie {past}, past the end, fills the buffer of {size} bytes')
        for _ in range(2):
            if not at:
                return
            nxt, i = s.of(at)
            rest = []
            self.step('fd_readdir', (fd, BUF, 6000, nxt, OUT), lambda: [], opaque=opaque(rest))
            strip = lambda x: self.entry_list(x)
            check(strip(rest[0]) == strip(b[i:]), lambda: '\n'.join(self.trace[-25:]) + f'\nresuming at cookie {nxt} gives {rest[0].hex()}, expected {b[i:].hex()}')

    def entry_list(self, b):
        out, i = [], 0
        while i + 24 <= len(b):
            h = struct.unpack('<QQIB', b[i:i + 21])
            out.append((h, b[i + 24:i + 24 + h[2]]))
            i += 24 + h[2]
        return out, len(b)

    # -- calls on descriptors they do not apply to
    def op_sock(self, s):
        fd = self.fd(s)
        name, right, args = s.of([('sock_shutdown', 'SOCK_SHUTDOWN', (fd, 3)), ('sock_recv', 'FD_READ', (fd, IOV, 1, 0, OUT, OUT + 4)),
                                  ('sock_send', 'FD_WRITE', (fd, IOV, 1, 0, OUT)), ('sock_accept', 'SOCK_ACCEPT', (fd, 0, OUT))])
        self.put(IOV, struct.pack('<II', DATA, 4))

        def model():
            f = self.m.get(fd)
            if f is None:
                raise Err('BADF')
            raise Err('NOTSOCK', set() if f.base & R[right] else 'NOTCAPABLE')
        self.step(name, args, model)

    def op_badpoll(self, s):
        fds = [self.fd(s) for _ in range(1 + s.pick(2))]
        b = b''
        for i, fd in enumerate(fds):
            b += struct.pack('<QB7xI28x', i, 1 + s.pick(2), fd)
        b += struct.pack('<QB7xIxxxxQQHxxxxxx', 9, 0, 1, 0, 0, 0)
        self.put(IOV, b)
        bad = {'BADF' if fd not in self.m else 'NOTCAPABLE' for fd in fds if fd not in self.m or not self.m[fd].base & R['POLL_FD_READWRITE']}
        if not bad:
            return

        def model():
            raise Err(bad)
        self.step('poll_oneoff', (IOV, BUF, len(fds) + 1, OUT), model)


class Unjudged(Exception):
    pass
