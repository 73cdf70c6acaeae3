"""Guest-side driver for the WASI functions and a reference model that runs the same calls on a twin tree through the
kernel.  The model never looks at pywasm's state; its answers are ('ok', memory writes) or ('err', acceptable codes)."""
import contextlib
import errno
import io
import os
import shutil
import stat
import struct
import sys
import tempfile

from . import drive, enc
from .runner import Hang, HangViolation, Violation, check, guard

ERR = ['SUCCESS', '2BIG', 'ACCES', 'ADDRINUSE', 'ADDRNOTAVAIL', 'AFNOSUPPORT', 'AGAIN', 'ALREADY', 'BADF', 'BADMSG', 'BUSY', 'CANCELED', 'CHILD',
       'CONNABORTED', 'CONNREFUSED', 'CONNRESET', 'DEADLK', 'DESTADDRREQ', 'DOM', 'DQUOT', 'EXIST', 'FAULT', 'FBIG', 'HOSTUNREACH', 'IDRM',
       'ILSEQ', 'INPROGRESS', 'INTR', 'INVAL', 'IO', 'ISCONN', 'ISDIR', 'LOOP', 'MFILE', 'MLINK', 'MSGSIZE', 'MULTIHOP', 'NAMETOOLONG', 'NETDOWN',
       'NETRESET', 'NETUNREACH', 'NFILE', 'NOBUFS', 'NODEV', 'NOENT', 'NOEXEC', 'NOLCK', 'NOLINK', 'NOMEM', 'NOMSG', 'NOPROTOOPT', 'NOSPC',
       'NOSYS', 'NOTCONN', 'NOTDIR', 'NOTEMPTY', 'NOTRECOVERABLE', 'NOTSOCK', 'NOTSUP', 'NOTTY', 'NXIO', 'OVERFLOW', 'OWNERDEAD', 'PERM', 'PIPE',
       'PROTO', 'PROTONOSUPPORT', 'PROTOTYPE', 'RANGE', 'ROFS', 'SPIPE', 'SRCH', 'STALE', 'TIMEDOUT', 'TXTBSY', 'XDEV', 'NOTCAPABLE']
assert ERR[76] == 'NOTCAPABLE' and ERR[44] == 'NOENT' and ERR[28] == 'INVAL'
FUNCS = {
    'args_get': 'ii', 'args_sizes_get': 'ii', 'clock_res_get': 'ii', 'clock_time_get': 'iIi', 'environ_get': 'ii', 'environ_sizes_get': 'ii',
    'fd_advise': 'iIIi', 'fd_allocate': 'iII', 'fd_close': 'i', 'fd_datasync': 'i', 'fd_fdstat_get': 'ii', 'fd_fdstat_set_flags': 'ii',
    'fd_fdstat_set_rights': 'iII', 'fd_filestat_get': 'ii', 'fd_filestat_set_size': 'iI', 'fd_filestat_set_times': 'iIIi',
    'fd_pread': 'iiiIi', 'fd_prestat_dir_name': 'iii', 'fd_prestat_get': 'ii', 'fd_pwrite': 'iiiIi', 'fd_read': 'iiii', 'fd_readdir': 'iiiIi',
    'fd_renumber': 'ii', 'fd_seek': 'iIii', 'fd_sync': 'i', 'fd_tell': 'ii', 'fd_write': 'iiii', 'path_create_directory': 'iii',
    'path_filestat_get': 'iiiii', 'path_filestat_set_times': 'iiiiIIi', 'path_link': 'iiiiiii', 'path_open': 'iiiiiIIii',
    'path_readlink': 'iiiiii', 'path_remove_directory': 'iii', 'path_rename': 'iiiiii', 'path_symlink': 'iiiii', 'path_unlink_file': 'iii',
    'poll_oneoff': 'iiii', 'proc_exit': 'i', 'proc_raise': 'i', 'random_get': 'ii', 'sched_yield': '', 'sock_accept': 'iii',
    'sock_recv': 'iiiiii', 'sock_send': 'iiiii', 'sock_shutdown': 'ii'}
RIGHTS = ['FD_DATASYNC', 'FD_READ', 'FD_SEEK', 'FD_FDSTAT_SET_FLAGS', 'FD_SYNC', 'FD_TELL', 'FD_WRITE', 'FD_ADVISE', 'FD_ALLOCATE',
          'PATH_CREATE_DIRECTORY', 'PATH_CREATE_FILE', 'PATH_LINK_SOURCE', 'PATH_LINK_TARGET', 'PATH_OPEN', 'FD_READDIR', 'PATH_READLINK',
          'PATH_RENAME_SOURCE', 'PATH_RENAME_TARGET', 'PATH_FILESTAT_GET', 'PATH_FILESTAT_SET_SIZE', 'PATH_FILESTAT_SET_TIMES',
          'FD_FILESTAT_GET', 'FD_FILESTAT_SET_SIZE', 'FD_FILESTAT_SET_TIMES', 'PATH_SYMLINK', 'PATH_REMOVE_DIRECTORY', 'PATH_UNLINK_FILE',
          'POLL_FD_READWRITE', 'SOCK_SHUTDOWN', 'SOCK_ACCEPT']
R = {n: 1 << k for k, n in enumerate(RIGHTS)}
PATHR = sum(v for n, v in R.items() if n.startswith('PATH_'))
PRE_BASE, PRE_INH = 0b00000111101111111111111000000000, 0b00001111111111111111111111111111
NOBODY = 65534
PAGE = 65536
FILL = bytearray(b'\xa5' * PAGE)


def code(n):
    return ERR[n] if 0 <= n < len(ERR) else f'errno {n}'


def module(pages=1, start=None, maximum=1):
    """re-exports every WASI function; start: (locals, body) of _start, whose body may use index(name)"""
    m = enc.Mod()
    names = list(FUNCS)
    vt = {'i': 'i32', 'I': 'i64'}
    for n in names:
        m.imports.append(('wasi_snapshot_preview1', n, 'func', m.type(tuple(vt[c] for c in FUNCS[n]), () if n == 'proc_exit' else ('i32',))))
    m.mems.append((pages, maximum))
    m.exports.append(('memory', 'mem', 0))
    for k, n in enumerate(names):
        ps = [vt[c] for c in FUNCS[n]]
        m.func(ps, () if n == 'proc_exit' else ('i32',), [], [('local.get', i) for i in range(len(ps))] + [('call', k)], n)
    if start is not None:
        m.func([], [], start[0], start[1], '_start')
    return m


def index(name):
    return list(FUNCS).index(name)


CODE = None
OUTER = None


def outer():
    """a module with a memory of its own, calling the guest's functions"""
    m = enc.Mod()
    vt = {'i': 'i32', 'I': 'i64'}
    for n in FUNCS:
        m.imports.append(('guest', n, 'func', m.type(tuple(vt[c] for c in FUNCS[n]), () if n == 'proc_exit' else ('i32',))))
    m.mems.append((1, 1))
    m.exports.append(('memory', 'mem', 0))
    m.datas.append(enc.Data('active', b'\xa5' * PAGE, [('i32.const', 0)]))
    for k, n in enumerate(FUNCS):
        ps = [vt[c] for c in FUNCS[n]]
        m.func(ps, () if n == 'proc_exit' else ('i32',), [], [('local.get', i) for i in range(len(ps))] + [('call', k)], n)
    return m


@contextlib.contextmanager
def stdio(files):
    """Preview1 takes the streams from sys; give it scratch files so that nothing reaches the harness's own"""
    keep = sys.stdin, sys.stdout, sys.stderr
    sys.stdin, sys.stdout, sys.stderr = files
    try:
        yield
    finally:
        sys.stdin, sys.stdout, sys.stderr = keep


class Guest:
    def __init__(self, args=(), dirs=None, envs=None, pipes=(b'', b'', b''), std=None, mod=None, two=None):
        global CODE
        if CODE is None:
            CODE = enc.encode(module(start=([], [])))
        self.pw = drive.PW()
        self.own = []
        if std is None:
            self.own = [open(os.devnull, 'r'), open(os.devnull, 'w'), open(os.devnull, 'w')]
            std = self.own
        with stdio(std):
            self.wasi = drive.attempt(drive.pywasm.wasi.Preview1, list(args), dict(dirs or {}), dict(envs or {}))
        for k, b in enumerate(pipes):
            if b is not None:
                self.wasi.fd[k].pipe = io.BytesIO(b)
        # half of the calls come through another module with its own memory, which must stay as it is
        global OUTER
        if OUTER is None:
            e = enc.Mod()
            e.mems.append((1, 1))
            OUTER = drive.decode(enc.encode(outer())), drive.decode(enc.encode(e))
        self.calls = 0
        self.pw.instance(OUTER[1])
        self.wasi.bind(self.pw.rt)
        self.inst = self.pw.instance(self.pw.decode(mod or CODE))
        self.mem = self.pw.memory(self.inst, 'memory')
        self.outer = None
        self.first = self.inst
        if (mod is None) if two is None else two:
            keep = self.pw.rt.imports
            self.outer = self.pw.instance(OUTER[0], {('guest', n): self.pw.extern(self.inst, n) for n in FUNCS})
            self.pw.rt.imports = keep
            self.omem = self.pw.memory(self.outer, 'memory')

    def call(self, name, *args, cpu=10.0):
        """-> errno; Raised when an exception comes out"""
        a = []
        for c, x in zip(FUNCS[name], args):
            w = 32 if c == 'i' else 64
            x &= (1 << w) - 1
            a.append(x - (1 << w) if x >> (w - 1) else x)
        assert len(a) == len(FUNCS[name]) == len(args), name
        self.calls += 1
        if self.outer is not None and self.calls & 1 and self.inst is self.first:
            try:
                r = self.pw.invoke(self.outer, name, a, cpu=cpu)
            finally:
                check(self.omem.data == FILL, f'{name} changed the memory of another module')
        else:
            r = self.pw.invoke(self.inst, name, a, cpu=cpu)
        if name == 'proc_exit':
            return None
        check(len(r) == 1 and type(r[0]) is int, f'{name} returned {r!r}')
        return r[0]

    def put(self, addr, data):
        self.mem.put(addr, bytearray(data))

    def get(self, addr, n):
        return bytes(self.mem.get(addr, n))

    def u32(self, a):
        return self.mem.get_u32(a)

    def u64(self, a):
        return self.mem.get_u64(a)

    def close(self):
        """release host descriptors whatever state the guest left"""
        mine = set()
        for f in self.own:
            try:
                mine.add(f.fileno())
            except (OSError, ValueError):
                pass
        for f in list(self.wasi.fd):
            if f.host_status == self.wasi.FILE_STATUS_OPENED and f.host_fd not in mine and f.host_fd > 2:
                try:
                    os.close(f.host_fd)
                except OSError:
                    pass
        for f in self.own:
            try:
                f.close()
            except OSError:
                pass


# -- privileges and scratch space ----------------------------------------------------------------------------------------
def drop():
    """checks that let pywasm touch the file system run as nobody"""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)


BASE = None


def before():
    """parent, as root: a scratch directory everybody may write to"""
    global BASE
    BASE = tempfile.mkdtemp(prefix='vfw-')
    os.chmod(BASE, 0o777)


def after():
    shutil.rmtree(BASE, ignore_errors=True)


def setup(ctx):
    if BASE is None:         # replay
        before()
        ctx.data['own'] = True
    drop()
    ctx.data['dir'] = tempfile.mkdtemp(prefix='w-', dir=BASE)


def teardown(ctx):
    rmtree(ctx.data.get('dir'))
    if ctx.data.get('own'):
        shutil.rmtree(BASE, ignore_errors=True)


def rmtree(d):
    if d and os.path.isdir(d):
        for r, ds, fs in os.walk(d):
            try:
                os.chmod(r, 0o755)
            except OSError:
                pass
        shutil.rmtree(d, ignore_errors=True)


# -- host error -> acceptable codes --------------------------------------------------------------------------------------
NAMES = {}
for _n in ERR[1:76]:
    if hasattr(errno, 'E' + _n):
        NAMES[getattr(errno, 'E' + _n)] = _n
ALSO = {'ACCES': {'PERM'}, 'PERM': {'ACCES'}, 'OPNOTSUPP': {'NOTSUP'}}


def codes(e):
    n = NAMES.get(e.errno, 'IO')
    return {n} | ALSO.get(n, set())


class Err(Exception):
    def __init__(self, *cs):
        self.codes = set()
        for c in cs:
            self.codes |= {c} if isinstance(c, str) else c


ANY = {c for c in ERR[1:]}
ESCAPE = {'PERM', 'NOTCAPABLE', 'ACCES'}


def ftype(mode):
    return 3 if stat.S_ISDIR(mode) else 4 if stat.S_ISREG(mode) else 7 if stat.S_ISLNK(mode) else 2 if stat.S_ISCHR(mode) else \
        1 if stat.S_ISBLK(mode) else 0


class MF:
    """an open descriptor of the model"""

    def __init__(self, kind, base, inh, flags=0, tfd=None, mfd=None, pre=None, pipe=None):
        self.kind, self.base, self.inh, self.flags, self.tfd, self.mfd, self.pre, self.pipe = kind, base, inh, flags, tfd, mfd, pre, pipe
        self.dirname = None


def snapshot(root, data=True):
    """{relative path: (type, content / link target, link count)}; the grouping of hard links is part of it"""
    out, first = {}, {}

    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            p, r = d + b'/' + n, rel + b'/' + n
            s = os.lstat(p)
            k = stat.S_IFMT(s.st_mode)
            c = None
            if k == stat.S_IFREG:
                if data:
                    try:
                        with open(p, 'rb') as f:
                            c = f.read()
                    except PermissionError:
                        c = s.st_size
            elif k == stat.S_IFLNK:
                c = os.readlink(p).replace(os.fsencode(root), b'<root>')
            same = first.setdefault(s.st_ino, r) if k != stat.S_IFDIR else r
            out[r] = (k, c, s.st_nlink if k != stat.S_IFDIR else 0, same)
            if k == stat.S_IFDIR:
                try:
                    walk(p, r)
                except PermissionError:
                    pass
    walk(os.fsencode(root), b'')
    return out


def openfds():
    live = {}
    for n in map(int, os.listdir('/proc/self/fd')):
        try:
            s = os.fstat(n)
        except OSError:
            continue
        live[n] = (s.st_dev, s.st_ino)
    return live


class World:
    """pywasm's guest over tree A and the model over tree B"""

    def __init__(self, d, dirs, build, pipes=(b'', b'', b''), args=(), envs=None, std=None):
        """dirs: {guest name: relative host directory}; build(root) populates a tree (called for both)"""
        self.dir = tempfile.mkdtemp(dir=d)
        self.g = None
        self.a, self.b = os.path.join(self.dir, 'A'), os.path.join(self.dir, 'B')
        self.twins = []
        self.pipes0 = {}
        self.escapes = 0
        self.mine = []
        try:
            for r in (self.a, self.b):
                os.mkdir(r)
                build(r)
            if std is not None:         # contents of the three files behind the standard streams
                std = [self.stream(k, c) for k, c in enumerate(std)]
            self.fds0 = openfds()
            self.g = Guest(args=args, envs=envs, dirs={k: os.path.join(self.a, v) for k, v in dirs.items()}, pipes=pipes, std=std)
        except BaseException:
            self.close()
            raise
        self.m = {}
        for k in range(3):
            self.m[k] = MF('std', R['POLL_FD_READWRITE'] | R['FD_WRITE' if k else 'FD_READ'], 0,
                           pipe=io.BytesIO(pipes[k]) if pipes[k] is not None else None,
                           tfd=self.twins[k] if std is not None and pipes[k] is None else None)
            self.pipes0[k] = (self.g.wasi.fd[k].pipe, self.m[k].pipe)
        for n, k in enumerate(sorted((os.path.normpath(k), v) for k, v in dirs.items())):
            self.m[3 + n] = MF('dir', PRE_BASE, PRE_INH, 0, self.own(os.open(os.path.join(self.b, k[1]), os.O_RDONLY | os.O_DIRECTORY)),
                               self.own(os.open(os.path.join(self.a, k[1]), os.O_PATH)), pre=k[0])
        self.closed = []
        self.trace = []
        self.said = []
        self.mem = bytearray(self.g.mem.data)
        self.kinds = set()
        self.ok = self.failed = 0

    def stream(self, k, content):
        for r in (self.b, self.a):
            with open(os.path.join(r, f'std{k}'), 'wb') as f:
                f.write(content)
            fd = os.open(os.path.join(r, f'std{k}'), os.O_RDWR if k else os.O_RDONLY)
            if r == self.b:
                self.twins.append(self.own(fd))
        self.own(fd)
        return open(fd, 'w' if k else 'r', closefd=False)

    def own(self, fd):
        self.mine.append(fd)
        return fd

    def close(self):
        for fd in self.mine:
            try:
                os.close(fd)
            except OSError:
                pass
        if self.g:
            self.g.close()
        rmtree(self.dir)

    # -- the differential step
    def put(self, addr, data):
        self.g.put(addr, data)
        self.mem[addr:addr + len(data)] = data

    def step(self, name, args, model, free=(), opaque=None):
        """model() -> list of (addr, bytes) writes, or raises Err; free: addresses of padding the call may write.
        opaque(get) judges outputs the model cannot predict: it receives a memory reader and returns writes."""
        desc = f'{name}({", ".join(map(str, args))})' + (f'  {self.said}' if self.said else '')
        self.said = []
        try:
            want = ('ok', model())
        except Err as e:
            want = ('err', e.codes)
        except OSError as e:
            want = ('err', codes(e))
        try:
            r = self.g.call(name, *args)
        except drive.Raised as e:
            got = ('raised', e)
        else:
            got = ('ok', None) if r == 0 else ('err', code(r))
        self.trace.append(f'{desc} -> {got[0] if got[0] != "err" else got[1]}')
        w = lambda: '\n'.join(self.trace[-25:]) + '\n'
        check(got[0] != 'raised', lambda: w() + f'{desc}: host exception {got[1]!r}')
        if want[0] == 'ok':
            check(got[0] == 'ok', lambda: w() + f'{desc}: failed with {got[1]}, POSIX/WASI says it succeeds')
            writes = want[1]
            if opaque:
                writes = list(writes) + opaque(self.g.get)
            for a, b in writes:
                self.mem[a:a + len(b)] = b
            self.ok += 1
        else:
            check(got[0] == 'err', lambda: w() + f'{desc}: succeeded, expected {sorted(want[1])[:8]}')
            check(got[1] in want[1], lambda: w() + f'{desc}: failed with {got[1]}, expected {sorted(want[1])[:8]}')
            self.failed += 1
        now = self.g.mem.data
        if got[0] == 'ok':
            for a in free:
                self.mem[a] = now[a]
        if now != self.mem:
            d = [i for i in range(min(len(now), len(self.mem))) if now[i] != self.mem[i]]
            check(False, lambda: w() + f'{desc}: guest memory ({len(now)} bytes) differs at {d[:6]}: {bytes(now[d[0]:d[0] + 32]).hex() if d else ""}, expected '
                  f'{bytes(self.mem[d[0]:d[0] + 32]).hex() if d else len(self.mem)}')
        self.kinds.add((name, got[0] if got[0] == 'ok' else got[1]))
        return got[0] == 'ok', (got[1] if got[0] == 'err' else 'SUCCESS')

    def tree(self, what=''):
        sa, sb = snapshot(self.a), snapshot(self.b)
        if sa != sb:
            ks = [k for k in sorted(set(sa) | set(sb)) if sa.get(k) != sb.get(k)]
            raise Violation('\n'.join(self.trace[-25:]) + f'\n{what}file trees differ: ' +
                            '; '.join(f'{k.decode(errors="replace")}: {str(sa.get(k))[:300]}, expected {str(sb.get(k))[:300]}' for k in ks[:4]))

    def hostfds(self, what=''):
        """the host descriptors pywasm holds are exactly one per live descriptor, and none of the harness's was closed"""
        live = openfds()
        for n in self.mine + [f.fileno() for f in self.g.own]:
            check(n in live, lambda: '\n'.join(self.trace[-25:]) + f'\n{what}a host descriptor that is not pywasm\'s was closed')
        theirs = sorted(v for n, v in live.items() if self.fds0.get(n) != v and n not in self.mine and n not in [f.fileno() for f in self.g.own])
        want = sorted((s.st_dev, s.st_ino) for s in (os.fstat(f.mfd) for f in self.m.values() if f.mfd is not None))
        theirs2 = [t for t in theirs if t in want or self.inside(t)]
        check(theirs2 == want, lambda: '\n'.join(self.trace[-25:]) + f'\n{what}pywasm holds host descriptors for {len(theirs2)} objects, {len(want)} are open: '
              f'leaked {[t for t in theirs2 if theirs2.count(t) > want.count(t)]}, lost {[t for t in want if want.count(t) > theirs2.count(t)]}')

    def inside(self, t):
        return t[0] == os.stat(self.dir).st_dev

    # -- model helpers
    def desc(self, fd, right=None, also=()):
        """the live descriptor holding the right, or the error"""
        f = self.m.get(fd)
        if f is None:
            raise Err('BADF')
        if right is not None and not f.base & R[right]:
            raise Err('NOTCAPABLE', set(also), {'ISDIR'} if f.kind == 'dir' else set())
        return f

    def file(self, fd, right, also=()):
        f = self.desc(fd, right, also)
        if f.kind == 'dir':
            raise Err('ISDIR', 'NOTCAPABLE', 'BADF', 'INVAL', 'SPIPE')
        return f

    def resolve(self, f, path, follow):
        """raise Err when the path leaves the directory f; otherwise nothing"""
        if path.startswith('/'):
            self.escapes += 1
            raise Err(ESCAPE)
        parts = path.split('/')
        cur, hops = [], 0
        while parts:
            c = parts.pop(0)
            if c in ('', '.'):
                continue
            if c == '..':
                if not cur:
                    self.escapes += 1
                    raise Err(ESCAPE | {'NOENT', 'NOTDIR', 'NOTEMPTY', 'INVAL', 'BUSY', 'EXIST', 'ISDIR', 'LOOP'})
                cur.pop()
                continue
            cur.append(c)
            last = not any(x not in ('', '.') for x in parts)
            if last and not follow and not parts:
                break
            try:
                t = os.readlink('/'.join(cur), dir_fd=f.tfd)
            except OSError as e:
                if e.errno in (errno.EINVAL,):
                    s = os.stat('/'.join(cur), dir_fd=f.tfd)
                    if parts and not stat.S_ISDIR(s.st_mode):
                        return      # the kernel will say ENOTDIR
                    continue
                return              # ... or ENOENT
            hops += 1
            if hops > 60:
                return
            if t.startswith('/'):
                self.escapes += 1
                raise Err(ESCAPE | {'NOENT'})
            cur.pop()
            parts = t.split('/') + parts
