from vf import enc, wasi
W = 'pywasm/wasi.py'


def plantw(id, edits, demo, needs, breaks, file=W, mods=None):
    plant(id, id[:3], file, edits, demo, mods or {}, needs, breaks, wasi=True)


START = '''
tmp = tempfile.TemporaryDirectory()
top = tmp.name
'''

plantw('W01-environ-stride', [('''        for e in self.envs:
            mems.put_u32(environ, environ_buf)
            environ += 4
''', '''        for e in self.envs:
            mems.put_u64(environ, environ_buf)
            environ += 4
''')], '''
g = Guest(envs={'A': '1', 'BC': '22'})
# as a C library does it: the strings first, the pointers right behind them
expect(g('environ_sizes_get', 0, 4), 0, 'the result of environ_sizes_get')
n, size = g.mem.get_u32(0), g.mem.get_u32(4)
g.mem.put(0, bytearray(b'\\xa5' * 256))
expect(g('environ_get', 64, 64 + 4 * n), 0, 'the result of environ_get')
expect([g.mem.get_u32(64 + 4 * k) for k in range(n)], [72, 76], 'the pointers')
expect(bytes(g.mem.get(72, size)), b'A=1\\0BC=22\\0', 'the strings')
g.mem.put(0, bytearray(b'\\xa5' * 256))
expect(g('environ_get', 64, 16), 0, 'the result of environ_get')
expect(bytes(g.mem.get(72, 8)), b'\\xa5' * 8, 'the memory behind the pointers')
''', 'a guest that keeps other data right behind the array of environment pointers, rather than the strings',
    'environ_get writes four bytes past the array of pointers')

plantw('W02-seek-clamp', [('''        offs = os.lseek(file.host_fd, args[1], args[2])
''', '''        offs = os.lseek(file.host_fd, max(args[1], 0) if args[2] != self.WHENCE_CUR else args[1], args[2])
''')], START + '''
open(os.path.join(top, 'f'), 'w').write('0123456789')
g = Guest(dirs={'/': top})
fd = g.open(3, 'f', rights=0x26)
expect((g('fd_seek', fd, 4, 0, 0), g.mem.get_u64(0)), (0, 4), 'seeking to 4')
expect((g('fd_seek', fd, -2, 1, 0), g.mem.get_u64(0)), (0, 2), 'seeking back by 2')
expect((g('fd_seek', fd, -3, 2, 0), g.mem.get_u64(0)), (0, 7), 'seeking to 3 before the end')
expect(g('fd_seek', fd, -3, 0, 0), 28, 'the result of seeking to -3')
''', 'fd_seek relative to the end by a negative amount, or to a negative offset', 'negative offsets count as zero')

plantw('W04-inheriting-rights', [('''        if file.wasm_rights_root & args[2] != args[2]:
            return [self.ERRNO_NOTCAPABLE]
''', '''        if (file.wasm_rights_base | file.wasm_rights_root) & args[2] != args[2]:
            return [self.ERRNO_NOTCAPABLE]
''')], START + '''
g = Guest(dirs={'/': top})
LINK = 1 << 11
expect(g('fd_fdstat_set_rights', 3, LINK | 1 << 13, 1 << 1), 0, 'the result of giving up rights')
expect(g('fd_fdstat_set_rights', 3, LINK, LINK), 76, 'the result of taking a right to pass on')
expect(g('fd_fdstat_get', 3, 0), 0, 'the result of fd_fdstat_get')
expect(g.mem.get_u64(16), 2, 'the rights passed on')
''', 'fd_fdstat_set_rights on a descriptor that has a right itself that it does not pass on',
    'rights to pass on may be extended by those of the descriptor itself')

plantw('W04-truncate-right', [('''            if file.wasm_rights_base & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
                return [self.ERRNO_PERM]
''', '''            if (file.wasm_rights_base | file.wasm_rights_root) & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
                return [self.ERRNO_PERM]
''')], START + '''
p = os.path.join(top, 'f')
open(p, 'w').write('0123456789')
g = Guest(dirs={'/': top})
size = 1 << 19
expect(g('fd_fdstat_set_rights', 3, 1 << 13, 0x1fffffff), 76, 'the result of taking a right')
expect(g('fd_fdstat_set_rights', 3, 1 << 13, 1 << 1 | 1 << 6 | size), 0, 'the result of giving up rights')
e = g('path_open', 3, 0, *g.path('f'), 8, 1 << 6, 0, 0, 512)
expect(e != 0, True, 'whether truncating without the right fails')
expect(open(p).read(), '0123456789', 'the file')
''', 'a directory that passes on the right to set a size but does not have it any more, and an open that truncates',
    'a file is truncated without the right to do so')

plantw('W05-link-follow', [('''        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
        try:
''', '''        foll = args[0] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
        try:
''')], START + '''
open(os.path.join(top, 'f'), 'w').write('x')
os.symlink('f', os.path.join(top, 's'))
g = Guest(dirs={'/': top})
for follow, name in [(0, 'a'), (1, 'b')]:
    expect(g('path_link', 3, follow, *g.path('s'), 3, *g.path(name, 1100)), 0, 'the result of linking')
    expect(os.path.islink(os.path.join(top, name)), not follow, f'whether the link {name} is a symbolic one')
''', 'a hard link to a symbolic link, with a lookup flag that disagrees with the parity of the descriptor',
    'whether a symbolic link is followed depends on the number of the descriptor')

plantw('W06-last-name', [('''            dirent += 24
            if dirent + len(name) > bufend:
                break
''', '''            dirent += 24
            if dirent + len(name) >= bufend:
                break
''')], START + '''
for n in ['aaaa', 'bbbb', 'cc']:
    open(os.path.join(top, n), 'w').close()
g = Guest(dirs={'/': top})
def names(size):
    """as a C library does it"""
    out, cookie = [], 0
    for _ in range(100):
        expect(g('fd_readdir', 3, 4096, size, cookie, 512), 0, 'the result of fd_readdir')
        used = g.mem.get_u32(512)
        at = 0
        n = 0
        while at + 24 <= used:
            l = g.mem.get_u32(4096 + at + 16)
            if at + 24 + l > used:
                break
            cookie = g.mem.get_u64(4096 + at)
            out.append(bytes(g.mem.get(4096 + at + 24, l)).decode())
            at += 24 + l
            n += 1
        if used < size:
            return sorted(out)
        if not n:
            return sorted(out) + ['no progress']
    return out
for size in [28, 40, 56, 79, 200]:
    expect(names(size), ['.', '..', 'aaaa', 'bbbb', 'cc'], f'the names read with a buffer of {size} bytes')
''', 'a buffer that ends exactly behind the name of an entry', 'an entry that fits exactly is never delivered') 

plantw('W07-renumber-rights', [('''        dest.wasm_rights_base = stem.wasm_rights_base
        dest.wasm_rights_root = stem.wasm_rights_root
''', '''        dest.wasm_rights_base = stem.wasm_rights_base
''')], START + '''
os.mkdir(os.path.join(top, 'd'))
g = Guest(dirs={'/': top})
a = g.open(3, 'd', oflags=2, rights=1 << 13, root=0x1fffffff)
b = g.open(3, 'd', oflags=2, rights=1 << 13, root=1 << 1)
expect(g('fd_renumber', b, a), 0, 'the result of fd_renumber')
expect(g('fd_fdstat_get', a, 0), 0, 'the result of fd_fdstat_get')
expect(g.mem.get_u64(16), 2, 'the rights passed on by the renumbered descriptor')
''', 'fd_renumber between directories that pass on different rights',
    'the descriptor passes on the rights of the one it replaces')

plantw('W07-leak', [('''            os.close(dest.host_fd)
        dest.host_fd = stem.host_fd
        dest.host_flag = stem.host_flag
''', '''            os.close(dest.host_fd)
        dest.host_fd = os.dup(stem.host_fd)
        dest.host_flag = stem.host_flag
''')], START + '''
g = Guest(dirs={'/': top})
def count():
    return len(os.listdir('/proc/self/fd'))
a = g.open(3, 'a', oflags=1, rights=0x46)
n = count()
for k in range(3):
    b = g.open(3, 'b', oflags=1, rights=0x46)
    expect(g('fd_renumber', b, a), 0, 'the result of fd_renumber')
expect(count(), n, 'the number of open descriptors of the host')
''', 'fd_renumber of an opened file, and a look at the descriptors of the host',
    'every renumbering leaks a descriptor of the host')

plantw('W08-times-float', [('''        os.utime(file.host_fd, ns=(atim, mtim))
''', '''        os.utime(file.host_fd, (atim / 1000000000, mtim / 1000000000))
''')], START + '''
p = os.path.join(top, 'f')
open(p, 'w').close()
g = Guest(dirs={'/': top})
fd = g.open(3, 'f', rights=0x1fffffff & ~(1 << 6))
for a, m in [(1000000000, 2000000000), (1700000000123456789, 1700000001987654321)]:
    expect(g('fd_filestat_set_times', fd, a, m, 5), 0, 'the result of fd_filestat_set_times')
    s = os.stat(p)
    expect((s.st_atime_ns, s.st_mtime_ns), (a, m), 'the times')
''', 'a present day time that is not a multiple of a microsecond', 'times are rounded to what a double can hold')

plantw('W09-userdata', [('''            userdata = mems.get_u64(addr)
            eype = mems.get_u8(addr + 8)
''', '''            userdata = mems.get_i64(addr)
            eype = mems.get_u8(addr + 8)
''')], START + '''
g = Guest()
for u in [1, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]:
    g.mem.put(0, bytearray(struct.pack('<QB7xIxxxxQQHxxxxxx', u, 0, 1, 1, 0, 0)))
    expect((g('poll_oneoff', 0, 256, 1, 512), g.mem.get_u32(512)), (0, 1), f'polling with the user data {u:#x}')
    expect(g.mem.get_u64(256), u, 'the user data of the event')
''', 'a subscription whose user data has its highest bit set', 'polling fails with a host exception')

plantw('W09-absolute-past', [('''                    ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval
''', '''                    ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME and nval > ctim else ctim + nval
''')], START + '''
import threading
import time
g = Guest()
g.mem.put(0, bytearray(struct.pack('<QB7xIxxxxQQHxxxxxx', 5, 0, 1, 1500000000, 0, 1)))
expect(time.monotonic_ns() > 1500000000, True, 'whether the time is in the past')
t = time.monotonic()
expect((g('poll_oneoff', 0, 256, 1, 512), g.mem.get_u32(512)), (0, 1), 'polling for a time in the past')
expect(time.monotonic() - t < 1, True, 'whether polling for a time in the past returned at once')
''', 'a subscription for an absolute time in the past', 'polling waits for as long as the clock took to get to that time')

plantw('W10-empty-buffer', [('''            if size > 0:
                mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                offs += size
            iovs_ptr += 8
''', '''            if size > 0:
                mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                offs += size
                iovs_ptr += 8
''')], START + '''
import socket
g = Guest()
l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen(1)
c = socket.create_connection(l.getsockname())
s, _ = l.accept()
g.wasi.fd.append(g.wasi.File(host_fd=s.fileno(), host_flag=0, host_name='s', host_status=g.wasi.FILE_STATUS_OPENED, pipe=None, wasm_fd=3, wasm_flag=0,
    wasm_name='s', wasm_rights_base=0x3fffffff, wasm_rights_root=0, wasm_status=g.wasi.FILE_STATUS_OPENED, wasm_type=g.wasi.FILETYPE_SOCKET_STREAM))
c.sendall(b'abcdef')
e = g('sock_recv', 3, *g.iov((0, 2), (100, 0), (200, 4)), 0, 512, 516)
expect((e, g.mem.get_u32(512)), (0, 6), 'the result of receiving')
expect((bytes(g.mem.get(0, 2)), bytes(g.mem.get(200, 4))), (b'ab', b'cdef'), 'the data received')
''', 'sock_recv with an empty buffer in front of others', 'the data behind the empty buffer is lost')

plantw('W11-dirname-size', [('''        if len(name) > args[2]:
            return [self.ERRNO_NAMETOOLONG]
''', '''        if len(file.wasm_name) > args[2]:
            return [self.ERRNO_NAMETOOLONG]
''')], START + '''
g = Guest(dirs={'d\u00e9\u00e9': top})
expect((g('fd_prestat_get', 3, 0), g.mem.get_u32(4)), (0, 5), 'the size of the name')
expect(g('fd_prestat_dir_name', 3, 64, 5), 0, 'the result for a buffer of five bytes')
g.mem.put(64, bytearray(8))
e = g('fd_prestat_dir_name', 3, 64, 3)
expect(bytes(g.mem.get(67, 5)), bytes(5), 'the memory behind a buffer of three bytes')
''', 'the name of a preopened directory that takes more bytes than characters, and a buffer in between',
    'fd_prestat_dir_name writes past the end of the buffer')

plantw('W12-exit-code', [('''            raise Exception(SystemExit, args[0])
''', '''            raise Exception(SystemExit, args[0] & 0xff)
''')], '''
for code in [0, 1, 255, 256, 1000]:
    g = Guest()
    rt = g.rt
    inst = rt.instance(module('exit%d' % code))
    expect(g.wasi.main(rt, inst) & 0xffffffff, code, 'the exit code')
''', 'an exit code of 256 or more', 'only the low byte of the exit code is returned',
    mods={'exit%d' % c: enc.encode(wasi.module(start=([], [('i32.const', c), ('call', wasi.index('proc_exit'))]))) for c in (0, 1, 255, 256, 1000)})

plantw('W13-env-equals', [('''        spes = e.split('=', 1)
        wasi_envs[spes[0]] = spes[1]
''', '''        spes = e.rsplit('=', 1)
        wasi_envs[spes[0]] = spes[1]
''')], '''
import subprocess
for v in ['A=1', 'OPTS=--level=3', 'X==']:
    r = subprocess.run([sys.executable, '-B', '-m', 'pywasm', '--wasi', 'preview1', '--wasi-envs', v, '--wasi-envs', 'OPTS=--mode=4', os.path.join(here, 'env.wasm')],
                       capture_output=True, text=True)
    want = sorted({v.split('=', 1)[0]: v, 'OPTS': 'OPTS=--mode=4'}.items())
    expect(r.stdout.split('\\0')[:2], [e for _, e in want][:2] if len(want) > 1 else [want[0][1], ''], f'the environment for {v}')
''', 'a repeated variable whose value contains an equals sign',
    'the variable is split at its last equals sign, so a later setting does not replace an earlier one', file='pywasm/__main__.py',
    mods={'env': enc.encode(wasi.module(start=([], [
        ('i32.const', 0), ('i32.const', 4), ('call', wasi.index('environ_sizes_get')), ('drop',),
        ('i32.const', 64), ('i32.const', 1024), ('call', wasi.index('environ_get')), ('drop',),
        ('i32.const', 16), ('i32.const', 1024), ('i32.store', 2, 0),
        ('i32.const', 20), ('i32.const', 4), ('i32.load', 2, 0), ('i32.store', 2, 0),
        ('i32.const', 1), ('i32.const', 16), ('i32.const', 1), ('i32.const', 24), ('call', wasi.index('fd_write')), ('drop',)])))})

# ---- second round
plantw('W01-empty-value', [('''        self.envs = ['='.join(e) for e in sorted(envs.items())]
''', '''        self.envs = ['='.join(e) for e in sorted(envs.items()) if all(e)]
''')], '''
g = Guest(envs={'A': '1', 'B': '', 'C': '3'})
expect(g('environ_sizes_get', 0, 4), 0, 'the result of environ_sizes_get')
expect((g.mem.get_u32(0), g.mem.get_u32(4)), (3, 11), 'the number and size of the variables')
expect(g('environ_get', 64, 256), 0, 'the result of environ_get')
expect(bytes(g.mem.get(256, 11)), b'A=1\\0B=\\0C=3\\0', 'the variables')
''', 'an environment variable whose value is empty', 'the variable is missing')

plantw('W02-empty-iovec', [('''                lambda: os.read(file.host_fd, elem_len),
                lambda: file.pipe.read(elem_len),
            ][self.help_pipe(args[0])]()
            mems.put(elem_ptr, bytearray(data))
            iovs_ptr += 8
            size += len(data)
            if len(data) < elem_len:
                break
''', '''                lambda: os.read(file.host_fd, elem_len),
                lambda: file.pipe.read(elem_len),
            ][self.help_pipe(args[0])]()
            mems.put(elem_ptr, bytearray(data))
            iovs_ptr += 8
            size += len(data)
            if len(data) == 0:
                break
''')], START + '''
open(os.path.join(top, 'f'), 'w').write('0123456789')
g = Guest(dirs={'/': top})
fd = g.open(3, 'f', rights=0x26)
expect((g('fd_read', fd, *g.iov((0, 4), (100, 3)), 512), g.mem.get_u32(512)), (0, 7), 'reading 7 bytes')
expect((g('fd_seek', fd, 0, 0, 520), g('fd_read', fd, *g.iov((0, 4), (50, 0), (100, 3)), 512), g.mem.get_u32(512)), (0, 0, 7), 'reading 7 bytes with an empty buffer between')
expect((bytes(g.mem.get(0, 4)), bytes(g.mem.get(100, 3))), (b'0123', b'456'), 'what was read')
''', 'fd_read with an empty buffer in front of another one', 'reading stops at the empty buffer')

plantw('W02-append-stays', [('''        file.host_flag &= ~os.O_APPEND
        file.host_flag &= ~os.O_NONBLOCK
''', '''        file.host_flag &= ~os.O_NONBLOCK
''')], START + '''
p = os.path.join(top, 'f')
open(p, 'w').write('0123456789')
g = Guest(dirs={'/': top})
fd = g.open(3, 'f', rights=0x6e)
def write(data):
    g.mem.put(0, bytearray(data))
    expect(g('fd_write', fd, *g.iov((0, len(data))), 512), 0, 'the result of writing')
write(b'ab')
expect(g('fd_fdstat_set_flags', fd, 1), 0, 'the result of setting the append flag')
write(b'cd')
expect(g('fd_fdstat_set_flags', fd, 0), 0, 'the result of clearing the append flag')
expect(g('fd_seek', fd, 4, 0, 520), 0, 'the result of seeking')
write(b'ef')
expect(open(p).read(), 'ab23ef6789cd', 'the file')
''', 'the append flag is set and cleared again, and data is written after that',
    'the flag is reported as cleared, but data is still appended')

plantw('W04-file-rights', [('''                self.RIGHTS_PATH_OPEN,
                self.RIGHTS_PATH_READLINK,
                self.RIGHTS_PATH_RENAME_SOURCE,
''', '''                self.RIGHTS_PATH_OPEN,
                self.RIGHTS_PATH_RENAME_SOURCE,
''')], START + '''
open(os.path.join(top, 'f'), 'w').close()
g = Guest(dirs={'/': top})
fd = g.open(3, 'f')
expect(g('fd_fdstat_get', fd, 0), 0, 'the result of fd_fdstat_get')
paths = sum(1 << k for k in [9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 24, 25, 26])
expect(g.mem.get_u64(8) & paths, 0, 'the rights to paths of an ordinary file')
expect(g.mem.get_u64(16) & paths, 0, 'the rights to paths that an ordinary file passes on')
''', 'an ordinary file that is opened with all rights, and a look at the right to read links', 'an ordinary file has a right that only directories can have')

plantw('W05-readlink-size', [('''        mems.put_u32(args[5], size)
        return [self.ERRNO_SUCCESS]

    def path_remove_directory(''', '''        mems.put_u32(args[5], len(data))
        return [self.ERRNO_SUCCESS]

    def path_remove_directory(''')], START + '''
os.symlink('target', os.path.join(top, 's'))
g = Guest(dirs={'/': top})
for n in [0, 1, 5, 6, 7, 100]:
    g.mem.put(0, bytearray(16))
    expect(g('path_readlink', 3, *g.path('s'), 0, n, 512), 0, 'the result of reading a link')
    expect(g.mem.get_u32(512), min(n, 6), f'the size returned for a buffer of {n} bytes')
    expect(bytes(g.mem.get(0, 16)), b'target'[:n].ljust(16, b'\\0'), f'the content of a buffer of {n} bytes')
''', 'a buffer that is shorter than the target of the link', 'the size of the target is returned instead of how much is in the buffer')

plantw('W06-past-end', [('''        mems.put_u32(args[4], dirent - args[1] if cookie >= len(result) else buflen)
''', '''        mems.put_u32(args[4], dirent - args[1] if cookie == len(result) else buflen)
''')], START + '''
for k in range(4):
    open(os.path.join(top, f'f{k}'), 'w').close()
g = Guest(dirs={'/': top})
cookie = 0
for _ in range(20):
    expect(g('fd_readdir', 3, 4096, 60, cookie, 512), 0, 'the result of fd_readdir')
    used = g.mem.get_u32(512)
    at = 0
    while at + 24 <= used and at + 24 + g.mem.get_u32(4096 + at + 16) <= used:
        cookie = g.mem.get_u64(4096 + at)
        at += 24 + g.mem.get_u32(4096 + at + 16)
    for n in os.listdir(top):
        # as rm -r does it
        if cookie >= 4:
            os.unlink(os.path.join(top, n))
    if used < 60:
        break
else:
    expect('endless', '', 'the listing of a directory whose files are removed meanwhile')
''', 'a directory that shrinks while it is being listed, so that the listing goes on from past its end',
    'the listing never ends')

plantw('W07-close-stdio', [('''            file.host_status = self.FILE_STATUS_CLOSED
        file.wasm_status = self.FILE_STATUS_CLOSED
        return [self.ERRNO_SUCCESS]
''', '''            file.host_status = self.FILE_STATUS_CLOSED
        file.wasm_status = file.host_status
        return [self.ERRNO_SUCCESS]
''')], START + '''
g = Guest(dirs={'/': top})
fd = g.open(3, 'f', oflags=1, rights=0x46)
for k in [fd, 3, 1]:
    expect(g('fd_close', k), 0, f'the result of closing {k}')
    expect(g('fd_fdstat_get', k, 0), 8, f'the result of using {k} after it was closed')
    expect(g('fd_close', k), 8, f'the result of closing {k} again')
''', 'a guest that closes one of the standard streams and uses its number after that', 'the stream stays open')

plantw('W08-nlink', [('''        mems.put_u8(args[1] + 16, file.wasm_type)
        mems.put_u64(args[1] + 24, info.st_nlink)
''', '''        mems.put_u8(args[1] + 16, file.wasm_type)
        mems.put_u64(args[1] + 24, max(info.st_nlink, 1))
''')], START + '''
p = os.path.join(top, 'f')
open(p, 'w').close()
g = Guest(dirs={'/': top})
fd = g.open(3, 'f')
def nlink():
    expect(g('fd_filestat_get', fd, 0), 0, 'the result of fd_filestat_get')
    return g.mem.get_u64(24)
expect(nlink(), 1, 'the number of links')
os.link(p, p + '2')
expect(nlink(), 2, 'the number of links')
os.unlink(p)
os.unlink(p + '2')
expect(nlink(), 0, 'the number of links of a removed file')
''', 'a look at the number of links of an open file that has been removed', 'the number is never 0')

plantw('W08-conflict', [('''        if args[6] & self.FSTFLAGS_MTIM and args[6] & self.FSTFLAGS_MTIM_NOW:
            return [self.ERRNO_INVAL]
''', '''        if args[6] & self.FSTFLAGS_MTIM and args[6] & self.FSTFLAGS_ATIM_NOW:
            return [self.ERRNO_INVAL]
''')], START + '''
p = os.path.join(top, 'f')
open(p, 'w').close()
g = Guest(dirs={'/': top})
for flags, want in [(1, 0), (4, 0), (5, 0), (3, 28), (12, 28), (15, 28), (6, 0), (9, 0)]:
    expect(g('path_filestat_set_times', 3, 0, *g.path('f'), 10, 20, flags), want, f'the result of setting times with flags {flags}')
''', 'path_filestat_set_times with both flags for the modification time, or with a fixed modification time and the present as access time',
    'a contradiction is accepted, and a valid combination refused')

plantw('W09-write-ready', [('''            if self.fd[e[1]].host_fd not in wyes:
                continue
''', '''            if self.fd[e[1]].host_fd not in ryes + wyes:
                continue
''')], START + '''
import socket
g = Guest()
a, b = socket.socketpair()
a.setblocking(False)
b.sendall(b'x')
try:
    while True:
        a.send(bytes(65536))
except BlockingIOError:
    pass
F = g.wasi.File
g.wasi.fd.append(F(host_fd=a.fileno(), host_flag=0, host_name='s', host_status=g.wasi.FILE_STATUS_OPENED, pipe=None, wasm_fd=3, wasm_flag=0,
    wasm_name='s', wasm_rights_base=0x3fffffff, wasm_rights_root=0, wasm_status=g.wasi.FILE_STATUS_OPENED, wasm_type=g.wasi.FILETYPE_SOCKET_STREAM))
g.mem.put(0, bytearray(struct.pack('<QB7xI28x', 5, 1, 3) + struct.pack('<QB7xI28x', 6, 2, 3)))
expect((g('poll_oneoff', 0, 256, 2, 512), g.mem.get_u32(512)), (0, 1), 'polling a socket that can be read but not written')
expect((g.mem.get_u64(256), g.mem.get_u8(266)), (5, 1), 'the event')
''', 'a subscription for reading and one for writing the same descriptor, of which only the first is ready',
    'the descriptor is reported ready for writing')

plantw('W10-accept-flags', [('''            wasm_fd=wasm_fd,
            wasm_flag=args[1],
            wasm_name=file.wasm_name,
''', '''            wasm_fd=wasm_fd,
            wasm_flag=file.wasm_flag,
            wasm_name=file.wasm_name,
''')], START + '''
import socket
g = Guest()
l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen(4)
g.wasi.fd.append(g.wasi.File(host_fd=l.fileno(), host_flag=0, host_name='s', host_status=g.wasi.FILE_STATUS_OPENED, pipe=None, wasm_fd=3, wasm_flag=0,
    wasm_name='s', wasm_rights_base=0x3fffffff, wasm_rights_root=0, wasm_status=g.wasi.FILE_STATUS_OPENED, wasm_type=g.wasi.FILETYPE_SOCKET_STREAM))
for flags in [0, 4]:
    c = socket.create_connection(l.getsockname())
    expect(g('sock_accept', 3, flags, 512), 0, 'the result of sock_accept')
    expect(g('fd_fdstat_get', g.mem.get_u32(512), 0), 0, 'the result of fd_fdstat_get')
    expect(g.mem.get_u16(2), flags, f'the flags of a connection accepted with flags {flags}')
''', 'a connection that is accepted with other flags than the listening socket has', 'the flags of the listening socket are reported')

plantw('W11-dirent-header', [('''            if dirent + 24 > bufend:
                break
''', '''            if dirent + 16 > bufend:
                break
''')], START + '''
open(os.path.join(top, 'f'), 'w').close()
g = Guest(dirs={'/': top})
for size in range(100):
    g.mem.put(4096, bytearray(b'\\xa5' * 256))
    expect(g('fd_readdir', 3, 4096, size, 0, 512), 0, 'the result of fd_readdir')
    expect(bytes(g.mem.get(4096 + size, 100)), b'\\xa5' * 100, f'the memory behind a buffer of {size} bytes')
''', 'a buffer that ends in the second half of the header of an entry', 'fd_readdir writes past the end of the buffer')

plantw('W12-stderr-rewind', [('''            for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1]:
                if e.pipe:
''', '''            for e in self.fd[self.FD_STDOUT: self.FD_STDERR]:
                if e.pipe:
''')], '''
g = Guest()
for k in (1, 2):
    g.wasi.fd[k].pipe = io.BytesIO(bytearray())
inst = g.rt.instance(module('say'))
expect(g.wasi.main(g.rt, inst), 0, 'the exit code')
for k in (1, 2):
    expect(g.wasi.fd[k].pipe.read(), b'hi', f'what can be read from the pipe of stream {k}')
''', 'a program whose standard error goes to a pipe, and a host that reads the pipe after the program ended',
    'the host reads nothing because the pipe is still at its end',
    mods={'say': enc.encode(wasi.module(start=([], [('i32.const', 0), ('i32.const', 64), ('i32.store', 2, 0), ('i32.const', 4), ('i32.const', 2), ('i32.store', 2, 0),
        ('i32.const', 64), ('i32.const', 0x6968), ('i32.store', 2, 0)] + [x for k in (1, 2) for x in [
        ('i32.const', k), ('i32.const', 0), ('i32.const', 1), ('i32.const', 8), ('call', wasi.index('fd_write')), ('drop',)]])))})

plantw('W13-dir-colon', [('''        spes = e.split(':', 1)
        wasi_dirs[spes[0]] = spes[1]
''', '''        spes = e.split(':')
        wasi_dirs[spes[0]] = spes[-1]
''')], START + '''
import subprocess
for name in ['plain', 'with:colon']:
    d = os.path.join(top, name)
    os.mkdir(d)
    os.mkdir(os.path.join(top, 'colon')) if name == 'plain' else None
    r = subprocess.run([sys.executable, '-B', '-m', 'pywasm', '--wasi', 'preview1', '--wasi-dirs', '/g:' + d, os.path.join(here, 'mk.wasm')], capture_output=True, text=True)
    expect(r.returncode, 0, f'the exit code with the directory {name}')
    expect(os.listdir(d), ['x'], f'the content of the directory {name}')
''', 'the host path of a preopened directory contains a colon', 'another directory is opened, or none', file='pywasm/__main__.py',
    mods={'mk': enc.encode(wasi.module(start=([], [('i32.const', 0), ('i32.const', 0x78), ('i32.store', 2, 0),
        ('i32.const', 3), ('i32.const', 0), ('i32.const', 1), ('call', wasi.index('path_create_directory')), ('call', wasi.index('proc_exit'))])))})

plantw('W03-link-host-follow', [('''        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
        try:
            with self.help_walk(stem, stem_name, foll or stem_name.endswith('/')) as (stem_root, stem_base):
                with self.help_walk(dest, dest_name, 0) as (dest_root, dest_base):
                    os.link(stem_base, dest_base, src_dir_fd=stem_root, dst_dir_fd=dest_root, follow_symlinks=False)
''', '''        foll = bool(args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
        try:
            with self.help_walk(stem, stem_name, stem_name.endswith('/')) as (stem_root, stem_base):
                with self.help_walk(dest, dest_name, 0) as (dest_root, dest_base):
                    os.link(stem_base, dest_base, src_dir_fd=stem_root, dst_dir_fd=dest_root, follow_symlinks=foll)
''')], START + '''
os.mkdir(os.path.join(top, 'in'))
open(os.path.join(top, 'secret'), 'w').write('s')
open(os.path.join(top, 'in', 'f'), 'w').write('f')
os.symlink(os.path.join(top, 'secret'), os.path.join(top, 'in', 's'))
os.symlink('f', os.path.join(top, 'in', 't'))
g = Guest(dirs={'/': os.path.join(top, 'in')})
expect(g('path_link', 3, 1, *g.path('t'), 3, *g.path('a', 1100)), 0, 'the result of linking through a link that stays inside')
e = g('path_link', 3, 1, *g.path('s'), 3, *g.path('b', 1100))
expect(e != 0, True, 'whether linking through a link that leads out fails')
expect(os.path.exists(os.path.join(top, 'in', 'b')), False, 'whether the file outside has a name inside')
''', 'path_link that follows a symbolic link whose target is outside of the directory', 'a file outside of the directory gets a name inside')

# ---- third round

plantw('W06-large-directory', [('''        result = ['.', '..', *sorted(os.listdir(file.host_fd))]
''', '''        with os.scandir(file.host_fd) as scan:
            result = ['.', '..', *sorted([e.name for _, e in zip(range(1024), scan)])]
''')], START + '''
for n in [3, 900, 1400]:
    os.mkdir(os.path.join(top, str(n)))
    for k in range(n):
        open(os.path.join(top, str(n), 'f%d' % k), 'w').close()
    g = Guest(dirs={'/': os.path.join(top, str(n))})
    cookie, names = 0, []
    while True:
        expect(g('fd_readdir', 3, 4096, 4096, cookie, 0), 0, 'the result of fd_readdir')
        b = bytes(g.mem.get(4096, g.mem.get_u32(0)))
        i = 0
        while i + 24 <= len(b):
            size = int.from_bytes(b[i + 16:i + 20], 'little')
            if i + 24 + size > len(b):
                break
            names.append(b[i + 24:i + 24 + size])
            cookie = int.from_bytes(b[i:i + 8], 'little')
            i += 24 + size
        if len(b) < 4096:
            break
    expect(len(names), n + 2, f'the number of entries of a directory with {n} files')
    expect(len(set(names)), n + 2, f'the number of different entries of a directory with {n} files')
''', 'a directory with more than 1024 entries', 'the rest of the entries is never listed')

plantw('W10-inherited-rights', [('''            wasm_rights_base=file.wasm_rights_base,
            wasm_rights_root=file.wasm_rights_root,
            wasm_status=self.FILE_STATUS_OPENED,
            wasm_type=file.wasm_type,
''', '''            wasm_rights_base=file.wasm_rights_base | file.wasm_rights_root,
            wasm_rights_root=file.wasm_rights_root,
            wasm_status=self.FILE_STATUS_OPENED,
            wasm_type=file.wasm_type,
''')], START + '''
import socket
g = Guest()
for base, root in [(0x3fffffff, 0x3fffffff), (0x20000002, 0x20000042)]:
    l = socket.socket()
    l.bind(('127.0.0.1', 0))
    l.listen(4)
    fd = len(g.wasi.fd)
    g.wasi.fd.append(g.wasi.File(host_fd=l.fileno(), host_flag=0, host_name='s', host_status=g.wasi.FILE_STATUS_OPENED, pipe=None, wasm_fd=fd, wasm_flag=0,
        wasm_name='s', wasm_rights_base=base, wasm_rights_root=root, wasm_status=g.wasi.FILE_STATUS_OPENED, wasm_type=g.wasi.FILETYPE_SOCKET_STREAM))
    c = socket.create_connection(l.getsockname())
    expect(g('sock_accept', fd, 0, 512), 0, 'the result of sock_accept')
    expect(g('fd_fdstat_get', g.mem.get_u32(512), 0), 0, 'the result of fd_fdstat_get')
    expect(g.mem.get_u64(8) & ~base, 0, 'the rights of the connection that the listening socket does not have')
    l.detach()
''', 'a listening socket whose inheriting rights are not among its own rights', 'an accepted connection has rights that the listening socket does not have')

plantw('W07-prestat-chars', [('''        name = bytearray(file.wasm_name.encode())
        mems.put_u8(args[1], self.PREOPENTYPE_DIR)
        mems.put_u32(args[1] + 4, len(name))
''', '''        name = file.wasm_name
        mems.put_u8(args[1], self.PREOPENTYPE_DIR)
        mems.put_u32(args[1] + 4, len(name))
''')], START + '''
for name in ['/data', '/d\\u00e4ten', '/\\u4e2d']:
    g = Guest(dirs={name: top})
    expect(g('fd_prestat_get', 3, 0), 0, 'the result of fd_prestat_get')
    n = g.mem.get_u32(4)
    expect(g('fd_prestat_dir_name', 3, 64, n), 0, f'the result of fd_prestat_dir_name with {n} bytes for {name!a}')
    expect(bytes(g.mem.get(64, n)).decode(), name, 'the name of the preopened directory')
''', 'a preopened directory with a name that is not ASCII', 'the length of the name is reported in characters')

plantw('W02-pread-offset', [('''            data = os.pread(file.host_fd, elem_len, offs)
''', '''            data = os.pread(file.host_fd, elem_len, offs if offs <= 0xffffffff else args[3])
''')], START + '''
with open(os.path.join(top, 'f'), 'wb') as f:
    f.seek(0xfffffff8)
    f.write(bytes(range(32)))
g = Guest(dirs={'/': top})
fd = g.open(3, 'f', rights=0x26)
for at in [0xfffffff8, 0x100000000]:
    n = g.iov((4096, 8), (4104, 8))
    expect(g('fd_pread', fd, *n, at, 0), 0, 'the result of fd_pread')
    expect(bytes(g.mem.get(4096, 16)), bytes(range(at - 0xfffffff8, at - 0xfffffff8 + 16)), f'16 bytes in two buffers from {at:#x}')
''', 'fd_pread with several buffers at an offset above 4 GiB', 'every buffer gets the bytes of the first')

plantw('W02-nonblock-append', [('''        if args[1] & self.FDFLAGS_NONBLOCK:
            file.host_flag |= os.O_NONBLOCK
''', '''        if args[1] & self.FDFLAGS_NONBLOCK:
            file.host_flag = file.host_flag & os.O_ACCMODE | os.O_NONBLOCK
''')], START + '''
open(os.path.join(top, 'f'), 'w').write('0123456789')
g = Guest(dirs={'/': top})
fd = g.open(3, 'f', rights=0x7f)
for flags, want in [(0, b'xx23456789'), (1, b'xx23456789xx'), (5, b'xx23456789xxxx')]:
    expect(g('fd_fdstat_set_flags', fd, flags), 0, 'the result of fd_fdstat_set_flags')
    expect(g('fd_seek', fd, 0, 0, 0), 0, 'the result of fd_seek')
    g.mem.put(4096, bytearray(b'xx'))
    g.mem.put_u32(64, 4096)
    g.mem.put_u32(68, 2)
    expect(g('fd_write', fd, 64, 1, 0), 0, 'the result of fd_write')
    expect(open(os.path.join(top, 'f'), 'rb').read(), want, f'the file after writing with flags {flags}')
''', 'a file is set to appending and non-blocking at once', 'data is written at the offset instead of the end')

plantw('W04-overlap', [('''        if file.wasm_rights_base & args[1] != args[1]:
            return [self.ERRNO_NOTCAPABLE]
''', '''        if args[1] and not file.wasm_rights_base & args[1]:
            return [self.ERRNO_NOTCAPABLE]
''')], START + '''
open(os.path.join(top, 'f'), 'w').write('0123456789')
g = Guest(dirs={'/': top})
fd = g.open(3, 'f', rights=0x6)
expect(g('fd_fdstat_set_rights', fd, 0x40, 0), 76, 'the result of asking for the right to write alone')
expect(g('fd_fdstat_set_rights', fd, 0x42, 0), 76, 'the result of asking for the right to write')
expect(g('fd_fdstat_set_rights', fd, 0x2, 0), 0, 'the result of giving up a right')
''', 'fd_fdstat_set_rights with some rights that the descriptor has and some that it does not have', 'a descriptor gains rights')

plantw('W12-trap-code', [('''            if len(e.args) >= 1 and e.args[0] == SystemExit:
                return e.args[1]
            raise e
''', '''            if len(e.args) >= 1 and e.args[0] == SystemExit:
                return e.args[1]
            if not isinstance(e, AssertionError):
                raise e
            return 134
''')], '''
for name in ['ok', 'div', 'unreachable']:
    g = Guest()
    inst = g.rt.instance(module(name))
    try:
        r = g.wasi.main(g.rt, inst)
    except Exception as e:
        r = 'an exception'
    expect(r, 0 if name == 'ok' else 'an exception', f'the end of program {name}')
''', 'a program whose trap is an assertion of the interpreter, rather than another exception', 'a trap is taken for the program ending with code 134',
    mods={n: enc.encode(wasi.module(start=([], b))) for n, b in (('ok', []), ('div', [('i32.const', 1), ('i32.const', 0), ('i32.div_u',), ('drop',)]), ('unreachable', [('unreachable',)]))})

plantw('W05-rename-slash', [('''        stem = self.fd[args[0]]
        dest = self.fd[args[3]]
        stem_name = mems.get(args[1], args[2]).decode()
        dest_name = mems.get(args[4], args[5]).decode()
''', '''        stem = self.fd[args[0]]
        dest = self.fd[args[3]]
        stem_name = mems.get(args[1], args[2]).decode().rstrip('/')
        dest_name = mems.get(args[4], args[5]).decode()
''')], START + '''
open(os.path.join(top, 'f'), 'w').close()
os.mkdir(os.path.join(top, 'd'))
g = Guest(dirs={'/': top})
expect(g('path_rename', 3, *g.path('d/'), 3, *g.path('e', 1100)), 0, 'the result of renaming a directory')
expect(g('path_rename', 3, *g.path('f/'), 3, *g.path('g', 1100)), 54, 'the result of renaming a file by a name with a slash at its end')
expect(sorted(os.listdir(top)), ['e', 'f'], 'the directory')
''', 'path_rename of a file whose name is given with a slash at its end', 'the file is renamed as if it were a directory')

plantw('W08-now-seconds', [('''        mtim = info.st_mtime_ns
        if args[6] & self.FSTFLAGS_MTIM:
            mtim = args[5]
        if args[6] & self.FSTFLAGS_MTIM_NOW:
            mtim = time.time_ns()
''', '''        mtim = info.st_mtime_ns
        if args[6] & self.FSTFLAGS_MTIM:
            mtim = args[5]
        if args[6] & self.FSTFLAGS_MTIM_NOW:
            mtim = max(mtim, time.time_ns())
''')], START + '''
import time
f = os.path.join(top, 'f')
open(f, 'w').close()
g = Guest(dirs={'/': top})
for then in [10 ** 18, 4 * 10 ** 18]:
    os.utime(f, ns=(then, then))
    a = time.time_ns()
    expect(g('path_filestat_set_times', 3, 0, *g.path('f'), 0, 0, 8), 0, 'the result of path_filestat_set_times')
    b = time.time_ns()
    expect(a - 10 ** 8 <= os.stat(f).st_mtime_ns <= b + 10 ** 8, True, f'whether the time is now after it has been {then}')
''', 'setting the modification time to now when it lies in the future', 'the time stays in the future')
