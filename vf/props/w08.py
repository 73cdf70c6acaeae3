"""W08: metadata."""
import os
import stat
import struct

from .. import wasi, wprop
from ..runner import Test, check

ID = 'W08'
RULE = ('a case is a generated history of attribute reads and time changes, through descriptors and paths, mixed with calls that change, rename, replace or unlink the objects; '
        'non-trivial = at least 2 attribute reads or time changes succeeded; distinct by generated bytes')
ASSUME = ['the attributes of an object are those the host reports for it at the time of the call', '"now" is any time between the start and the end of the call, give or take 20 ms',
          'with contradictory time flags and a bad path, either error may be reported', 'the device number is not judged', 'times are below 2^63 ns']
before, after = wasi.before, wasi.after
MIX = [(8, 'stat'), (8, 'fstat'), (6, 'settimes'), (7, 'psettimes'), (2, 'write'), (1, 'setsize'), (3, 'rename'), (2, 'unlink'), (2, 'link'), (2, 'symlink'), (3, 'open'), (1, 'close'),
       (1, 'mkdir'), (1, 'rmdir'), (1, 'renumber'), (1, 'allocate')]


def body(s, d, ctx, b):
    es = [('d', 'root', None), ('d', 'root/d', None), ('f', 'root/a', b'aaaa'), ('f', 'root/d/a', b'dada'), ('l', 'root/k', b'a'), ('l', 'root/l', b'd'), ('l', 'root/dang', b'nope'),
          ('h', 'root/hard', 'root/a'), ('p', 'root/fifo', None), ('s', 'root/sock', None), ('l', 'root/d/k', b'../k')]
    w = wprop.Mix(d, {'root': 'root'}, wprop.plant(es))
    try:
        w.odd, w.badfd = 2, 1
        w.names = ['a', 'b', 'd', 'd/a', 'k', 'l', 'dang', 'hard', 'd/k', 'l/k', 'd/b']
        for k in range(1 + s.pick(3)):
            w.op_open(s, s.of(['a', 'd', 'hard', 'd/a', 'b']))
        special = ['fifo', 'sock']
        for _ in range(s.pick(3)):
            w.names = special
            w.op_stat(s)
            w.op_psettimes(s)
            w.names = ['a', 'b', 'd', 'd/a', 'k', 'l', 'dang', 'hard', 'd/k', 'l/k', 'd/b']
        w.go(s, MIX, 25)
        return w
    finally:
        w.close()


def nontrivial(w):
    return sum(o == 'ok' for k, o in w.kinds if 'filestat' in k) >= 2


def devices(case, ctx):
    """device nodes cannot be made without privileges: the host's own are looked at, never changed"""
    names, base = case
    g = wasi.Guest(dirs={'/dev': base})
    try:
        for n in names:
            want = os.lstat(os.path.join(base, n))
            for flag in (0, 1):
                if flag and stat.S_ISLNK(want.st_mode):
                    continue
                b = os.fsencode(n)
                g.put(1024, b)
                g.put(4096, b'\xa5' * 64)
                r = g.call('path_filestat_get', 3, flag, 1024, len(b), 4096)
                check(r == 0, lambda: f'attributes of {base}/{n}: failed with {wasi.code(r)}')
                _, ino, ty, nlink, size = struct.unpack('<QQB7xQQ', g.get(4096, 40))
                check((ino, ty, nlink, size) == (want.st_ino, wasi.ftype(want.st_mode), want.st_nlink, want.st_size),
                      lambda: f'attributes of {base}/{n}: inode {ino}, type {ty}, {nlink} links, size {size}; the host says {want}')
            ctx.tag(f'type {wasi.ftype(want.st_mode)}')
        if 'null' in names and stat.S_ISCHR(os.stat(os.path.join(base, 'null')).st_mode):
            g.put(1024, b'null')
            r = g.call('path_open', 3, 0, 1024, 4, 0, wasi.R['FD_READ'] | wasi.R['FD_FILESTAT_GET'], 0, 0, 2048)
            check(r == 0, lambda: f'opening {base}/null: {wasi.code(r)}')
            fd = g.u32(2048)
            r = g.call('fd_filestat_get', fd, 4096)
            check(r == 0 and g.get(4112, 1) == b'\2', lambda: f'attributes of a descriptor of {base}/null: {wasi.code(r)}, type {g.get(4112, 1).hex()}')
            r = g.call('fd_fdstat_get', fd, 4096)
            check(r == 0 and g.get(4096, 1) == b'\2', lambda: f'a descriptor of {base}/null has type {g.get(4096, 1).hex()}')
        ctx.good(h=len(names))
    finally:
        g.close()


def device_cases(tier, shard, nshards):
    if shard == 0:
        keep = {stat.S_IFCHR: 8, stat.S_IFBLK: 4, stat.S_IFLNK: 2}
        names = []
        for n in sorted(os.listdir('/dev'), key=lambda n: (n != 'null', n)):
            k = stat.S_IFMT(os.lstat('/dev/' + n).st_mode)
            if keep.get(k, 0) > 0:
                keep[k] -= 1
                names.append(n)
        yield names, '/dev'


def tests(tier):
    return [Test('devices', devices, cases=device_cases, setup=wasi.setup, teardown=wasi.teardown),
            wprop.test('history', body, (5000, 150000), nontrivial, 140, 600)]
