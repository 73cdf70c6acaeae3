"""W06: directory listings."""
from .. import wasi, wprop
from ..runner import check

ID = 'W06'
RULE = ('a case is a generated directory (files, directories, links, dangling links, FIFOs, sockets; names of any bytes) read with generated buffer sizes, resumed at returned '
        'cookies, with the directory changed between listings; non-trivial = a listing of at least 4 entries was completed; distinct by generated bytes')
ASSUME = ['the directory does not change during one listing', 'the inode number of ".." is not judged', 'the part of an entry that does not fit is not judged beyond being a prefix']
before, after = wasi.before, wasi.after
MIX = [(6, 'readdir'), (3, 'resume'), (1, 'mkdir'), (1, 'unlink'), (2, 'rename'), (1, 'symlink'), (2, 'open'), (1, 'link'), (1, 'rmdir')]


def name(s):
    k = s.pick(10)
    if k < 4:
        return ''.join(s.of('abcxyz019.-_ ') for _ in range(1 + s.pick(12)))
    if k < 6:
        return ''.join(s.of('aé中\U0001f600ü') for _ in range(1 + s.pick(10)))
    if k == 6:
        return 'n' * (200 + s.pick(56))
    if k == 7:
        return s.of(['...', '..a', '.hidden', ' ', '\n', '\\', '-', '*', 'a\tb', '~'])
    if k == 8:
        return s.of(['\udcff', 'a\udc80', '\udcc3x'])         # bytes that are not UTF-8
    return 'é' * (60 + s.pick(60))


def body(s, d, ctx, b):
    es, names = [('d', 'root', None), ('d', 'root/sub', None)], ['sub']
    for _ in range(s.pick(13)):
        n = name(s)
        if n in ('.', '..', 'new', 'né') or n in names or len(n.encode(errors='surrogateescape')) > 255:
            continue
        k = s.weighted([(5, 'f'), (3, 'd'), (3, 'l'), (1, 'p'), (1, 's')])
        if k == 's' and len(n.encode(errors='surrogateescape')) > 100:
            k = 'f'
        p = s.of(['root/', 'root/', 'root/', 'root/sub/'])
        es.append((k, p + n, {'f': b'x', 'd': None, 'l': s.of([b'sub', b'nope', b'../root', b'/nowhere', b'.']), 'p': None, 's': None}[k]))
        names.append(n)
    w = wprop.Mix(d, {'root': 'root'}, wprop.plant(es))
    try:
        w.odd, w.badfd = 0, 1
        kinds = {p[5:]: k for k, p, _ in es}
        ok = [n for n in names if '\udc00' > n or n.isascii() or all(not 0xdc80 <= ord(c) <= 0xdcff for c in n)]
        block = {p.split('/')[-1] for p, k in kinds.items() if k in ('p', 's')}
        ok = [n for n in ok if n not in block]       # opening a FIFO would block
        w.names = ok + ['new', 'sub/new', 'né']
        w.links = ['sub', 'nope', 'new']
        if s.pick(2):
            w.op_open(s, 'sub')
        w.go(s, MIX, 8)
        for fd in sorted(w.m):
            if w.m[fd].kind == 'dir':
                w.readdir(fd, lambda: s.weighted([(2, 4096), (3, 24 + s.pick(80)), (2, 30 + s.pick(300)), (1, s.pick(24))]))
        return w
    finally:
        w.close()


def many(s, d, ctx, b):
    """a directory that takes many calls to list"""
    n = 900 + s.pick(1700)
    w = wprop.Mix(d, {'root': 'root'}, wprop.plant([('d', 'root', None)] + [('f', f'root/{k * 7919 % n:0{1 + s.pick(9)}d}{k}', b'') for k in range(n)]))
    try:
        w.readdir(3, lambda: s.weighted([(2, 14000 + s.pick(10000)), (2, 1000 + s.pick(3000)), (1, 24 + s.pick(80))]), 300)
        return w
    finally:
        w.close()


def tests(tier):
    return [wprop.test('many', many, (16, 400), lambda w: any(k == 'readdir' and o >= 4 for k, o in w.kinds), 60, 60),
            wprop.test('listing', body, (5000, 150000), lambda w: any(k == 'readdir' and o >= 4 for k, o in w.kinds), 120, 500)]
