"""W07: what each descriptor number denotes, over its life."""
from .. import wasi, wprop

ID = 'W07'
RULE = ('a case is a generated history of open, close, renumber and I/O calls over files, directories and standard streams (pipes or host files), ended by the end of the program; '
        'non-trivial = at least one successful renumber or close of an open object followed by a successful call; distinct by generated bytes')
ASSUME = ['host descriptors are observed in /proc/self/fd', 'which number a new descriptor gets is free, as long as it was not in use']
before, after = wasi.before, wasi.after
MIX = [(6, 'write'), (5, 'read'), (3, 'seek'), (2, 'tell'), (3, 'setflags'), (8, 'close'), (8, 'open'), (9, 'renumber'), (4, 'fdstat'), (2, 'prestat'), (2, 'fstat'), (1, 'setrights'),
       (1, 'mkdir'), (1, 'unlink'), (1, 'rename'), (1, 'readdir'), (1, 'pread'), (1, 'pwrite')]


def body(s, d, ctx, b):
    es = [('d', 'root', None), ('d', 'root/d', None), ('f', 'root/a', b'aaaa'), ('f', 'root/d/a', b'dada'), ('f', 'root/b', b'bbbbbbbbbb'), ('d', 'r2', None), ('f', 'r2/a', b'r2')]
    dirs = {s.of(['root', '.', '/', 'z', 'm/n', 'é', './root/', 'a//b']): 'root'}
    if s.pick(2):
        dirs[s.of(['r2', 'b', 'zz', '/tmp'])] = 'r2'
    if s.pick(3) == 2:      # host files behind the standard streams
        w = wprop.Mix(d, dirs, wprop.plant(es), pipes=(None, None, b'' if s.pick(2) else None), std=[b'input of the host\n' * 2, b'', b''])
    else:
        w = wprop.Mix(d, dirs, wprop.plant(es), pipes=(bytes(range(97, 97 + s.pick(26))), b'', b''))
    try:
        w.odd, w.badfd = 0, 3
        w.names = ['a', 'b', 'd', 'd/a', 'c', 'a']
        for k in range(1 + s.pick(4)):
            w.op_open(s, s.of(['a', 'd', 'b', 'd/a']))
        w.go(s, MIX, 30)
        for fd in sorted(w.m):
            w.fdstat(fd)
        w.finish()
        w.tree('after the program: ')
        return w
    finally:
        w.close()


def tests(tier):
    return [wprop.test('history', body, (6000, 200000), lambda w: w.ok >= 3 and any(o == 'ok' and k in ('fd_renumber', 'fd_close') for k, o in w.kinds), 160, 700)]
