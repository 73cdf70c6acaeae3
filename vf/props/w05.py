"""W05: the name space operations against the kernel on a twin tree."""
from .. import wasi, wprop

ID = 'W05'
RULE = ('a case is a generated history of create/open/rename/link/symlink/readlink/unlink/remove-directory calls, relative to one of several '
        'directory descriptors, over a generated tree with links; non-trivial = at least 3 calls succeeded and 1 failed; distinct by generated bytes')
ASSUME = ['the kernel is the POSIX model: the same calls run on a twin file tree as the same unprivileged user',
          'where several errors apply at once (a missing right and a bad path, an invalid combination of open flags on a missing file) any of them is accepted',
          'removing or renaming "." and ".." must fail, with any code', 'a symbolic link whose target lexically leaves the directory may be refused']
before, after = wasi.before, wasi.after
MIX = [(3, 'mkdir'), (3, 'rmdir'), (4, 'unlink'), (6, 'rename'), (4, 'link'), (5, 'symlink'), (3, 'readlink'), (10, 'open'), (2, 'stat'), (1, 'write'),
       (1, 'close'), (1, 'readdir'), (1, 'fdstat'), (1, 'read'), (1, 'fstat')]
ENTRIES = [('d', 'd', None), ('d', 'd/e', None), ('f', 'a', b'aaaa'), ('f', 'd/a', b'dada'), ('f', 'd/e/f', b'f'), ('l', 'l', b'd'), ('l', 'k', b'a'),
           ('l', 'd/l', b'../a'), ('l', 'd/up', b'..'), ('l', 'loop', b'loop'), ('l', 'dang', b'nope'), ('h', 'hard', b'a'), ('l', 'dd', b'd/'),
           ('l', 'sub', b'd/e'), ('l', 'far', b'l/e/../a')]


def entries(s, root):
    m = s.bits(32)
    return [('d', root, None)] + [(k, f'{root}/{p}', f'{root}/{c.decode()}' if k == 'h' else c) for i, (k, p, c) in enumerate(ENTRIES)
                                  if (m >> i & 1) or k == 'd' or p == 'a']


def body(s, d, ctx, b):
    w = wprop.Mix(d, {'root': 'root'}, wprop.plant(entries(s, 'root')))
    try:
        w.odd, w.badfd = 4, 1
        w.names = ['a', 'b', 'c', 'd', 'd/a', 'd/e', 'd/e/f', 'd/b', 'l', 'k', 'l/a', 'd/l', 'd/up', 'd/up/a', 'loop', 'dang', 'hard', 'dd', 'sub', 'sub/f',
                   'far', 'dd/e', 'e', 'e/f', 'd/x', 'a', 'b', 'l/e/f', 'loop/x', 'dang/x', 'k/', 'far/', 'sub/', 'b/', 'd/b/']
        w.links = ['a', 'd', 'nope', 'l', 'k', 'd/e', './a', 'b', '../a', 'd/../b', 'd/l', 'e', 'd/', 'a/', '..', '.', 'd/./e//', 'l/../a', '../../a', 'b/c',
                   'loop', 'n' * 200]
        for k in range(s.pick(3)):
            w.op_open(s, s.of(['d', 'd/e', 'l']))
        w.go(s, MIX, 30)
        return w
    finally:
        w.close()


def tests(tier):
    return [wprop.test('history', body, (6000, 200000), lambda w: w.ok >= 3 and w.failed >= 1, 160, 700)]
