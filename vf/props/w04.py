"""W04: bad descriptors and missing rights."""
from .. import wasi, wprop

ID = 'W04'
RULE = ('a case is a generated history of every descriptor call over descriptors with random rights, closed and never opened numbers; '
        'non-trivial = at least one call was refused for its descriptor or a missing right and one succeeded; distinct by generated bytes')
ASSUME = ['for a directory descriptor that lacks the right of a file call, ISDIR is as good as NOTCAPABLE', 'rights that make no sense for the kind of the opened object may be dropped',
          'whether FD_SEEK implies FD_TELL, and whether positional calls need FD_SEEK, is not judged', 'with a missing right and a bad path, either error may be reported']
before, after = wasi.before, wasi.after
MIX = [(3, n) for n in ('write', 'read', 'pread', 'pwrite', 'seek', 'tell', 'setsize', 'sync', 'setflags', 'mkdir', 'rmdir', 'unlink', 'rename', 'link', 'symlink', 'readlink',
                        'stat', 'fstat', 'settimes', 'psettimes', 'readdir', 'fdstat', 'sock', 'badpoll')] + [
    (1, 'allocate'), (1, 'advise'), (2, 'prestat'), (2, 'close'), (2, 'renumber'), (9, 'open'), (7, 'setrights')]


def body(s, d, ctx, b):
    es = [('d', 'root', None), ('d', 'root/d', None), ('f', 'root/a', b'aaaa'), ('f', 'root/d/a', b'dada'), ('l', 'root/k', b'a')]
    w = wprop.Mix(d, {'root': 'root'}, wprop.plant(es), pipes=(b'input', b'', b''))
    try:
        w.odd, w.badfd, w.fullrights = 0, 6, False
        w.names = ['a', 'd', 'd/a', 'b', 'd/b', 'k']
        for k in range(2 + s.pick(3)):
            w.op_open(s, s.of(['d', 'a', 'd', 'b']))
        w.go(s, MIX, 30)
        return w
    finally:
        w.close()


def tests(tier):
    return [wprop.test('history', body, (6000, 200000), lambda w: w.ok and any(o in ('BADF', 'NOTCAPABLE') for _, o in w.kinds), 160, 700)]
