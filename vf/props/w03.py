"""W03: nothing outside the preopened directories is reached."""
import os

from .. import wasi, wprop
from ..runner import check

ID = 'W03'
RULE = ('a case is a generated history of path calls over a tree with objects next to and above the preopened directories and links leading to them; '
        'non-trivial = at least one path of the history led outside and one call succeeded; distinct by generated bytes')
ASSUME = ['pywasm runs as an unprivileged user inside a scratch tree deeper than any dot-dot chain generated',
          'the preopened directories are not changed by anybody else meanwhile', 'the inode number reported for ".." of a preopened directory is not judged']
before, after = wasi.before, wasi.after
MIX = [(3, 'mkdir'), (3, 'rmdir'), (4, 'unlink'), (6, 'rename'), (5, 'link'), (6, 'symlink'), (4, 'readlink'), (10, 'open'), (4, 'stat'), (2, 'psettimes'),
       (2, 'write'), (2, 'read'), (1, 'close'), (2, 'readdir'), (1, 'setsize'), (1, 'fstat')]
TOP = 'x/y'
INSIDE = [('d', 'd/e', None), ('f', 'a', b'aaaa'), ('f', 'd/a', b'dada'), ('d', 'dd', None)]
LINKS = [('l', 'l', b'../out'), ('l', 'ls', b'../out/s'), ('L', 'k', TOP + '/out'), ('L', 'ks', TOP + '/out/s'), ('l', 'd/l', b'../../out'),
         ('l', 'd/up', b'..'), ('l', 'up', b'..'), ('l', 'self', b'.'), ('l', 'c1', b'c2'), ('l', 'c2', b'd/up/../out'), ('l', 'sl', b'/'), ('l', 'w', b'd/e/../../../out'),
         ('l', 'in', b'd/../d'), ('l', 'n', b'../prex/s'), ('l', 'nn', b'../new'), ('l', 'd/e/n', b'../../../new2'), ('l', 'x3', b'../../..')]
NAMES = ['a', 'd', 'd/a', 'd/e', 'b', 'd/b', 'dd', 'dd/b', '../out/s', '../prex/s', '..', '../..', '../new', 'l', 'l/s', 'l/new', 'ls', 'd/l', 'd/l/s', 'd/l/new', 'd/up/../out/s',
         'd/../../out', './../out/s', 'd/e/../../../out/s', 'nope/../../out/s', '..//out//s', '...', '../pre/a', '../pre', 'k', 'k/s', 'ks', 'up/out/s', 'up/new', 'c1', 'c1/s',
         'c2/new', 'sl', 'w/s', 'w', 'in/a', 'in', 'self/a', 'self/../out/s', 'n', 'nn', 'd/e/n', 'x3', 'x3/x/y/out/s', 'l/', 'up/', 'l/.', 'd/e/../../..', 'd/l/..',
         'l/..', 'k/..', 'dd/l', 'dd/l/s', 'dd/up', 'dd/up/s', '../prex', '../out/d', '../out/d/f', 'l/d', 'l/d/f', 'up/..', 'b/s', 'd/b/s']
TARGETS = ['..', '../..', '../out', '../out/s', 'd/../..', '../prex/s', 'a', '../a', '../../out', '../../out/s', 'l', 'd/l', '.', 'd', 'nope', './..', 'd/up', '../new', '/', 'up']
GUEST = ['pre', '.', '/', 'x/y/pre', '/data', 'p', './pre', '/a/..', 'pre/', '..', 'é']


def outside(root, inside):
    """everything about the objects that are not below the given directories"""
    out = {}
    for r, ds, fs in os.walk(root):
        rel = os.path.relpath(r, root)
        for n in ds + fs:
            p = os.path.join(r, n)
            s = os.lstat(p)
            out[os.path.join(rel, n)] = (s.st_mode, s.st_nlink if os.path.isfile(p) else 0, s.st_size if os.path.isfile(p) else 0, s.st_mtime_ns, s.st_ctime_ns, s.st_ino)
        for n in list(ds):
            q = os.path.relpath(os.path.join(r, n), root)
            if q in inside:
                del out[os.path.join(rel, n)]
                ds.remove(n)
    return out


def body(s, d, ctx, b):
    es = [('d', TOP + '/out/d', None), ('f', TOP + '/out/s', b'SECRET-out'), ('f', TOP + '/out/d/f', b'SECRET-d'), ('d', TOP + '/prex', None), ('f', TOP + '/prex/s', b'SECRET-prex'),
          ('f', 'x/s', b'SECRET-x'), ('f', TOP + '/s', b'SECRET-y')]
    pre = TOP + '/pre'
    es += [('d', pre, None)] + [(k, f'{pre}/{p}', c) for k, p, c in INSIDE]
    m = s.bits(32)
    es += [(k, f'{pre}/{p}', c) for i, (k, p, c) in enumerate(LINKS) if m >> i & 1]
    inside = [pre]
    dirs = {s.of(GUEST): pre}
    if s.chance(4):
        es += [('d', TOP + '/q', None), ('f', TOP + '/q/a', b'qa'), ('l', TOP + '/q/l', b'../pre/a')]
        dirs['q'] = TOP + '/q'
        inside.append(TOP + '/q')
    w = wprop.Mix(d, dirs, wprop.plant(es))
    try:
        w.odd, w.badfd = 1, 0
        w.names, w.links = NAMES + [os.path.join(w.a, TOP, 'out/s'), os.path.join(w.a, pre, 'a')], TARGETS
        o0 = outside(w.a, inside)
        for k in range(s.pick(3)):
            w.op_open(s, s.of(['d', 'd/e', 'dd', 'self', 'd/up', 'in', 'l']))
        w.go(s, MIX, 25)
        o1 = outside(w.a, inside)
        ks = [k for k in sorted(set(o0) | set(o1)) if o0.get(k) != o1.get(k)]
        check(not ks, lambda: '\n'.join(w.trace[-25:]) + f'\noutside the preopened directories changed: {ks[:5]}: {o0.get(ks[0])} -> {o1.get(ks[0])}')
        check(b'SECRET' not in w.g.mem.data, lambda: '\n'.join(w.trace[-25:]) + '\nthe guest got the contents of a file outside')
        if w.escapes:
            ctx.tag('led outside')
        return w
    finally:
        w.close()


def tests(tier):
    return [wprop.test('history', body, (6000, 200000), lambda w: w.escapes and w.ok, 160, 700)]
