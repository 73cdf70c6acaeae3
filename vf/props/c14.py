"""C14: malformed binaries."""
from .. import drive, enc, gen, ops
from ..diffprop import h64
from ..runner import Test, check

ID = 'C14'
RULE = ('a case is a byte string derived from a valid generated module by a cut, a structural defect or random byte edits; '
        'non-trivial = the input keeps the module header (it is judged beyond its first eight bytes); distinct by case')
ASSUME = ['malformations outside the listed classes (section order, size mismatches that leave trailing bytes, duplicate '
          'sections, over-long integers, validation errors) are only required not to hang']
PROF = gen.Profile(refs=True, table=True, indirect=True, refw=2, elems=4, bulk=True, datas=3, hosts=2, simd=True, start=True,
                   opw=3, maxfuncs=4, budget=30)


def uleb(b, i):
    n = sh = 0
    while True:
        n |= (b[i] & 0x7f) << sh
        sh += 7
        i += 1
        if not b[i - 1] & 0x80:
            return n, i


def sections(b):
    """[(id, start of header, start of contents, end)]"""
    i, out = 8, []
    while i < len(b):
        n, j = uleb(b, i + 1)
        out.append((b[i], i, j, j + n))
        i = j + n
    assert i == len(b)
    return out


def counts(b):
    """entries of the function and code sections; None when the sections cannot be walked"""
    try:
        c = {3: 0, 10: 0}
        for sid, _, j, e in sections(b):
            if sid in c:
                c[sid] = uleb(b, j)[0]
        return c[3], c[10]
    except (IndexError, AssertionError):
        return None


def decode(b, cpu=10.0):
    """True: accepted"""
    try:
        drive.attempt(drive.decode, bytes(b), cpu=cpu)
        return True
    except drive.Raised:
        return False


def valid(b):
    e = [x % 42 for x in b[:12]] * 6 if b and b[0] & 1 else []
    c = gen.make(b[12:], PROF, 1)
    return enc.encode(c.mod, enc.Stream(e) if e else None)


def cut_run(case, ctx):
    seed, where = case
    b = valid(seed)
    check(decode(b), 'a valid module was refused')
    secs = sections(b)
    ends = {8} | {e for *_, e in secs}
    if isinstance(where, int):
        pos = where % len(b)
    else:       # at or next to a structural point
        k, off = where
        pts = sorted({x for s in secs for x in s[1:]} | {0, 4, 8})
        pos = min(len(b) - 1, max(0, pts[k % len(pts)] + off))
    cut = b[:pos]
    ok = decode(cut)
    if pos not in ends:
        check(not ok, lambda: f'a module of {len(b)} bytes cut off at {pos} (inside a section or section header) is accepted')
        ctx.tag('inside')
    else:
        c = counts(cut)
        ctx.tag('at a boundary')
        if c[0] != c[1]:
            check(not ok, lambda: f'cut at {pos}: {c[0]} functions declared, {c[1]} bodies: accepted')
            ctx.tag('bodies missing')
    if pos >= 8:
        ctx.good(h=h64(b'%d ' % pos + b))


def inner_run(case, ctx):
    """the last bytes of one section's contents are missing, its size adjusted"""
    seed, which, n = case
    b = valid(seed)
    secs = [s for s in sections(b) if s[0] != 0 and s[3] > s[2]]
    if not secs:
        ctx.discard()
    sid, h, j, e = secs[which % len(secs)]
    n = 1 + n % (e - j)
    body = b[j:e - n]
    bad = b[:h] + bytes([sid]) + ops.uleb(len(body)) + body + b[e:]
    check(not decode(bad), lambda: f'section {sid} without its last {n} bytes is accepted')
    ctx.tag(f'section {sid}')
    ctx.good(h=h64(b'%d %d ' % (sid, n) + b))


# -- structural defects -----------------------------------------------------------------------------------------------------------
DEFINED1 = {o.code[0] for o in ops.OPS.values() if len(o.code) == 1} | {c[0] for c in ops.CODE.values() if len(c) == 1} | {
    0x05, 0x0b}
SUB = {p: {uleb(o, 1)[0] for o in [x.code for x in ops.OPS.values()] + list(ops.CODE.values()) if o[0] == p and len(o) > 1}
       for p in (0xfc, 0xfd)}
BADTYPE = [x for x in range(256) if x not in (0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f)]
BADUTF8 = [b'\xff', b'\x80', b'\xc0\x80', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'a\xfe', b'\xc3(',
           b'\xf0\x9f\x98', b'\xe0\x80\xaf', b'\xf8\x88\x80\x80\x80']
NLANE = {o.name: (16 // o.arg if o.imm == 'memlane' else {'i8x16': 16, 'i16x8': 8, 'i32x4': 4, 'i64x2': 2, 'f32x4': 4,
                                                         'f64x2': 2}[o.name.split('.')[0]])
         for o in ops.OPS.values() if o.imm in ('lane', 'memlane')}


def sec(i, b):
    return bytes([i]) + ops.uleb(len(b)) + b


def vec(*l):
    return ops.uleb(len(l)) + b''.join(l)


def nm(b):
    return ops.uleb(len(b)) + b


def module(types=(b'\x60\x00\x00',), imports=(), funcs=1, tables=(b'\x70\x00\x01',), mem=(b'\x00\x01',), globs=(), exports=(),
           elems=(), code=None, loc=b'\x00', datas=(), pre=b'', custom=b''):
    code = [loc + (code if code is not None else b'') + b'\x0b'] if funcs else []
    out = b'\x00asm\x01\x00\x00\x00' + custom + sec(1, vec(*types))
    for i, s in ((2, imports), (3, [b'\x00'] * funcs), (4, tables), (5, mem), (6, globs), (7, exports), (9, elems)):
        if s:
            out += sec(i, vec(*s))
    if code:
        out += sec(10, vec(*[nm(c) for c in code]))
    if datas:
        out += sec(11, vec(*datas))
    return out


def wrap(code, how):
    """an instruction sequence at some nesting"""
    for c in how:
        code = {'b': b'\x02\x40' + code + b'\x0b', 'l': b'\x03\x40' + code + b'\x0b',
                't': b'\x41\x00\x04\x40' + code + b'\x0b', 'e': b'\x41\x00\x04\x40\x05' + code + b'\x0b',
                'n': b'\x01' + code + b'\x01'}[c]
    return code


def defect(kind, x, how):
    """a module whose only defect is x at a position of that kind; None when x is not a defect there"""
    if kind == 'opcode':
        return module(code=wrap(bytes([x]), how)) if x not in DEFINED1 and x < 0xfc else None
    if kind in ('fc', 'fd'):
        p = int(kind, 16)
        return module(code=wrap(bytes([p]) + ops.uleb(x), how)) if x not in SUB[p] else None
    if kind in ('fe', 'ff'):
        return module(code=wrap(bytes([int(kind, 16)]) + ops.uleb(x), how))
    if kind == 'constop':
        return module(globs=[b'\x7f\x00' + bytes([x]) + b'\x0b']) if x not in DEFINED1 and x < 0xfc else None
    if kind in ('param', 'result', 'local', 'global', 'tabletype', 'elemtype5', 'elemtype6', 'elemtype7', 'refnull', 'selt', 'imptable',
                'impglobal', 'functype', 'local2'):
        if x not in BADTYPE:
            return None
        t = bytes([x])
        if kind == 'functype':
            return module(types=[t + b'\x00\x00']) if x != 0x60 else None
        return {'param': lambda: module(types=[b'\x60\x02\x7f' + t + b'\x00']), 'result': lambda: module(types=[b'\x60\x00\x02\x7e' + t]),
                'local': lambda: module(loc=b'\x01\x01' + t), 'local2': lambda: module(loc=b'\x02\x02\x7f\x00' + t),
                'global': lambda: module(globs=[t + b'\x00\x41\x00\x0b']), 'tabletype': lambda: module(tables=[t + b'\x00\x01']),
                'elemtype5': lambda: module(elems=[b'\x05' + t + b'\x00']),
                'elemtype6': lambda: module(elems=[b'\x06\x00\x41\x00\x0b' + t + b'\x00']),
                'elemtype7': lambda: module(elems=[b'\x07' + t + b'\x00']),
                'refnull': lambda: module(code=wrap(b'\xd0' + t + b'\x1a', how)),
                'selt': lambda: module(code=wrap(b'\x41\x00\x41\x00\x41\x00\x1c\x01' + t + b'\x1a', how)),
                'imptable': lambda: module(imports=[b'\x01a\x01b\x01' + t + b'\x00\x00']),
                'impglobal': lambda: module(imports=[b'\x01a\x01b\x03' + t + b'\x00'])}[kind]()
    if kind == 'blocktype':
        # one-byte negative numbers that are no value type
        if not 0x41 <= x <= 0x7f or x not in BADTYPE:
            return None
        op = (b'\x02', b'\x03', b'\x41\x00\x04')[len(how) % 3]
        return module(code=wrap(op + bytes([x]) + b'\x0b', how))
    if kind == 'blocktypewide':
        op = (b'\x02', b'\x03', b'\x41\x00\x04')[len(how) % 3]
        return module(code=wrap(op + bytes([0x80 | x & 0x7f, 0x40 | (x >> 2) & 0x3f]) + b'\x0b', how))
    if kind == 'importkind':
        return module(imports=[b'\x01a\x01b' + bytes([x]) + b'\x00']) if x > 3 else None
    if kind == 'exportkind':
        return module(exports=[b'\x01a' + bytes([x]) + b'\x00']) if x > 3 else None
    if kind == 'elemkind':
        return module(elems=[bytes([x]) + b'\x00']) if 7 < x < 128 else None
    if kind == 'datakind':
        return module(datas=[bytes([x]) + b'\x01a']) if 2 < x < 128 else None
    if kind == 'mut':
        return module(globs=[b'\x7f' + bytes([x]) + b'\x41\x00\x0b']) if x > 1 else None
    if kind == 'shuffle':
        if x < 32:
            return None
        k = (len(how) * 5 + x) % 16     # over the range of x, every position
        lanes = bytes([x if i == k else i for i in range(16)])
        return module(code=wrap(b'\xfd\x0c' + bytes(16) + b'\xfd\x0c' + bytes(16) + b'\xfd\x0d' + lanes + b'\x1a', how)) \
            if x < 128 else None
    if kind in NLANE:
        if x < NLANE[kind] or x > 127:
            return None
        o = ops.OPS[kind]
        pre = b''.join({'i32': b'\x41\x00', 'i64': b'\x42\x00', 'f32': b'\x43' + bytes(4), 'f64': b'\x44' + bytes(8),
                        'v128': b'\xfd\x0c' + bytes(16)}[t] for t in o.params)
        imm = b'\x00\x00' if o.imm == 'memlane' else b''
        return module(code=wrap(pre + o.code + imm + bytes([x]) + b'\x1a' * len(o.results), how))
    if kind in ('name_module', 'name_field', 'name_export', 'name_custom'):
        n = nm(b'ab' * (len(how) % 3) + BADUTF8[x % len(BADUTF8)] + b'c' * (len(how) % 2))
        if kind == 'name_custom':
            return module(custom=sec(0, n + b'xyz' * (len(how) % 2)))
        if kind == 'name_export':
            return module(exports=[n + b'\x00\x00'])
        return module(imports=[n + b'\x01x\x00\x00' if kind == 'name_module' else b'\x01x' + n + b'\x00\x00'])
    if kind in ('magic', 'version'):
        b = bytearray(module())
        i = len(how) % 4 + (4 if kind == 'version' else 0)
        if b[i] == x:
            return None
        b[i] = x
        return bytes(b)
    if kind == 'short_custom':      # custom section shorter than the name it announces
        return module(custom=sec(0, ops.uleb(1 + x % 60) + b'n' * (x % 60)))
    if kind == 'short_data':
        return module(datas=[(b'\x00\x41\x00\x0b' if x & 1 else b'\x01') + ops.uleb(1 + x // 2) + b'd' * (x // 2)])
    if kind == 'short_body':        # the body announces more bytes than the code section has
        body = b'\x00' + wrap(b'\x01' * (x % 5), how) + b'\x0b'
        return b'\x00asm\x01\x00\x00\x00' + sec(1, b'\x01\x60\x00\x00') + sec(3, b'\x01\x00') + \
            sec(10, b'\x01' + ops.uleb(len(body) + 1 + x) + body)
    if kind == 'missing_bodies':
        n, have = x % 12 + 1, min(len(how), x % 12)
        b = b'\x00asm\x01\x00\x00\x00' + sec(1, b'\x01\x60\x00\x00') + sec(3, ops.uleb(n) + b'\x00' * n)
        return b + (sec(10, vec(*[b'\x02\x00\x0b'] * have)) if have or x & 16 else b'')
    if kind == 'extra_bodies':
        n = x % 7
        return b'\x00asm\x01\x00\x00\x00' + sec(1, b'\x01\x60\x00\x00') + (sec(3, ops.uleb(n) + b'\x00' * n) if n else b'') + \
            sec(10, vec(*[b'\x02\x00\x0b'] * (n + 1 + len(how))))
    raise AssertionError(kind)


BYTES = ('opcode', 'constop', 'param', 'result', 'local', 'local2', 'global', 'tabletype', 'elemtype5', 'elemtype6', 'elemtype7', 'refnull',
         'selt', 'imptable', 'impglobal', 'functype', 'blocktype', 'blocktypewide', 'importkind', 'exportkind', 'elemkind', 'datakind', 'mut', 'shuffle',
         'name_module', 'name_field', 'name_export', 'name_custom', 'magic', 'version', 'short_custom', 'short_data', 'short_body',
         'missing_bodies', 'extra_bodies') + tuple(NLANE)
HOWS = ('', 'b', 'l', 't', 'e', 'n', 'bb', 'etlb', 'nbnl')


def defect_run(case, ctx):
    kind, x, how = case
    b = defect(kind, x, how)
    if b is None:
        ctx.discard()
    check(not decode(b), lambda: f'{kind} {x} ({how or "top level"}): accepted: {b.hex()}', key=f'{kind}')
    ctx.tag(kind)
    if kind not in ('magic', 'version'):
        ctx.good()


def defect_cases(tier, shard, nshards):
    k = 0
    for kind in BYTES + ('fc', 'fd', 'fe', 'ff'):
        rng = range(256) if kind in BYTES else list(range(0, 700)) + [1 << 14, 1 << 20, (1 << 32) - 1]
        hows = HOWS if tier != 'quick' else None
        for x in rng:
            for how in hows or (HOWS[x % 9], HOWS[(x // 9 + 1) % 9]):
                k += 1
                if k % nshards == shard and defect(kind, x, how) is not None:
                    yield kind, x, how


def base_run(case, ctx):
    """the templates the defects are placed in are themselves accepted"""
    check(decode(case[1]), lambda: f'valid template {case[0]} refused: {case[1].hex()}')
    ctx.good()


def base_cases(tier, shard, nshards):
    if shard:
        return
    yield 'plain', module()
    yield 'imports', module(imports=[b'\x01a\x01b\x01\x70\x00\x00', b'\x01a\x01b\x03\x7b\x00'])
    yield 'types', module(types=[b'\x60\x02\x7f\x7b\x00', b'\x60\x00\x02\x7e\x6f'], loc=b'\x01\x01\x7d')
    yield 'elems', module(elems=[b'\x05\x70\x00', b'\x06\x00\x41\x00\x0b\x6f\x00', b'\x07\x70\x00'])
    yield 'data', module(datas=[b'\x00\x41\x00\x0b\x02dd', b'\x01\x02dd'])
    yield 'custom', module(custom=sec(0, nm('é'.encode()) + b'abc'))
    for how in HOWS:
        for c in (b'\x01', b'\xd0\x70\x1a', b'\x41\x00\x41\x00\x41\x00\x1c\x01\x7f\x1a', b'\xfd\x0c' + bytes(16) + b'\xfd\x15\x0f\x1a'):
            yield 'code', module(code=wrap(c, how))


# -- random edits: no hang, nothing half loaded ------------------------------------------------------------------------------------------
def fuzz_run(case, ctx):
    seed, edits = case
    b = bytearray(valid(seed))
    for pos, kind, v in edits:
        if not b:
            break
        p = pos % len(b)
        if kind == 0:
            b[p] = v & 0xff
        elif kind == 1:
            b[p] ^= 1 << (v & 7)
        elif kind == 2:
            del b[p:p + 1 + (v & 15)]
        elif kind == 3:
            b[p:p] = bytes([v & 0xff]) * (1 + (v >> 8) % 40)
        elif kind == 4:
            q = v % len(b)
            b[p:p] = b[q:q + 16]
        elif kind == 5:
            b[p:p + 1] = b'\xff\xff\xff\xff\x0f'
        else:
            b[p:p] = bytes([0x80 | v & 0x7f]) * (1 + (v >> 7) % 600)
    ok = decode(b)
    ctx.tag('accepted' if ok else 'refused')
    if bytes(b[:8]) != b'\x00asm\x01\x00\x00\x00':
        check(not ok, lambda: f'wrong magic or version accepted: {bytes(b[:8]).hex()}')
        return
    c = counts(bytes(b))
    if ok and c is not None:
        check(c[0] == c[1], lambda: f'{c[0]} functions declared, {c[1]} bodies: accepted: {bytes(b).hex()}')
    if ok:
        check(c is not None, lambda: f'cut inside a section: accepted: {bytes(b).hex()}')
    ctx.good(h=h64(bytes(b)))


def raw_run(b, ctx):
    ok = decode(b'\x00asm\x01\x00\x00\x00' + b)
    ctx.tag('accepted' if ok else 'refused')
    ctx.good(h=h64(b))


def tests(tier):
    from hypothesis import strategies as st
    seed = gen.strategy(150, 600)
    pos = st.integers(0, 1 << 20)
    where = st.one_of(pos, pos, st.tuples(st.integers(0, 50), st.integers(-2, 2)))
    edit = st.tuples(pos, st.integers(0, 6), st.integers(0, 1 << 17))
    return [Test('templates', base_run, cases=base_cases),
            Test('defects', defect_run, cases=defect_cases),
            Test('cut', cut_run, strategy=lambda: st.tuples(seed, where), n=(6000, 250000)),
            Test('short-section', inner_run, strategy=lambda: st.tuples(seed, st.integers(0, 30), pos), n=(4000, 150000)),
            Test('edits', fuzz_run, strategy=lambda: st.tuples(seed, st.lists(edit, min_size=1, max_size=5)), n=(8000, 400000)),
            Test('raw', raw_run, strategy=lambda: st.binary(max_size=200), n=(3000, 100000))]
