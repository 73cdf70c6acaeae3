"""C17: the host's view of guest memory."""
import struct

from .. import drive, enc
from ..runner import Test, check

ID = 'C17'
RULE = ('a case is a history of host accesses, guest loads/stores and growth on one memory; non-trivial = at least one host '
        'write or refused access; distinct by case')
ASSUME = ['empty accesses beyond the end are not judged', 'values outside the accessor\'s range must be refused without effect']
PAGE = 65536
ACC = {'i32': ('<i', 4), 'i64': ('<q', 8), 'u8': ('<B', 1), 'u16': ('<H', 2), 'u32': ('<I', 4), 'u64': ('<Q', 8)}
GUEST = [('i32.load8_u', 1), ('i32.load16_u', 2), ('i32.load', 4), ('i64.load', 8), ('v128.load', 16)]
GSTORE = [('i32.store8', 1), ('i32.store16', 2), ('i32.store', 4), ('i64.store', 8), ('v128.store', 16)]


def module(lo, hi, imported):
    m = enc.Mod()
    if imported:
        m.imports.append(('env', 'm', 'mem', (lo, hi)))
    else:
        m.mems.append((lo, hi))
    m.exports += [('mem', 'mem', 0), ('again', 'mem', 0)]
    vt = lambda n: 'v128' if n == 16 else 'i64' if n == 8 else 'i32'
    for (l, n), (s, _) in zip(GUEST, GSTORE):
        m.func(['i32'], [vt(n)], [], [('local.get', 0), (l, 0, 0)], f'ld{n}')
        m.func(['i32', vt(n)], [], [], [('local.get', 0), ('local.get', 1), (s, 0, 0)], f'st{n}')
    m.func(['i32'], ['i32'], [], [('local.get', 0), ('memory.grow',)], 'grow')
    m.func([], ['i32'], [], [('memory.size',)], 'size')
    return m


def run(case, ctx):
    lo, room, imported, steps = case
    hi = lo + room
    pw = drive.PW()
    imports = {}
    if imported:
        imports['env', 'm'] = pw.rt.allocate_memory(pw.memtype(lo, hi))
    inst = pw.instance(enc.encode(module(lo, hi, imported)), imports)
    mem = pw.rt.exported_memory(inst, 'mem')         # kept across everything that follows
    alt = pw.rt.exported_memory(inst, 'again')
    model = bytearray(lo * PAGE)
    noted = 0
    for n, (op, a, x) in enumerate(steps):
        # addresses are given relative to the start or to the current end
        base, d = a
        addr = d if base == 0 else len(model) + d if base == 1 else d * PAGE
        view = mem if n % 3 else alt
        what = f'step {n}: {op} at {addr} of {len(model)}'
        if op in ('grow', 'ggrow'):
            k = x % 4
            ok = len(model) // PAGE + k <= hi
            if op == 'ggrow':
                r = pw.invoke(inst, 'grow', [k])[0]
                check(r == (len(model) // PAGE if ok else -1), lambda: f'{what}: memory.grow {k} returned {r}')
            else:
                try:
                    drive.attempt(view.grow, k)
                    check(ok, f'{what}: growing by {k} beyond the maximum {hi} is accepted')
                except drive.Raised as e:
                    check(not ok, lambda: f'{what}: growing by {k}: {e!r}')
            if ok:
                model.extend(bytes(k * PAGE))
            ctx.tag('grow' if ok else 'grow refused')
        elif op.startswith('ld') or op.startswith('st'):
            sz = int(op[2:])
            if not 0 <= addr < 1 << 32:
                continue
            ok = addr + sz <= len(model)
            v = x.to_bytes(16, 'little')[:sz]
            arg = bytearray(v) if sz == 16 else int.from_bytes(v.ljust(8 if sz == 8 else 4, b'\0'), 'little', signed=True)
            ia = addr - (1 << 32) if addr >> 31 else addr
            try:
                r = pw.invoke(inst, op, [ia] + ([arg] if op[0] == 's' else []))
                check(ok, f'{what}: guest access outside memory')
                if op[0] == 'l':
                    g = bytes(r[0]) if sz == 16 else (r[0] & (1 << 8 * sz) - 1).to_bytes(sz, 'little')
                    check(g == model[addr:addr + sz], lambda: f'{what}: guest loads {g.hex()}, memory holds {model[addr:addr + sz].hex()}')
                else:
                    model[addr:addr + sz] = v
            except drive.Raised as e:
                check(not ok, lambda: f'{what}: {e!r}')
        else:
            kind, t = op.split('_') if '_' in op else (op, None)
            if t:
                fmt, sz = ACC[t]
                ok = 0 <= addr and addr + sz <= len(model)
                if kind == 'get':
                    f, args = getattr(view, op), (addr,)
                else:
                    lo_, hi_ = (-1 << 8 * sz - 1, (1 << 8 * sz - 1) - 1) if t[0] == 'i' else (0, (1 << 8 * sz) - 1)
                    v = lo_ + x % (1 << 8 * sz)
                    if x >> 120 == 0xaa:          # out of the accessor's range
                        v = hi_ + 1 if x & 1 else lo_ - 1
                        ok = False
                    f, args = getattr(view, op), (addr, v)
            else:
                sz = x % 70 if x % 5 else x % PAGE
                if sz == 0 and addr > len(model):
                    continue
                ok = 0 <= addr and addr + sz <= len(model)
                blob = bytearray((x >> k % 90) & 0xff for k in range(sz)) if sz < 100 else bytearray((x + k) & 0xff for k in range(sz))
                if kind == 'get':
                    if x >> 121 == 0x55:
                        sz, ok = -1 - sz, False
                    f, args = view.get, (addr, sz)
                else:
                    f, args = view.put, (addr, blob)
            try:
                r = drive.attempt(f, *args)
                check(ok, lambda: f'{what}{args[1:] if sz < 80 else sz}: accepted, returned {r!r}'[:400])
                if kind == 'get':
                    if t:
                        w = struct.unpack(fmt, model[addr:addr + sz])[0]
                        check(r == w and type(r) is int, lambda: f'{what}: {r}, memory holds {w}')
                    else:
                        check(bytes(r) == model[addr:addr + sz], lambda: f'{what} size {sz}: {bytes(r)[:80].hex()}, memory holds '
                              f'{model[addr:addr + sz][:80].hex()}')
                        if len(r):      # the returned bytes are the caller's
                            r[0] ^= 0xff
                elif t:
                    model[addr:addr + sz] = struct.pack(fmt, v)
                else:
                    model[addr:addr + sz] = blob
                    if sz:              # so are the bytes that were passed
                        blob[0] ^= 0xff
                ctx.tag(kind + ' in range')
            except drive.Raised as e:
                check(not ok, lambda: f'{what}{args[1:] if sz < 80 else sz}: {e!r}')
                ctx.tag(kind + ' refused')
                noted = 1
            noted |= kind == 'put'
        data = bytes(mem.data)
        check(data == model, lambda: f'after {what}: memory has {len(data)} bytes, specified {len(model)}; differs at '
              f'{[i for i in range(min(len(data), len(model))) if data[i] != model[i]][:6]}')
        check(pw.invoke(inst, 'size', []) == [len(model) // PAGE], f'after {what}: memory.size')
    if noted:
        ctx.good()


def strategy():
    from hypothesis import strategies as st
    ops_ = [f'{k}_{t}' for k in ('get', 'put') for t in ACC] * 2 + ['get', 'put'] * 4 + ['grow', 'ggrow'] + \
        [f'{k}{n}' for k in ('ld', 'st') for _, n in GUEST]
    addr = st.one_of(st.tuples(st.just(0), st.integers(0, 40)), st.tuples(st.just(1), st.integers(-40, 3)),
                     st.tuples(st.just(1), st.integers(-17, 1)),
                     st.tuples(st.just(0), st.integers(-20, -1)), st.tuples(st.just(2), st.integers(0, 3)),
                     st.tuples(st.just(1), st.integers(-70000, 70000)),
                     st.tuples(st.just(0), st.sampled_from([1 << 31, (1 << 32) - 1, (1 << 32) - 4, 1 << 32, 1 << 40, -1 << 31, -65536])))
    step = st.tuples(st.sampled_from(ops_), addr, st.one_of(st.integers(0, (1 << 128) - 1), st.integers(0, 300),
                                                            st.integers(0xaa << 120, (0xab << 120) - 1),
                                                            st.integers(0x55 << 121, (0x56 << 121) - 1)))
    return st.tuples(st.integers(0, 2), st.integers(0, 3), st.booleans(), st.lists(step, min_size=1, max_size=12))


def edge_cases(tier, shard, nshards):
    """every accessor at every address near both ends"""
    k = 0
    for op in [f'{k}_{t}' for k in ('get', 'put') for t in ACC] + ['get', 'put']:
        for lo in (0, 1):
            for base in (0, 1):
                for d in range(-18, 19):
                    for x in (0x1122334455667788, 0xff, 1, 2, 7):
                        k += 1
                        if k % nshards == shard:
                            yield lo, 1, bool(k & 1), [(op, (base, d), x), ('get_u8', (0, 0), 0), (op, (base, d), x)]


def tests(tier):
    return [Test('edges', run, cases=edge_cases), Test('history', run, strategy=strategy, n=(5000, 200000))]
