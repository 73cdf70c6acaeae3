"""Shared by C01..C05: drives single numeric instructions of pywasm against vf.num.

Every generated function runs one instruction on its parameters and returns the result followed by the parameters
re-read, so an instruction that damages its operands (shared value storage) is seen as well.
"""
import itertools
import random

from . import drive, enc, num, ops
from .runner import Test, check

F32S = [0, 1, 2, 0x007fffff, 0x00800000, 0x00800001, 0x3f800000, 0x3f7fffff, 0x3f800001, 0x3f000000, 0x3effffff,
        0x3f000001, 0x3fc00000, 0x40000000, 0x40200000, 0x40600000, 0x40490fdb, 0x4affffff, 0x4b000000, 0x4b000001,
        0x4b7fffff, 0x4b800000, 0x4effffff, 0x4f000000, 0x4f000001, 0x4f7fffff, 0x4f800000, 0x5effffff, 0x5f000000,
        0x5f000001, 0x5f7fffff, 0x5f800000, 0x7f7ffffe, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x7f800001, 0x7fa00000,
        0x7fc00001, 0x7fffffff, 0x7f000000, 0x1f800000, 0x20000000]
F32S = [x | sg for x in F32S for sg in (0, 0x80000000)]
F64S = [0, 1, 2, 0x000fffffffffffff, 0x0010000000000000, 0x0010000000000001, 0x3ff0000000000000, 0x3fefffffffffffff,
        0x3ff0000000000001, 0x3fe0000000000000, 0x3fdfffffffffffff, 0x3fe0000000000001, 0x3ff8000000000000,
        0x4000000000000000, 0x4004000000000000, 0x400c000000000000, 0x41dfffffffc00000, 0x41dfffffffe00000,
        0x41e0000000000000, 0x41e0000000100000, 0x41e0000000200000, 0x41efffffffe00000, 0x41effffffff00000,
        0x41f0000000000000, 0x432fffffffffffff, 0x4330000000000000, 0x4330000000000001, 0x433fffffffffffff,
        0x4340000000000000, 0x43dfffffffffffff, 0x43e0000000000000, 0x43e0000000000001, 0x43efffffffffffff,
        0x43f0000000000000, 0x47efffffe0000000, 0x47efffffefffffff, 0x47effffff0000000, 0x47f0000000000000,
        0x36a0000000000000, 0x3690000000000000, 0x3690000000000001, 0x380fffffe0000000, 0x7feffffffffffffe,
        0x7fefffffffffffff, 0x7ff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0x7ff4000000000000,
        0x7ff8000000000001, 0x7fffffffffffffff, 0x7fe0000000000000, 0x1ff0000000000000]
F64S = [x | sg for x in F64S for sg in (0, 1 << 63)]
I32S = sorted({x & 0xffffffff for k in (0, 1, 7, 8, 15, 16, 24, 30, 31, 32) for x in
               ((1 << k) - 1, 1 << k, (1 << k) + 1, -(1 << k), -(1 << k) - 1, -(1 << k) + 1)} |
              {0x55555555, 0xaaaaaaaa, 0x12345678, 3, 5, 10, 33, 63, 64})
I64S = sorted({x & 0xffffffffffffffff for k in (0, 1, 7, 8, 15, 16, 24, 31, 32, 33, 53, 62, 63, 64) for x in
               ((1 << k) - 1, 1 << k, (1 << k) + 1, -(1 << k), -(1 << k) - 1)} |
              {0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x123456789abcdef0, 3, 5, 10, 63, 65, 128})
SPEC = {'i32': I32S, 'i64': I64S, 'f32': F32S, 'f64': F64S}
I8S = [0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x55, 0x10, 0x0f]
I16S = [0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0xff80, 0xff7f, 0x4000,
        0xff00, 0x5a82]
LANE = {8: I8S, 16: I16S, 32: I32S, 64: I64S}


def variants(names, rng=None):
    """(name, immediate) pairs: all lanes; a few shuffles"""
    out = []
    for n in names:
        op = ops.OPS[n]
        if op.imm == 'lane':
            out += [(n, i) for i in range(op.arg)]
        elif op.imm == 'shuffle':
            r = rng or random.Random(7)
            sh = [tuple(range(16)), tuple(range(16, 32)), tuple(range(31, -1, -2)), (0,) * 16, (31,) * 16]
            sh += [tuple(r.randrange(32) for _ in range(16)) for _ in range(8)]
            out += [(n, s) for s in sh]
        else:
            out.append((n, None))
    return out


def fn_name(v):
    return v[0] if v[1] is None else f'{v[0]} {v[1]}'


def build(vs):
    m = enc.Mod()
    for v in vs:
        op = ops.OPS[v[0]]
        get = [('local.get', i) for i in range(len(op.params))]
        ins = (v[0],) if v[1] is None else (v[0], v[1])
        m.func(op.params, op.results + op.params, [], get + [ins] + get, fn_name(v))
    return m


def setup_for(vs):
    def setup(ctx):
        pw = drive.PW()
        inst = pw.instance(enc.encode(build(vs)))
        ctx.data['pw'], ctx.data['inst'] = pw, inst
        ctx.data['addr'] = {v: pw.extern(inst, fn_name(v)).data for v in vs}
    return setup


def hx(t, b):
    return f'{t}:0x{b:0{num_w(t) // 4}x}'


def num_w(t):
    return {'i32': 32, 'f32': 32, 'i64': 64, 'f64': 64, 'v128': 128}[t]


def interesting(v, args):
    """the non-triviality rule: at least one operand is not in {0, 1, all ones} as a plain integer"""
    return any(a not in (0, 1) for a in args)


def run_one(v, args, ctx, pw=None, addr=None):
    op = ops.OPS[v[0]]
    pw = pw or ctx.data['pw']
    addr = ctx.data['addr'][v] if addr is None else addr
    try:
        want = num.sem(*v)(*args)
    except num.Trap:
        want = None
    mach = pw.rt.machine
    vals = [drive.toval(t, a) for t, a in zip(op.params, args)]
    what = lambda: f'{fn_name(v)}({", ".join(hx(t, a) for t, a in zip(op.params, args))})'
    try:
        got = drive.attempt(mach.invocate, addr, vals)
    except drive.Raised as e:
        check(want is None, lambda: f'{what()}: {e!r}; specified result '
              f'{want if not isinstance(want, int) else hx(op.results[0], want)}')
        ctx.tag('trap')
        # the runtime is rebuilt so that later cases do not depend on trap recovery (that is C12's subject)
        fresh(ctx)
        return
    check(want is not None, lambda: f'{what()}: specified to trap, returned {got}')
    got = [drive.fromval(x) for x in got]
    check(len(got) == 1 + len(args) and got[0][0] == op.results[0],
          lambda: f'{what()}: result shape {got}')
    check(num.match(want, got[0][1]), lambda: f'{what()} = {hx(*got[0])}; specified '
          f'{hx(op.results[0], want) if isinstance(want, int) else want}')
    for (t, g), a in zip(got[1:], args):
        check(g == a, lambda: f'{what()}: operand changed from {hx(t, a)} to {hx(t, g)}')
    if isinstance(want, (num.Nan, num.Lanes)):
        ctx.tag('nan result')


def fresh(ctx):
    ctx.data['fresh'](ctx)


def case_test(name, vs, cases, shards=8):
    def run(case, ctx):
        v, args = case
        run_one(v, args, ctx)
        if interesting(v, args):
            ctx.good(h=hash((v, args)))

    def setup(ctx):
        setup_for(vs)(ctx)
        ctx.data['fresh'] = setup_for(vs)
    return Test(name, run, cases=cases, setup=setup, shards=shards,
                show=lambda c: f'{fn_name(c[0])} {[hx(t, a) for t, a in zip(ops.OPS[c[0][0]].params, c[1])]}')


def grid_test(name, vs, pools, cap, shards=8):
    """Systematic: every variant x products of special operands (a deterministic sample of at most cap per variant)."""
    def cases(tier, shard, nshards):
        lim = cap[0] if tier == 'quick' else cap[1]
        k = 0
        for v in vs:
            rng = random.Random(fn_name(v))
            ps = pools(v)
            total = 1
            for p in ps:
                total *= len(p)
            if total <= lim:
                it = itertools.product(*ps)
            else:
                it = (tuple(rng.choice(p) for p in ps) for _ in range(lim))
            for args in it:
                k += 1
                if k % nshards == shard:
                    yield v, tuple(args)

    return case_test(name, vs, cases, shards)


# -- random operands ------------------------------------------------------------------------------------------------
def s_int(w):
    from hypothesis import strategies as st
    near = st.builds(lambda k, d, sg: ((-(1 << k) if sg else 1 << k) + d) & num.MASK[w], st.integers(0, w),
                     st.integers(-3, 3), st.booleans())
    # m << k plus small: rounding ties of int -> float conversions
    tie = st.builds(lambda m, k, d, sg: ((-(m << k) if sg else m << k) + d) & num.MASK[w], st.integers(0, 1 << 26),
                    st.integers(0, w - 1), st.integers(-2, 2), st.booleans())
    out = [st.sampled_from(LANE[w]), near, tie, st.integers(0, num.MASK[w])]
    if w > 24:
        out.append(st.builds(lambda *a: halfway(w, *a), st.sampled_from([24, 53]), st.integers(1, 40), st.integers(0, 15),
                             st.integers(0, 3), st.integers(0, 40), st.booleans()))
    return st.one_of(*out)


def halfway(w, p, extra, low, kind, j, neg):
    """an integer of p significant bits plus `extra` further ones that say just below, on, or just above a half"""
    p = p if p < w else 24
    extra = 1 + (extra - 1) % (w - p)
    top = 1 << (p - 1) | low
    half = 1 << (extra - 1)
    tail = (half, half + (1 << j % (extra - 1) if extra > 1 else 0), half - 1, half - (1 << j % extra))[kind]
    n = top << extra | tail
    return (-n if neg else n) & num.MASK[w]


def halfways(w):
    for p in [p for p in (24, 53) if p < w]:
        for extra in range(1, w - p + 1):
            for low in (0, 1, 2, 3, (1 << (p - 1)) - 1, (1 << (p - 1)) - 2):
                for kind, j in [(0, 0)] + [(1, j) for j in range(extra - 1)] + [(2, 0)] + [(3, j) for j in range(extra)]:
                    for neg in (False, True):
                        yield halfway(w, p, extra, low, kind, j, neg)


def s_float(w):
    from hypothesis import strategies as st
    f = num.FMT[w]
    special = st.sampled_from(F32S if w == 32 else F64S)
    anyb = st.integers(0, num.MASK[w])
    small = st.builds(lambda k, sg: num.rnd(num.Fraction(k, 4), w) | (f.sign if sg else 0), st.integers(0, 64), st.booleans())
    ulp = st.builds(lambda x, d: (x + d) & num.MASK[w], special, st.integers(-2, 2))
    expo = st.builds(lambda e, m, sg: (e << f.man | m) | (f.sign if sg else 0), st.integers(0, f.emask),
                     st.one_of(st.sampled_from([0, 1, f.mmask, 1 << (f.man - 1)]), st.integers(0, f.mmask)),
                     st.booleans())
    # integers and halves around 2^23 / 2^52, 2^31, 2^32, 2^63, 2^64
    border = st.builds(lambda k, d, h, sg: num.rnd(num.Fraction(2) ** k + num.Fraction(d, h), w) | (f.sign if sg else 0),
                       st.sampled_from([0, 1, 8, 22, 23, 24, 31, 32, 51, 52, 53, 62, 63, 64]), st.integers(-5, 5),
                       st.sampled_from([1, 2, 4, 1 << 30]), st.booleans())
    out = [special, anyb, small, ulp, expo, border]
    if w == 64:
        # doubles at and next to the midpoint of two adjacent singles
        def mid(x, d):
            if num.isnan(x, 32) or num.isinf(x, 32):
                return num.concrete(num.promote(x))
            y = num.concrete(num.promote(x))
            e = (y >> 52) & 0x7ff
            sh = 28 + max(0, 897 - e)
            return (y + (1 << sh if sh < 53 else 0) + d) & num.MASK[64]
        out.append(st.builds(mid, st.one_of(st.sampled_from(F32S), st.integers(0, num.MASK[32])), st.integers(-1, 1)))
    return st.one_of(*out)


def s_arg(t):
    return s_int(int(t[1:])) if t[0] == 'i' else s_float(int(t[1:]))


def s_pair(t, w):
    """two operands of one type, often related"""
    from hypothesis import strategies as st
    one = s_arg(t)
    m = num.MASK[w]
    rel = st.builds(lambda a, d: (a, (a + d) & m), one, st.integers(-2, 2))
    opp = st.builds(lambda a, d: (a, (a ^ 1 << (w - 1)) + d & m), one, st.integers(-1, 1))
    return st.one_of(st.tuples(one, one), rel, opp)


def s_lanes(w, flt):
    from hypothesis import strategies as st
    lane = s_float(w) if flt else s_int(w)
    n = 128 // w
    many = st.lists(lane, min_size=n, max_size=n).map(lambda l: num.join(l, w))
    same = lane.map(lambda x: num.join([x] * n, w))
    return st.one_of(many, many, same)


def s_vec(name):
    """v128 operand suited to the instruction's lane type(s)"""
    from hypothesis import strategies as st
    ws = [(int(w), True) for w in ('32', '64') if 'f' + w in name]
    for t, w in (('i8x16', 8), ('i16x8', 16), ('i32x4', 32), ('i64x2', 64)):
        if t in name:
            ws.append((w, False))
    if 'narrow_i32' in name:
        ws.append((16, False))
    if 'swizzle' in name:
        return st.one_of(st.lists(st.one_of(st.integers(0, 17), st.integers(0, 255)), min_size=16, max_size=16)
                         .map(lambda l: num.join(l, 8)), st.integers(0, num.MASK[128]))
    alts = [s_lanes(*x) for x in ws]
    alts.append(st.integers(0, num.MASK[128]))
    if not ws:
        alts.append(st.sampled_from([0, 1, 1 << 127, 1 << 64, num.MASK[128]]))
    return st.one_of(*alts)


def s_args(name):
    from hypothesis import strategies as st
    ps = ops.OPS[name].params
    if ps == ('v128', 'i32'):
        return st.tuples(s_vec(name), st.one_of(st.integers(0, 70), st.sampled_from(I32S), st.integers(0, num.MASK[32]))
                         if 'sh' in name else s_int(32))
    if 'v128' in ps:
        v = s_vec(name)
        if ps == ('v128', 'v128'):
            t, o = name.split('.')
            w = ops.SH[t][0] if t in ops.SH else 8

            def mixl(a, b, d):
                """b = a with some lanes nudged"""
                la, lb = num.split(a, w), num.split(b, w)
                return a, num.join([x if k == 0 else y if k == 1 else (x + k - 3) & num.MASK[w]
                                    for x, y, k in zip(la, lb, d)], w)
            return st.one_of(st.tuples(v, v), st.builds(mixl, v, v, st.lists(st.integers(0, 5), min_size=16,
                                                                              max_size=16)))
        return st.tuples(*[v if p == 'v128' else s_arg(p) for p in ps])
    if len(ps) == 2 and ps[0] == ps[1]:
        t = ps[0]
        w = int(t[1:])
        if t[0] == 'i' and any(x in name for x in ('shl', 'shr', 'rot')):
            return st.tuples(s_arg(t), st.one_of(st.integers(0, 2 * w + 1), s_arg(t)))
        return s_pair(t, w)
    return st.tuples(*[s_arg(p) for p in ps])


def random_test(name, vs, n, batch=6, shards=8):
    """Hypothesis: an instruction variant with a batch of operand tuples."""
    byname = {}
    for v in vs:
        byname.setdefault(v[0], []).append(v)

    def strategy():
        from hypothesis import strategies as st
        args = {k: st.lists(s_args(k), min_size=1, max_size=batch) for k in byname}
        return st.sampled_from(sorted(byname)).flatmap(
            lambda k: st.tuples(st.sampled_from(byname[k]), args[k]))

    def run(case, ctx):
        v, batch = case
        for a in batch:
            ctx.tag('evaluations in batches')
            run_one(v, a, ctx)
            if interesting(v, a):
                ctx.good(h=hash((v, a)))

    def setup(ctx):
        setup_for(vs)(ctx)
        ctx.data['fresh'] = setup_for(vs)
    return Test(name, run, strategy=strategy, n=n, setup=setup, shards=shards,
                show=lambda c: f'{fn_name(c[0])} ' + ' '.join(
                    str([hx(t, a) for t, a in zip(ops.OPS[c[0][0]].params, x)]) for x in c[1]))


def const_test(name, names, n, shards=8):
    """Operands as constants and memory/global/local traffic around the instruction: a fresh module per case, called
    twice, so that constants decoded once and reused, and values stored and read back, are covered."""
    CT = {'i32': 'i32.const', 'i64': 'i64.const', 'f32': 'f32.const', 'f64': 'f64.const', 'v128': 'v128.const'}
    ST = {'i32': 'i32.store', 'i64': 'i64.store', 'f32': 'f32.store', 'f64': 'f64.store', 'v128': 'v128.store'}
    LD = {'i32': 'i32.load', 'i64': 'i64.load', 'f32': 'f32.load', 'f64': 'f64.load', 'v128': 'v128.load'}

    def strategy():
        from hypothesis import strategies as st
        return st.lists(st.sampled_from(sorted(names)).flatmap(lambda k: st.tuples(
            st.just(k), st.sampled_from(['const', 'mem', 'global', 'local']), imm(k), s_args(k))),
            min_size=1, max_size=6)

    def imm(k):
        from hypothesis import strategies as st
        op = ops.OPS[k]
        if op.imm == 'lane':
            return st.integers(0, op.arg - 1)
        if op.imm == 'shuffle':
            return st.lists(st.integers(0, 31), min_size=16, max_size=16).map(tuple)
        return st.none()

    def run(case, ctx):
        m = enc.Mod()
        m.mems.append((1, 1))
        for j, (k, src, im, args) in enumerate(case):
            op = ops.OPS[k]
            pre, loc = [], []
            body = []
            for i, (t, a) in enumerate(zip(op.params, args)):
                if src == 'const':
                    body.append((CT[t], a))
                elif src == 'mem':
                    pre += [('i32.const', 64 * j + 16 * i), (CT[t], a), (ST[t], 0, 4096)]
                    body += [('i32.const', 64 * j + 16 * i), (LD[t], 0, 4096)]
                elif src == 'global':
                    m.globals.append((t, 1, [(CT[t], 0)]))
                    g = len(m.globals) - 1
                    pre += [(CT[t], a), ('global.set', g)]
                    body.append(('global.get', g))
                else:
                    loc.append(t)
                    pre += [(CT[t], a), ('local.set', i)]
                    body.append(('local.get', i))
            ins = (k,) if im is None else (k, im)
            m.func([], op.results + op.params, loc, pre + body + [ins] + body, str(j))
        pw = drive.PW()
        inst = pw.instance(enc.encode(m))
        for j, (k, src, im, args) in enumerate(case):
            addr = pw.extern(inst, str(j)).data
            op = ops.OPS[k]
            for rep in (0, 1):
                try:
                    want = num.sem(k, im)(*args)
                except num.Trap:
                    continue
                what = lambda: (f'{k} imm={im} operands from {src} {[hx(t, a) for t, a in zip(op.params, args)]} '
                                f'(call {rep + 1})')
                try:
                    got = [drive.fromval(x) for x in drive.attempt(pw.rt.machine.invocate, addr, [])]
                except drive.Raised as e:
                    check(False, lambda: f'{what()}: {e!r}')
                check(num.match(want, got[0][1]), lambda: f'{what()} = {hx(*got[0])}, specified '
                      f'{want if not isinstance(want, int) else hx(op.results[0], want)}')
                check([g[1] for g in got[1:]] == list(args),
                      lambda: f'{what()}: operands read back as {[hx(*g) for g in got[1:]]}')
            ctx.tag('operands from ' + src)
            ctx.good(h=hash((k, src, im, args)))
    return Test(name, run, strategy=strategy, n=n, shards=shards)


RULE = ('a case is one instruction with operand bit patterns; non-trivial = some operand differs from 0 and 1; '
        'distinct by (instruction, immediates, operands)')
