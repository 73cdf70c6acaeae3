"""C08: linear memory."""
import random

from .. import diff, diffprop, drive, enc, gen, num, numlib, ops
from ..runner import Test, check

ID = 'C08'
RULE = ('a case is a module with one instruction per step and a history of steps (or a generated program); non-trivial = '
        'at least two steps executed, at least one of them writing memory or trapping; distinct by case')
ASSUME = ['memory.grow is judged where the outcome does not depend on the implementation limit of 1024 pages (resource '
          'limits are permitted by the specification)']
PAGE = 65536
LOADSTORE = [o for g in ('load', 'store', 'vload', 'loadlane', 'storelane') for o in ops.GROUPS[g]]


def build(case):
    lo, hi, datas, steps = case
    m = enc.Mod()
    m.mems.append((lo, hi))
    m.exports.append(('mem', 'mem', 0))
    for mode, b, off in datas:
        m.datas.append(enc.Data(mode, b, [('i32.const', off)] if mode == 'active' else None))
    calls = []
    for k, st in enumerate(steps):
        n = st[0]
        o = ops.OPS.get(n)
        if o is not None:
            _, a, off, lane, args = st
            ins = (n, a, off) + ((lane,) if o.imm == 'memlane' else ())
            m.func(o.params, o.results, [], [('local.get', i) for i in range(len(o.params))] + [ins], f'f{k}')
            calls.append((k, list(args)))
        elif n in ('memory.size', 'memory.grow'):
            ps = ['i32'] * (n == 'memory.grow')
            m.func(ps, ['i32'], [], [('local.get', i) for i in range(len(ps))] + [(n,)], f'f{k}')
            calls.append((k, list(st[1])))
        elif n in ('memory.fill', 'memory.copy', 'memory.init'):
            ins = (n,) if n != 'memory.init' else (n, st[2])
            m.func(['i32'] * 3, [], [], [('local.get', i) for i in range(3)] + [ins], f'f{k}')
            calls.append((k, list(st[1])))
        else:
            m.func([], [], [], [(n, st[1])], f'f{k}')
            calls.append((k, []))
    return gen.Case(m, [], calls)


def hist_run(case, ctx):
    c = build(case)
    p = diff.Pair(c)
    if not p.ok:
        ctx.tag('active segment out of bounds')
        ctx.good()
        return
    p.compare('after instantiation')
    wrote = 0
    for n, (i, args) in enumerate(c.calls):
        r = p.call(i, args, f'step {n} {case[3][n][0]} {case[3][n][1:-1]}: ')
        p.compare(f'after step {n} {case[3][n]}')
        ctx.tag(('trap ' if r[0] == 'trap' else 'ok ') + (ops.OPS[case[3][n][0]].group if case[3][n][0] in ops.OPS
                                                         else case[3][n][0]))
        wrote += r[0] == 'trap' or 'store' in case[3][n][0] or case[3][n][0].startswith('memory.')
    if len(c.calls) > 1 and wrote:
        ctx.good()


def hist_strategy():
    from hypothesis import strategies as st
    size = st.integers(0, 3)

    def value(t):
        if t == 'v128':
            return numlib.s_lanes(8, False)
        return numlib.s_arg(t) if t[0] == 'i' else st.integers(0, num.MASK[int(t[1:])])

    def ea(lo, nb):
        """(base, offset) pairs around the interesting limits"""
        near = st.sampled_from([0, 1, PAGE, lo * PAGE, max(0, lo * PAGE - PAGE)])
        target = st.builds(lambda a, d: max(0, a + d), near, st.one_of(st.integers(-nb - 2, 3), st.integers(-300, 300)))
        split = st.builds(lambda t, f: (t - (t * f >> 8), t * f >> 8), target, st.sampled_from([0, 0, 0, 256, 128, 255, 1]))
        small = st.tuples(st.integers(0, 64), st.integers(0, 16))
        wrap = st.builds(lambda b, o: (b & num.MASK[32], o & num.MASK[32]), st.one_of(st.integers(-20, 20), st.sampled_from([1 << 31, -1 << 31])),
                         st.one_of(st.integers(-20, 20), st.sampled_from([1 << 31, 0])))
        return st.one_of(small, split, split, wrap)

    def access(lo):
        def f(o):
            vals = [value(t) for t in o.params[1:]]
            return st.builds(lambda a, bo, l, vs: (o.name, a, bo[1], l, (bo[0],) + tuple(vs)),
                             st.integers(0, o.arg.bit_length() - 1), ea(lo, o.arg), st.integers(0, 16 // o.arg - 1),
                             st.tuples(*vals))
        return st.sampled_from(LOADSTORE).flatmap(f)

    def bulk(lo, nd):
        n = lo * PAGE
        pos = st.one_of(st.integers(0, 40), st.integers(max(0, n - 40), n + 3), st.integers(0, num.MASK[32]))
        cnt = st.one_of(st.integers(0, 40), st.sampled_from([0, n, n + 1, num.MASK[32], 1 << 31]), st.integers(0, 300))
        val = st.one_of(st.integers(0, 255), st.integers(0, num.MASK[32]))
        l = [st.tuples(st.just('memory.fill'), st.tuples(pos, val, cnt)),
             st.tuples(st.just('memory.copy'), st.tuples(pos, pos, cnt)),
             st.tuples(st.just('memory.copy'), st.builds(lambda a, d, c: (a, max(0, a + d), c), st.integers(0, 60),
                                                         st.integers(-9, 9), st.integers(0, 30)))]
        if nd:
            l += [st.tuples(st.just('memory.init'), st.tuples(pos, st.integers(0, 9), st.integers(0, 9)),
                            st.integers(0, nd - 1)),
                  st.tuples(st.just('memory.init'), st.tuples(pos, pos, cnt), st.integers(0, nd - 1)),
                  st.tuples(st.just('data.drop'), st.integers(0, nd - 1))]
        return st.one_of(*l)

    def whole(lo):
        data = st.builds(lambda mode, b, off: (mode, b, off), st.sampled_from(['active', 'passive']),
                         st.binary(max_size=12),
                         st.one_of(st.integers(0, 50), st.integers(max(0, lo * PAGE - 14), lo * PAGE + 2)
                                   if lo else st.just(0)))
        # deltas never reach into the range where the 1024 page limit would decide
        grow = st.tuples(st.just('memory.grow'), st.tuples(st.one_of(
            st.integers(0, 3), st.sampled_from([0, 65536, 65537, 1 << 31, num.MASK[32], 65535 - 0 + 2]))))
        size = st.tuples(st.just('memory.size'), st.just(()))

        def steps(ds):
            step = st.one_of(access(lo), access(lo), access(lo + 1), bulk(lo, len(ds)), grow, size)
            return st.tuples(st.just(lo), st.one_of(st.none(), st.integers(lo, lo + 4)), st.just(ds),
                             st.lists(step, min_size=1, max_size=8))
        return st.lists(data, max_size=3).flatmap(steps)
    return size.flatmap(whole)


# -- systematic: every access instruction at every distance from the end of memory, split between base and offset ---------
def edge_cases(tier, shard, nshards):
    k = 0
    for o in LOADSTORE:
        for lane in range(16 // o.arg if o.imm == 'memlane' else 1):
            for al in range(o.arg.bit_length()):
                for d in range(-o.arg - 1, 2):
                    for sp in (0, 1, 2, 3):
                        k += 1
                        if tier == 'quick' and o.arg > 4 and k % 3:
                            continue
                        if k % nshards == shard:
                            yield o.name, lane, al, d, sp


def edge_run(case, ctx):
    n, lane, al, d, sp = case
    o = ops.OPS[n]
    lo = 1 + (al & 1)
    ea = lo * PAGE + d
    if sp == 0:
        base, off = ea, 0
    elif sp == 1:
        base, off = 0, ea
    elif sp == 2:
        base, off = ea - 7, 7
    else:
        base, off = (ea - 65535, 65535)
    m = enc.Mod()
    m.mems.append((lo, lo))
    m.exports.append(('mem', 'mem', 0))
    m.datas.append(enc.Data('active', bytes(range(0x70, 0xa0)), [('i32.const', lo * PAGE - 48)]))
    ins = (n, al, off) + ((lane,) if o.imm == 'memlane' else ())
    m.func(o.params, o.results, [], [('local.get', i) for i in range(len(o.params))] + [ins], 'f0')
    v = 0x8091a2b3c4d5e6f7_0f1e2d3c4b5a6978
    args = [base & num.MASK[32]] + [v & num.MASK[numlib.num_w(t)] for t in o.params[1:]]
    c = gen.Case(m, [], [(0, args), (0, [args[0] - 1 & num.MASK[32]] + args[1:]), (0, [num.MASK[32] - o.arg + 1] + args[1:])])
    p = diff.run(c, ctx, tables=False, stop_on_trap=False)
    ctx.good()


# -- large fills and overlapping copies, against a byte array ----------------------------------------------------------------
def large_strategy():
    from hypothesis import strategies as st
    n = 2 * PAGE
    scale = st.sampled_from([1, 2, 7, 16, 100, 255, 256, 1000, 4095, 4096, 4097, 8192, 20000, 32768, 65535, 65536, 65537, 100000])
    pos = st.one_of(st.integers(0, 300), st.integers(0, n), scale)
    near = st.builds(lambda p, d, sg: (p, max(0, p + sg * d)), pos, scale, st.sampled_from([-1, 1]))
    size = st.one_of(scale, st.integers(0, n), st.builds(lambda a, b: a + b, scale, st.integers(0, 300)))
    step = st.one_of(st.tuples(st.sampled_from(['copy', 'copy', 'init']), near, size), st.tuples(st.sampled_from(['copy', 'copy', 'init']), near, size),
                     st.tuples(st.just('fill'), st.tuples(pos, st.integers(0, 300)), size), st.tuples(st.just('drop'), near, st.just(1)))
    return st.tuples(st.integers(0, 1 << 16), st.lists(step, min_size=1, max_size=5))


def large_module():
    m = enc.Mod()
    m.mems.append((2, 2))
    m.exports.append(('mem', 'mem', 0))
    m.datas.append(enc.Data('passive', bytes(k * k * 7 >> 3 & 255 for k in range(70000)), None))
    for n, i in (('copy', ('memory.copy',)), ('fill', ('memory.fill',)), ('init', ('memory.init', 0)), ('drop', ('data.drop', 0))):
        m.func(['i32'] * 3, [], [], [i], n) if n == 'drop' else m.func(['i32'] * 3, [], [], [('local.get', 0), ('local.get', 1), ('local.get', 2), i], n)
    return m


def large_run(case, ctx):
    seed, steps = case
    m = large_module()
    pw = drive.PW()
    inst = pw.instance(enc.encode(m))
    mem = pw.memory(inst)
    data = m.datas[0].init
    want = bytearray(random.Random(seed).randbytes(2 * PAGE))
    mem.put(0, want.copy())
    for k, (op, (a, b), n) in enumerate(steps):
        if op == 'drop':
            pw.call(inst, op, [('i32', 0)] * 3)
            data = b''
            continue
        bad = a + n > len(want) or op != 'fill' and b + n > (len(want) if op == 'copy' else len(data))
        if not bad:
            want[a:a + n] = bytes([b & 255]) * n if op == 'fill' else bytes((want if op == 'copy' else data)[b:b + n])
        try:
            pw.call(inst, op, [('i32', a), ('i32', b), ('i32', n)])
            check(not bad, lambda: f'step {k}: memory.{op} {a} {b} {n} out of bounds does not trap')
        except drive.Raised as e:
            check(bad, lambda: f'step {k}: memory.{op} {a} {b} {n}: {e!r}')
        got = bytes(mem.get(0, 2 * PAGE))
        check(got == want, lambda: f'step {k}: after memory.{op} {a} {b} {n} byte {next(i for i in range(len(want)) if got[i] != want[i])} is wrong (data of seed {seed}, steps {steps})')
        ctx.tag('trap' if bad else f'{op} of 2**{n.bit_length()}')
        if n > 1 and not bad:
            ctx.good()


def tests(tier):
    prof = gen.Profile(simd=True, bulk=True, datas=4, memw=6, ctl=2, traps=2, opw=3, calls=False)
    return [Test('edges', edge_run, cases=edge_cases),
            Test('large', large_run, strategy=large_strategy, n=(3000, 100000)),
            Test('history', hist_run, strategy=hist_strategy, n=(4800, 200000)),
            diffprop.gen_test('programs', prof, (4000, 150000), lambda p: any(r for r in p.case.calls))]
