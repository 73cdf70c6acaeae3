"""C06: structured control flow, locals, multi-value."""
from .. import diff, diffprop, enc, gen, num
from ..runner import Test, check

ID = 'C06'
RULE = ('a case is a generated module with a history of calls (or one branch shape with an operand); non-trivial = the '
        'reference executed at least one taken branch, br_table or loop back-edge; distinct by generated bytes/shape')
ASSUME = ['generated modules are valid (cross-checked with V8 during development)',
          'loops are bounded by counters; programs exceeding the reference fuel are discarded']


def ctl(p):
    return any(k in p.ref.stat for k in ('br', 'br_table', 'loop'))


# -- branch shapes: every target depth x arity x junk height x kind of the enclosing constructs ------------------------
T = ('i32', 'i64', 'f64')


def shape_cases(tier, shard, nshards):
    k = 0
    for nest in range(1, 5 if tier == 'quick' else 6):
        for kinds in range(1 << (2 * nest)):
            ks = tuple((kinds >> (2 * i)) & 3 for i in range(nest))     # 0 block 1 loop 2 if-then 3 else
            for target in range(nest + 1):
                for how in ('br', 'br_if', 'br_table', 'return'):
                    k += 1
                    if nest == 4 and tier == 'quick' and (k * 2654435761 >> 7) % 10:
                        continue
                    if k % nshards == shard:
                        yield ks, target, how, k


def shape_run(case, ctx):
    """fn(i32 p, i32 idx): nest constructs of the given kinds, each leaving junk below, and branch out of the innermost.
    The function is called from a caller that also keeps values on its stack."""
    ks, target, how, salt = case
    m = enc.Mod()
    n = len(ks)
    # result arity of construct i: 0..2 (loops are entered without parameters)
    ar = [((salt >> i) * 7 + i) % 3 for i in range(n)]
    fr = tuple(T[(salt + i) % 3] for i in range((salt >> 3) % 3))
    rs = [tuple(T[(i + j + salt) % 3] for j in range(a)) for i, a in enumerate(ar)]

    def consts(ts, v):
        return [(t + '.const', v + i if t[0] == 'i' else num.rnd(num.Fraction(v + i), 64)) for i, t in enumerate(ts)]

    # labels from the innermost outwards; label i of construct n-1-i
    def lab(d):
        if d == n:
            return fr
        k = n - 1 - d
        return () if ks[k] == 1 else rs[k]

    def innermost():
        want = lab(target)
        out = consts(T[:salt % 3], 90) + consts(want, 70)
        if how == 'return':
            return consts(fr, 60) + [('return',)]
        if how == 'br':
            return out + [('br', target)]
        if how == 'br_if':
            res = rs[-1]
            return out + [('local.get', 0), ('br_if', target)] + [('drop',)] * (len(want) + salt % 3) + consts(res, 50)
        same = [d for d in range(n + 1) if lab(d) == want]
        return out + [('local.get', 1), ('br_table', [same[(j + salt) % len(same)] for j in range(3)], target)]

    def build(i):
        inner = build(i + 1) if i + 1 < n else None
        pre = consts(T[:(salt >> i) % 3], 10 * i)       # junk
        if inner is None:
            body = innermost()
            if how != 'br_if':
                body = body      # unreachable end
        else:
            body = inner
            # consume the inner results, leave ours
            body = body + [('drop',)] * len(rs[i + 1]) + [('drop',)] * len(pre_of(i + 1)) + consts(rs[i], 100 + i)
        bt = m.type((), rs[i])
        kind = ks[i]
        if kind == 0:
            ins = [('block', bt, body)]
        elif kind == 1:
            # a back edge runs at most twice
            guard = [('local.get', 2), ('i32.const', 1), ('i32.add',), ('local.tee', 2), ('i32.const', 3),
                     ('i32.gt_u',), ('if', None, consts(fr, 200) + [('return',)], None)]
            ins = [('loop', bt, guard + body)]
        elif kind == 2:
            ins = [('local.get', 0), ('i32.const', 2), ('i32.or',), ('if', bt, body, consts(rs[i], 300))]
        else:
            ins = [('i32.const', 0), ('if', bt, consts(rs[i], 400), body)]
        return pre + ins

    def pre_of(i):
        return T[:(salt >> i) % 3]

    body = build(0) + [('drop',)] * (len(rs[0]) + len(pre_of(0))) + consts(fr, 500)
    f = m.func(['i32', 'i32'], fr, ['i32'], body, 'f0')
    # caller: keeps i64 42 below, adds the callee's results, checks its own locals afterwards
    m.func(['i32', 'i32'], ('i64',) + fr + ('i32',), ['i64'],
           [('i64.const', 42), ('local.get', 0), ('local.get', 1), ('call', f), ('local.get', 1)], 'f1')
    args = [[0, 0], [1, 1], [1, 2], [0, 3], [5, 0xffffffff]]
    c = gen.Case(m, [], [(i, list(a)) for a in args for i in (1, 0)])
    p = diff.run(c, ctx)
    if ctl(p) or how == 'return':
        ctx.good()


def shape_show(c):
    return f'constructs {c[0]} (0 block, 1 loop, 2 if-then, 3 if-else), branch {c[2]} to depth {c[1]}, salt {c[3]}'


def tests(tier):
    return [Test('shapes', shape_run, cases=shape_cases, show=shape_show),
            diffprop.gen_test('programs', gen.Profile(ctl=6, opw=4), (5000, 200000), ctl),
            diffprop.gen_test('mixed', gen.Profile(simd=True, bulk=True, datas=2, hosts=2, table=True, indirect=True,
                                                   maxfuncs=5, traps=2), (2400, 100000), ctl)]
