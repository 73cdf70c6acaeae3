"""C09: tables and references."""
from .. import diff, diffprop, enc, gen, num
from ..runner import Test

ID = 'C09'
RULE = ('a case is a module with up to three tables, element segments and a history of table/reference steps (or a '
        'generated program); non-trivial = at least two steps, one of them changing a table or trapping; distinct by case')
ASSUME = ['table.grow is judged where the outcome does not depend on the implementation limit of 1024 entries']
NF = 4      # identity functions f0..f3: f_k returns 10 + k; all (i32)->i32 except f3: ()->i32


def build(case):
    tables, elems, steps = case
    m = enc.Mod()
    m.imports.append(('env', 'h0', 'func', m.type(['i32'], ['i32'])))
    m.exports.append(('f0', 'func', 0))
    for k in range(3):
        m.func(['i32'], ['i32'], [], [('i32.const', 10 + k)], f'f{k + 1}')
    m.func([], ['i32'], [], [('i32.const', 13)], 'f4')
    for t in tables:
        m.tables.append(t)
        m.exports.append((f't{len(m.tables) - 1}', 'table', len(m.tables) - 1))
    m.globals.append(('funcref', 1, [('ref.func', 2)]))
    m.globals.append(('externref', 1, [('ref.null', 'externref')]))
    for mode, ty, init, ti, off in elems:
        ti %= len(tables)
        if mode == 'active':
            ty = tables[ti][0]
        ex = [[('ref.null', ty)] if ty == 'externref' or x is None else [('ref.func', x)] for x in init]
        m.elems.append(enc.Elem(mode, ty, ex, ti, [('i32.const', off)] if mode == 'active' else None))
    calls = []
    for k, (n, a, args) in enumerate(steps):
        ti = a % len(tables)
        t = tables[ti][0]
        same = [i for i, x in enumerate(tables) if x[0] == t]
        tj = same[(a >> 4) % len(same)]
        es = [i for i, e in enumerate(m.elems) if e.type == t]
        I = 'i32'
        if n == 'get':
            ps, rs, b = [I], [t], [('local.get', 0), ('table.get', ti)]
            av = [args[0]]
        elif n == 'set':
            ps, rs, b = [I, t], [], [('local.get', 0), ('local.get', 1), ('table.set', ti)]
            av = [args[0], refarg(t, args[1])]
        elif n == 'setconst':
            v = [('ref.null', t)] if t == 'externref' or args[1] % 6 == 5 else [('ref.func', args[1] % 5)]
            ps, rs, b = [I], [], [('local.get', 0)] + v + [('table.set', ti)]
            av = [args[0]]
        elif n == 'size':
            ps, rs, b, av = [], [I], [('table.size', ti)], []
        elif n == 'grow':
            ps, rs, b = [t, I], [I], [('local.get', 0), ('local.get', 1), ('table.grow', ti)]
            av = [refarg(t, args[1]), args[2]]
        elif n == 'fill':
            ps, rs, b = [I, t, I], [], [('local.get', 0), ('local.get', 1), ('local.get', 2), ('table.fill', ti)]
            av = [args[0], refarg(t, args[1]), args[2]]
        elif n == 'copy':
            ps, rs, b = [I, I, I], [], [('local.get', 0), ('local.get', 1), ('local.get', 2), ('table.copy', ti, tj)]
            av = [args[0], args[1], args[2]]
        elif n == 'init' and es:
            e = es[(a >> 6) % len(es)]
            ps, rs, b = [I, I, I], [], [('local.get', 0), ('local.get', 1), ('local.get', 2), ('table.init', e, ti)]
            av = [args[0], args[1], args[2]]
        elif n == 'drop' and m.elems:
            ps, rs, b, av = [], [], [('elem.drop', a % len(m.elems))], []
        elif n == 'isnull':
            ps, rs, b = [I], [I, I], [('local.get', 0), ('table.get', ti), ('ref.is_null',), ('ref.null', t), ('ref.is_null',)]
            av = [args[0]]
        elif n == 'callidx' and t == 'funcref':
            ps, rs = [I], [I]
            b = [('i32.const', 5), ('local.get', 0), ('call_indirect', m.type([I], [I]), ti)]
            av = [args[0]]
        elif n == 'global':
            g = 0 if t == 'funcref' else 1
            ps, rs, b = [t], [t, I], [('global.get', g), ('local.get', 0), ('global.set', g), ('global.get', g),
                                      ('ref.is_null',)]
            av = [refarg(t, args[1])]
        else:      # 'local': reference through locals, select and block results
            ps, rs = [t, t, I], [t, t]
            b = [('local.get', 0), ('local.get', 1), ('local.get', 2), ('select_t', t), ('local.tee', 3),
                 ('block', t, [('local.get', 3), ('local.get', 2), ('br_if', 0), ('drop',), ('local.get', 4)])]
            av = [refarg(t, args[0]), refarg(t, args[1]), args[2] & 1]
            m.func(ps, rs, [t, t], b, f's{k}')
            calls.append((f's{k}', av, n))
            continue
        m.func(ps, rs, [], b, f's{k}')
        calls.append((f's{k}', av, n))
    # what is left of every segment
    for e, x in enumerate(m.elems):
        for ti in [i for i, t in enumerate(tables) if t[0] == x.type][:1]:
            m.func(['i32'] * 3, [], [], [('local.get', 0), ('local.get', 1), ('local.get', 2), ('table.init', e, ti)], f'left{e}')
            n = len(x.init)
            calls += [(f'left{e}', a, 'left') for a in ([0, 0, 0], [0, 0, 1], [0, max(0, n - 1), 1], [0, 0, n], [0, 0, n + 1])]
    for k, t in enumerate(tables):
        m.func(['i32'], [t[0]], [], [('local.get', 0), ('table.get', k)], f'tget{k}')
        m.func([], ['i32'], [], [('table.size', k)], f'tsize{k}')
    return gen.Case(m, [(('i32',), ('i32',))], calls)


class FRef:
    """placeholder for 'the function f_k', resolved per side"""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f'<f{self.k}>'


def refarg(t, x):
    if x % 4 == 3:
        return None
    return FRef(x % 5) if t == "funcref" else x & 0x7fffffff


def hist_run(case, ctx):
    c = build(case)
    p = diff.Pair(c)
    if not p.ok:
        ctx.tag('instantiation traps')
        ctx.good()
        return
    changed = 0
    p.tables('after instantiation: ')
    for n, (i, args, kind) in enumerate(c.calls):
        r = call(p, i, args, f'step {n} {kind}: ')
        ctx.tag(f'{r} {kind}')
        changed += r == 'trap' or kind in ('set', 'setconst', 'grow', 'fill', 'copy', 'init', 'drop')
        p.tables(f'after step {n} {kind}{args}: ')
    if len(c.calls) > 1 and changed:
        ctx.good()


def call(p, name, args, what):
    """like Pair.call but with function references among the arguments"""
    from .. import drive, ref
    from ..runner import check
    k, f = p.ri.exports[name]
    ps, rs = f.type
    ra = [p.ri.funcs[a.k] if isinstance(a, FRef) else a for a in args]
    pa = [p.pw.extern(p.pi, f'f{a.k}').data if isinstance(a, FRef) else a for a in args]
    try:
        r = p.ref.invoke(p.ri, name, ra)
    except num.Trap as e:
        r = e
    try:
        g = p.pw.call(p.pi, name, list(zip(ps, pa)))
    except drive.Raised as e:
        check(not isinstance(r, list), lambda: f'{what}{args}: pywasm {e!r}, specified {r}')
        return 'trap'
    check(isinstance(r, list), lambda: f'{what}{args}: pywasm returned {g}, specified to trap ({r!r})')
    check([t for t, _ in g] == list(rs) and all(p.same(t, a, b) for (t, a), b in zip(g, r)),
          lambda: f'{what}{args}: pywasm returned {g}, specified {r}')
    return 'ok'


def hist_strategy():
    from hypothesis import strategies as st
    size = st.integers(0, 6)
    table = st.builds(lambda t, lo, hi: (t, lo, None if hi is None else lo + hi), st.sampled_from(['funcref', 'funcref', 'externref']),
                      size, st.one_of(st.none(), st.integers(0, 4)))
    elem = st.tuples(st.sampled_from(['active', 'passive', 'passive', 'declarative']),
                     st.sampled_from(['funcref', 'funcref', 'externref']),
                     st.lists(st.one_of(st.integers(0, 4), st.none()), max_size=4).map(tuple), st.integers(0, 2),
                     st.one_of(st.just(0), st.integers(0, 7)))
    small = st.integers(0, 7)
    big = st.sampled_from([num.MASK[32], 1 << 31, 1 << 16, num.MASK[32] - 1])
    tiny = st.integers(0, 2)
    idx = st.one_of(tiny, tiny, tiny, tiny, tiny, small, small, small, big)
    step = st.tuples(st.sampled_from(['get', 'set', 'setconst', 'size', 'grow', 'fill', 'copy', 'copy', 'init', 'init', 'drop', 'isnull',
                                      'callidx', 'global', 'local']), st.integers(0, 255), st.tuples(idx, small, idx))

    def fix(s):
        n, a, (x, y, z) = s
        if n == 'grow':
            # keep away from the range where the 1024 entry limit would decide
            z = z if z < 8 else [num.MASK[32], 1 << 31, 1 << 16][z % 3]
            if z == 1 << 16:
                z = num.MASK[32]
        return n, a, (x, y, z)
    return st.tuples(st.lists(table, min_size=1, max_size=3).map(tuple), st.lists(elem, max_size=4).map(tuple),
                     st.lists(step.map(fix), min_size=1, max_size=10))


# -- larger tables: overlapping copies, fills, growth, against a list ---------------------------------------------------------
NL = 300


def large_module():
    m = enc.Mod()
    ty = m.type([], ['i32'])
    m.mems.append((1, 1))
    m.exports.append(('mem', 'mem', 0))
    m.tables += [('funcref', NL, 500), ('funcref', NL, None)]
    for k in range(NL):
        m.func([], ['i32'], [], [('i32.const', k)])
    m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', k)] for k in range(NL)], 0, [('i32.const', 0)]))
    m.elems.append(enc.Elem('passive', 'funcref', [[('ref.func', k * 7 % NL)] if k % 5 else [('ref.null', 'funcref')] for k in range(NL)], 0, None))
    abc = [('local.get', 0), ('local.get', 1), ('local.get', 2)]
    for i in (0, 1):
        m.func(['i32'] * 3, [], [], abc + [('table.init', 1, i)], f'init{i}')
        m.func(['i32'] * 3, [], [], abc[:1] + abc[1:2] + [('table.get', 0)] + abc[2:] + [('table.fill', i)], f'fill{i}')
        m.func(['i32'] * 2, ['i32'], [], [('local.get', 1), ('table.get', 0), ('local.get', 0), ('table.grow', i)], f'grow{i}')
        for j in (0, 1):
            m.func(['i32'] * 3, [], [], abc + [('table.copy', i, j)], f'copy{i}{j}')
        g = [('local.get', 0)]
        m.func([], ['i32'], ['i32'], [('block', None, [('loop', None, g + [('table.size', i), ('i32.ge_u',), ('br_if', 1)] + g + [('i32.const', 4), ('i32.mul',)] + g + [
            ('table.get', i), ('ref.is_null',), ('if', 'i32', [('i32.const', num.MASK[32])], g + [('call_indirect', ty, i)]), ('i32.store', 2, 0)] + g + [
            ('i32.const', 1), ('i32.add',), ('local.set', 0), ('br', 0)])]), ('table.size', i)], f'dump{i}')
    return m


def large_strategy():
    from hypothesis import strategies as st
    scale = st.sampled_from([0, 1, 2, 8, 16, 31, 32, 64, 100, 128, 150, 200, 255, 256, 299, 300])
    pos = st.one_of(st.integers(0, 310), scale)
    near = st.builds(lambda p, d, sg: (p, max(0, p + sg * d)), st.integers(0, 200), scale, st.sampled_from([-1, 1]))
    cnt = st.one_of(scale, st.integers(0, 250), st.integers(0, 40))
    ti = st.integers(0, 1)
    step = st.one_of(st.tuples(st.just('copy'), ti, ti, near, cnt), st.tuples(st.just('copy'), ti, st.just(-1), near, cnt), st.tuples(st.just('init'), ti, ti, near, cnt),
                     st.tuples(st.just('fill'), ti, ti, st.tuples(pos, st.integers(0, 299)), cnt),
                     st.tuples(st.just('grow'), ti, ti, st.tuples(st.just(0), st.integers(0, 299)), st.integers(0, 110)))
    return st.lists(step, min_size=1, max_size=5)


def large_setup(ctx):
    from .. import drive
    ctx.data['desc'] = drive.decode(enc.encode(large_module()))


def large_run(steps, ctx):
    from .. import drive
    from ..runner import check
    pw = drive.PW()
    inst = pw.instance(ctx.data['desc'])
    mem = pw.memory(inst)
    seg = [k * 7 % NL if k % 5 else None for k in range(NL)]
    t = [list(range(NL)), [None] * NL]
    lim = [500, 1024]
    for k, (op, i, j, (a, b), n) in enumerate(steps):
        j = i if j < 0 else j
        src = {'copy': t[j], 'init': seg, 'fill': t[0], 'grow': t[0]}[op]
        bad = op != 'grow' and a + n > len(t[i]) or b + (n if op in ('copy', 'init') else 1) > len(src)
        ret = []
        if op == 'grow':
            if len(t[i]) + n > lim[i] and i:
                return
            ret = [len(t[i])] if len(t[i]) + n <= lim[i] else [num.MASK[32]]
            if ret[0] != num.MASK[32] and not bad:
                t[i] += [t[0][b]] * n
            args = [n, b]
        else:
            if not bad:
                t[i][a:a + n] = [src[b]] * n if op == 'fill' else src[b:b + n]
            args = [a, b, n]
        name = op + str(i) + (str(j) if op == 'copy' else '')
        try:
            got = [v for _, v in pw.call(inst, name, [('i32', x) for x in args])]
            check(not bad and got == ret, lambda: f'step {k}: {name}{args} returned {got}, ' + ('specified to trap' if bad else f'expected {ret}'))
        except drive.Raised as e:
            check(bad, lambda: f'step {k}: {name}{args}: {e!r}')
        for x in (i,) if k < len(steps) - 1 else (0, 1):
            size = pw.call(inst, f'dump{x}', [], cpu=60)[0][1]
            raw = bytes(mem.get(0, 4 * size))
            now = [int.from_bytes(raw[q:q + 4], 'little') for q in range(0, len(raw), 4)]
            now = [None if v == num.MASK[32] else v for v in now]
            check(now == t[x], lambda: f'step {k}: after {name}{args} table {x} has {size} entries, expected {len(t[x])}; first difference: '
                  f'{next(((q, u, v) for q, (u, v) in enumerate(zip(now, t[x])) if u != v), None)} (steps {steps})')
        ctx.tag('large ' + op)
        if n > 1 and not bad:
            ctx.good()


def tests(tier):
    prof = gen.Profile(refs=True, table=True, indirect=True, refw=5, elems=4, ctl=2, traps=2, opw=2, mem=False)
    return [Test('large', large_run, strategy=large_strategy, n=(900, 30000), setup=large_setup),
            Test('history', hist_run, strategy=hist_strategy, n=(6000, 200000),
                 show=lambda c: repr(c) + '\n' + repr(build(c))),
            diffprop.gen_test('programs', prof, (5000, 150000), lambda p: bool(p.case.mod.tables))]
