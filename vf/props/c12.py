"""C12: traps."""
from .. import enc, gen, num, ref, world
from ..diffprop import h64
from ..runner import Test, check

ID = 'C12'
RULE = ('a case is a history of invocations and instantiations in one runtime; non-trivial = at least one of them trapped and '
        'another one followed it; distinct by case')
ASSUME = ['the state left by a stack exhaustion at an unspecified depth is judged only where it does not depend on the depth']
CAUSES = ('none', 'unreachable', 'div0', 'divovf', 'rem0', 'trunc', 'truncnan', 'load', 'store', 'vload', 'fill', 'copy',
          'init', 'tget', 'tset', 'tinit', 'tcopy', 'tfill', 'inull', 'itype', 'iparam', 'iresult', 'imore', 'ifewer', 'ioob', 'host', 'exhaust')


def trap_code(c, m, T, T2, hostf, inf):
    I = lambda *x: [('i32.const', v & num.MASK[32]) for v in x]
    big = -2
    return {
        'none': [],
        'unreachable': [('unreachable',)],
        'div0': I(5, 0) + [('i32.div_s',), ('drop',)],
        'divovf': I(1 << 31, -1) + [('i32.div_s',), ('drop',)],
        'rem0': [('i64.const', 5), ('i64.const', 0), ('i64.rem_u',), ('drop',)],
        'trunc': [('f64.const', 0x4340000000000000), ('i32.trunc_f64_s',), ('drop',)],
        'truncnan': [('f32.const', 0x7fc00000), ('i64.trunc_f32_u',), ('drop',)],
        'load': I(big) + [('i64.load', 0, 0), ('drop',)],
        'store': I(65533, 7) + [('i32.store', 0, 0)],
        'vload': I(65530) + [('v128.load', 0, 0), ('drop',)],
        'fill': I(65530, 1, 7) + [('memory.fill',)],
        'copy': I(0, 65530, 7) + [('memory.copy',)],
        'init': I(0, 2, 9) + [('memory.init', 0)],
        'tget': I(99) + [('table.get', 0), ('drop',)],
        'tset': I(99) + [('ref.null', 'funcref'), ('table.set', 0)],
        'tinit': I(0, 0, 3) + [('table.init', 0, 0)],
        'tcopy': I(3, 2, 3) + [('table.copy', 0, 0)],
        'tfill': I(4) + [('ref.func', inf)] + I(3) + [('table.fill', 0)],
        'inull': I(3) + [('call_indirect', T, 0)],
        'itype': I(0) + [('call_indirect', T2, 0), ('drop',)],
        'iparam': [('i64.const', 5)] + I(2) + [('call_indirect', m.type(['i64'], ['i32']), 0), ('drop',)],
        'iresult': I(5, 2) + [('call_indirect', m.type(['i32'], ['f32']), 0), ('drop',)],
        'imore': I(5, 5, 2) + [('call_indirect', m.type(['i32', 'i32'], ['i32']), 0), ('drop',)],
        'ifewer': I(2) + [('call_indirect', m.type([], ['i32']), 0), ('drop',)],
        'ioob': I(1000) + [('call_indirect', T, 0)],
        'host': I(1) + [('call', hostf)],
        'exhaust': [('call', inf)],
    }[c]


NEST = ('plain', 'block', 'loop', 'if', 'call', 'callblock', 'indirect')


def shape_module(acts, start=None, nosegs=False):
    """acts: [(cause, nest, depth, junk)]; function a<k> writes before and after the trap"""
    m = enc.Mod()
    T = m.type([], [])
    T2 = m.type(['i64'], ['i64'])
    m.imports.append(('env', 'host', 'func', m.type(['i32'], [])))
    m.imports.append(('env', 'cell', 'global', ('i32', 1)))
    m.imports.append(('env', 'mem', 'mem', (1, 3)))
    m.globals.append(('i64', 1, [('i64.const', 1)]))
    m.tables.append(('funcref', 5, 8))
    m.exports += [('g', 'global', 1), ('mem', 'mem', 0), ('cell', 'global', 0)]
    inf = m.func([], [], [], [('call', 1)])
    m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', inf)]], 0, [('i32.const', 0)]))
    f2 = m.func(['i32'], ['i32'], [], [('local.get', 0)])
    m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', f2)]], 0, [('i32.const', 2)]))
    m.datas.append(enc.Data('passive', b'abcdefgh'))
    fi = []
    for k, (cause, nest, depth, junk) in enumerate(acts):
        def mark(v):
            return [('i32.const', 8 * k), ('i32.const', 8 * k), ('i32.load', 2, 0), ('i32.const', v), ('i32.add',),
                    ('i32.store', 2, 0), ('global.get', 0), ('i32.const', v), ('i32.add',), ('global.set', 0),
                    ('global.get', 1), ('i64.const', 3 * v), ('i64.add',), ('global.set', 1)]
        body = mark(1) + [('i32.const', 0), ('call', 0)] + trap_code(cause, m, T, T2, 0, inf) + mark(100)
        jt = ('i32', 'i64', 'f64', 'v128')
        js = [(jt[i % 4] + '.const', 5 + i) for i in range(junk)]
        drops = [('drop',)] * junk
        for d in range(depth):
            body = js + body + drops
            if nest == 'block':
                body = [('block', None, body)]
            elif nest == 'loop':
                body = [('loop', None, body)]
            elif nest == 'if':
                body = [('i32.const', d & 1), ('if', None, body if d & 1 else [('nop',)], [('nop',)] if d & 1 else body)]
            elif nest in ('call', 'callblock'):
                f = m.func([], [], ['i32', 'v128'], body)
                body = [('call', f)]
                if nest == 'callblock':
                    body = [('block', 'i32', [('i32.const', 3), ('block', None, body)]), ('drop',)]
            elif nest == 'indirect':
                f = m.func([], [], [], body)
                m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', f)]], 0, [('i32.const', 1)]))
                body = [('i32.const', 1), ('call_indirect', T, 0)]
        body = js + body + drops
        rs = ('i32', 'i64') if k % 2 else ('i32',)
        pre = [('local.get', 0)] + ([('i64.const', 77)] if k % 2 else [])
        fi.append(m.func(['i32'], rs, ['i64'], pre + body, f'a{k}'))
    m.func(['i32'], ['i32'], [], [('local.get', 0), ('table.get', 0), ('ref.is_null',)], 'tnull')
    # a probe sensitive to anything left on the stacks
    m.func(['i32', 'i64'], ['i64', 'i32', 'i32'], ['i32'], [
        ('block', 'i32', [('loop', None, [('local.get', 2), ('i32.const', 1), ('i32.add',), ('local.tee', 2), ('local.get', 0),
                                          ('i32.const', 7), ('i32.and',), ('i32.lt_u',), ('br_if', 0)]),
                          ('local.get', 2), ('local.get', 0), ('i32.const', 1), ('i32.and',), ('br_if', 0), ('drop',),
                          ('i32.const', 50)]),
        ('local.set', 2), ('local.get', 1), ('local.get', 2), ('local.get', 0)], 'probe')
    if start is not None:
        m.start = m.func([], [], [], [('i32.const', 5), ('call', fi[start])] + [('drop',)] * (1 + start % 2))
    return m


def shape_run(case, ctx):
    mods, steps = case
    w = world.World(fuel=200000, maxdepth=100)
    host = w.host('host', ['i32'], [], fail=lambda a: a[0] == 1)
    imports = {('env', 'host'): host, ('env', 'cell'): w.host_global('i32', 1, 0), ('env', 'mem'): w.host_mem(1, 3)}
    built = [shape_module(acts, start) for acts, start in mods]
    alive = []
    # a module without start function, so that there always is a view of the shared state
    base = shape_module([('none', 'plain', 0, 0)])
    alive.append((w.instantiate(base, imports, tag='base'), base, 1))
    trapped = after = 0
    for n, st in enumerate(steps):
        after += trapped > 0
        if st[0] == 'inst':
            mi = st[1] % len(mods)
            k = w.instantiate(built[mi], imports, tag=f'mod{mi}')
            ctx.tag('instantiated' if k is not None else 'instantiation trapped')
            if k is None:
                trapped += 1
            else:
                alive.append((k, built[mi], len(mods[mi][0])))
        elif st[0] == 'segment':
            m = enc.Mod()
            m.imports += [('env', 'mem', 'mem', (1, 3)), ('env', 'cell', 'global', ('i32', 1))]
            m.datas += [enc.Data('active', bytes([n + 1] * 3), [('i32.const', 500 + n)]),
                        enc.Data('active', b'xx', [('i32.const', 65536 * 3 - st[1] % 2)]),
                        enc.Data('active', b'yy', [('i32.const', 510)])]
            k = w.instantiate(m, imports, tag='bad segment')
            trapped += 1
        elif st[0] == 'link':
            m = shape_module([('none', 'plain', 0, 0)], 0)
            k = w.instantiate(m, {**imports, ('env', 'host'): imports['env', 'cell']}, tag='link error')
            trapped += 1
        else:
            k, m, na = alive[st[1] % len(alive)]
            if st[0] == 'act':
                r = w.call(k, f'a{st[2] % na}', [st[3]], f'step {n}: ')
                trapped += r[0] == 'trap'
                ctx.tag('act ' + r[0])
            elif st[0] == 'probe':
                w.call(k, 'probe', [st[3], 1 << 40 | st[3]], f'step {n}: ')
            else:
                for i in range(5):
                    w.call(k, 'tnull', [i], f'step {n}: ')
        w.compare(f'after step {n} {st}')
    for k, m, na in alive:
        w.call(k, 'probe', [5, 6], 'final: ')
        for i in range(5):
            w.call(k, 'tnull', [i], 'final: ')
    if trapped and after:
        ctx.good()


def shapes():
    from hypothesis import strategies as st
    act = st.tuples(st.sampled_from(CAUSES), st.sampled_from(NEST), st.integers(0, 6), st.integers(0, 4))
    mod = st.tuples(st.lists(act, min_size=1, max_size=4), st.one_of(st.none(), st.just(0)))
    step = st.one_of(st.tuples(st.just('act'), st.integers(0, 5), st.integers(0, 3), st.integers(0, 99)),
                     st.tuples(st.just('act'), st.integers(0, 5), st.integers(0, 3), st.integers(0, 99)),
                     st.tuples(st.just('probe'), st.integers(0, 5), st.just(0), st.integers(0, 99)),
                     st.tuples(st.just('table'), st.integers(0, 5)),
                     st.tuples(st.just('inst'), st.integers(0, 3)), st.tuples(st.just('inst'), st.integers(0, 3)),
                     st.tuples(st.just('segment'), st.integers(0, 1)), st.tuples(st.just('link'),))
    return st.tuples(st.lists(mod, min_size=1, max_size=3), st.lists(step, min_size=2, max_size=12))


# -- every cause in every nest, twice, then again in a fresh instance of the same runtime ------------------------------------
def all_cases(tier, shard, nshards):
    k = 0
    for c in CAUSES:
        for nest in NEST:
            for depth in (0, 1, 3):
                for start in (None, 0):
                    k += 1
                    if k % nshards == shard:
                        acts = [(c, nest, depth, k % 3), ('none', 'call', 1, 1)]
                        yield [(acts, None), (acts, start)], [
                            ('inst', 0), ('act', 1, 0, 5), ('probe', 1, 0, 9), ('act', 1, 0, 6), ('act', 1, 1, 5),
                            ('inst', 1), ('probe', 0, 0, 3), ('act', 1, 1, 5), ('inst', 1), ('inst', 0), ('act', 2, 1, 1),
                            ('act', 2, 0, 1), ('probe', 2, 0, 12)]


# -- generated programs with many trapping possibilities ----------------------------------------------------------------------
def prog(b):
    return gen.make(b, gen.Profile(refs=True, table=True, indirect=True, refw=2, elems=3, bulk=True, datas=2, hosts=2,
                                   traps=30, maxfuncs=5, budget=50, ctl=5), 10)


def prog_run(b, ctx):
    case = prog(b)
    w = world.World(fuel=60000)
    nc = [0, 0]

    def failer(side):
        def f(bits):
            nc[side] += 1
            return nc[side] % 3 == 0
        return f
    imports = {}
    for k, (ps, rs) in enumerate(case.hosts):
        e = world.Ext('func', ref.RHost((tuple(ps), tuple(rs)), world.diff.host_r(f'h{k}', ps, rs, w.log_r, failer(0))),
                      w.pw.rt.allocate_func_host(world.drive.functype(ps, rs),
                                                 world.diff.host_p(f'h{k}', ps, rs, w.log_p, failer(1))))
        imports['env', f'h{k}'] = e
    try:
        if w.instantiate(case.mod, imports, tag='program') is None:
            ctx.tag('instantiation traps')
            if w.instantiate(case.mod, imports, tag='program again') is None:
                return
        traps = 0
        for n, (i, args) in enumerate(case.calls):
            args = [None if a is not None and t == 'funcref' else a
                    for a, t in zip(args, w.insts[0][0].exports[f'f{i}'][1].type[0])]
            r = w.call(0, f'f{i}', args, f'#{n} ')
            if r[0] == 'trap' and isinstance(r[1], ref.Exhausted):
                break
            w.compare(f'after call #{n} f{i}')
            ctx.tag(r[0])
            if r[0] == 'trap':
                traps += 1
                ctx.tag(f'trap: {r[1].args[0] if r[1].args else "?"}')
            elif traps:
                ctx.good(h=h64(b))
    except ref.OutOfFuel:
        ctx.discard()


def tests(tier):
    return [Test('causes', shape_run, cases=all_cases),
            Test('histories', shape_run, strategy=shapes, n=(4000, 150000)),
            Test('programs', prog_run, strategy=lambda: gen.strategy(300, 2000), n=(5000, 200000),
                 show=lambda b: f'bytes {b.hex()}\n{prog(b)!r}')]
