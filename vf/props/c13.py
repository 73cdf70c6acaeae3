"""C13: the binary encoding does not change the meaning."""
from .. import diff, drive, enc, gen, num, ops
from ..diffprop import h64
from ..runner import Test, check

ID = 'C13'
RULE = ('a case is a module with a stream of encoding choices (or one immediate, name or index shape); non-trivial = the '
        'encoding differs from the minimal one, or the immediate needs more than one byte; distinct by case')


def split(b):
    """first byte: how many bytes steer the encoding"""
    n = (b[0] if b else 0) * 2
    return list(b[1:1 + n]), b[1 + n:]


PROFS = [gen.Profile(refs=True, table=True, indirect=True, refw=2, elems=4, bulk=True, datas=3, hosts=2, simd=True, traps=1,
                     start=True, opw=3, maxfuncs=4, budget=40),
         gen.Profile(simd=True, opw=8, ctl=2), gen.Profile(ctl=6, calls=True)]


def case_of(b):
    e, rest = split(b)
    c = gen.make(rest, PROFS[e[0] % 3 if e else 0], 3)
    # choices: values spread over 0..41 so that every alternative of every pick is reachable
    c.enc = [x % 42 for x in e[1:]] * 12
    return c


def prog_run(b, ctx):
    c = case_of(b)
    data = enc.encode(c.mod, enc.Stream(c.enc))
    plain = enc.encode(c.mod)
    p = diff.run(c, ctx)
    if p.ok:
        check([(e.name, e.data.kind) for e in p.pi.exps] == [(n, enc.KIND[k]) for n, k, _ in c.mod.exports],
              lambda: f'exports {[e.name for e in p.pi.exps]}, encoded {[n for n, _, _ in c.mod.exports]}')
    if data != plain:
        ctx.good(h=h64(b))
    ctx.tag('longer encoding' if len(data) > len(plain) else 'other encoding' if data != plain else 'minimal')


# -- indices and other immediates of every size, minimal and padded --------------------------------------------------------------
IDX = (0, 1, 2, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 200)
WHAT = ('func', 'type', 'blocktype', 'looptype', 'iftype', 'local', 'localtee', 'global', 'globalset', 'label', 'label_if', 'table',
        'tableset', 'tablesize', 'tablecopy', 'tableinit', 'tabfill', 'tabgrow', 'elem', 'elemdrop', 'data', 'datadrop', 'indtype',
        'indtable', 'reffunc', 'br_table', 'br_table_len', 'results', 'params', 'start', 'exportidx', 'elemtable', 'importcount',
        'datacount', 'offset', 'name')


def idx_module(what, n):
    """a module in which index n of the given space matters; -> (mod, calls)"""
    m = enc.Mod()
    I = ('i32',)
    c = lambda v: ('i32.const', v)
    calls = [(0, [])]
    if what in ('func', 'reffunc', 'exportidx', 'start'):
        for k in range(n + 2):
            m.func([], I, [], [c(1000 + k)])
        if what == 'func':
            i = m.func([], I, [], [('call', n)], 'f0')
        elif what == 'reffunc':
            m.tables.append(('funcref', 1, 1))
            m.elems.append(enc.Elem('declarative', 'funcref', [[('ref.func', n)]]))
            i = m.func([], I, [], [c(0), ('ref.func', n), ('table.set', 0), c(0), ('call_indirect', 0, 0)], 'f0')
        elif what == 'exportidx':
            m.exports.append(('f0', 'func', n))
        else:
            m.globals.append(('i32', 1, [c(0)]))
            j = len(m.funcs)
            for k in range(n + 2):
                m.func([], [], [], [('global.get', 0), c(k + 7), ('i32.add',), ('global.set', 0)])
            m.start = j + n
            m.func([], I, [], [('global.get', 0)], 'f0')
    elif what in ('type', 'blocktype', 'looptype', 'iftype', 'indtype'):
        T = ('i32', 'i64', 'f32', 'f64')
        k = 0
        while len(m.types) < n:
            t = tuple(T[(k >> 2 * j) & 3] for j in range(5))
            m.types.append((t, ()))
            k += 1
        m.types.append((('i32', 'i64'), ('i64', 'i32', 'i32')))
        body = [('i64.const', 5), ('local.set', 2)]
        if what == 'type':
            m.funcs.append(enc.Func(n, ['i64'], [('local.get', 1), ('local.get', 0), c(3)]))
            m.exports.append(('f0', 'func', 0))
            calls = [(0, [4, 9])]
        else:
            inner = [('local.set', 2), ('drop',), ('local.get', 2), c(8), c(9)]
            pre = [('local.get', 0), ('local.get', 1)]
            if what == 'blocktype':
                b = pre + [('block', n, inner)]
            elif what == 'looptype':
                b = pre + [('loop', n, inner)]
            elif what == 'iftype':
                b = pre + [('local.get', 0), ('if', n, inner, [('local.set', 2), ('drop',), ('local.get', 2), c(1), c(2)])]
            else:
                m.tables.append(('funcref', 1, 1))
                m.funcs.append(enc.Func(n, ['i64'], [('local.get', 1), ('local.get', 0), c(3)]))
                m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', 0)]], 0, [c(0)]))
                b = pre + [c(0), ('call_indirect', n, 0)]
            m.funcs.append(enc.Func(n, ['i64'], b))
            m.exports.append(('f0', 'func', len(m.funcs) - 1))
            calls = [(0, [4, 9]), (0, [0, 9])]
    elif what in ('local', 'localtee'):
        m.func([], I, ['i32'] * (n + 2), [c(1), ('local.set', n + 1), c(5), ('local.set' if what == 'local' else 'local.tee', n)] +
               ([('drop',)] if what == 'localtee' else []) + [('local.get', n), ('local.get', n + 1), ('i32.sub',)], 'f0')
    elif what in ('global', 'globalset'):
        for k in range(n + 2):
            m.globals.append(('i32', 1, [c(3 * k)]))
            m.exports.append((f'g{k}', 'global', k))
        m.func([], I, [], ([c(77), ('global.set', n)] if what == 'globalset' else []) + [('global.get', n)], 'f0')
    elif what in ('label', 'label_if'):
        br = [('br', n)] if what == 'label' else [c(1), ('br_if', n)]
        body = br
        for k in range(n + 1):
            body = [('block', None, body), ('local.get', 0), c(1), ('i32.add',), ('local.set', 0)]
        m.func([], I, ['i32'], body + [('local.get', 0)], 'f0')
    elif what in ('table', 'tableset', 'tablesize', 'tablecopy', 'tableinit', 'tabfill', 'tabgrow', 'indtable', 'elemtable'):
        for k in range(n + 2):
            m.tables.append(('funcref', 2 + k, 9 + k))
        m.func([], I, [], [c(42)])
        m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', 0)]], n, [c(1)]))
        m.elems.append(enc.Elem('passive', 'funcref', [[('ref.func', 0)]]))
        rf = ('ref.func', 0)
        isn = ('ref.is_null',)
        b = {'table': [c(1), ('table.get', n), isn], 'tableset': [c(0), rf, ('table.set', n), c(0), ('table.get', n), isn],
             'tablesize': [('table.size', n)],
             'tablecopy': [c(0), c(1), c(1), ('table.copy', n + 1, n), c(0), ('table.get', n + 1), isn],
             'tableinit': [c(0), c(0), c(1), ('table.init', 1, n), c(0), ('table.get', n), isn],
             'tabfill': [c(0), rf, c(1), ('table.fill', n), c(0), ('table.get', n), isn],
             'tabgrow': [rf, c(1), ('table.grow', n), ('table.size', n), ('i32.add',)],
             'indtable': [c(1), ('call_indirect', 0, n)], 'elemtable': [c(1), ('call_indirect', 0, n)]}[what]
        m.func([], I, [], b, 'f0')
    elif what in ('elem', 'elemdrop'):
        m.tables.append(('funcref', 2, 2))
        m.func([], I, [], [c(42)])
        for k in range(n + 2):
            m.elems.append(enc.Elem('passive', 'funcref', [[('ref.func', 0)] if k == n else [('ref.null', 'funcref')]]))
        m.func([], I, [], ([('elem.drop', n)] if what == 'elemdrop' else []) + [c(0), c(0), c(1), ('table.init', n, 0), c(0),
                                                                                  ('call_indirect', 0, 0)], 'f0')
        calls = [(0, [])] * 2
    elif what in ('data', 'datadrop', 'datacount'):
        m.mems.append((1, 1))
        m.exports.append(('mem', 'mem', 0))
        for k in range(n + 2):
            m.datas.append(enc.Data('passive' if k % 3 or k == n else 'active', bytes([k, k ^ 1]), None if k % 3 or k == n else [c(8 + 2 * k)]))
        m.datacount = 1
        m.func([], I, [], ([('data.drop', n)] if what == 'datadrop' else []) + [c(0), c(0), c(2), ('memory.init', n), c(0),
                                                                                  ('i32.load', 2, 0)], 'f0')
        calls = [(0, [])] * 2
    elif what in ('br_table', 'br_table_len'):
        # n+1 nested blocks, br_table over all of them; every block adds its own number on the way out
        body = [('local.get', 0), ('br_table', list(range(n + 1)), n)] if what == 'br_table_len' else \
            [('local.get', 0), ('br_table', [n, 0, n], n // 2)]
        for k in range(n + 1):
            body = [('block', None, body), ('local.get', 1), c(1), ('i32.add',), ('local.set', 1)]
        m.func(I, I, ['i32'], body + [('local.get', 1)], 'f0')
        calls = [(0, [v]) for v in {0, 1, 2, n - 1 & 0xffffffff, n, n + 1, 0xffffffff}]
    elif what == 'results':
        n = max(1, n)
        m.func([], I * n, [], [c(k) for k in range(n)], 'f0')
    elif what == 'params':
        m.func(I * (n + 1), I, [], [('local.get', n)], 'f0')
        calls = [(0, [3 * k for k in range(n + 1)])]
    elif what == 'importcount':
        hosts = [((), I)] * (n + 1)
        for k in range(n + 1):
            m.imports.append(('env', f'h{k}', 'func', m.type([], I)))
        m.func([], I, [], [('call', n)], 'f0')
        return m, hosts, calls
    elif what == 'offset':
        m.mems.append((1, 1))
        m.datas.append(enc.Data('active', bytes(range(1, 200)) * 2, [c(0)]))
        m.func(I, I, [], [('local.get', 0), ('i32.load8_u', 0, n)], 'f0')
        calls = [(0, [v]) for v in (0, 1, 100)]
    elif what == 'name':
        m.customs = []
        m.func([], I, [], [c(5)], 'f0')
        m.exports.append(('é' * n, 'func', 0))
    return m, [], calls


def idx_run(case, ctx):
    what, n, choices = case
    m, hosts, calls = idx_module(what, n)
    # the names f<k> in calls refer to export names
    c = gen.Case(m, hosts, calls, choices)
    p = diff.Pair(c, fuel=100000, maxdepth=400)
    check(p.ok, lambda: f'{what} {n}: refused {p.err_p!r}')
    for i, a in calls:
        p.call(i, a, f'{what} {n}: ')
    p.compare(f'{what} {n}')
    if n > 63 or any(choices):
        ctx.good()


def idx_cases(tier, shard, nshards):
    k = 0
    for what in WHAT:
        for n in IDX if tier == 'quick' else range(0, 300):
            for ch in ([], [1] * 400, [2] * 400, [4] * 400, [0, 1, 2, 3] * 100):
                k += 1
                if k % nshards == shard:
                    yield what, n, ch


# -- names --------------------------------------------------------------------------------------------------------------------------
def name_run(names, ctx):
    m = enc.Mod()
    mod, imp, exs = names[0], names[1], list(dict.fromkeys(names[2]))
    m.imports.append((mod, imp, 'func', m.type([], ['i32'])))
    for k in range(len(exs)):
        m.func([], ['i32'], [], [('i32.const', k)], exs[k])
    pw = drive.PW()
    got = []

    def h(mm, args):
        got.append(1)
        return [7]
    e = pw.rt.allocate_func_host(drive.functype([], ['i32']), h)
    i = pw.instance(enc.encode(m), {(mod, imp): e})
    check([x.name for x in i.exps] == exs, lambda: f'export names {[x.name for x in i.exps]}, encoded {exs}')
    for k, n in enumerate(exs):
        r = pw.invoke(i, n, [])
        check(r == [k], lambda: f'{n!r} returned {r}')
    try:
        pw.instance(enc.encode(m), {(mod, imp + 'x'): e})
    except drive.Raised:
        pass
    else:
        check(False, 'an import that is not supplied was accepted')
    ctx.good()


# -- module-level shapes --------------------------------------------------------------------------------------------------------------
def many_run(case, ctx):
    """many custom sections, many empty sections, locals in many groups, large vectors"""
    ncust, where, groups, nloc, nfun = case
    cust = b''.join(b'\x00' + bytes([2 + k % 5]) + b'\x01' + bytes([97 + k % 26]) + bytes(k % 5) for k in range(ncust))
    sec = lambda i, b: bytes([i]) + ops.uleb(len(b)) + b
    gl = b''.join(ops.uleb(n) + b'\x7f' for n in [nloc] + [0] * groups + [1] * groups)
    last = nloc + groups - 1
    body = ops.uleb(1 + 2 * groups) + gl if groups < 127 else ops.uleb(1 + 2 * groups) + gl
    code = body + b'\x41\x07' + (b'\x21' + ops.uleb(last) + b'\x20' + ops.uleb(last) if last >= 0 else b'') + b'\x0b'
    code = ops.uleb(len(code)) + code
    secs = [sec(1, b'\x01\x60\x00\x01\x7f'), sec(3, ops.uleb(nfun) + b'\x00' * nfun),
            sec(7, b'\x02\x01f\x00' + ops.uleb(nfun - 1) + b'\x01g\x00\x00'), sec(10, ops.uleb(nfun) + code * nfun)]
    secs.insert(where % 5, cust)
    b = b'\x00asm\x01\x00\x00\x00' + b''.join(secs)
    pw = drive.PW()
    i = pw.instance(b)
    for n in 'fg':
        r = pw.invoke(i, n, [])
        check(r == [7], lambda: f'{n} returned {r}, specified [7]')
    ctx.good()


def many_cases(tier, shard, nshards):
    k = 0
    for ncust in (0, 1, 2, 20, 25, 28, 29, 30, 31, 32, 33, 40, 100, 500):
        for where in range(5):
            for groups, nloc, nfun in ((0, 1, 1), (3, 2, 3), (200, 0, 2), (1, 2000, 130)):
                k += 1
                if k % nshards == shard:
                    yield ncust, where, groups, nloc, nfun


# -- every instruction's constant immediates, decoded exactly ---------------------------------------------------------------------------
def const_run(case, ctx):
    t, v, pad = case
    m = enc.Mod()
    m.globals.append((t, 0, [(t + '.const', v)]))
    m.exports.append(('g', 'global', 0))
    m.func([], [t], [], [(t + '.const', v)], 'f0')
    p = diff.Pair(gen.Case(m, [], [], [pad] * 40))
    check(p.ok, lambda: f'refused: {p.err_p!r}')
    p.call(0, [])
    p.compare()
    ctx.good()


def tests(tier):
    from hypothesis import strategies as st
    from .. import numlib
    name = st.text(st.characters(exclude_categories=['Cs']), max_size=8)
    const = st.sampled_from(['i32', 'i64', 'f32', 'f64', 'v128']).flatmap(lambda t: st.tuples(
        st.just(t), numlib.s_lanes(8, False) if t == 'v128' else st.one_of(
            st.integers(0, num.MASK[int(t[1:])]), st.builds(lambda k, d: ((1 << k) + d) & num.MASK[int(t[1:])], st.integers(0, 64),
                                                             st.integers(-2, 2)),
            st.builds(lambda k, d: (-(1 << k) + d) & num.MASK[int(t[1:])], st.integers(0, 64), st.integers(-2, 2))),
        st.integers(0, 9)))
    return [Test('programs', prog_run, strategy=lambda: gen.strategy(250, 1500), n=(6000, 250000),
                 show=lambda b: f'bytes {b.hex()}\n{case_of(b)!r}\n{enc.encode(case_of(b).mod, enc.Stream(case_of(b).enc)).hex()}'),
            Test('indices', idx_run, cases=idx_cases),
            Test('names', name_run, strategy=lambda: st.tuples(name, name, st.lists(name, min_size=1, max_size=4)), n=(1500, 40000)),
            Test('sections', many_run, cases=many_cases),
            Test('constants', const_run, strategy=lambda: const, n=(3000, 100000))]
