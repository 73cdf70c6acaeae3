"""C16: values crossing the host boundary, and export lookup."""
import math
import struct

from .. import drive, enc, num, numlib
from ..runner import Test, check

ID = 'C16'
RULE = ('a case is a list of typed values sent through one route (wasm, host function, global, table) or one request for an '
        'export or one bad argument list; non-trivial = at least one value crosses, or the request names an export; distinct by case')
ASSUME = ['integers outside the signed range of their type may be refused or wrapped, but not turned into another number',
          'NaN payloads are not compared where values are Python floats']
VT = ('i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref')
pc = drive.pc


def canon(t, v):
    """comparable form of a Python value of that type, or raises"""
    if t in ('i32', 'i64'):
        check(type(v) is int, f'{t} value is {v!r}')
        return v
    if t in ('f32', 'f64'):
        check(type(v) is float, f'{t} value is {v!r}')
        return 'nan' if math.isnan(v) else struct.pack('<d', v)
    if t == 'v128':
        check(isinstance(v, bytearray) and len(v) == 16, f'{t} value is {v!r}')
        return bytes(v)
    check(v is None or type(v) is int, f'{t} value is {v!r}')
    return v


def f32(v):
    """what an f32 argument becomes: correct rounding from the double"""
    if math.isnan(v) or math.isinf(v):
        return v
    b = num.rnd(num.Fraction(v), 32) if v else (0x80000000 if math.copysign(1, v) < 0 else 0)
    return struct.unpack('<f', b.to_bytes(4, 'little'))[0]


def want(t, v):
    return canon(t, f32(v) if t == 'f32' else v)


def copyv(v):
    return bytearray(v) if isinstance(v, (bytes, bytearray)) else v


def echo_run(case, ctx):
    route, types, vals, perm, scribble = case
    vals = [bytearray(v) if t == 'v128' else v for t, v in zip(types, vals)]
    n = len(types)
    order = sorted(range(n), key=lambda i: (perm[i % len(perm)] if perm else 0, i))
    pw = drive.PW()
    m = enc.Mod()
    rts = [types[i] for i in order]
    exp = [want(t, vals[i]) for t, i in zip(rts, order)]
    seen, kept = [], []

    def host(mm, args):
        kept.append((args, len(seen)))
        seen.append([canon(t, a) for t, a in zip(types, args)])
        check(len(args) == n, lambda: f'host function declared with {n} parameters got {args}')
        out = [copyv(args[i]) for i in order]
        if scribble:        # the host owns what it was given
            for a in args:
                if isinstance(a, bytearray):
                    a[0] ^= 0xff
                    a[15] ^= 0xff
        return out
    get = [('local.get', i) for i in order]
    imports = {}
    if route == 'wasm':
        m.func(types, rts, [], get, 'f')
    elif route in ('host', 'host-indirect', 'reexport'):
        m.imports.append(('env', 'h', 'func', m.type(types, rts)))
        imports['env', 'h'] = pw.rt.allocate_func_host(drive.functype(types, rts), host)
        if route == 'reexport':
            m.exports.append(('f', 'func', 0))
        elif route == 'host':
            m.func(types, rts, [], [('local.get', i) for i in range(n)] + [('call', 0)], 'f')
        else:
            m.tables.append(('funcref', 1, 1))
            m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', 0)]], 0, [('i32.const', 0)]))
            m.func(types, rts, [], [('local.get', i) for i in range(n)] + [('i32.const', 0), ('call_indirect', m.type(types, rts), 0)], 'f')
        # afterwards the parameters are read again: the host's copies must not alias them
        if route == 'host':
            m.func(types, list(types), [], [('local.get', i) for i in range(n)] + [('call', 0)] + [('drop',)] * n +
                   [('local.get', i) for i in range(n)], 'again')
    elif route == 'global':
        b = []
        for i, t in enumerate(types):
            m.imports.append(('env', f'g{i}', 'global', (t, 1)))
            imports['env', f'g{i}'] = pw.rt.allocate_global(pc.GlobalType(drive.VT[t](), 1), pc.ValInst.from_all(drive.VT[t](), copyv(vals[i])))
            m.exports.append((f'g{i}', 'global', i))
        m.func([], rts, [], [('global.get', i) for i in order], 'f')
        m.func(types, [], [], [x for i in range(n) for x in (('local.get', i), ('global.set', i))], 'set')
    else:
        # every reference goes through a table, everything else through memory
        m.mems.append((1, 1))
        m.tables += [('funcref', n + 1, None), ('externref', n + 1, None)]
        b = []
        for i, t in enumerate(types):
            st = [('table.set', 0 if t == 'funcref' else 1)] if t in ('funcref', 'externref') else \
                [('v128.store' if t == 'v128' else t + '.store', 0, 0)]
            b += [('i32.const', i if t in ('funcref', 'externref') else 16 * i), ('local.get', i)] + st
        for i in order:
            t = types[i]
            b += [('i32.const', i), ('table.get', 0 if t == 'funcref' else 1)] if t in ('funcref', 'externref') else \
                [('i32.const', 16 * i), ('v128.load' if t == 'v128' else t + '.load', 0, 0)]
        m.func(types, rts, [], b, 'f')
    inst = pw.instance(enc.encode(m), imports)
    args = [copyv(v) for v in vals]
    r = pw.invoke(inst, 'f', [] if route == 'global' else args)
    check(isinstance(r, list) and len(r) == n, lambda: f'{route}: {n} results specified, got {r!r}')
    got = [canon(t, v) for t, v in zip(rts, r)]
    check(got == exp, lambda: f'{route}: {list(zip(rts, r))}, specified {[vals[i] for i in order]}')
    if seen:
        w = [want(t, v) for t, v in zip(types, vals)]
        check(seen[0] == w, lambda: f'{route}: host function saw {seen[0]}, specified {w}')
    if route == 'host':
        r2 = pw.invoke(inst, 'again', [copyv(v) for v in vals])
        got = [canon(t, v) for t, v in zip(types, r2)]
        check(got == [want(t, v) for t, v in zip(types, vals)], lambda: f'parameters after the host call: {r2}, passed {vals}')
        if not scribble:
            rot = [-1 - v if t in ('i32', 'i64') else v for t, v in zip(types, vals)]
            pw.invoke(inst, 'again', [copyv(v) for v in rot])
            for a, k in kept:
                check([canon(t, x) for t, x in zip(types, a)] == seen[k], lambda: f'the argument list of an earlier host call has become {a}, was {seen[k]}')
    if route == 'global':
        held = [pw.rt.exported_global(inst, f'g{i}') for i in range(n)]
        for i, t in enumerate(types):
            v = held[i].data.into_all()
            check(canon(t, v) == want(t, vals[i]), lambda: f'exported global {t}: {v!r}, holds {vals[i]!r}')
        if n:
            rot = [v if t not in ('i32', 'i64') else -1 - v for t, v in zip(types, vals)]
            pw.invoke(inst, 'set', [copyv(v) for v in rot])
            for i, t in enumerate(types):
                v = pw.rt.exported_global(inst, f'g{i}').data.into_all()
                check(canon(t, v) == want(t, rot[i]), lambda: f'global {t} set by wasm: {v!r}, holds {rot[i]!r}')
                v = held[i].data.into_all()
                check(canon(t, v) == want(t, rot[i]), lambda: f'global {t} set by wasm: {v!r} through the object held since '
                      f'before, holds {rot[i]!r}')
            if len(perm) % 2:
                # set by the host, seen by the module
                for i, t in enumerate(types):
                    held[i].data = pc.ValInst.from_all(drive.VT[t](), copyv(vals[i]))
                back = pw.invoke(inst, 'f', [])
                check([canon(t, v) for t, v in zip(rts, back)] == exp, lambda: f'globals set by the host: {back}, specified {exp}')
                pw.invoke(inst, 'set', [copyv(v) for v in rot])
    check([canon(t, a) for t, a in zip(types, args)] == [canon(t, v) for t, v in zip(types, vals)], 'the argument objects were changed')
    # what came back is the caller's own copy
    for v in r:
        if isinstance(v, bytearray):
            v[0] ^= 0xff
    if scribble and route == 'global':
        r = pw.invoke(inst, 'f', [])
        w = [canon(t, rot[i] if t != 'f32' else f32(rot[i])) for t, i in zip(rts, order)]
        check([canon(t, v) for t, v in zip(rts, r)] == w, lambda: f'globals changed after the caller edited a returned vector: {r}')
    ctx.tag(route)
    for t, v in zip(types, vals):
        ctx.tag('null ref' if v is None else t)
    if n:
        ctx.good()


def values():
    from hypothesis import strategies as st
    sp = lambda t: st.sampled_from([struct.unpack('<' + t, x.to_bytes(struct.calcsize(t), 'little'))[0]
                                    for x in numlib.SPEC['f32' if t == 'f' else 'f64']])
    f = st.one_of(st.floats(), sp('d'), st.floats(width=32))
    # f32: also doubles near the midpoint of two floats, and beyond the float range
    mid = st.builds(lambda m, e, d: math.ldexp((1 << 24 | m) * 2 + 1, e) + d * math.ldexp(1, e - 25), st.integers(0, (1 << 24) - 1),
                    st.integers(-150, 100), st.integers(-1, 1))
    big = st.sampled_from([3.4028235677973366e+38, 3.4028235677973362e+38, 3.4028234663852886e+38, -3.4028235677973366e+38, 1e300,
                           -1e300, 7e-46, 7.006492321624085e-46, 7.006492321624086e-46, 1e-320, -0.0])
    return {'i32': st.one_of(st.integers(-2**31, 2**31 - 1), st.sampled_from([-2**31, 2**31 - 1, -1, 0, 1])),
            'i64': st.one_of(st.integers(-2**63, 2**63 - 1), st.sampled_from([-2**63, 2**63 - 1, -1, 0, 2**31, -2**31 - 1, 2**32])),
            'f32': st.one_of(f, mid, big, sp('f')), 'f64': f, 'v128': st.binary(min_size=16, max_size=16),
            'funcref': st.one_of(st.none(), st.just(0)), 'externref': st.one_of(st.none(), st.integers(0, 2**31 - 1), st.just(0), st.integers(-2**31, -1), st.just(-1))}


def echo():
    from hypothesis import strategies as st
    V = values()
    return st.one_of(st.lists(st.sampled_from(VT), max_size=6), st.lists(st.sampled_from(VT), max_size=6),
                     st.lists(st.sampled_from(VT), min_size=7, max_size=24)).flatmap(lambda ts: st.tuples(
        st.sampled_from(['wasm', 'host', 'host-indirect', 'reexport', 'global', 'store']), st.just(tuple(ts)), st.tuples(*[V[t] for t in ts]),
        st.lists(st.integers(0, 9), max_size=6), st.booleans()))


# -- export lookup ----------------------------------------------------------------------------------------------------------------
def export_module(nexp, imported):
    """exports of all kinds whose indices overlap; functions count their calls"""
    m = enc.Mod()
    if imported:
        m.imports.append(('env', 'h', 'func', m.type([], ['i32'])))
        m.imports.append(('env', 'g', 'global', ('i64', 1)))
    base = m.nimp('global')
    m.globals.append(('i32', 1, [('i32.const', 0)]))
    m.globals.append(('f64', 0, [('f64.const', 0x4008000000000000)]))
    m.mems.append((1, 2))
    m.tables.append(('funcref', 2, 2))
    for k in range(2):
        m.func([], ['i32'], [], [('global.get', base), ('i32.const', 1 << 8 * k), ('i32.add',), ('global.set', base), ('i32.const', 70 + k)])
    nf, ng = m.nimp('func') + 2, base + 2
    for j, (name, kind, i) in enumerate(nexp):
        i %= {'func': nf, 'global': ng, 'mem': 1, 'table': 1}[kind]
        m.exports.append((name, kind, i))
    m.func([], ['i32'], [], [('global.get', base)], '#count')
    return m


def lookup_run(case, ctx):
    exps, imported, asks = case
    names = {}
    for n, k, i in exps:
        names.setdefault(n, (k, i))
    exps = [(n, k, i) for n, (k, i) in names.items()]
    m = export_module(exps, imported)
    pw = drive.PW()
    # objects of every kind at the addresses the module's functions, memories and globals get
    for _ in range(30):
        pw.rt.allocate_memory(pc.MemType(pc.Limits(0, 0)))
        pw.rt.allocate_table(pc.TableType(pc.ValType.ref_func(), pc.Limits(0, 0)))
        pw.rt.allocate_global(pc.GlobalType(pc.ValType.f32(), 0), pc.ValInst.from_f32(7.5))
    calls = []

    def h(mm, args):
        calls.append(1)
        return [99]
    imports = {}
    if imported:
        imports = {('env', 'h'): pw.rt.allocate_func_host(drive.functype([], ['i32']), h),
                   ('env', 'g'): pw.rt.allocate_global(pc.GlobalType(pc.ValType.i64(), 1), pc.ValInst.from_i64(-5))}
    inst = pw.instance(enc.encode(m), imports)
    pool = [n for n, _, _ in exps] + ['', 'nope', 'f', 'F']
    want_count = want_calls = 0
    for api, a in asks:
        name = pool[a % len(pool)]
        e = [x for x in m.exports if x[0] == name]
        kind = e[0][1] if e else None
        i = e[0][2] if e else None
        f = {'func': lambda: drive.attempt(pw.rt.invocate, inst, name, []),
             'mem': lambda: drive.attempt(pw.rt.exported_memory, inst, name),
             'global': lambda: drive.attempt(pw.rt.exported_global, inst, name)}[api]
        try:
            r = f()
        except drive.Raised as x:
            r = x
        what = f'{api} {name!r} (exported as {kind})'
        if kind != api:
            check(isinstance(r, drive.Raised), lambda: f'{what}: returned {r!r} instead of raising')
            ctx.tag('absent' if kind is None else 'other kind')
        else:
            ctx.tag('found')
            check(not isinstance(r, drive.Raised), lambda: f'{what}: {r!r}')
            if api == 'func':
                own = i - m.nimp('func')
                check(r == [99 if own < 0 else 70 + own], lambda: f'{what} index {i}: returned {r}')
                if own < 0:
                    want_calls += 1
                else:
                    want_count += 1 << 8 * own
            elif api == 'mem':
                check(len(r.data) == 65536, f'{what}: {len(r.data)} bytes')
            else:
                g = i - m.nimp('global')
                v = r.data.into_all()
                w = -5 if g < 0 else (want_count, 3.0)[g]
                check(v == w, f'{what} index {i}: {v!r}, holds {w!r}')
        got = pw.invoke(inst, '#count', [])[0]
        check(got == want_count and len(calls) == want_calls, lambda: f'{what}: ran code: counter {got}, specified {want_count}; '
              f'host calls {len(calls)}, specified {want_calls}')
        if kind:
            ctx.good()


# -- wrong number or type of arguments ------------------------------------------------------------------------------------------------
BAD = {'i32': [1.5, '1', b'1', None, [1], bytearray(4), (1,), {}, 1j], 'i64': [1.0, '1', None, [1], bytearray(8)],
       'f32': ['1.0', None, b'x', [1.0], bytearray(4), 1j], 'f64': ['1.0', None, b'x', [1.0], bytearray(8), 1j],
       'v128': [0, 1.0, None, bytearray(15), bytearray(17), bytearray(), 'x' * 16, [0] * 16, (0,) * 16],
       'funcref': [1.5, 'x', bytearray(1), [0]], 'externref': [1.5, 'x', bytearray(1), [0]]}
OUT = {'i32': [2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**40, -2**33], 'i64': [2**63, -2**63 - 1, 2**64 - 1, 2**70]}


def bad_run(case, ctx):
    types, vals, how, at, which = case
    vals = [bytearray(v) if t == 'v128' else v for t, v in zip(types, vals)]
    pw = drive.PW()
    calls = []

    def h(mm, args):
        calls.append(args)
        return []
    m = enc.Mod()
    m.imports.append(('env', 'h', 'func', m.type(types, [])))
    m.globals.append(('i32', 1, [('i32.const', 0)]))
    m.exports.append(('g', 'global', 0))
    m.func(types, [], [], [('i32.const', 1), ('global.set', 0)] + [('local.get', i) for i in range(len(types))] + [('call', 0)], 'f')
    m.exports.append(('h', 'func', 0))
    inst = pw.instance(enc.encode(m), {('env', 'h'): pw.rt.allocate_func_host(drive.functype(types, []), h)})
    args = list(vals)
    if how == 'fewer' and args:
        del args[at % len(args)]
    elif how == 'more':
        args.insert(at % (len(args) + 1), 0)
    elif how == 'type' and args:
        i = at % len(args)
        b = BAD[types[i]]
        args[i] = b[which % len(b)]
    elif how == 'range' and any(t in OUT for t in types):
        ii = [i for i, t in enumerate(types) if t in OUT]
        i = ii[at % len(ii)]
        b = OUT[types[i]]
        args[i] = b[which % len(b)]
    else:
        ctx.discard()
    for name in ('f', 'h'):
        try:
            pw.invoke(inst, name, args)
        except drive.Raised:
            check(not calls, lambda: f'{name}{args}: raised after running code')
            check(pw.rt.exported_global(inst, 'g').data.into_all() == 0, f'{name}{args}: raised after running code')
            ctx.tag(how + ' refused')
        else:
            check(how == 'range', lambda: f'{name} with parameters {types} accepted the arguments {args}')
            w = int(types[i][1:])
            x = args[i] % (1 << w)
            check(calls[-1][i] == (x - (1 << w) if x >> (w - 1) else x), lambda: f'{name}{args}: host saw {calls[-1]}')
            ctx.tag('wrapped')
            calls.clear()
    pw.invoke(inst, 'f', [copyv(v) for v in vals])
    check(len(calls) == 1, 'the function no longer runs after a refused call')
    ctx.good()


def tests(tier):
    from hypothesis import strategies as st
    V = values()
    exps = st.lists(st.tuples(st.sampled_from(['a', 'b', 'c', 'd', 'mem', 'é', '', 'f']), st.sampled_from(['func', 'mem', 'global', 'table']),
                              st.integers(0, 3)), min_size=1, max_size=6)
    asks = st.lists(st.tuples(st.sampled_from(['func', 'mem', 'global']), st.integers(0, 9)), min_size=1, max_size=8)
    bad = st.lists(st.sampled_from(VT), max_size=5).flatmap(lambda ts: st.tuples(
        st.just(tuple(ts)), st.tuples(*[V[t] for t in ts]), st.sampled_from(['fewer', 'more', 'type', 'type', 'range']), st.integers(0, 5),
        st.integers(0, 9)))
    return [Test('values', echo_run, strategy=echo, n=(8000, 300000)),
            Test('exports', lookup_run, strategy=lambda: st.tuples(exps, st.booleans(), asks), n=(3000, 100000)),
            Test('bad-arguments', bad_run, strategy=lambda: bad, n=(3000, 100000))]
