"""C07: direct, indirect, recursive and host calls."""
from .. import diff, diffprop, drive, enc, gen, num, ref
from ..runner import Test, check

ID = 'C07'
RULE = ('a case is a generated module with a history of calls, or one recursion/indirect-call shape; non-trivial = the '
        'reference executed at least one wasm-to-wasm, indirect or host call; distinct by generated bytes/shape')
ASSUME = ['call depths up to 1000 are required to work, however deeply the calls are nested in blocks, and unbounded recursion is required to trap; depths in between are '
          'not judged']


def calls(p):
    return p.ref.calls > len(p.case.calls) or 'indirect' in p.ref.stat or p.log_r


# -- recursion: values kept on the stack and in locals across deep recursion -------------------------------------------
def rec_run(case, ctx):
    depth, nargs, nres, how, mutual, junk = case
    m = enc.Mod()
    T = ('i32', 'i64', 'f64', 'i32')
    ps = ('i32',) + tuple(T[i] for i in range(nargs))
    rs = tuple(T[i] for i in range(nres)) or ('i32',)
    ty = m.type(ps, rs)
    nf = 2 if mutual else 1
    m.tables.append(('funcref', nf, nf))
    m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', i)] for i in range(nf)], 0, [('i32.const', 0)]))
    for i in range(nf):
        nxt = (i + 1) % nf
        j = [(t + '.const', 5) for t in T[:junk]]
        base = [(t + '.const', 7 + k) for k, t in enumerate(rs)]
        go = [('local.get', 0), ('i32.const', 1), ('i32.sub',)] + [('local.get', k + 1) for k in range(nargs)]
        call = [('call', nxt)] if how == 'call' else [('i32.const', nxt), ('call_indirect', ty, 0)]
        # result 0 += local 0 (or its conversion); all parameters are read again after the call
        tail = []
        if rs[-1] == 'i32':
            tail = [('local.get', 0), ('i32.add',)]
        elif rs[-1] == 'i64':
            tail = [('local.get', 0), ('i64.extend_i32_u',), ('i64.add',)]
        else:
            tail = [('local.get', 0), ('f64.convert_i32_u',), ('f64.add',)]
        rec = j + go + call + tail
        if junk:
            rec += [('return',)] if junk > 2 else [('br', 1)]
        bt = m.type((), rs)
        m.func(ps, rs, [], [('local.get', 0), ('i32.eqz',), ('if', bt, base, rec)], f'f{i}')
    args = [depth] + [{'i32': 3, 'i64': 1 << 40, 'f64': 0x4000000000000000}[t] for t in ps[1:]]
    c = gen.Case(m, [], [(0, args), (0, [2] + args[1:]), (0, args)])
    p = diff.Pair(c, fuel=200000, maxdepth=400)
    for i, a in c.calls:
        p.call(i, a)
    ctx.tag(how)
    if depth > 1:
        ctx.good()


def deep_run(case, ctx):
    """deep recursion out of nested blocks with locals and waiting operands, against its closed form"""
    depth, nest, locs, junk, how, mutual = case
    m = enc.Mod()
    ty = m.type(('i32',), ('i32',))
    m.tables.append(('funcref', 2, 2))
    m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', i)] for i in range(2)], 0, [('i32.const', 0)]))
    for i in range(2):
        nxt = 1 - i if mutual else i
        go = [('local.get', 0), ('i32.const', 1), ('i32.sub',)] + ([('call', nxt)] if how == 'call' else [('i32.const', nxt), ('call_indirect', ty, 0)])
        body = go + [('i32.const', 3 + i), ('i32.mul',), ('local.get', 0), ('i32.add',)]
        for k in range(locs):
            body += [('local.get', 1 + k), ('i32.add',)]
        for k in range(junk):
            body = [('i32.const', k + 1)] + body + [('i32.add',)]
        for k in range(nest):
            body = [('block', 'i32', body)] if k % 2 else [('loop', 'i32', body)]
        pre = []
        for k in range(locs):
            pre += [('local.get', 0), ('i32.const', k + 5), ('i32.mul',), ('local.set', 1 + k)]
        m.func(['i32'], ['i32'], ['i32'] * locs, pre + [('local.get', 0), ('if', 'i32', body, [('i32.const', 7 + i)])], f'f{i}')

    def want(i, n):
        i, k = (i + n) % 2 if mutual else i, n
        r = 7 + i
        for x in range(1, n + 1):
            i = 1 - i if mutual else i
            r = (r * (3 + i) + x + sum(x * (k + 5) for k in range(locs)) + sum(range(junk + 1))) & M32
        return r
    pw = drive.PW()
    inst = pw.instance(enc.encode(m))
    for i, n in ((0, depth), (1, 3), (1, depth), (0, max(0, depth - 1))):
        try:
            r = pw.call(inst, f'f{i}', [('i32', n)], cpu=60)[0][1]
        except drive.Raised as e:
            check(False, f'a recursion of depth {n}, in {nest} blocks: {e!r}')
        check(r == want(i, n), lambda: f'f{i}({n}) returned {r}, expected {want(i, n)}')
    ctx.tag(f'depth {depth}')
    if depth > 1:
        ctx.good()


def deep_cases(tier, shard, nshards):
    k = 0
    for depth in (0, 1, 10, 300, 520, 750, 999) if tier == 'quick' else [*range(0, 1000, 37), 999]:
        for nest in (0, 1, 2, 5):
            for locs in (0, 2):
                for junk in (0, 3):
                    for how in ('call', 'indirect'):
                        for mutual in (False, True):
                            k += 1
                            if k % nshards == shard and (tier != 'quick' or k % 3 == depth % 3):
                                yield depth, nest, locs, junk, how, mutual


def infinite_run(case, ctx):
    """unbounded recursion traps; the harness's CPU guard turns a hang into a violation"""
    how, mutual, nargs = case
    m = enc.Mod()
    ps = ('i32',) * nargs
    ty = m.type(ps, ())
    m.tables.append(('funcref', 2, None))
    m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', 0)], [('ref.func', 1)]], 0, [('i32.const', 0)]))
    for i in range(2):
        nxt = 1 - i if mutual else i
        body = [('local.get', k) for k in range(nargs)]
        body += [('call', nxt)] if how == 'call' else [('i32.const', nxt), ('call_indirect', ty, 0)]
        m.func(ps, (), [], body, f'f{i}')
    pw = drive.PW()
    inst = pw.instance(enc.encode(m))
    try:
        r = pw.call(inst, 'f0', [('i32', 1)] * nargs, cpu=60)
    except drive.Raised:
        ctx.good()
        return
    check(False, f'unbounded recursion returned {r}')


# -- call_indirect: every element kind x every index x every expected type -------------------------------------------------
def ind_run(case, ctx):
    size, elems, sigs, tys, idx, tab2, moves = case
    m = enc.Mod()
    fs = []
    m.imports.append(('env', 'h0', 'func', m.type(*sigs[0])))
    for k, (ps, rs) in enumerate(sigs):
        body = [(t + '.const', 100 + k if t[0] == 'i' else 0x3ff0000000000000 + k if t == 'f64' else 0x3f800000 + k)
                for t in rs]
        m.func(ps, rs, [], body, f'f{k + 1}')
    nf = 1 + len(sigs)
    if tab2:
        m.tables.append(('funcref', 3, None))
    m.tables.append(('funcref', size, None))
    ti = len(m.tables) - 1
    for pos, f in elems:
        if pos < size:
            m.elems.append(enc.Elem('active', 'funcref', [[('ref.null', 'funcref') if f is None else
                                                           ('ref.func', f % nf)]], ti, [('i32.const', pos)]))
    ps, rs = sigs[tys % len(sigs)]
    # the type is declared twice when possible: matching is structural, not by index
    m.types.append((tuple(ps), tuple(rs)))
    t = len(m.types) - 1
    if tys % 2:
        t = m.type(ps, rs)
    body = [(x + '.const', 9 if x[0] == 'i' else 0) for x in ps] + [('local.get', 0), ('call_indirect', t, ti)]
    m.func(['i32'], rs, [], body, f'f{nf}')
    # another function moves entries about between the calls
    m.func(['i32', 'i32'], [], [], [('local.get', 0), ('local.get', 1), ('table.get', ti), ('table.set', ti)], f'f{nf + 1}')
    calls_ = []
    for k, i in enumerate(idx):
        calls_.append((nf, [i]))
        if moves and size:
            a, b = moves[k % len(moves)]
            calls_ += [(nf + 1, [i % size if a == 7 else a % size, b % size]), (nf, [i])]
    c = gen.Case(m, [sigs[0]], calls_)
    p = diff.run(c, ctx, tables=False, stop_on_trap=False)
    if 'indirect' in p.ref.stat:
        ctx.good()
        ctx.tag('some entry callable')


# -- host functions that call back into the runtime -------------------------------------------------------------------
class _Trap(Exception):
    pass


M32 = 0xffffffff


class _Back:
    """The model: the same functions, hosts and effects, in Python."""

    def __init__(self, funcs, hosts):
        self.funcs, self.hosts = funcs, hosts
        self.mem = [0] * len(funcs)
        self.glob = 0
        self.log = []
        self.steps = 0
        self.back = 0

    def call(self, i, x, fuel):
        self.steps += 1
        if self.steps > 1500:
            raise OverflowError
        acc = x
        for op in self.funcs[i]:
            if op[0] == 'mix':
                acc = (acc * 3 + op[1]) & M32
            elif op[0] == 'mem':
                self.mem[i] = (self.mem[i] + acc) & M32
            elif op[0] == 'glob':
                self.glob = (self.glob * 5 + acc) & M32
            elif op[0] == 'trap':
                if acc & 7 == op[1]:
                    raise _Trap
            elif op[0] == 'call':
                if fuel:
                    acc = (acc + self.call(op[1] % len(self.funcs), acc, fuel - 1)) & M32
            elif op[0] == 'host':
                acc = (acc * (1 + op[2]) + self.host(op[1] % len(self.hosts), acc, fuel)) & M32
        return acc

    def host(self, k, x, fuel):
        self.log.append((k, x, fuel, self.glob, tuple(self.mem)))
        r = x ^ k
        if not fuel:
            return r
        for what, j, caught in self.hosts[k]:
            if what == 'inst':
                r = (r + j + 1) & M32
            elif what == 'badinst':
                r = (r + 77) & M32
            else:
                self.back += 1
                try:
                    r = (r + self.call(j % len(self.funcs), r, fuel - 1)) & M32
                except _Trap:
                    if not caught:
                        raise
                    r = (r + 99) & M32
        self.log.append((k, r, fuel, self.glob, tuple(self.mem)))
        return r


def back_run(case, ctx):
    funcs, hosts, calls_ = case
    nf, nh = len(funcs), len(hosts)
    m = enc.Mod()
    hi = list(range(nh))
    for k in hi:
        m.imports.append(('env', f'h{k}', 'func', m.type(['i32', 'i32'], ['i32'])))
    m.mems.append((1, 1))
    m.globals.append(('i32', True, [('i32.const', 0)]))
    ty = m.type(['i32', 'i32'], ['i32'])
    m.tables.append(('funcref', nf, nf))
    m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', nh + i)] for i in range(nf)], 0, [('i32.const', 0)]))
    for i, ops in enumerate(funcs):
        b = []
        for op in ops:
            get = ('local.get', 0)
            if op[0] == 'mix':
                b += [get, ('i32.const', 3), ('i32.mul',), ('i32.const', op[1]), ('i32.add',), ('local.set', 0)]
            elif op[0] == 'mem':
                b += [('i32.const', 4 * i), ('i32.const', 4 * i), ('i32.load', 2, 0), get, ('i32.add',),
                      ('i32.store', 2, 0)]
            elif op[0] == 'glob':
                b += [('global.get', 0), ('i32.const', 5), ('i32.mul',), get, ('i32.add',), ('global.set', 0)]
            elif op[0] == 'trap':
                b += [get, ('i32.const', 7), ('i32.and',), ('i32.const', op[1]), ('i32.eq',),
                      ('if', None, [('unreachable',)], None)]
            elif op[0] == 'call':
                go = [get, get, ('local.get', 1), ('i32.const', 1), ('i32.sub',)]
                go += [('call', nh + op[1] % nf)] if op[2] else [('i32.const', op[1] % nf), ('call_indirect', ty, 0)]
                b += [('local.get', 1), ('if', None, go + [('i32.add',), ('local.set', 0)], None)]
            elif op[0] == 'host':
                # the accumulator waits on the operand stack, under blocks, while the host runs
                w = [get] * (1 + op[2]) + [('block', ty, [('call', hi[op[1] % nh])])] \
                    if op[2] % 2 else [get] * (1 + op[2]) + [('call', hi[op[1] % nh])]
                w = [get] * (1 + op[2]) + [get, ('local.get', 1)] + w[1 + op[2]:]
                b += w + [('i32.add',)] * (1 + op[2]) + [('local.set', 0)]
        m.func(['i32', 'i32'], ['i32'], [], b + [('local.get', 0)], f'f{i}')
    m.exports.append(('mem', 'mem', 0))
    m.exports.append(('g', 'global', 0))
    model = _Back(funcs, hosts)
    want = []
    try:
        for i, x, fuel in calls_:
            try:
                want.append((model.call(i % nf, x, fuel), model.glob, tuple(model.mem)))
            except _Trap:
                want.append((None, model.glob, tuple(model.mem)))
    except OverflowError:
        return ctx.discard()
    pw = drive.PW()
    log = []
    holder = []

    def state():
        inst = holder[0]
        mem = pw.memory(inst)
        return pw.global_bits(inst, 'g'), tuple(int.from_bytes(mem.get(4 * i, 4), 'little') for i in range(nf))

    def small(j, bad):
        s = enc.Mod()
        s.globals.append(('i32', True, [('i32.const', 0)]))
        s.func([], [], [], [('i32.const', j), ('global.set', 0)] + ([('unreachable',)] if bad else []), 's')
        s.start = 0
        s.func([], ['i32'], [], [('global.get', 0), ('i32.const', 1), ('i32.add',)], 'r')
        return enc.encode(s)

    def host(k):
        def h(_, args):
            x, fuel = args[0] & M32, args[1] & M32
            log.append((k, x, fuel) + state())
            r = x ^ k
            if not fuel:
                return [r - (1 << 32) if r >> 31 else r]
            for n, (what, j, caught) in enumerate(hosts[k]):
                if what == 'inst':
                    i = pw.rt.instance(drive.decode(small(j, False)))
                    r = (r + (pw.rt.invocate(i, 'r', [])[0])) & M32
                elif what == 'badinst':
                    try:
                        pw.rt.instance(drive.decode(small(j, True)))
                    except Exception:
                        r = (r + 77) & M32
                else:
                    try:
                        sx = r - (1 << 32) if r >> 31 else r
                        r = (r + pw.rt.invocate(holder[0], f'f{j % nf}', [sx, fuel - 1])[0]) & M32
                    except Exception:
                        if not caught:
                            raise
                        r = (r + 99) & M32
            # its own arguments are still the ones it was called with
            log.append((k, (r + (args[0] & M32) - x) & M32, args[1] & M32) + state())
            return [r - (1 << 32) if r >> 31 else r]
        return h
    ft = drive.functype(['i32', 'i32'], ['i32'])
    imps = {('env', f'h{k}'): pw.rt.allocate_func_host(ft, host(k)) for k in range(nh)}
    holder.append(pw.instance(enc.encode(m), imps))
    for n, (i, x, fuel) in enumerate(calls_):
        try:
            got = pw.call(holder[0], f'f{i % nf}', [('i32', x), ('i32', fuel)])[0][1]
        except drive.Raised:
            got = None
        got = (got,) + state()
        check(got == want[n], f'call {n} of f{i % nf}: result, global and memory are {got}, expected {want[n]}')
    check(log == model.log, f'host calls differ: {_first(log, model.log)}')
    if model.back:
        ctx.good()
        if any(w[0] is None for w in want):
            ctx.tag('trap out of a callback or call')
        ctx.tag('callbacks')


def _first(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'#{i} was {x}, expected {y}'
    return f'{len(a)} of {len(b)}'


def locals_run(case, ctx):
    """many declared locals in many groups: all zero at every activation, each one a cell of its own"""
    groups, nparams, writes, calls = case
    T = ('i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref')
    ps = tuple(('i32', 'i64')[i % 2] for i in range(nparams))
    ls = [(n, T[t]) for t, n in groups]
    flat = list(ps) + [t for n, t in ls for _ in range(n)]
    m = enc.Mod()
    zero = {'i32': [('i32.eqz',)], 'i64': [('i64.eqz',)], 'f32': [('i32.reinterpret_f32',), ('i32.eqz',)],
            'f64': [('i64.reinterpret_f64',), ('i64.eqz',)], 'v128': [('v128.any_true',), ('i32.eqz',)],
            'funcref': [('ref.is_null',)], 'externref': [('ref.is_null',)]}
    one = {'i32': [('i32.const', 5)], 'i64': [('i64.const', 6)], 'f32': [('f32.const', 0x80000000)], 'f64': [('f64.const', 1 << 63)],
           'v128': [('v128.const', 1 << 100)], 'funcref': [('ref.func', 0)], 'externref': [('local.get', len(flat))]}
    # f(params..., externref, n): how many locals are zero at entry; then writes some and counts again, after n more activations
    ps2 = ps + ('externref', 'i32')
    np = len(ps2)
    idx = [i if i < len(ps) else i + 2 for i in range(len(flat))]
    one['externref'] = [('local.get', len(ps))]
    count = lambda: [('i32.const', 0)] + [x for i, t in zip(idx[len(ps):], flat[len(ps):]) for x in [('local.get', i)] + zero[t] + [('i32.add',)]]
    body = count() + [('local.get', len(ps)), ('drop',)]
    own = flat[len(ps):]
    done = set()
    for w in writes:
        if own:
            k = w % len(own)
            done.add(k)
            body += one[own[k]] + [('local.set', np + k)]
    body += [('local.get', len(ps) + 1), ('i32.eqz',), ('if', None, [], [x for i in range(len(ps)) for x in [('local.get', i)]] + [
        ('local.get', len(ps)), ('local.get', len(ps) + 1), ('i32.const', 1), ('i32.sub',), ('call', 0)] + [('drop',)] * (len(ps) + 2))]
    body += count() + [('local.get', i) for i in range(len(ps))]
    m.func(ps2, ('i32', 'i32') + ps, own, body, 'f')
    m.exports.append(('self', 'func', 0))
    pw = drive.PW()
    inst = pw.instance(enc.encode(m))
    for k, n in enumerate(calls):
        a = [100 * k + i for i in range(len(ps))]
        got = [b for _, b in pw.call(inst, 'f', list(zip(ps2, a + [9, n])))]
        want = [len(own), len(own) - len(done)] + a
        check(got == want, lambda: f'{len(own)} locals in {len(ls)} groups, {len(done)} of them set, {n} nested calls: zero before, zero after and '
              f'parameters are {got}, expected {want}')
    ctx.tag('many' if len(own) > 100 else 'few')
    if own:
        ctx.good()


def rec_cases(tier, shard, nshards):
    k = 0
    for depth in (0, 1, 2, 3, 7, 50, 200):
        for nargs in range(4):
            for nres in (1, 2, 3):
                for how in ('call', 'indirect'):
                    for mutual in (False, True):
                        k += 1
                        for junk in (k % 5,) if tier == 'quick' else range(5):
                            if k % nshards == shard:
                                yield depth, nargs, nres, how, mutual, junk


def tests(tier):
    from hypothesis import strategies as st
    vt = st.sampled_from(['i32', 'i64', 'f32', 'f64'])
    sig = st.tuples(st.lists(vt, max_size=3).map(tuple), st.lists(vt, max_size=2).map(tuple))
    ind = st.tuples(st.integers(1, 6), st.lists(st.tuples(st.integers(0, 5), st.one_of(st.none(), st.integers(0, 5))),
                                               max_size=6), st.lists(sig, min_size=1, max_size=4), st.integers(0, 7),
                    st.lists(st.one_of(st.integers(0, 7), st.sampled_from([0xffffffff, 0x80000000, 0x10000])),
                             min_size=1, max_size=5), st.booleans(), st.lists(st.tuples(st.sampled_from([7, 7, 0, 1, 2, 3]), st.integers(0, 5)), max_size=4))
    op = st.one_of(st.tuples(st.just('mix'), st.integers(0, 9)), st.tuples(st.just('mem')), st.tuples(st.just('glob')),
                   st.tuples(st.just('trap'), st.integers(0, 7)),
                   st.tuples(st.just('call'), st.integers(0, 3), st.booleans()),
                   st.tuples(st.just('host'), st.integers(0, 2), st.integers(0, 3)),
                   st.tuples(st.just('host'), st.integers(0, 2), st.integers(0, 3)))
    hop = st.one_of(st.tuples(st.just('call'), st.integers(0, 3), st.booleans()),
                    st.tuples(st.just('call'), st.integers(0, 3), st.booleans()),
                    st.tuples(st.sampled_from(['inst', 'badinst']), st.integers(0, 9), st.booleans()))
    back = st.tuples(st.lists(st.lists(op, min_size=2, max_size=6), min_size=1, max_size=4),
                     st.lists(st.lists(hop, min_size=1, max_size=2), min_size=1, max_size=3),
                     st.lists(st.tuples(st.integers(0, 3), st.integers(0, 50), st.sampled_from([2, 1, 3, 0])), min_size=1, max_size=3))
    prof = gen.Profile(calls=True, table=True, indirect=True, hosts=3, maxfuncs=6, traps=2, start=True, opw=3, ctl=3)
    return [Test('recursion', rec_run, cases=rec_cases),
            Test('deep', deep_run, cases=deep_cases),
            Test('locals', locals_run, strategy=lambda: st.tuples(
                st.one_of(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6)), max_size=8),
                          st.lists(st.tuples(st.integers(0, 6), st.sampled_from([1, 1, 0, 2, 40])), min_size=20, max_size=150),
                          st.lists(st.tuples(st.integers(0, 6), st.sampled_from([60, 127, 128, 200])), min_size=1, max_size=3)),
                st.integers(0, 4), st.lists(st.integers(0, 1000), max_size=6), st.lists(st.integers(0, 3), min_size=1, max_size=3)),
                n=(500, 20000)),
            Test('unbounded', infinite_run, cases=lambda t, s, n: [(h, mu, a) for k, (h, mu, a) in enumerate(
                (h, mu, a) for h in ('call', 'indirect') for mu in (False, True) for a in (0, 2)) if k % n == s]),
            Test('indirect', ind_run, strategy=lambda: ind, n=(3000, 120000)),
            Test('callbacks', back_run, strategy=lambda: back, n=(4000, 150000)),
            diffprop.gen_test('programs', prof, (5000, 200000), calls),
            diffprop.gen_test('simd-args', gen.Profile(calls=True, simd=True, hosts=2, maxfuncs=5, opw=2, ctl=2, mem=False,
                                                       refs=False), (1500, 60000), calls)]
