"""C11: import matching, sharing of imported objects, independence of instances."""
import itertools

from .. import enc, gen, num, profiles, ref, world
from ..diffprop import h64
from ..runner import Test, check

ID = 'C11'
RULE = ('a case is one import requirement against one supplied object (or none), a history of reads and writes through '
        'several holders of shared objects, or a history of calls on several instances of one decoded module; non-trivial '
        '= the supplied object exists / at least one write is observed through another holder / at least two instances '
        'exist; distinct by case')
PAGE = 65536
VT = ('i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref')
SIGS = [((), ()), (('i32',), ()), ((), ('i32',)), (('i32',), ('i32',)), (('i64',), ('i32',)), (('i32', 'i32'), ('i32',)),
        (('i32',), ('i32', 'i32')), (('f32',), ('f64',)), (('v128',), ('externref',)), (('i32', 'i64'), ()),
        (('i64', 'i32'), ())]
GLOBS = [(t, m) for t in VT for m in (0, 1)]
LIM = [(lo, hi) for lo in (0, 1, 2, 3) for hi in (None, 0, 1, 2, 3, 4) if hi is None or hi >= lo]
OBJ = [('func', s) for s in SIGS] + [('global', g) for g in GLOBS] + \
      [('table', (t,) + l) for t in ('funcref', 'externref') for l in LIM] + [('mem', l) for l in LIM]
HOWS = ('wasm', 'host', 'reexport')
# what is imported, what is supplied
DECOYS = {k: (a, b) for i, (x, y) in enumerate([
    (('env', 'obj'), ('env', 'OBJ')), (('env', 'obj'), ('Env', 'obj')), (('env', 'obj'), ('obj', 'env')), (('env', 'obj'), ('env', 'obj ')),
    (('env', 'obj'), ('env', '')), (('env', 'a.b'), ('env.a', 'b')), (('lib', 'obj'), ('env', 'obj')), (('lib', 'obj'), ('', 'obj')),
    (('env', '\u00e9'), ('env', 'e\u0301')), (('env', 'obj'), ('env', 'obj\0')), (('env', '0'), ('env', '00'))])
    for k, a, b in ((f'decoy {i}', x, y), (f'decoy {i} reversed', y, x))}


def const(t):
    return [('ref.null', t)] if t in ('funcref', 'externref') else [(t + '.const', 0)]


def supply(w, kind, d, how):
    if how == 'host' or (how == 'reexport' and d != OBJ[0][1]):
        if kind == 'func':
            e = w.host('sup', *d)
        elif kind == 'global':
            e = w.host_global(d[0], d[1], None if d[0] in ('funcref', 'externref') else 0)
        elif kind == 'table':
            e = w.host_table(*d)
        else:
            e = w.host_mem(*d)
        if how == 'host':
            return e
    m = enc.Mod()
    if how == 'reexport' and d != OBJ[0][1]:
        m.imports.append(('x', 'x', kind, m.type(*d) if kind == 'func' else d))
        m.exports.append(('obj', kind, 0))
        if kind == 'table':
            m.func([], ['i32'], [], [('ref.null', d[0]), ('i32.const', 1), ('table.grow', 0)], 'grow')
        if kind == 'mem':
            m.func([], ['i32'], [], [('i32.const', 1), ('memory.grow',)], 'grow')
        k = w.instantiate(m, {('x', 'x'): e}, tag='re-exporter')
        assert k is not None
        return w.export(k, 'obj')
    if kind == 'func':
        m.func(d[0], d[1], [], [x for t in d[1] for x in const(t)], 'obj')
    elif kind == 'global':
        m.globals.append(d + (const(d[0]),))
        m.exports.append(('obj', 'global', 0))
    elif kind == 'table':
        m.tables.append(d)
        m.exports.append(('obj', 'table', 0))
        m.func([], ['i32'], [], [('ref.null', d[0]), ('i32.const', 1), ('table.grow', 0)], 'grow')
    else:
        m.mems.append(d)
        m.exports.append(('obj', 'mem', 0))
        m.func([], ['i32'], [], [('i32.const', 1), ('memory.grow',)], 'grow')
    k = w.instantiate(m, {}, tag='provider')
    assert k is not None
    return w.export(k, 'obj')


def match_run(case, ctx):
    want, have, how, grow, pos, missing = case
    w = world.World()
    log = w.host('log', [], [])
    other = w.host_mem(1, None)
    cell = w.host_global('i32', 1, 5)
    e = None
    if have is not None:
        e = supply(w, have[0], have[1], how)
        for _ in range(grow):
            if w.insts and 'grow' in w.insts[-1][0].exports:
                w.call(len(w.insts) - 1, 'grow', [])
    m = enc.Mod()
    # side effects that must not happen when an import does not match: a data segment, a start function
    m.imports.append(('env', 'log', 'func', m.type([], [])))
    m.imports.append(('env', 'cell', 'global', ('i32', 1)))
    if want[0] != 'mem':
        m.imports.append(('env', 'mem', 'mem', (1, None)))
    at = DECOYS[missing][0] if missing in DECOYS else ('env' if missing != 'module' else 'nowhere', 'obj')
    i = (*at, want[0], m.type(*want[1]) if want[0] == 'func' else want[1])
    m.imports.insert(pos % (len(m.imports) + 1), i)
    nf = [x[1] for x in m.imports if x[2] == 'func'].index('log')
    ng = [x[1] for x in m.imports if x[2] == 'global'].index('cell')
    if want[0] != 'mem' or want[1][0] > 0:
        m.datas.append(enc.Data('active', b'xyz', [('i32.const', 3)]))
    m.start = m.func([], [], [], [('call', nf), ('i32.const', 9), ('global.set', ng)], None)
    imports = {('env', 'log'): log, ('env', 'mem'): other, ('env', 'cell'): cell}
    if e is not None:
        imports['env', 'obj'] = e
    elif missing == 'name':
        imports['env', 'object'] = log
    elif missing in DECOYS:     # an object that would match, under almost the right name
        imports[DECOYS[missing][1]] = supply(w, want[0], want[1], 'host')
        if pos % 2 == 0:
            imports[at[0], 'log'] = log     # the module name is known
    k = w.instantiate(m, imports, tag='consumer')
    ctx.tag('matched' if k is not None else 'refused')
    w.compare('after the attempt')
    # what the host holds: re-exported through one more module
    m = enc.Mod()
    m.imports = [('env', 'mem', 'mem', (0, None)), ('env', 'cell', 'global', ('i32', 1))]
    m.exports = [('mem', 'mem', 0), ('cell', 'global', 0)]
    assert w.instantiate(m, {('env', 'mem'): other, ('env', 'cell'): cell}, tag='viewer') is not None
    w.compare('shared objects after the attempt')
    if e is not None:
        ctx.good()


def match_cases(tier, shard, nshards):
    k = 0
    for want in OBJ:
        for have in OBJ:
            same = want[0] == have[0]
            for how in HOWS:
                if not same and how != HOWS[(OBJ.index(want) + OBJ.index(have)) % 3]:
                    continue
                if not same and tier == 'quick' and (OBJ.index(want) * 7 + OBJ.index(have)) % 5:
                    continue
                for grow in (0, 1, 2) if have[0] in ('mem', 'table') and same and how != 'host' else (0,):
                    k += 1
                    if tier == 'quick' and want[0] == have[0] == 'table' and k % 3:
                        continue
                    if k % nshards == shard:
                        yield want, have, how, grow, k % 4, None
        for missing in ('name', 'module', 'empty') + tuple(DECOYS):
            for pos in range(3):
                k += 1
                if k % nshards == shard:
                    yield want, None, 'wasm', 0, pos, missing


# -- sharing --------------------------------------------------------------------------------------------------------------
GT = ('i32', 'i64', 'f32', 'f64', 'v128', 'externref')


def accessors(m, counter):
    """accessor functions for everything in the index spaces of m"""
    tabs = [i[3] for i in m.imports if i[2] == 'table'] + m.tables
    globs = [i[3] for i in m.imports if i[2] == 'global'] + [x[:2] for x in m.globals]
    ty = m.type([], ['i32'])
    if m.mems or m.nimp('mem'):
        m.func(['i32'], ['i32'], [], [('local.get', 0), ('i32.load8_u', 0, 0)], 'ld')
        m.func(['i32', 'i32'], [], [], [('local.get', 0), ('local.get', 1), ('i32.store8', 0, 0)], 'st')
        m.func(['i32'], ['i32'], [], [('local.get', 0), ('memory.grow',)], 'grow')
        m.func([], ['i32'], [], [('memory.size',)], 'size')
    for k, t in enumerate(tabs):
        m.func(['i32'], [t[0]], [], [('local.get', 0), ('table.get', k)], f'tget{k}')
        m.func(['i32', t[0]], [], [], [('local.get', 0), ('local.get', 1), ('table.set', k)], f'tset{k}')
        m.func([t[0], 'i32'], ['i32'], [], [('local.get', 0), ('local.get', 1), ('table.grow', k)], f'tgrow{k}')
        m.func([], ['i32'], [], [('table.size', k)], f'tsize{k}')
        if t[0] == 'funcref':
            m.func(['i32'], ['i32'], [], [('local.get', 0), ('call_indirect', ty, k)], f'tcall{k}')
    for k, g in enumerate(globs):
        m.func([], [g[0]], [], [('global.get', k)], f'gget{k}')
        if g[1]:
            m.func([g[0]], [], [], [('local.get', 0), ('global.set', k)], f'gset{k}')
    # a function with state of its own instance, and wrappers for the imported ones
    m.func([], ['i32'], [], [('global.get', counter), ('i32.const', 1), ('i32.add',), ('global.set', counter),
                             ('global.get', counter)], 'tick')
    fi = [i for i in m.imports if i[2] == 'func']
    for k, i in enumerate(fi):
        ps, rs = m.types[i[3]]
        m.func(ps, rs, [], [('local.get', j) for j in range(len(ps))] + [('call', k)], f'wrap{k}')


class Share:
    """a chain of modules: each imports a random part of what exists so far (directly or re-exported) and re-exports it"""

    def __init__(self, b):
        self.s = s = gen.Src(b)
        self.w = w = world.World()
        self.objs = [('func', ((), ('i32',)), w.host('h', [], ['i32'])), ('func', (('i32',), ('i64',)), w.host('k', ['i32'], ['i64'])),
                     ('mem', (1, 4), w.host_mem(1, 4)), ('table', ('funcref', 3, 6), w.host_table('funcref', 3, 6)),
                     ('table', ('externref', 2, None), w.host_table('externref', 2, None))]
        for t in GT:
            mut = s.pick(4) > 0
            self.objs.append(('global', (t, int(mut)), w.host_global(t, int(mut), s.value(t) if t != 'externref' else 3)))
        self.mods = []
        for k in range(2 + s.pick(3)):
            self.module(k)

    def module(self, k):
        s, w = self.s, self.w
        m = enc.Mod()
        imports = {}
        for j in range(s.pick(9) if k else s.pick(4)):
            kind, d, e = s.of(self.objs[-24:])
            if kind == 'mem' and m.nimp('mem'):
                continue
            name = f'i{j}'
            m.imports.append(('env', name, kind, m.type(*d) if kind == 'func' else d))
            imports['env', name] = e
        if not m.nimp('mem') and s.pick(2):
            m.mems.append((1, 4))
        if s.pick(2):
            m.tables.append((s.of(('funcref', 'externref')), 3, 7))
        for t in GT:
            if s.pick(3) == 0:
                m.globals.append((t, 1, [('ref.null', t)] if t == 'externref' else [(t + '.const', s.value(t))]))
        m.globals.append(('i32', 1, [('i32.const', 1000 * k)]))
        counter = m.nimp('global') + len(m.globals) - 1
        accessors(m, counter)
        tabs = [i[3] for i in m.imports if i[2] == 'table'] + m.tables
        globs = [i[3] for i in m.imports if i[2] == 'global'] + [x[:2] for x in m.globals]
        fs = [i[3] for i in m.imports if i[2] == 'func']
        ex = []
        ex += [(f'T{i}', 'table', i, t) for i, t in enumerate(tabs)]
        ex += [(f'G{i}', 'global', i, t) for i, t in enumerate(globs)]
        ex += [(f'F{i}', 'func', i, m.types[t]) for i, t in enumerate(fs)]
        tick = dict((n, i) for n, _, i in m.exports)['tick']
        ex += [('TICK', 'func', tick, ((), ('i32',)))]
        mm = [i[3] for i in m.imports if i[2] == 'mem'] + m.mems
        ex += [(f'M{i}', 'mem', i, t) for i, t in enumerate(mm)]
        m.exports += [x[:3] for x in ex]
        i = w.instantiate(m, imports, tag=f'm{k}')
        check(i is not None, f'module m{k} with matching imports was refused')
        for n, kind, _, d in ex:
            self.objs.append((kind, d, w.export(i, n)))
        self.mods.append((i, m))

    def step(self, n):
        s, w = self.s, self.w
        i, m = s.of(self.mods)
        names = [x for x, k, _ in m.exports if k == 'func']
        acts = [x for x in names if x.startswith(('st', 'grow', 'tset', 'tgrow', 'gset', 'tick', 'wrap', 'tcall', 'F', 'TICK'))]
        acts += ['poke'] * any(k == 'mem' for _, k, _ in m.exports)
        a = s.of(acts)
        ri, pi = w.insts[i]
        if a == 'poke':
            name = [x for x, k, _ in m.exports if k == 'mem'][0]
            at, v = s.pick(9), s.byte()
            w.pw.rt.exported_memory(pi, name).put_u8(at, v)
            ri.exports[name][1].data[at] = v
            return f'{n} poke'
        ps = ri.exports[a][1].type[0]
        args = []
        for j, t in enumerate(ps):
            if t == 'funcref':
                f = [x for x in w.addr.values()]
                args.append(s.of(f) if s.pick(4) else None)
            elif t == 'externref':
                args.append(s.pick(100) if s.pick(4) else None)
            elif a.startswith(('st', 'tset', 'tcall')) and j == 0:
                args.append(s.pick(9))
            elif a.startswith(('grow', 'tgrow')):
                args.append(s.pick(4))
            else:
                args.append(s.value(t))
        w.call(i, a, args, f'step {n}: ')
        return f'{n} {a}'

    def view(self, what):
        w = self.w
        for i, m in self.mods:
            ri = w.insts[i][0]
            for n, (k, f) in ri.exports.items():
                if k != 'func':
                    continue
                if n.startswith(('gget', 'size', 'tsize')):
                    w.call(i, n, [], what)
                elif n == 'ld':
                    for a in range(9):
                        w.call(i, n, [a], what)
                elif n.startswith('tget'):
                    for a in range(7):
                        w.call(i, n, [a], what)


def share_run(b, ctx):
    h = Share(b)
    if len(h.mods) > 1:
        ctx.good(h=h64(b))
    n = 2 + h.s.pick(10)
    for k in range(n):
        a = h.step(k)
        ctx.tag(a.split()[1].rstrip('0123456789'))
        h.w.compare(f'after step {a}')
        h.view(f'after step {a}: ')


# -- independence ---------------------------------------------------------------------------------------------------------
PROF = None


def indep(b):
    n = b[0] % 3 + 2 if b else 2
    order = b[1:9]
    case = gen.make(b[9:], gen.Profile(refs=True, table=True, indirect=True, refw=3, elems=3, bulk=True, datas=3, hosts=1,
                                       simd=True, traps=3, start=True, maxfuncs=4, budget=40, opw=3, ctl=2, memw=4), 4)
    return n, order, case


def indep_run(b, ctx):
    n, order, case = indep(b)
    w = world.World(fuel=40000)
    desc = w.pw.decode(enc.encode(case.mod))
    imports = {('env', f'h{k}'): w.host(f'h{k}', ps, rs) for k, (ps, rs) in enumerate(case.hosts)}
    late = []
    try:
        for k in range(n - 1):
            if w.instantiate(case.mod, imports, tag=f'i{k}', desc=desc) is None:
                w.compare('after a failed instantiation')
                ctx.tag('instantiation traps')
        # calls go to the instances in the given order; one more instance is made half way
        for j in range(8):
            if j == 4 and n > 2:
                w.instantiate(case.mod, imports, tag='late', desc=desc)
                w.compare('after a late instantiation')
            if not w.insts or not case.calls:
                return
            k = (order[j] if j < len(order) else j) % len(w.insts)
            f, args = case.calls[j % len(case.calls)]
            args = [None if a is not None and t == 'funcref' else a
                    for a, t in zip(args, w.insts[k][0].exports[f'f{f}'][1].type[0])]
            r = w.call(k, f'f{f}', args, f'#{j} ')
            if r[0] == 'trap' and isinstance(r[1], ref.Exhausted):
                ctx.tag('exhausted')
                break
            w.compare(f'after call #{j}')
    except ref.OutOfFuel:
        ctx.discard()
    if len(w.insts) > 1:
        ctx.good(h=h64(b))


def tests(tier):
    return [Test('match', match_run, cases=match_cases),
            Test('sharing', share_run, strategy=lambda: gen.strategy(80, 300), n=(4000, 150000),
                 show=lambda b: f'bytes {b.hex()}'),
            Test('independent', indep_run, strategy=lambda: gen.strategy(300, 1500), n=(4000, 150000),
                 show=lambda b: f'bytes {b.hex()}\n{indep(b)[2]!r}')]
