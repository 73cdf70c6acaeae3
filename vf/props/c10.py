"""C10: order and effects of instantiation."""
import os
import shutil
import tempfile

from .. import drive, enc, gen, num, ref, world
from ..diffprop import h64
from ..runner import Test, check

ID = 'C10'
RULE = ('a case is a provider module, host objects and one or two instantiations of a consumer module with random imports, '
        'globals, element/data segments and start function; non-trivial = the consumer has at least two of: imported '
        'state, a segment, a start function; distinct by generated bytes')
ASSUME = ['declarative element segments are exercised for being dropped after a successful instantiation only']
PAGE = 65536
VT = ('i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref')


def probe_func(m, n, uid, mem=True, glob=None):
    """()->i32 identifying the function and the instance it closes over"""
    b = [('i32.const', uid)]
    if glob is not None:
        b += [('global.get', glob), ('i32.add',)]
    return m.func([], ['i32'], [], b, n)


def helpers(m):
    """exported accessors for every table, global and segment"""
    ty = m.type([], ['i32'])
    tabs = [i[3] for i in m.imports if i[2] == 'table'] + m.tables
    for k, t in enumerate(tabs):
        if t[0] == 'funcref':
            m.func(['i32'], ['i32'], [], [('local.get', 0), ('call_indirect', ty, k)], f'tcall{k}')
        else:
            m.func(['i32'], ['externref'], [], [('local.get', 0), ('table.get', k)], f'tget{k}')
        m.func(['i32'], ['i32'], [], [('local.get', 0), ('table.get', k), ('ref.is_null',)], f'tnull{k}')
        m.func([], ['i32'], [], [('table.size', k)], f'tsize{k}')
        m.func(['i32'], ['i32'], [], [('ref.null', t[0]), ('local.get', 0), ('table.grow', k)], f'vgrow{k}')
        for e, s in enumerate(m.elems):
            if s.type == t[0]:
                m.func(['i32'] * 3, [], [], [('local.get', i) for i in range(3)] + [('table.init', e, k)], f'einit{e}_{k}')
    for k in range(min(8, m.nimp('func') + len(m.funcs))):
        if m.functype(k) == ((), ('i32',)):      # by way of a direct call
            m.func([], ['i32'], [], [('call', k), ('i32.const', 1), ('i32.add',)], f'call{k}')
    for k, g in enumerate([i[3] for i in m.imports if i[2] == 'global'] + [x[:2] for x in m.globals]):
        if g[0] == 'funcref':
            m.func([], ['i32'], [], [('global.get', k), ('ref.is_null',)], f'gget{k}')
        else:
            m.func([], [g[0]], [], [('global.get', k)], f'gget{k}')
    if m.mems or any(i[2] == 'mem' for i in m.imports):
        for d in range(len(m.datas)):
            m.func(['i32'] * 3, [], [], [('local.get', i) for i in range(3)] + [('memory.init', d)], f'dinit{d}')
        m.func(['i32'], ['i32'], [], [('local.get', 0), ('i32.load8_u', 0, 0)], 'ld')
        m.func([], ['i32'], [], [('memory.size',)], 'msize')
        m.func(['i32'], ['i32'], [], [('local.get', 0), ('memory.grow',)], 'mgrow')


def const(s, t):
    v = s.value(t)
    return [(t + '.const', v)]


class Build:
    def __init__(self, b):
        self.s = s = gen.Src(b)
        self.uid = 1000
        self.provider()
        self.host = [('hostg', t, s.pick(2), s.value(t) if t in VT[:5] else s.pick(4) or None)
                     for t in (s.of(('i32', 'externref')), s.of(VT[:5]))]
        self.consumers = [self.consumer(0)]
        if s.pick(3) == 0:
            self.consumers.append(self.consumer(1))
        self.twice = s.pick(4) == 1
        self.via = s.bits(16)

    def provider(self):
        s = self.s
        m = self.pm = enc.Mod()
        lo = s.pick(3)
        m.mems.append((lo, None if s.pick(2) else lo + s.pick(3)))
        m.exports.append(('mem', 'mem', 0))
        n = s.pick(7)
        m.tables.append(('funcref', n, None if s.pick(2) else n + s.pick(3)))
        m.tables.append(('externref', s.pick(5), None))
        m.exports += [('t0', 'table', 0), ('t1', 'table', 1)]
        for t in VT:
            for mut in (0, 1):
                e = const(s, t) if t in VT[:5] else [('ref.null', t)] if t == 'externref' or s.pick(2) else [('ref.func', 0)]
                if t == 'i32' and mut == 0:
                    e = [('i32.const', s.pick(12))]
                m.exports.append((f'g{len(m.globals)}', 'global', len(m.globals)))
                m.globals.append((t, mut, e))
        for k in range(2):
            probe_func(m, f'f{k}', 100 + k)
        helpers(m)

    def consumer(self, ci):
        s = self.s
        m = enc.Mod()
        T = m.type([], ['i32'])
        m.type([], [])
        links = {}
        gi = []           # types of imported globals; (index, type) usable in constant expressions
        tabs = []
        havemem = None

        def imp(name, kind, desc, src):
            m.imports.append(('p', f'{name}{len(m.imports)}', kind, desc))
            links['p', m.imports[-1][1]] = src
        m.imports.append(('p', 'log', 'func', m.type(['i32'], [])))
        links['p', 'log'] = ('host', 'log')
        for k in range(s.pick(2)):
            imp('f', 'func', T, ('prov', f'f{k}'))
        nf = len(m.imports)
        for k in range(s.pick(7)):
            j = s.pick(18)
            if j < 14:
                t, mut = VT[j // 2], j & 1
                imp('g', 'global', (t, mut), ('prov', f'g{j}'))
                gi.append((t, mut))
            elif j < 16:
                h = j - 14
                imp('hg', 'global', self.host[h][1:3], ('hostg', h))
                gi.append(self.host[h][1:3])
            elif j == 16 and havemem is None:
                havemem = self.pm.mems[0]
                imp('mem', 'mem', (s.pick(havemem[0] + 1), None if havemem[1] is None else havemem[1] + s.pick(2)),
                    ('prov', 'mem'))
            elif j == 17:
                k = s.pick(2)
                t = self.pm.tables[k]
                imp('t', 'table', (t[0], s.pick(t[1] + 1), t[2]), ('prov', f't{k}'))
                tabs.append(t)
        if s.pick(3) and havemem is None:
            havemem = self.pm.mems[0]
            imp('mem', 'mem', (0, None if havemem[1] is None else havemem[1]), ('prov', 'mem'))
        if s.pick(2):
            t = self.pm.tables[0]
            imp('t', 'table', (t[0], 0, None), ('prov', 't0'))
            tabs.append(t)
        if havemem is None and s.pick(8):
            havemem = (s.pick(3), None)
            m.mems.append(havemem)
            m.exports.append(('mem', 'mem', 0))
        for _ in range(s.pick(3)):
            t = (s.of(('funcref', 'externref')), s.pick(7), None)
            m.tables.append(t)
            tabs.append(t)
        # functions that can be referenced: imports 1.., then own ones
        nown = 1 + s.pick(3)
        for k in range(nown):
            self.uid += 1
        base = m.nimp('func')
        funcs = list(range(1, base + nown))
        # globals

        def init(t):
            c = [i for i, g in enumerate(gi) if g == (t, 0)]
            if c and s.pick(2):
                return [('global.get', s.of(c))]
            if t in VT[:5]:
                return const(s, t)
            if t == 'funcref' and s.pick(3):
                return [('ref.func', s.of(funcs))]
            return [('ref.null', t)]
        glob = None
        if s.pick(4):
            for _ in range(s.pick(5)):
                t = s.of(VT)
                m.globals.append((t, s.pick(2), init(t)))
            m.globals.append(('i32', 1, init('i32')))
            glob = len(gi) + len(m.globals) - 1
        if s.pick(4):             # hand on what was imported
            n = {}
            for _, nm, kind, _ in m.imports:
                k = n[kind] = n.get(kind, -1) + 1
                if nm != 'log':
                    m.exports.append((f'x{links["p", nm][1]}_{k}', kind, k))
        for i in range(len(m.globals)):
            m.exports.append((f'g{i}', 'global', len(gi) + i))
        for k in range(nown):
            probe_func(m, f'own{k}', self.uid * 100000 + k, glob=glob if k else None)
        # element segments

        def offset(size, n):
            c = [i for i, g in enumerate(gi) if g == ('i32', 0)]
            if c and s.pick(4) == 0:
                return [('global.get', s.of(c))]
            k = s.pick(8)
            if k < 5:
                o = s.pick(max(1, size - n + 1))
            else:
                o = (max(0, size - n) + s.pick(3), size + s.pick(2), num.MASK[32] - s.pick(3))[k - 5]
            return [('i32.const', o)]
        for _ in range(s.pick(5)):
            mode = s.weighted([(6, 'active'), (3, 'passive'), (1, 'declarative')])
            if mode == 'active' and not tabs:
                continue
            ti = s.pick(len(tabs)) if tabs else 0
            t = tabs[ti][0] if mode == 'active' else s.of(('funcref', 'externref'))
            ini = [init(t) for _ in range(s.pick(4))]
            m.elems.append(enc.Elem(mode, t, ini, ti, offset(tabs[ti][1], len(ini)) if mode == 'active' else None))
        for _ in range(s.pick(5) if havemem else 0):
            mode = s.weighted([(5, 'active'), (2, 'passive')])
            b = bytes(s.byte() for _ in range(s.pick(6)))
            m.datas.append(enc.Data(mode, b, offset(havemem[0] * PAGE, len(b)) if mode == 'active' and s.pick(2)
                                    else [('i32.const', s.pick(12))] if mode == 'active' else None))
        # start function
        if s.pick(3):
            b = []
            for _ in range(1 + s.pick(5)):
                k = s.pick(7)
                if k == 0:
                    b += [('i32.const', 7000 + s.pick(9)), ('call', 0)]
                elif k == 1 and havemem:
                    b += [('i32.const', s.pick(16)), ('i32.load8_u', 0, 0), ('call', 0)]
                elif k == 2 and havemem:
                    b += [('i32.const', s.pick(16)), ('i32.const', s.byte()), ('i32.store8', 0, 0)]
                elif k == 3 and tabs:
                    b += [('i32.const', s.pick(8)), ('table.get', s.pick(len(tabs))), ('ref.is_null',), ('call', 0)]
                elif k == 4 and tabs and [i for i, t in enumerate(tabs) if t[0] == 'funcref']:
                    b += [('i32.const', s.pick(8)), ('call_indirect', T, s.of([i for i, t in enumerate(tabs) if t[0] == 'funcref'])),
                          ('call', 0)]
                elif k == 5 and glob is not None:
                    b += [('global.get', glob), ('i32.const', 1), ('i32.add',), ('global.set', glob),
                          ('global.get', glob), ('call', 0)]
                elif k == 6 and m.datas:
                    d = s.pick(len(m.datas))
                    b += [('i32.const', s.pick(9)), ('i32.const', 0), ('i32.const', s.pick(3)), ('memory.init', d)]
            if s.pick(6) == 5:
                b.append(('unreachable',))
            m.start = m.func([], [], [], b, None)
        helpers(m)
        m.links = links
        return m


def run(b, ctx):
    bd = Build(b)
    w = world.World()
    log = w.host('log', ['i32'], [])
    hg = [w.host_global(t, mut, v) for _, t, mut, v in bd.host]
    assert w.instantiate(bd.pm, {}, tag='provider') == 0
    todo = [(f'consumer{k}', m) for k, m in enumerate(bd.consumers)]
    if bd.twice:
        todo.append(('consumer0 again', bd.consumers[0]))
    descs = {}
    feat = 0
    for tag, m in todo:
        imports = {}
        for j, (key, (kind, x)) in enumerate(m.links.items()):
            imports[key] = log if kind == 'host' else hg[x] if kind == 'hostg' else w.export(0, x)
            for i in range(len(w.insts) - 1, 0, -1):      # the same object, but by way of another instance's export
                n = [n for n in w.insts[i][0].exports if n.startswith(f'x{x}_')]
                if n and (bd.via >> j & 1):
                    imports[key] = w.export(i, n[j % len(n)])
        if id(m) not in descs:
            descs[id(m)] = w.pw.decode(enc.encode(m))
        k = w.instantiate(m, imports, tag=tag, desc=descs[id(m)])
        ctx.tag('instantiated' if k is not None else 'link error' if isinstance(w.why, ref.LinkError) else
                f'trap in {w.why.args[0] if w.why.args else "start"}')
        w.compare(f'after {tag}')
        if k is not None:
            probe(w, k, m)
            if bd.via & 1:
                grow(w, k, bd.via)
        probe(w, 0, bd.pm)
        w.compare(f'after probing {tag}')
        feat = max(feat, len([1 for i in m.imports if i[2] != 'func']) + len(m.elems) + len(m.datas) + (m.start is not None))
    if feat >= 2:
        ctx.good(h=h64(b))


def probe(w, k, m):
    ri = w.insts[k][0]
    for n, (kind, f) in list(ri.exports.items()):
        if kind != 'func':
            continue
        if n.startswith(('tcall', 'tget', 'tnull')):
            size = w.call(k, 'tsize' + n.lstrip('tcalgenu'), [])[1][0]
            for i in range(size + 1):
                w.call(k, n, [i])
        elif n.startswith(('gget', 'own', 'xf', 'call')) or n in ('f0', 'f1', 'msize'):
            w.call(k, n, [])
        elif n == 'ld':
            for i in range(20):
                w.call(k, n, [i])
        elif n.startswith('einit'):
            e = m.elems[int(n[5:].split('_')[0])]
            w.call(k, n, [1, 0, len(e.init)])
            w.call(k, n, [0, 0, 0])
        elif n.startswith('dinit'):
            w.call(k, n, [3, 0, len(m.datas[int(n[5:])].init)])
            w.call(k, n, [0, 0, 0])


def grow(w, k, bits):
    for i, n in enumerate(w.insts[k][0].exports):
        if n.startswith(('vgrow', 'mgrow')) and bits >> i % 13 & 3 == 3:
            w.call(k, n, [1 + (n[0] == 'v') * (i % 3)])


def show(b):
    bd = Build(b)
    return f'bytes {b.hex()}\nhost {bd.host}\nprovider:\n{bd.pm.dump()}\n' + '\n'.join(
        f'consumer {k}:\n{m.dump()}' for k, m in enumerate(bd.consumers)) + f'\ntwice {bd.twice}'


# -- modules read from files ----------------------------------------------------------------------------------------------
def setup(ctx):
    ctx.data['dir'] = tempfile.mkdtemp(prefix='vf10-')


def teardown(ctx):
    shutil.rmtree(ctx.data['dir'], ignore_errors=True)


def file_run(case, ctx):
    """each instance is made of what its file holds at that time"""
    steps, order = case
    d = tempfile.mkdtemp(dir=ctx.data['dir'])
    now, live = {}, []
    pws = [drive.PW(), drive.PW()]
    for path, fresh, num_, seg, tail, which in steps:
        path = os.path.join(d, path)
        if fresh or path not in now:
            m = enc.Mod()
            m.mems = [(1, 1)]
            m.globals = [('i32', True, [('i32.const', num_)])]
            m.func([], ['i32'], [], [('global.get', 0), ('global.get', 0), ('i32.const', 1), ('i32.add',), ('global.set', 0)], 'f')
            m.func(['i32'], ['i32'], [], [('local.get', 0), ('i32.load8_u', 0, 0)], 'ld')
            m.datas = [enc.Data('active', seg, [('i32.const', 1)])]
            # the last bytes of a file are the module's like any others
            b = enc.encode(m) + (b'\x00' + bytes([1 + 1 + len(tail)]) + b'\x01n' + tail if tail is not None else b'')
            with open(path, 'wb') as f:
                f.write(b)
            os.utime(path, (1e9, 1e9))
            now[path] = (num_, seg)
        pw = pws[which]
        try:
            inst = drive.attempt(pw.rt.instance_from_file, path)
        except drive.Raised as e:
            check(False, f'a valid module is refused when read from a file: {e!r}')
        live.append((pw, inst, [now[path][0]], now[path][1]))
        ctx.tag('new' if fresh else 'again')
    for k in list(range(len(live))) + order:
        pw, inst, n, seg = live[k % len(live)]
        got = pw.call(inst, 'f', [])[0][1]
        check(got == n[0], lambda: f'instance {k % len(live)}: its counter is {got}, expected {n[0]}')
        n[0] = (n[0] + 1) & num.MASK[32]
        for i in range(len(seg) + 2):
            got = pw.call(inst, 'ld', [('i32', i)])[0][1]
            w = (b'\0' + seg + b'\0')[i]
            check(got == w, lambda: f'instance {k % len(live)}: byte {i} of its memory is {got}, its file had {w}')
    shutil.rmtree(d)
    ctx.good()


def files():
    from hypothesis import strategies as st
    byte = st.sampled_from([b'\0', b'\r\n', b'\n', b'\x1a', b'a', b'\xff', b'\xef\xbb\xbf', b'\r', b'\x0b'])
    blob = st.lists(byte, max_size=4).map(b''.join)
    step = st.tuples(st.sampled_from(['a.wasm', 'b.wasm', 'a', 'ü.wasm']), st.booleans(), st.integers(0, 63), blob,
                     st.one_of(st.none(), blob), st.integers(0, 1))
    return st.tuples(st.lists(step, min_size=1, max_size=6), st.lists(st.integers(0, 5), max_size=4))


def tests(tier):
    return [Test('instantiate', run, strategy=lambda: gen.strategy(120, 400), n=(12000, 250000), show=show),
            Test('files', file_run, strategy=files, n=(600, 20000), setup=setup, teardown=teardown)]
