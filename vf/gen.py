"""Type-directed generator of valid modules.  All choices come from a byte string (Src), where 0 is always the simplest
choice and an exhausted string yields zeros, so Hypothesis can shrink programs by shrinking bytes."""
from . import enc, num, numlib, ops
from .ops import OPS

NUMT = ('i32', 'i64', 'f32', 'f64')
QNAN = {'f32': 0x7fc00000, 'f64': 0x7ff8000000000000}


class Src:
    def __init__(self, b):
        self.b, self.i = b, 0

    @property
    def left(self):
        return len(self.b) - self.i

    def byte(self):
        if self.i < len(self.b):
            self.i += 1
            return self.b[self.i - 1]
        return 0

    def pick(self, n):
        if n <= 1:
            return 0
        if n <= 256:
            return self.byte() * n >> 8
        return (self.byte() << 8 | self.byte()) % n

    def of(self, l):
        return l[self.pick(len(l))]

    def chance(self, a, b=16):
        """probability a/b; False when exhausted"""
        return self.byte() >= 256 - a * 256 // b

    def weighted(self, l):
        k = self.pick(sum(w for w, _ in l))
        for w, x in l:
            k -= w
            if k < 0:
                return x

    def bits(self, w):
        v = 0
        for _ in range(0, w, 8):
            v = v << 8 | self.byte()
        return v & num.MASK[w]

    def value(self, t):
        if t == 'v128':
            k = self.pick(4)
            if k == 0:
                return num.join([self.pick(4) for _ in range(4)], 32)
            if k == 1:
                return num.join([self.of(numlib.LANE[8]) for _ in range(16)], 8)
            if k == 2:
                return num.join([self.of(numlib.SPEC[self.of(('i32', 'f32'))]) for _ in range(4)], 32)
            return self.bits(128)
        k = self.pick(4)
        if k == 0:
            s = self.pick(11)
            return s if t[0] == 'i' else num.rnd(num.Fraction(s, 2), int(t[1:]))
        if k == 1:
            return self.bits(int(t[1:]))
        v = self.of(numlib.SPEC[t])
        if t[0] == 'f' and num.isnan(v, int(t[1:])):
            v = QNAN[t]
        return v


def strategy(small=400, big=2500):
    """byte strings; short ones first so that shrinking moves towards them"""
    from hypothesis import strategies as st
    return st.one_of(st.binary(max_size=small), st.binary(min_size=small // 4, max_size=small),
                     st.binary(min_size=small, max_size=big), st.binary(min_size=big // 2, max_size=big))


class Profile:
    """What a generated module may contain."""

    def __init__(self, **kw):
        self.floats = True
        self.simd = False
        self.mem = True
        self.table = False
        self.refs = False
        self.bulk = False
        self.calls = True
        self.indirect = False
        self.hosts = 0
        self.globals = 4
        self.traps = 1           # chance (of 64) that a trapping possibility is not guarded against
        self.maxfuncs = 4
        self.budget = 60
        self.maxdepth = 5
        self.multi = True
        self.ctl = 4             # weight of control constructs
        self.opw = 6
        self.memw = 2
        self.refw = 0
        self.start = False
        self.groups = None
        self.datas = 0
        self.elems = 0
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


TRAPPING = {n for n in OPS if '.div_' in n or '.rem_' in n or (n.split('.')[1].startswith('trunc_f') and n[0] == 'i'
                                                              and len(n.split('.')[0]) == 3)}
NANNY = {n for n, o in OPS.items() if (o.group in ('fscalar', 'conv') and o.results[0][0] == 'f'
                                       and not any(x in n for x in ('abs', 'neg', 'copysign', 'reinterpret', 'convert')))}
VNAN = {n: 'f32x4' if n.startswith('f32x4') else 'f64x2' for n, o in OPS.items() if o.group == 'vfloat'
        and n[:2] in ('f3', 'f6') and not any(n.endswith(x) for x in ('.eq', '.ne', '.lt', '.gt', '.le', '.ge', '.abs',
                                                                    '.neg', '.pmin', '.pmax')) and 'convert' not in n}


class G:
    """Generates one module."""

    def __init__(self, src, prof):
        self.s, self.p = src, prof
        self.m = enc.Mod()
        p = prof
        types = ['i32', 'i64'] + (['f32', 'f64'] if p.floats else []) + (['v128'] if p.simd else [])
        self.vt = types
        self.rt = ['funcref', 'externref'] if p.refs else []
        self.hosts = []
        self.ops = {}
        names = [o for g in ('iscalar',) + (('fscalar', 'conv') if p.floats else ()) +
                 (('vint', 'vfloat') if p.simd else ()) for o in ops.GROUPS[g]]
        if not p.floats:
            names = [o for o in names if not any(t[0] == 'f' for t in o.params + o.results) and 'f32' not in o.name
                     and 'f64' not in o.name]
        for o in names:
            self.ops.setdefault(o.results[0], []).append(o)
        self.module()

    def anytype(self, refs=True):
        l = self.vt + (self.rt if refs else [])
        return self.s.of(l)

    def types(self, n):
        return tuple(self.anytype() for _ in range(n))

    def sig(self):
        s = self.s
        return self.types(s.pick(4)), self.types(s.weighted([(2, 0), (5, 1), (2, 2), (1, 3)]) if self.p.multi
                                                 else s.pick(2))

    # -- module skeleton --------------------------------------------------------------------------------------------
    def module(self):
        s, p, m = self.s, self.p, self.m
        for k in range(s.pick(p.hosts + 1)):
            ps, rs = self.sig()
            m.imports.append(('env', f'h{k}', 'func', m.type(ps, rs)))
            self.hosts.append((ps, rs))
        if p.mem:
            lo = 1
            m.mems.append((lo, s.weighted([(2, None), (1, lo), (1, lo + 1), (1, lo + 3)])))
            m.exports.append(('mem', 'mem', 0))
        nf = 1 + s.pick(p.maxfuncs)
        sigs = [self.sig() for _ in range(nf)]
        for k in range(s.pick(p.globals + 1)):
            t = self.anytype()
            if t in ops.REF:
                init = [('ref.null', t)]
            else:
                init = [(t + '.const', s.value(t))]
            m.globals.append((t, 0 if s.chance(3) else 1, init))
            m.exports.append((f'g{k}', 'global', k))
        base = len(self.hosts)
        for ps, rs in sigs:
            m.funcs.append(enc.Func(m.type(ps, rs), [], []))
        self.nfunc = base + nf
        if p.table:
            for k in range(1 + s.pick(2)):
                t = 'funcref' if k == 0 else s.of(('externref', 'funcref'))
                lo = 4 + s.pick(6)
                m.tables.append((t, lo, s.weighted([(2, None), (1, lo), (1, lo + 2), (1, lo + 9)])))
                m.exports.append((f't{k}', 'table', k))
        for k in range(s.pick(p.elems + 1)):
            self.elem(k)
        for k in range(s.pick(p.datas + 1)):
            b = bytes(s.byte() for _ in range(s.pick(20)))
            if s.chance(8):
                m.datas.append(enc.Data('active', b, [('i32.const', s.pick(300))]))
            else:
                m.datas.append(enc.Data('passive', b))
        self.helpers = []
        if p.indirect and m.tables and not m.elems:
            f = [[('ref.func', self.anyfunc())] for _ in range(m.tables[0][1])]
            m.elems.append(enc.Elem('active', 'funcref', f, 0, [('i32.const', 0)]))
        self.tab = {}
        for e in m.elems:
            if e.mode == 'active' and e.type == 'funcref':
                o = e.offset[0][1]
                for i, x in enumerate(e.init):
                    if x[0][0] == 'ref.func':
                        self.tab[(e.table, o + i)] = x[0][1]
        for k, f in enumerate(m.funcs):
            Fn(self, base + k, f)
            m.exports.append((f'f{base + k}', 'func', base + k))
        for k in range(base):
            m.exports.append((f'f{k}', 'func', k))
        if p.table:
            for k, (t, _, _) in enumerate(m.tables):
                m.func(['i32'], [t], [], [('local.get', 0), ('table.get', k)], f'tget{k}')
                m.func([], ['i32'], [], [('table.size', k)], f'tsize{k}')
        if p.start and s.chance(8):
            st = [base + i for i, (ps, rs) in enumerate(sigs) if not ps and not rs]
            if st:
                m.start = s.of(st)

    def anyfunc(self):
        return self.s.pick(self.nfunc)

    def elem(self, k):
        s, m = self.s, self.m
        mode = s.of(('active', 'passive', 'declarative'))
        tabs = [i for i, t in enumerate(m.tables)]
        if mode == 'active':
            ti = s.of(tabs)
            t = m.tables[ti][0]
        else:
            ti, t = 0, s.of(('funcref', 'externref'))
        n = s.pick(5)
        init = [[('ref.null', t)] if t == 'externref' or s.chance(4) else [('ref.func', self.anyfunc())]
                for _ in range(n)]
        off = None
        if mode == 'active':
            size = m.tables[ti][1]
            off = [('i32.const', s.pick(max(1, size - n + 1)))]
            if n > size:
                init = init[:size]
        m.elems.append(enc.Elem(mode, t, init, ti, off))


class Fn:
    """Generates one function body."""

    def __init__(self, g, idx, f):
        self.g, self.s, self.p, self.m = g, g.s, g.p, g.m
        self.idx = idx
        self.params, self.results = g.m.types[f.type]
        self.loc = list(self.params) + [self.g.anytype() for _ in range(self.s.pick(4))]
        self.user = len(self.loc)          # locals visible to the program; those after it are reserved
        self.free = {}
        self.left = self.p.budget
        self.loops = 0
        self.labels = [('block', self.results)]
        self.out, self.stk, self.floor = [], [], 0
        self.body(self.results, 0)
        f.body = self.out
        f.locals = self.loc[len(self.params):]

    # -- emission
    def emit(self, ins, pops=0, push=()):
        self.left -= 1
        self.out.append(ins)
        if pops:
            assert len(self.stk) >= pops
            del self.stk[len(self.stk) - pops:]
        self.stk.extend(push)

    def reserve(self, t):
        l = self.free.setdefault(t, [])
        if l:
            return l.pop()
        self.loc.append(t)
        return len(self.loc) - 1

    def release(self, i):
        self.free[self.loc[i]].append(i)

    # -- values
    def leaf(self, t):
        s = self.s
        opts = []
        loc = [i for i in range(self.user) if self.loc[i] == t]
        glo = [i for i, x in enumerate(self.m.globals) if x[0] == t]
        if s.chance(9) and (loc or glo):
            if loc and (not glo or not s.chance(5)):
                return self.emit(('local.get', s.of(loc)), 0, [t])
            return self.emit(('global.get', s.of(glo)), 0, [t])
        if t in ops.REF:
            if t == 'funcref' and s.chance(10):
                return self.emit(('ref.func', self.g.anyfunc()), 0, [t])
            return self.emit(('ref.null', t), 0, [t])
        self.emit((t + '.const', s.value(t)), 0, [t])

    def operands(self, ts, d):
        """leave ts on top of the stack, possibly using what is there"""
        k = min(len(ts), len(self.stk) - self.floor)
        while k and tuple(self.stk[len(self.stk) - k:]) != tuple(ts[:k]):
            k -= 1
        if k and not self.s.chance(13):
            k = 0
        for t in ts[k:]:
            self.expr(t, d)

    def guarded(self):
        """False: let it trap"""
        return not self.s.chance(self.p.traps, 64)

    def addr(self, d):
        s = self.s
        self.expr('i32', d)
        if self.guarded():
            self.emit(('i32.const', s.of((0xff, 0xfff, 0xffff, 0x7f))), 0, ['i32'])
            self.emit(('i32.and',), 2, ['i32'])

    def memarg(self, b):
        s = self.s
        al = s.pick(b.bit_length())
        k = s.pick(8)
        if k < 4:
            off = s.pick(32)
        elif k < 7:
            off = s.pick(256)
        else:
            off = s.of((65520, 65528, 65535, 0x10000, 0xffffffff, 0x80000000)) if not self.guarded() else s.pick(256)
        return al, off

    def op(self, o, d):
        s = self.s
        n = o.name
        guard = n in TRAPPING and self.guarded()
        if guard and 'trunc' in n:
            return self.leaf(o.results[0])
        self.operands(o.params, d)
        if guard:
            t = o.params[0]
            # make the divisor a small positive number
            self.emit((t + '.const', 0xff), 0, [t])
            self.emit((t + '.and',), 2, [t])
            self.emit((t + '.const', 1), 0, [t])
            self.emit((t + '.or',), 2, [t])
        ins = (n,)
        if o.imm == 'lane':
            ins = (n, s.pick(o.arg))
        elif o.imm == 'shuffle':
            ins = (n, tuple(s.pick(32) for _ in range(16)))
        self.emit(ins, len(o.params), o.results)
        if n in NANNY:
            self.canon(o.results[0])
        elif n in VNAN:
            t = VNAN[n]
            x = self.reserve('v128')
            q = num.join([QNAN[t[:3]]] * ops.SH[t][1], ops.SH[t][0])
            for ins in (('local.tee', x), ('v128.const', q), ('local.get', x), ('local.get', x), (t + '.eq',),
                        ('v128.bitselect',)):
                self.out.append(ins)
            self.release(x)

    def canon(self, t):
        x = self.reserve(t)
        for ins in (('local.tee', x), (t + '.const', QNAN[t]), ('local.get', x), ('local.get', x), (t + '.eq',),
                    ('select',)):
            self.out.append(ins)
        self.release(x)

    def expr(self, t, d):
        # values already on the stack belong to an instruction still to come
        f, self.floor = self.floor, len(self.stk)
        self.expr1(t, d)
        assert self.stk[self.floor:] == [t], (self.stk, self.floor, t)
        self.floor = f

    def expr1(self, t, d):
        s, p = self.s, self.p
        if d <= 0 or self.left <= 0 or not s.left:
            return self.leaf(t)
        opts = [(6, 'leaf')]
        if t in self.g.ops:
            opts.append((p.opw, 'op'))
        opts += [(1, 'tee'), (1, 'select')]
        if p.ctl:
            opts.append((p.ctl, 'block'))
        if p.calls:
            opts.append((1, 'call'))
        if p.indirect and p.table:
            opts.append((1, 'indirect'))
        if p.mem and t not in ops.REF:
            opts.append((p.memw, 'load'))
            if t == 'i32' and p.bulk:
                opts.append((1, 'memsize'))
        if p.refw and t == 'i32':
            opts.append((p.refw, 'refi32'))
        if p.refw and t in ops.REF:
            opts.append((p.refw, 'tableget'))
        k = s.weighted(opts)
        if k == 'leaf':
            self.leaf(t)
        elif k == 'op':
            self.op(s.of(self.g.ops[t]), d - 1)
        elif k == 'tee':
            l = [i for i in range(self.user) if self.loc[i] == t]
            self.expr(t, d - 1)
            if l:
                self.emit(('local.tee', s.of(l)), 1, [t])
        elif k == 'select':
            self.expr(t, d - 1)
            self.expr(t, d - 1)
            self.expr('i32', d - 1)
            if t in ops.REF or s.chance(5):
                self.emit(('select_t', t), 3, [t])
            else:
                self.emit(('select',), 3, [t])
        elif k == 'block':
            self.block((t,), d)
        elif k == 'call':
            if not self.call(d, t):
                self.leaf(t)
        elif k == 'indirect':
            if not self.indirect(d, t):
                self.leaf(t)
        elif k == 'load':
            self.load(t, d)
        elif k == 'memsize':
            if s.chance(8):
                self.emit(('i32.const', s.pick(3)), 0, ['i32'])
                self.emit(('memory.grow',), 1, ['i32'])
            else:
                self.emit(('memory.size',), 0, ['i32'])
        elif k == 'refi32':
            self.refi32(d)
        elif k == 'tableget':
            self.tableget(t, d)

    def load(self, t, d):
        s = self.s
        l = [o for g in ('load',) + (('vload', 'loadlane') if t == 'v128' else ()) for o in ops.GROUPS[g]
             if o.results[0] == t]
        o = s.of(l)
        self.addr(d - 1)
        if o.group == 'loadlane':
            self.expr('v128', d - 1)
        a, off = self.memarg(o.arg)
        ins = (o.name, a, off) + ((s.pick(16 // o.arg),) if o.group == 'loadlane' else ())
        self.emit(ins, len(o.params), o.results)
        # float loads may produce signalling patterns; loads keep bits, nothing to canonicalise

    def store(self, d):
        s = self.s
        l = [o for o in ops.GROUPS['store'] + (ops.GROUPS['storelane'] if self.p.simd else [])
             if o.params[1] in self.g.vt]
        o = s.of(l)
        self.addr(d - 1)
        self.expr(o.params[1], d - 1)
        a, off = self.memarg(o.arg)
        ins = (o.name, a, off) + ((s.pick(16 // o.arg),) if o.group == 'storelane' else ())
        self.emit(ins, 2, ())

    def settle(self, extra):
        """consume the extra values on top of the stack"""
        for t in reversed(extra):
            l = [i for i in range(self.user) if self.loc[i] == t]
            if l and self.s.chance(8):
                self.emit(('local.set', self.s.of(l)), 1)
            else:
                self.emit(('drop',), 1)

    def callees(self, t):
        out = []
        for i in range(self.g.nfunc):
            if len(self.g.hosts) <= i <= self.idx:
                continue
            ps, rs = self.m.functype(i)
            if t is None and not rs or t is not None and rs and rs[0] == t:
                out.append(i)
        return out

    def call(self, d, t):
        l = self.callees(t)
        if not l or self.loops > 2:
            return False
        i = self.s.of(l)
        ps, rs = self.m.functype(i)
        self.operands(ps, d - 1)
        self.emit(('call', i), len(ps), rs)
        self.settle(rs[1:])
        return True

    def indirect(self, d, t):
        s = self.s
        l = [(k, i) for k, i in sorted(self.g.tab.items()) if i in self.callees(t)]
        if not l or self.loops > 1:
            return False
        (tab, pos), i = s.of(l)
        ps, rs = self.m.functype(i)
        self.operands(ps, d - 1)
        if self.guarded():
            self.emit(('i32.const', pos), 0, ['i32'])
        else:
            self.expr('i32', 1)
        self.emit(('call_indirect', self.m.type(ps, rs), tab), len(ps) + 1, rs)
        self.settle(rs[1:])
        return True

    def refi32(self, d):
        s = self.s
        k = s.pick(3)
        if k == 0 or not self.m.tables:
            t = s.of(self.g.rt or ['funcref'])
            self.expr(t, d - 1)
            self.emit(('ref.is_null',), 1, ['i32'])
        elif k == 1:
            self.emit(('table.size', s.pick(len(self.m.tables))), 0, ['i32'])
        else:
            ti = s.pick(len(self.m.tables))
            self.expr(self.m.tables[ti][0], d - 1)
            self.emit(('i32.const', s.of((1, 0, 2, 3, 5))), 0, ['i32'])
            self.emit(('table.grow', ti), 2, ['i32'])

    def tidx(self, ti, n=0):
        """push an index, usually in range"""
        if self.guarded():
            lo = self.m.tables[ti][1]
            self.emit(('i32.const', self.s.pick(max(1, lo - n))), 0, ['i32'])
        else:
            self.expr('i32', 1)

    def tableget(self, t, d):
        l = [i for i, x in enumerate(self.m.tables) if x[0] == t]
        if not l:
            return self.leaf(t)
        ti = self.s.of(l)
        self.tidx(ti)
        self.emit(('table.get', ti), 1, [t])

    # -- control
    def block(self, rs, d, params=None):
        """a structured construct leaving rs on the stack"""
        s = self.s
        kind = s.weighted([(3, 'block'), (3, 'if'), (4, 'loop')])
        if self.loops > 2 and kind == 'loop':
            kind = 'block'
        extra = ()
        if self.p.multi and s.chance(3):
            extra = self.g.types(1 + s.pick(2))
        ps = ()
        if self.p.multi and s.chance(4):
            ps = self.g.types(1 + s.pick(2))
            self.operands(ps, d - 1)
        res = tuple(rs) + extra
        if ps or len(res) > 1 or s.chance(2):
            bt = self.m.type(ps, res)
        else:
            bt = res[0] if res else None
        if kind == 'loop':
            c = self.reserve('i32')
            self.emit(('i32.const', 1 + s.pick(4)), 0, ['i32'])
            self.emit(('local.set', c), 1)
            cond = None
        elif kind == 'if':
            self.expr('i32', d - 1)
            self.stk.pop()
        del self.stk[len(self.stk) - len(ps):]
        if kind == 'loop':
            # block ps->res { loop ps->res { exit when the counter is 0; count down; body } }
            self.loops += 1
            self.labels.insert(0, ('block', res))
            self.labels.insert(0, ('loop', ps))
            pre = [('local.get', c), ('i32.eqz',),
                   ('if', None, [(t + '.const', 0) if t not in ops.REF else ('ref.null', t) for t in res]
                    + [('br', 2)], None),
                   ('local.get', c), ('i32.const', 1), ('i32.sub',), ('local.set', c)]
            body = self.nested(ps, res, d, pre)
            del self.labels[:2]
            self.loops -= 1
            self.release(c)
            self.emit(('block', bt, [('loop', bt, body)]), 0, res)
        else:
            self.labels.insert(0, (kind, res))
            body = self.nested(ps, res, d)
            if kind == 'block':
                ins = ('block', bt, body)
            else:
                els = None
                if res != ps or s.chance(12):
                    els = self.nested(ps, res, d)
                ins = ('if', bt, body, els)
            del self.labels[0]
            self.emit(ins, 0, res)
        self.settle(extra)

    def nested(self, ps, res, d, pre=()):
        out, stk, floor = self.out, self.stk, self.floor
        self.out, self.stk, self.floor = list(pre), list(ps), 0
        self.body(res, d)
        body = self.out
        self.out, self.stk, self.floor = out, stk, floor
        return body

    def body(self, res, d0):
        """statements, then leave exactly res (or branch away)"""
        s = self.s
        depth = len(self.labels)
        d = max(0, self.p.maxdepth - depth)
        top = depth == 1
        n = s.pick(7 if top else 4) + (2 if top and s.left > 100 else 0)
        for _ in range(n):
            if self.left <= 0 or not s.left:
                break
            self.stmt(d)
        islabel0 = self.labels[0][0] != 'loop'
        end = s.pick(12) if s.left else 0
        if end >= 10 and (depth > 1 or end == 11):
            self.terminator(d)
            self.dead(res)
            return
        if len(self.stk) > 0 and islabel0 and end >= 4:
            self.operands(res, d)
            if len(self.stk) > len(res):
                self.emit(('br', 0) if not top or s.chance(8) else ('return',), 0)
                self.dead(res)
            return
        if tuple(self.stk) == tuple(res) and end >= 2:
            return
        while self.stk:
            self.settle([self.stk[-1]])
        for t in res:
            self.expr(t, d)
        if len(self.stk) > len(res):
            # an operand generator left extra values (cannot happen: stack was empty), keep the block well-typed
            raise AssertionError('generator: unbalanced')

    def dead(self, res):
        """unreachable code after a branch: the stack is polymorphic"""
        s = self.s
        if s.chance(4):
            for _ in range(1 + s.pick(3)):
                k = s.pick(6)
                if k == 0:
                    self.out.append(('nop',))
                elif k == 1:
                    self.out += [('i32.const', 7), ('drop',)]
                elif k == 2:
                    self.out.append(('block', None, [('br', 0), ('unreachable',)]))
                elif k == 3:
                    self.out += [('i64.const', s.bits(64)), ('i64.const', 3), ('i64.div_u',), ('drop',)]
                elif k == 4:
                    self.out += [('i32.const', 1), ('if', None, [('nop',)], [('unreachable',)])]
                else:
                    self.out += [('drop',), ('i32.add',), ('drop',)]
            if s.chance(6):
                self.out.append(('unreachable',))
        self.stk = list(res)

    def terminator(self, d):
        s = self.s
        k = s.weighted([(4, 'br'), (3, 'return'), (3, 'br_table')] + ([(1, 'unreachable')] if self.p.traps > 1 else []))
        if k == 'return':
            self.operands(self.results, d)
            self.emit(('return',))
        elif k == 'br':
            n = s.pick(len(self.labels))
            self.operands(self.labels[n][1], d)
            self.emit(('br', n))
        elif k == 'br_table':
            n = s.pick(len(self.labels))
            ts = self.labels[n][1]
            same = [i for i, x in enumerate(self.labels) if x[1] == ts]
            l = [s.of(same) for _ in range(s.pick(5))]
            self.operands(ts, d)
            self.expr('i32', d)
            if s.chance(11):
                self.emit(('i32.const', 7), 0, ['i32'])
                self.emit(('i32.and',), 2, ['i32'])
            self.emit(('br_table', l, n), 1)
        else:
            self.emit(('unreachable',))

    def stmt(self, d):
        s, p, m = self.s, self.p, self.m
        opts = [(4, 'local.set'), (2, 'drop'), (1, 'nop'), (1, 'op')]
        if m.globals:
            opts.append((2, 'global.set'))
        if p.mem:
            opts.append((p.memw + 1, 'store'))
        if p.bulk:
            opts.append((2, 'bulk'))
        if p.calls:
            opts.append((2, 'call'))
        if p.indirect and p.table:
            opts.append((2, 'indirect'))
        if p.refw:
            opts.append((p.refw, 'table'))
        if p.ctl:
            opts += [(p.ctl, 'block'), (2, 'br_if'), (1, 'junk')]
        k = s.weighted(opts)
        if k == 'local.set':
            if not self.user:
                return
            i = s.pick(self.user)
            self.operands([self.loc[i]], d)
            self.emit(('local.set', i), 1)
        elif k == 'drop':
            t = self.g.anytype()
            self.operands([t], d)
            self.emit(('drop',), 1)
        elif k == 'nop':
            self.emit(('nop',))
        elif k == 'op':
            l = [o for o in self.g.ops.get(self.stk[-1] if self.stk else 'i32', []) if o.params]
            if l:
                self.op(s.of(l), d)
        elif k == 'junk':
            self.expr(self.g.anytype(), d - 1)
        elif k == 'global.set':
            l = [i for i, x in enumerate(m.globals) if x[1]]
            if l:
                i = s.of(l)
                self.operands([m.globals[i][0]], d)
                self.emit(('global.set', i), 1)
        elif k == 'store':
            self.store(d)
        elif k == 'bulk':
            self.bulk(d)
        elif k == 'call':
            self.call(d, None if s.chance(8) else self.g.anytype()) and self.stk and s.chance(10) and \
                self.settle(self.stk[-1:])
        elif k == 'indirect':
            self.indirect(d, None if s.chance(8) else self.g.anytype())
        elif k == 'table':
            self.table(d)
        elif k == 'block':
            self.block(self.g.types(s.pick(3)) if p.multi and s.chance(6) else (), d)
        elif k == 'br_if':
            n = s.pick(len(self.labels))
            ts = self.labels[n][1]
            self.operands(ts, d - 1)
            self.expr('i32', d - 1)
            self.emit(('br_if', n), 1)

    def bulk(self, d):
        s = self.s
        k = s.pick(4)
        if k < 2:
            self.addr(1)
            if k == 0:
                self.expr('i32', 1)
            else:
                self.addr(1)
            self.emit(('i32.const', s.of((3, 0, 1, 16, 100, 1000))), 0, ['i32'])
            self.emit(('memory.fill',) if k == 0 else ('memory.copy',), 3)
        elif not self.m.datas:
            return
        elif k == 2:
            i = s.pick(len(self.m.datas))
            n = len(self.m.datas[i].init)
            self.addr(1)
            if self.guarded():
                a = s.pick(n + 1)
                self.emit(('i32.const', a), 0, ['i32'])
                self.emit(('i32.const', s.pick(n - a + 1) if self.m.datas[i].mode != 'active' else 0), 0, ['i32'])
            else:
                self.expr('i32', 1)
                self.expr('i32', 1)
            self.emit(('memory.init', i), 3)
        elif s.chance(4):
            self.emit(('data.drop', s.pick(len(self.m.datas))))

    def table(self, d):
        s, m = self.s, self.m
        if not m.tables:
            return
        k = s.pick(6)
        ti = s.pick(len(m.tables))
        t = m.tables[ti][0]
        if k <= 1:
            self.tidx(ti)
            self.expr(t, d - 1)
            self.emit(('table.set', ti), 2)
        elif k == 2:
            n = s.pick(4)
            self.tidx(ti, n)
            self.expr(t, d - 1)
            self.emit(('i32.const', n), 0, ['i32'])
            self.emit(('table.fill', ti), 3)
        elif k == 3:
            same = [i for i, x in enumerate(m.tables) if x[0] == t]
            tj = s.of(same)
            n = s.pick(4)
            self.tidx(ti, n)
            self.tidx(tj, n)
            self.emit(('i32.const', n), 0, ['i32'])
            self.emit(('table.copy', ti, tj), 3)
        elif k == 4:
            es = [i for i, e in enumerate(m.elems) if e.type == t]
            if es:
                e = s.of(es)
                n = len(m.elems[e].init)
                self.tidx(ti, n)
                if self.guarded():
                    a = s.pick(n + 1)
                    live = m.elems[e].mode == 'passive'
                    self.emit(('i32.const', a if live else 0), 0, ['i32'])
                    self.emit(('i32.const', s.pick(n - a + 1) if live else 0), 0, ['i32'])
                else:
                    self.expr('i32', 1)
                    self.expr('i32', 1)
                self.emit(('table.init', e, ti), 3)
        elif m.elems and s.chance(4):
            self.emit(('elem.drop', s.pick(len(m.elems))))


class Case:
    """a module plus a history of calls"""

    def __init__(self, mod, hosts, calls, enc_choices=()):
        self.mod, self.hosts, self.calls, self.enc = mod, hosts, calls, list(enc_choices)

    def __repr__(self):
        return f'{self.mod.dump()}\nhosts: {self.hosts}\ncalls: {self.calls}' + (f'\nenc: {self.enc}' if self.enc else '')


def make(b, prof, ncalls=4):
    """bytes -> Case"""
    src = Src(b)
    g = G(src, prof)
    m = g.m
    calls = []
    base = len(g.hosts)
    nf = g.nfunc - base
    for _ in range(1 + src.pick(ncalls)):
        i = base + src.pick(nf)
        ps, _ = m.functype(i)
        calls.append((i, [src.value(t) if t not in ops.REF else None for t in ps]))
    return Case(m, g.hosts, calls)
