"""Module AST and binary encoder with encoding variations.

Instructions are tuples (name, *immediates); structured ones hold nested lists:
  ('block'|'loop', bt, body)   ('if', bt, then, else_or_None)      bt: None | value type | type index (int)
  ('br_table', [labels], default)   ('call_indirect', typeidx, tableidx)   ('select_t', vt)
  memory ops ('i32.load', align_exp, offset); lane memory ops ('v128.load8_lane', align_exp, offset, lane)
Constants hold bit patterns (unsigned ints); integer constants are encoded as the signed value.
"""
from . import ops
from .ops import OPS, CODE, VT


class Func:
    __slots__ = ('type', 'locals', 'body')

    def __init__(self, type, locals, body):
        self.type, self.locals, self.body = type, list(locals), body

    def __repr__(self):
        return f'Func({self.type}, {self.locals}, {self.body})'


class Elem:
    """mode: active | passive | declarative; init: list of const exprs (instruction lists)"""

    def __init__(self, mode, type, init, table=0, offset=None):
        self.mode, self.type, self.init, self.table, self.offset = mode, type, init, table, offset

    def __repr__(self):
        return f'Elem({self.mode!r}, {self.type!r}, {self.init}, {self.table}, {self.offset})'


class Data:
    def __init__(self, mode, init, offset=None):
        self.mode, self.init, self.offset = mode, bytes(init), offset

    def __repr__(self):
        return f'Data({self.mode!r}, {self.init!r}, {self.offset})'


class Mod:
    def __init__(self):
        self.types = []       # [(params, results)]
        self.imports = []     # [(module, name, kind, desc)] desc: typeidx | (reftype, min, max) | (min, max) | (vt, mut)
        self.funcs = []       # [Func]
        self.tables = []      # [(reftype, min, max)]
        self.mems = []        # [(min, max)]
        self.globals = []     # [(vt, mut, expr)]
        self.exports = []     # [(name, kind, idx)]
        self.start = None
        self.elems = []
        self.datas = []
        self.datacount = None     # None: emit when needed
        self.customs = []

    def type(self, params, results):
        t = (tuple(params), tuple(results))
        if t not in self.types:
            self.types.append(t)
        return self.types.index(t)

    def nimp(self, kind):
        return sum(1 for i in self.imports if i[2] == kind)

    def functype(self, idx):
        imp = [i for i in self.imports if i[2] == 'func']
        if idx < len(imp):
            return self.types[imp[idx][3]]
        return self.types[self.funcs[idx - len(imp)].type]

    def func(self, params, results, locals, body, export=None):
        self.funcs.append(Func(self.type(params, results), locals, body))
        i = self.nimp('func') + len(self.funcs) - 1
        if export is not None:
            self.exports.append((export, 'func', i))
        return i

    def dump(self):
        return '\n'.join(f'{k}: {v}' for k, v in vars(self).items() if v not in ([], None))


KIND = {'func': 0, 'table': 1, 'mem': 2, 'global': 3}


class Plain:
    """Minimal encoding."""

    def pick(self, n):
        return 0


class Stream:
    """Encoding choices taken from a (shrinkable) list of ints; runs out to 0 = minimal."""

    def __init__(self, xs):
        self.xs, self.i, self.used = xs, 0, 0

    def pick(self, n):
        if n <= 1 or self.i >= len(self.xs):
            return 0
        v = self.xs[self.i] % n
        self.i += 1
        if v:
            self.used += 1
        return v


class Enc:
    def __init__(self, mod, var=None):
        self.m = mod
        self.v = var or Plain()
        self.funcnames = None

    # -- primitives
    def u(self, n, bits=32):
        out = bytearray(ops.uleb(n))
        mx = (bits + 6) // 7
        pad = self.v.pick(mx - len(out) + 1)
        if pad:
            out[-1] |= 0x80
            out += b'\x80' * (pad - 1) + b'\x00'
        return bytes(out)

    def s(self, n, bits):
        out = bytearray()
        x = n
        while True:
            b = x & 0x7f
            x >>= 7
            if (x == 0 and not b & 0x40) or (x == -1 and b & 0x40):
                out.append(b)
                break
            out.append(b | 0x80)
        mx = (bits + 6) // 7
        pad = self.v.pick(mx - len(out) + 1)
        if pad:
            fill = 0x7f if n < 0 else 0
            out[-1] |= 0x80
            out += bytes([fill | 0x80]) * (pad - 1) + bytes([fill])
        return bytes(out)

    def name(self, x):
        b = x.encode() if isinstance(x, str) else x
        return self.u(len(b)) + b

    def vec(self, l):
        return self.u(len(l)) + b''.join(l)

    def limits(self, lo, hi):
        return (b'\x00' + self.u(lo)) if hi is None else (b'\x01' + self.u(lo) + self.u(hi))

    def code(self, c):
        """opcode bytes; the second part of a prefixed opcode is a LEB128 u32 and may be padded"""
        if c[0] in (0xfc, 0xfd):
            n = sh = 0
            for b in c[1:]:
                n |= (b & 0x7f) << sh
                sh += 7
            return c[:1] + self.u(n)
        return c

    def bt(self, bt):
        if bt is None or isinstance(bt, str):
            t = ((), () if bt is None else (bt,))
            if t in self.m.types and self.v.pick(3) == 1:
                return self.s(self.m.types.index(t), 33)
            return b'\x40' if bt is None else bytes([VT[bt]])
        return self.s(bt, 33)

    def instrs(self, body):
        out = bytearray()
        for i in body:
            self.instr(i, out)
        return bytes(out)

    def instr(self, i, out):
        n = i[0]
        op = OPS.get(n)
        if op is not None:
            out += self.code(op.code)
            if op.imm == '':
                return
            if op.imm == 'mem':
                out += self.u(i[1]) + self.u(i[2])
            elif op.imm == 'memlane':
                out += self.u(i[1]) + self.u(i[2]) + bytes([i[3]])
            elif op.imm == 'lane':
                out += bytes([i[1]])
            elif op.imm == 'shuffle':
                out += bytes(i[1])
            elif op.imm == 'i32':
                out += self.s(i[1] - (1 << 32) if i[1] >> 31 else i[1], 32)
            elif op.imm == 'i64':
                out += self.s(i[1] - (1 << 64) if i[1] >> 63 else i[1], 64)
            elif op.imm == 'f32':
                out += i[1].to_bytes(4, 'little')
            elif op.imm == 'f64':
                out += i[1].to_bytes(8, 'little')
            elif op.imm == 'v128':
                out += i[1].to_bytes(16, 'little')
            return
        out += self.code(CODE[n])
        if n in ('block', 'loop'):
            out += self.bt(i[1]) + self.instrs(i[2]) + b'\x0b'
        elif n == 'if':
            out += self.bt(i[1]) + self.instrs(i[2])
            if i[3] is not None:
                out += b'\x05' + self.instrs(i[3])
            out += b'\x0b'
        elif n in ('br', 'br_if', 'call', 'local.get', 'local.set', 'local.tee', 'global.get', 'global.set',
                   'table.get', 'table.set', 'ref.func', 'data.drop', 'elem.drop', 'table.grow', 'table.size',
                   'table.fill'):
            out += self.u(i[1])
        elif n == 'br_table':
            out += self.vec([self.u(x) for x in i[1]]) + self.u(i[2])
        elif n in ('call_indirect', 'table.init', 'table.copy'):
            out += self.u(i[1]) + self.u(i[2])
        elif n == 'select_t':
            out += self.u(1) + bytes([VT[i[1]]])
        elif n == 'ref.null':
            out += bytes([VT[i[1]]])
        elif n in ('memory.size', 'memory.grow', 'memory.fill'):
            out += b'\x00'
        elif n == 'memory.init':
            out += self.u(i[1]) + b'\x00'
        elif n == 'memory.copy':
            out += b'\x00\x00'
        else:
            assert n in ('unreachable', 'nop', 'return', 'drop', 'select', 'ref.is_null', 'select_t'), n

    def expr(self, e):
        return self.instrs(e) + b'\x0b'

    def elem(self, e):
        isf = e.type == 'funcref' and all(len(x) == 1 and x[0][0] == 'ref.func' for x in e.init)
        exprs = [self.expr(x) for x in e.init]
        fidx = [self.u(x[0][1]) for x in e.init] if isf else None
        ty = bytes([VT[e.type]])
        if e.mode == 'active':
            off = self.expr(e.offset)
            opts = []
            if e.table == 0 and isf:
                opts.append(lambda: self.u(0) + off + self.vec(fidx))
            if isf:
                opts.append(lambda: self.u(2) + self.u(e.table) + off + b'\x00' + self.vec(fidx))
            if e.table == 0 and e.type == 'funcref':
                opts.append(lambda: self.u(4) + off + self.vec(exprs))
            opts.append(lambda: self.u(6) + self.u(e.table) + off + ty + self.vec(exprs))
        else:
            k = 1 if e.mode == 'passive' else 3
            opts = [lambda: self.u(k + 4) + ty + self.vec(exprs)]
            if isf:
                opts.insert(0, lambda: self.u(k) + b'\x00' + self.vec(fidx))
        return opts[self.v.pick(len(opts))]()

    def data(self, d):
        if d.mode == 'active':
            off = self.expr(d.offset)
            if self.v.pick(3) == 1:
                return self.u(2) + self.u(0) + off + self.u(len(d.init)) + d.init
            return self.u(0) + off + self.u(len(d.init)) + d.init
        return self.u(1) + self.u(len(d.init)) + d.init

    def locals(self, l):
        groups = []
        for t in l:
            if groups and groups[-1][1] == t and self.v.pick(4) != 1:
                groups[-1][0] += 1
            else:
                groups.append([1, t])
            if self.v.pick(12) == 1:
                groups.append([0, t])
        return self.vec([self.u(n) + bytes([VT[t]]) for n, t in groups])

    def custom(self):
        k = self.v.pick(6)
        if k == 0:
            return b''
        if k < 3:
            body = self.name('c' * self.v.pick(5)) + bytes(range(self.v.pick(9)))
        else:
            body = self.name(('é', 'name', '')[k - 3]) + b'\x00\x61\x73\x6d' * self.v.pick(3)
        out = b'\x00' + self.u(len(body)) + body
        return out * (1 + (self.v.pick(40) if self.v.pick(8) == 1 else 0))

    def uses_data_ops(self):
        def f(b):
            for i in b:
                if i[0] in ('memory.init', 'data.drop'):
                    return True
                for x in i[1:]:
                    if isinstance(x, list) and x and isinstance(x[0], tuple) and f(x):
                        return True
            return False
        return any(f(fn.body) for fn in self.m.funcs)

    def encode(self):
        m = self.m
        out = bytearray(b'\x00asm\x01\x00\x00\x00')

        def imp(i):
            mod, nm, kind, d = i
            b = self.name(mod) + self.name(nm) + bytes([KIND[kind]])
            if kind == 'func':
                return b + self.u(d)
            if kind == 'table':
                return b + bytes([VT[d[0]]]) + self.limits(d[1], d[2])
            if kind == 'mem':
                return b + self.limits(*d)
            return b + bytes([VT[d[0]], d[1]])

        def body(f):
            b = self.locals(f.locals) + self.expr(f.body)
            return self.u(len(b)) + b
        vt = lambda l: self.vec([bytes([VT[x]]) for x in l])
        secs = [
            (1, [b'\x60' + vt(p) + vt(r) for p, r in m.types]),
            (2, [imp(i) for i in m.imports]),
            (3, [self.u(f.type) for f in m.funcs]),
            (4, [bytes([VT[t]]) + self.limits(lo, hi) for t, lo, hi in m.tables]),
            (5, [self.limits(lo, hi) for lo, hi in m.mems]),
            (6, [bytes([VT[t], mut]) + self.expr(e) for t, mut, e in m.globals]),
            (7, [self.name(n) + bytes([KIND[k]]) + self.u(i) for n, k, i in m.exports]),
            (8, None if m.start is None else self.u(m.start)),
            (9, [self.elem(e) for e in m.elems]),
            (12, None),
            (10, [body(f) for f in m.funcs]),
            (11, [self.data(d) for d in m.datas]),
        ]
        for sid, items in secs:
            out += self.custom()
            if sid == 8:
                if items is None:
                    continue
                payload = items
            elif sid == 12:
                if not (self.uses_data_ops() or (m.datas and self.v.pick(3) == 1) or m.datacount is not None):
                    continue
                payload = self.u(len(m.datas))
            else:
                if not items and self.v.pick(8) != 1:
                    continue
                payload = self.vec(items)
            out += bytes([sid]) + self.u(len(payload)) + payload
        out += self.custom()
        return bytes(out)


def encode(mod, var=None):
    return Enc(mod, var).encode()
