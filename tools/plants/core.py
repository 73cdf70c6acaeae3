from vf import enc
C = 'pywasm/core.py'
A = 'pywasm/arith.py'


def fn(params, results, body, locals=(), export='f', **kw):
    m = enc.Mod()
    for k, v in kw.items():
        setattr(m, k, v)
    m.func(params, results, list(locals), body, export)
    return m


# ---- C01
plant('C01-clz-float', 'C01', A, [('''        b = 0
        for _ in range(self.bits_length):
            if a & self.mask_sign != 0:
                break
            b += 1
            a = a << 1
        return b
''', '''        if a == 0:
            return self.bits_length
        return self.bits_length - 1 - int(math.log2(a))
''')], '''
rt, inst = load('m')
for x in [0, 1, 255, 1 << 40, (1 << 50) - 1, (1 << 53) - 1, (1 << 62) - 1]:
    expect(rt.invocate(inst, 'f', [x]), [64 - x.bit_length()], f'i64.clz of {x:#x}')
expect(rt.invocate(inst, 'f', [-1]), [0], 'i64.clz of -1')
''', {'m': enc.encode(fn(['i64'], ['i64'], [('local.get', 0), ('i64.clz',)]))},
      'an i64 operand of at least 48 significant bits just below a power of two, so that log2 rounds up',
      'i64.clz returns one too few for values such as 2^53 - 1')

plant('C01-rem-fmod', 'C01', A, [('''        return a % b if a * b > 0 else -(-a % b)
''', '''        return int(math.fmod(a, b))
''')], '''
rt, inst = load('m')
for x, y in [(7, 3), (-7, 3), (7, -3), (-(1 << 63), -1), ((1 << 60) + 1, 7), (-(1 << 62) - 3, 1000000007)]:
    q = abs(x) // abs(y)
    want = abs(x) - q * abs(y)
    want = -want if x < 0 else want
    expect(rt.invocate(inst, 'f', [x, y]), [want], f'i64.rem_s of {x} and {y}')
expect(trap(rt.invocate, inst, 'f', [1, 0]), True, 'the failure of a remainder by zero')
''', {'m': enc.encode(fn(['i64', 'i64'], ['i64'], [('local.get', 0), ('local.get', 1), ('i64.rem_s',)]))},
      'an i64 operand that a double cannot represent (more than 53 significant bits)',
      'i64.rem_s goes through doubles and returns the remainder of a rounded operand')

# ---- C02
plant('C02-f32-sub-order', 'C02', C, [('''                    c = ValInst.from_f32(a - b)
''', '''                    c = ValInst.from_f32(-(b - a))
''')], '''
rt, inst = load('m')
for x, y, w in [(1.5, 0.25, 1.25), (-2.0, 3.0, -5.0), (1.0, 1.0, 0.0), (0.0, 0.0, 0.0), (-0.0, 0.0, -0.0)]:
    got = rt.invocate(inst, 'f', [x, y])[0]
    expect(struct.pack('<f', got), struct.pack('<f', w), f'f32.sub of {x} and {y}')
''', {'m': enc.encode(fn(['f32', 'f32'], ['f32'], [('local.get', 0), ('local.get', 1), ('f32.sub',)]))},
      'two equal operands, whose difference is a zero with a sign',
      'f32.sub of equal operands is -0 instead of +0')

# ---- C03
plant('C03-sat-f32-max', 'C03', C, [('''                case pywasm.opcode.i64_trunc_sat_f32_u:
                    a = self.stack.value.pop().into_f32()
                    if math.isnan(a):
                        a = 0.0
                    b = int(max(pywasm.arith.u64.min, min(a, pywasm.arith.u64.max)))
''', '''                case pywasm.opcode.i64_trunc_sat_f32_u:
                    a = self.stack.value.pop().into_f32()
                    if math.isnan(a):
                        a = 0.0
                    b = int(max(pywasm.arith.u64.min, min(a, float(pywasm.arith.u64.max)))) & pywasm.arith.u64.mask
''')], '''
rt, inst = load('m')
for x, w in [(1.5, 1), (-7.0, 0), (float(1 << 63), -1 << 63), (float((1 << 64) - (1 << 40)), -1 << 40), (float('nan'), 0),
             (float(1 << 64), -1), (1e30, -1), (float('inf'), -1)]:
    expect(rt.invocate(inst, 'f', [x]), [w], f'i64.trunc_sat_f32_u of {x}')
''', {'m': enc.encode(fn(['f32'], ['i64'], [('local.get', 0), ('i64.trunc_sat_f32_u',)]))},
      'an operand of 2^64 or more',
      'i64.trunc_sat_f32_u clamps to a double that is one too large and wraps it to zero instead of saturating')

# ---- C04
plant('C04-q15-saturation', 'C04', C, [('''                    c = [pywasm.arith.i16.sat((a[i] * b[i] + 0x4000) >> 15) for i in range(8)]
''', '''                    c = [pywasm.arith.i16.fit((a[i] * b[i] + 0x4000) >> 15) for i in range(8)]
''')], '''
rt, inst = load('m')
def v(*xs):
    return bytearray(struct.pack('<8h', *xs))
a = (-32768, -32768, 32767, 1, -1, 16384, 0, 5)
b = (-32768, 32767, 32767, 32767, -32768, 2, 9, -3)
want = [max(-32768, min(32767, (x * y + 0x4000) >> 15)) for x, y in zip(a, b)]
got = rt.invocate(inst, 'f', [v(*a), v(*b)])[0]
expect(list(struct.unpack('<8h', got)), want, 'i16x8.q15mulr_sat_s')
''', {'m': enc.encode(fn(['v128', 'v128'], ['v128'], [('local.get', 0), ('local.get', 1), ('i16x8.q15mulr_sat_s',)]))},
      'both lanes equal to -32768, the only operands that saturate', 'i16x8.q15mulr_sat_s wraps instead of saturating')

plant('C04-swizzle-index', 'C04', C, [('''                    b = self.stack.value.pop().into_v128_u8()
                    a = self.stack.value.pop().into_v128_i8()
                    c = [a[b[i]] if b[i] < 16 else 0 for i in range(16)]
''', '''                    b = self.stack.value.pop().into_v128_i8()
                    a = self.stack.value.pop().into_v128_i8()
                    c = [a[b[i]] if -16 <= b[i] < 16 else 0 for i in range(16)]
''')], '''
rt, inst = load('m')
a = bytearray(range(100, 116))
b = bytearray([0, 15, 16, 17, 127, 128, 200, 239, 240, 241, 250, 255, 3, 4, 5, 6])
want = [a[x] if x < 16 else 0 for x in b]
expect(list(rt.invocate(inst, 'f', [a, b])[0]), want, 'i8x16.swizzle')
''', {'m': enc.encode(fn(['v128', 'v128'], ['v128'], [('local.get', 0), ('local.get', 1), ('i8x16.swizzle',)]))},
      'a swizzle index of 240 or more', 'indices from 240 to 255 select lanes from the end instead of zero')

# ---- C05
plant('C05-f64x2-pmin', 'C05', C, [('''                    c = [min(a[i], b[i]) for i in range(2)]
''', '''                    c = [a[i] if a[i] < b[i] else b[i] for i in range(2)]
''')], '''
rt, inst = load('m')
nan = float('nan')
for x, y, w in [(1.0, 2.0, 1.0), (2.0, 1.0, 1.0), (-0.0, 0.0, -0.0), (0.0, -0.0, 0.0), (3.0, nan, 3.0)]:
    got = rt.invocate(inst, 'f', [bytearray(struct.pack('<2d', x, x)), bytearray(struct.pack('<2d', y, y))])[0]
    expect(bytes(got), struct.pack('<2d', w, w), f'f64x2.pmin of {x} and {y}')
''', {'m': enc.encode(fn(['v128', 'v128'], ['v128'], [('local.get', 0), ('local.get', 1), ('f64x2.pmin',)]))},
      'zeros of different signs, or a NaN as the second operand',
      'f64x2.pmin returns its second operand where the operands compare neither way')

# ---- C06
plant('C06-br-table-index', 'C06', C, [('''                    a = self.stack.value.pop().into_u32()
                    b = instr.args[1]
                    if a < len(instr.args[0]):
''', '''                    a = self.stack.value.pop().into_i32()
                    b = instr.args[1]
                    if a < len(instr.args[0]):
''')], '''
rt, inst = load('m')
for x, w in [(0, 10), (1, 20), (2, 30), (100, 30), (2147483647, 30), (-1, 30), (-2, 30)]:
    expect(rt.invocate(inst, 'f', [x]), [w], f'the branch taken for index {x}')
''', {'m': enc.encode(fn(['i32'], ['i32'], [('block', None, [('block', None, [('block', None, [
    ('local.get', 0), ('br_table', [0, 1], 2)]), ('i32.const', 10), ('return',)]), ('i32.const', 20), ('return',)]), ('i32.const', 30)]))},
      'a br_table index of 2^31 or more whose signed value reaches back into the table',
      'such an index picks an entry from the end of the table instead of the default')

plant('C06-loop-params', 'C06', C, [('''                    self.stack.label.append(Label(
                        len(bype.args),
                        len(self.stack.frame),
                        len(self.stack.value) - len(bype.args),
                        0,
''', '''                    self.stack.label.append(Label(
                        len(bype.args),
                        len(self.stack.frame),
                        len(self.stack.value),
                        0,
''')], '''
rt, inst = load('m')
for n in [1, 2, 5, 40]:
    try:
        got = rt.invocate(inst, 'f', [n])
    except Exception as e:
        got = repr(e)
    expect(got, [n * (n + 1) // 2 + 1000], f'the sum up to {n}')
''', {'m': (lambda m: (m.types.append((('i32',), ('i32',))), m.func(['i32'], ['i32'], ['i32'], [
    ('i32.const', 1000), ('i32.const', 0), ('loop', 0, [
        ('local.get', 0), ('i32.add',), ('local.get', 0), ('i32.const', 1), ('i32.sub',), ('local.tee', 0), ('br_if', 0)]),
    ('i32.add',)], 'f'), enc.encode(m))[2])(enc.Mod())},
      'a loop with parameters that is branched back to at least once',
      'the branch leaves the old parameters on the stack below the new ones')

# ---- C07
plant('C07-functype-results', 'C07', C, [('''        return self.args == value.args and self.rets == value.rets
''', '''        return self.args == value.args and all(a == b for a, b in zip(self.rets, value.rets))
''')], '''
rt, inst = load('m')
expect(rt.invocate(inst, 'call', [0]), [7], 'the result of the call with the right type')
expect(trap(rt.invocate, inst, 'call', [1]), True, 'the failure of a call of a function with fewer results')
''', {'m': (lambda m: (m.func([], ['i32'], [], [('i32.const', 7)]), m.func([], [], [], []),
                       m.func(['i32'], ['i32'], [], [('i32.const', 5), ('i32.const', 6), ('local.get', 0), ('call_indirect', m.type([], ['i32']), 0),
                                                     ('return',)], 'call'),
                       m.tables.append(('funcref', 2, None)),
                       m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', 0)], [('ref.func', 1)]], 0, [('i32.const', 0)])), enc.encode(m))[-1])(enc.Mod())},
      'call_indirect where the results of one of the two types are a proper prefix of those of the other',
      'the type check of an indirect call ignores surplus results')

plant('C07-local-default', 'C07', C, [('''                locals = LocalsInst(args)
                for e in func.code.locals:
                    locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
''', '''                locals = LocalsInst(args)
                for e in func.code.locals[:1]:
                    locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
                for e in func.code.locals[1:]:
                    locals.data.extend([ValInst.zero(func.code.locals[0].type)] * e.n)
''')], '''
rt, inst = load('m')
expect(trap(rt.invocate, inst, 'f', []), False, 'the failure of reading a fresh local')
expect(rt.invocate(inst, 'f', []), [3], 'the sum of the locals')
''', {'m': (lambda m: (m.func([], ['i32'], ['i32', 'f32', 'i64', 'funcref'], [
    ('local.get', 3), ('ref.is_null',), ('local.get', 0), ('i32.add',), ('i32.const', 2), ('i32.add',)]),
    m.func([], ['i32'], [], [('call', 0)], 'f'), enc.encode(m))[-1])(enc.Mod())},
      'a called function that reads a reference typed local of a later group before it is set',
      'locals after the first group start with the type of the first group')

# ---- C08
plant('C08-offset-wrap', 'C08', C, [('''        addr = self.stack.value.pop().into_u32()
        addr = addr + offset
        assert addr + size <= len(mems.data)
        return mems.data[addr:addr+size]
''', '''        addr = self.stack.value.pop().into_u32()
        addr = pywasm.arith.u32.add(addr, offset)
        assert addr + size <= len(mems.data)
        return mems.data[addr:addr+size]
''')], '''
rt, inst = load('m')
expect(rt.invocate(inst, 'f', [0]), [0], 'a load at the offset')
for x in [-16, -1, -8]:
    expect(trap(rt.invocate, inst, 'f', [x]), True, f'the failure of a load at {x & 0xffffffff} + 16')
''', {'m': enc.encode(fn(['i32'], ['i32'], [('local.get', 0), ('i32.load', 2, 16)], mems=[(1, None)]))},
      'an address and an offset whose sum is 2^32 or more',
      'the sum wraps around, and a load far outside of the memory reads its beginning')

plant('C08-load16-sign', 'C08', C, [('''                    a = ValInst.from_i64(struct.unpack('<h', self.evaluate_mem_load(instr.args[1], 2))[0])
''', '''                    a = ValInst.from_i64(pywasm.arith.i32.fit(struct.unpack('<h', self.evaluate_mem_load(instr.args[1], 2))[0] & 0xffffffff))
                    a.data[4:] = bytearray(ValInst.blen - 4)
''')], '''
rt, inst = load('m')
mem = rt.exported_memory(inst, 'm')
for x in [0, 1, 32767, -1, -32768]:
    mem.put(0, bytearray(struct.pack('<h', x)))
    expect(rt.invocate(inst, 'f', [0]), [x], f'i64.load16_s of {x}')
''', {'m': (lambda m: (m.exports.append(('m', 'mem', 0)), enc.encode(m))[-1])(fn(['i32'], ['i64'], [('local.get', 0), ('i64.load16_s', 1, 0)], mems=[(1, None)]))},
      'i64.load16_s of a negative number', 'the upper half of the result is zero')

# ---- C09
plant('C09-table-copy-forward', 'C09', C, [('''                    tabx.elem[d:d+n] = taby.elem[s:s+n]
''', '''                    for i in range(n):
                        tabx.elem[d+i] = taby.elem[s+i]
''')], '''
rt, inst = load('m')
rt.invocate(inst, 'copy', [1, 0, 3])
expect([rt.invocate(inst, 'call', [k])[0] for k in range(4)], [10, 10, 11, 12], 'the table after an overlapping copy')
''', {'m': (lambda m: ([m.func([], ['i32'], [], [('i32.const', 10 + k)]) for k in range(4)], m.tables.append(('funcref', 4, None)),
                       m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', k)] for k in range(4)], 0, [('i32.const', 0)])),
                       m.func(['i32', 'i32', 'i32'], [], [], [('local.get', 0), ('local.get', 1), ('local.get', 2), ('table.copy', 0, 0)], 'copy'),
                       m.func(['i32'], ['i32'], [], [('local.get', 0), ('call_indirect', m.type([], ['i32']), 0)], 'call'), enc.encode(m))[-1])(enc.Mod())},
      'a table.copy to a higher, overlapping range of the same table',
      'entries are overwritten before they are copied')

plant('C09-elem-drop-shared', 'C09', C, [('''                    elem = self.store.elem[frame.module.elem[instr.args[0]]]
                    elem.data.clear()
''', '''                    elem = self.store.elem[instr.args[0]]
                    elem.data.clear()
''')], '''
rt, a = load('m')
_, b = load('m', rt)
expect(rt.invocate(b, 'init', []), [10], 'an element of the second instance')
rt.invocate(b, 'drop', [])
expect(trap(rt.invocate, b, 'init', []), True, 'the failure of table.init from a dropped segment')
expect(rt.invocate(a, 'init', []), [10], 'an element of the first instance')
''', {'m': (lambda m: (m.func([], ['i32'], [], [('i32.const', 10)]), m.tables.append(('funcref', 4, None)),
                       m.elems.append(enc.Elem('passive', 'funcref', [[('ref.func', 0)]])),
                       m.func([], ['i32'], [], [('i32.const', 1), ('i32.const', 0), ('i32.const', 1), ('table.init', 0, 0), ('i32.const', 1),
                                                ('call_indirect', m.type([], ['i32']), 0)], 'init'),
                       m.func([], [], [], [('elem.drop', 0)], 'drop'), enc.encode(m))[-1])(enc.Mod())},
      'elem.drop in a module that is not the first with element segments in its runtime',
      'the segment of an earlier instance is dropped in place of the own one')

# ---- C10
plant('C10-export-of-import', 'C10', C, [('''                case 0x03:
                    expi.data.data = inst.glob[e.desc]
''', '''                case 0x03:
                    expi.data.data = inst.glob[e.desc] if module.glob else e.desc
''')], '''
rt = pywasm.Runtime()
rt.allocate_global(pywasm.GlobalType(pywasm.ValType.i32(), 0), pywasm.ValInst.from_i32(1))
rt.imports['env'] = {'g': rt.allocate_global(pywasm.GlobalType(pywasm.ValType.i32(), 0), pywasm.ValInst.from_i32(42))}
_, inst = load('m', rt)
expect(rt.exported_global(inst, 'g').data.into_i32(), 42, 'the exported global')
''', {'m': (lambda m: (m.imports.append(('env', 'g', 'global', ('i32', 0))), m.exports.append(('g', 'global', 0)), enc.encode(m))[-1])(enc.Mod())},
      'a module without globals of its own that exports an imported global which is not the first of the store',
      'the export refers to another global')

plant('C10-segment-order', 'C10', C, [('''        for i, e in enumerate(module.elem):
            if e.kind & 0x01 != 0x00:
                continue
            expr = []
            expr.extend(e.offset.data)
            expr.append(Inst(pywasm.opcode.i32_const, [0]))
            expr.append(Inst(pywasm.opcode.i32_const, [len(e.init)]))
            expr.append(Inst(pywasm.opcode.table_init, [i, e.tidx]))
            expr.append(Inst(pywasm.opcode.elem_drop, [i]))
            self.stack.label.append(Label(1, 1, 0, 1, expr, 0))
''', '''        for i, e in sorted(enumerate(module.elem), key=lambda x: x[1].tidx):
            if e.kind & 0x01 != 0x00:
                continue
            expr = []
            expr.extend(e.offset.data)
            expr.append(Inst(pywasm.opcode.i32_const, [0]))
            expr.append(Inst(pywasm.opcode.i32_const, [len(e.init)]))
            expr.append(Inst(pywasm.opcode.table_init, [i, e.tidx]))
            expr.append(Inst(pywasm.opcode.elem_drop, [i]))
            self.stack.label.append(Label(1, 1, 0, 1, expr, 0))
''')], '''
rt = pywasm.Runtime()
ref = pywasm.ValType.ref_func()
x = rt.allocate_table(pywasm.TableType(ref, pywasm.Limits(4, None)))
y = rt.allocate_table(pywasm.TableType(ref, pywasm.Limits(4, None)))
rt.imports['env'] = {'a': x, 'b': y}
expect(trap(load, 'm', rt), True, 'the failure of the instantiation')
x, y = [rt.machine.store.tabl[e.data] for e in (x, y)]
expect([e.into_all() is None for e in y.elem], [True, False, True, True], 'which entries of the second table are null')
expect([e.into_all() is None for e in x.elem], [True] * 4, 'which entries of the first table are null')
''', {'m': (lambda m: (m.imports.append(('env', 'a', 'table', ('funcref', 1, None))), m.imports.append(('env', 'b', 'table', ('funcref', 1, None))),
                       m.func([], [], [], []),
                       m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', 0)]], 1, [('i32.const', 1)])),
                       m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', 0)]], 0, [('i32.const', 9)])), enc.encode(m))[-1])(enc.Mod())},
      'element segments for several imported tables, listed out of order, one of which does not fit',
      'segments are applied by table instead of in order, so that a failing instantiation leaves other entries behind')

# ---- C11
plant('C11-global-mutability', 'C11', C, [('''                    assert self.store.glob[b.data].mut == a.desc.mut
''', '''                    assert self.store.glob[b.data].mut >= a.desc.mut
''')], '''
for mut, ok in [(0, True), (1, False)]:
    rt = pywasm.Runtime()
    rt.imports['env'] = {'g': rt.allocate_global(pywasm.GlobalType(pywasm.ValType.i32(), mut), pywasm.ValInst.from_i32(1))}
    expect(not trap(load, 'm', rt), ok, f'whether a global of mutability {mut} may be imported as a constant')
''', {'m': (lambda m: (m.imports.append(('env', 'g', 'global', ('i32', 0))), enc.encode(m))[-1])(enc.Mod())},
      'an import of a constant global that is given a mutable one', 'a mutable global is accepted where a constant is declared')

plant('C11-table-limits', 'C11', C, [('''                    assert self.store.tabl[b.data].type.type == a.desc.type
                    assert self.store.tabl[b.data].suit(a.desc.limits)
''', '''                    assert self.store.tabl[b.data].type.type == a.desc.type
                    assert self.store.tabl[b.data].type.limits.suit(a.desc.limits)
''')], '''
rt = pywasm.Runtime()
ref = pywasm.ValType.ref_func()
e = rt.allocate_table(pywasm.TableType(ref, pywasm.Limits(1, 9)))
rt.imports['env'] = {'t': e}
expect(trap(load, 'm', rt), True, 'the failure of importing a table of one entry as one of four')
rt.machine.store.tabl[e.data].grow(3, pywasm.ValInst.zero(ref))
expect(trap(load, 'm', rt), False, 'the failure of importing a table that has grown to four entries')
''', {'m': (lambda m: (m.imports.append(('env', 't', 'table', ('funcref', 4, None))), enc.encode(m))[-1])(enc.Mod())},
      'an imported table that has grown since it was made, and an import that requires its present size',
      'the import is matched against the size the table had at first')

# ---- C12
plant('C12-fill-partial', 'C12', C, [('''                    d = self.stack.value.pop().into_u32()
                    assert d + n <= len(mems.data)
                    for i in range(n):
                        mems.data[d+i] = s
''', '''                    d = self.stack.value.pop().into_u32()
                    for i in range(n):
                        mems.data[d+i] = s
                    assert d + n <= len(mems.data)
''')], '''
rt, inst = load('m')
mem = rt.exported_memory(inst, 'm')
expect(trap(rt.invocate, inst, 'f', [65530, 7, 10]), True, 'the failure of a fill past the end')
expect(bytes(mem.get(65530, 6)), bytes(6), 'the memory after the failed fill')
rt.invocate(inst, 'f', [65530, 7, 6])
expect(bytes(mem.get(65529, 7)), bytes([0] + [7] * 6), 'the memory after a fill')
''', {'m': (lambda m: (m.exports.append(('m', 'mem', 0)), enc.encode(m))[-1])(fn(['i32', 'i32', 'i32'], [], [
    ('local.get', 0), ('local.get', 1), ('local.get', 2), ('memory.fill',)], mems=[(1, None)]))},
      'a memory.fill that starts inside of the memory and ends outside, and a look at the memory after the trap',
      'the trap leaves the part inside of the memory filled')

# ---- C13
plant('C13-block-type-64', 'C13', C, [('''        if n == 0x40:
            return cls(0x00, 0x40)
''', '''        if n & 0x7f == 0x40:
            return cls(0x00, 0x40)
''')], '''
rt, inst = load('m')
expect(trap(rt.invocate, inst, 'f', [5]), False, 'the failure of a block with type 64')
expect(rt.invocate(inst, 'f', [5]), [12], 'the result of a block with type 64')
''', {'m': (lambda m: (m.types.extend([(('i32',) * k, ()) for k in range(64)]), m.types.append((('i32',), ('i32',))),
                       m.func(['i32'], ['i32'], [], [('local.get', 0), ('block', 64, [('i32.const', 7), ('i32.add',)])], 'f'), enc.encode(m))[-1])(enc.Mod())},
      'a block type index whose first LEB128 byte is 0xc0: 64, or another multiple of 128 plus 64',
      'the first byte is taken for the empty block type, and the rest for instructions')

# ---- C14
plant('C14-short-version', 'C14', C, [('''        assert bytearray(r.read(4)) == bytearray([0x01, 0x00, 0x00, 0x00])
''', '''        assert bytearray(r.read(4)).rstrip(b'\\x00') == bytearray([0x01])
''')], '''
code = b'\\x00asm\\x01\\x00\\x00\\x00'
expect(trap(pywasm.ModuleDesc.from_reader, io.BytesIO(code)), False, 'the failure of the empty module')
for k in range(8):
    expect(trap(pywasm.ModuleDesc.from_reader, io.BytesIO(code[:k])), True, f'the failure of a module of {k} bytes')
''', {}, 'a file of 5 to 7 bytes: the version is cut short', 'a truncated header is accepted as an empty module')

# ---- C15
plant('C15-encode-sign', 'C15', 'pywasm/leb128.py', [('''            if (i == 0 and byte & 0x40 == 0) or (i == -1 and byte & 0x40 != 0):
''', '''            if (i == 0 and byte < 0x40) or (i == -1 and byte >= 0x3f):
''')], '''
for n in [0, -1, 63, -64, -66, 64, 1 << 40, -(1 << 40), -(1 << 63), -65, -(65 << 7), -(65 << 56) + 12345]:
    b = pywasm.leb128.i.encode(n)
    expect(pywasm.leb128.i.decode(b), n, f'the decoding of the encoding of {n}')
    expect(pywasm.leb128.i.decode_reader(io.BytesIO(b)), (n, len(b)), f'the reading of the encoding of {n}')
''', {}, 'a negative number whose highest seven bits, after dropping any number of groups of seven, are those of -65',
      'the encoding is cut before its sign and decodes to a positive number')

# ---- C16
plant('C16-v128-shared', 'C16', C, [('''            case 0x7d:
                return cls.from_f32(n)
            case 0x7c:
                return cls.from_f64(n)
            case 0x7b:
                return cls.from_v128(n)
''', '''            case 0x7d:
                return cls.from_f32(n)
            case 0x7c:
                return cls.from_f64(n)
            case 0x7b:
                return cls(type, n)
''')], '''
rt, inst = load('m')
a = bytearray(range(16))
g = rt.exported_global(inst, 'g')
rt.invocate(inst, 'set', [a])
a[0] = 99
expect(rt.invocate(inst, 'get', []), [bytearray(range(16))], 'the stored vector')
''', {'m': (lambda m: (m.globals.append(('v128', 1, [('v128.const', 0)])), m.exports.append(('g', 'global', 0)),
                       m.func(['v128'], [], [], [('local.get', 0), ('global.set', 0)], 'set'),
                       m.func([], ['v128'], [], [('global.get', 0)], 'get'), enc.encode(m))[-1])(enc.Mod())},
      'a v128 argument the program keeps, and a caller that changes its bytearray after the call',
      'the program shares the bytearray of its caller')

# ---- C17
plant('C17-u64-halves', 'C17', C, [('''        self.area(addr, 8)
        self.data[addr:addr+8] = struct.pack('<Q', data)
''', '''        self.area(addr, 8)
        self.put_u32(addr, data & 0xffffffff)
        self.put_u32(addr + 4, data >> 32)
''')], '''
rt, inst = load('m')
mem = rt.exported_memory(inst, 'm')
mem.put_u64(8, 0x0123456789abcdef)
expect(mem.get_u64(8), 0x0123456789abcdef, 'the stored number')
expect(trap(mem.put_u64, 8, 1 << 64), True, 'the failure of storing a number of 65 bits')
expect(mem.get_u64(8), 0x0123456789abcdef, 'the number after a failing store')
''', {'m': (lambda m: (m.mems.append((1, 2)), m.exports.append(('m', 'mem', 0)), enc.encode(m))[-1])(enc.Mod())},
      'put_u64 with a number out of range', 'the lower half is written before the number is rejected')


# ---- second round
L3 = [('local.get', 0), ('local.get', 1), ('local.get', 2)]

plant('C12-table-copy-partial', 'C12', C, [('''                    assert s + n <= len(taby.elem)
                    assert d + n <= len(tabx.elem)
                    tabx.elem[d:d+n] = taby.elem[s:s+n]
''', '''                    assert s + n <= len(taby.elem)
                    for i, e in enumerate(taby.elem[s:s+n]):
                        tabx.elem[d+i] = e
''')], '''
rt, inst = load('m')
expect(trap(rt.invocate, inst, 'f', [6, 0, 4]), True, 'the failure of a copy past the end')
expect([rt.invocate(inst, 'g', [k]) for k in range(8)], [[k % 4 // 3 * 0 + (k > 3)] for k in range(8)], 'which entries are null after the failed copy')
expect(trap(rt.invocate, inst, 'f', [9, 0, 0]), True, 'the failure of an empty copy to past the end')
''', {'m': (lambda m: (m.tables.append(('funcref', 8, None)), m.func([], [], [], []),
                       m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', 0)]] * 4, 0, [('i32.const', 0)])),
                       m.func(['i32'] * 3, [], [], L3 + [('table.copy', 0, 0)], 'f'),
                       m.func(['i32'], ['i32'], [], [('local.get', 0), ('table.get', 0), ('ref.is_null',)], 'g'), enc.encode(m))[-1])(enc.Mod())},
      'a table.copy whose destination starts inside of the table and ends outside, and a look at the table after the trap',
      'the trap leaves part of the copy behind, and an empty copy out of bounds does not trap')

plant('C12-indirect-arity', 'C12', C, [('''                    assert self.store.func[addr].type == type
                    self.evaluate_call(addr)
''', '''                    # Comparing the lengths first saves most of the work.
                    have = self.store.func[addr].type
                    assert len(have.args) == len(type.args) and have.rets == type.rets
                    self.evaluate_call(addr)
''')], '''
rt, inst = load('m')
expect(rt.invocate(inst, 'f', [0]), [7], 'an indirect call of a function of the right type')
expect(trap(rt.invocate, inst, 'f', [1]), True, 'the failure of an indirect call of a function with another parameter type')
expect(trap(rt.invocate, inst, 'f', [2]), True, 'the failure of an indirect call of a function with another result type')
''', {'m': (lambda m: (m.tables.append(('funcref', 3, None)), m.func(['i32'], ['i32'], [], [('i32.const', 7)]), m.func(['f32'], ['i32'], [], [('i32.const', 8)]),
                       m.func(['i32'], ['f32'], [], [('f32.const', 0)]),
                       m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', k)] for k in range(3)], 0, [('i32.const', 0)])),
                       m.func(['i32'], ['i32'], [], [('i32.const', 1), ('local.get', 0), ('call_indirect', 0, 0)], 'f'), enc.encode(m))[-1])(enc.Mod())},
      'an indirect call of a function that differs from the expected type in nothing but the type of a parameter',
      'the call does not trap')

plant('C07-depth', 'C07', C, [('''                assert len(self.stack.frame) < 1024
''', '''                assert len(self.stack.label) < 1024
''')], '''
rt, inst = load('m')
for n in [0, 1, 100, 300, 600, 900]:
    expect(trap(rt.invocate, inst, 'f', [n]), False, f'the failure of a recursion {n} deep')
expect(trap(rt.invocate, inst, 'f', [100000]), True, 'the failure of a recursion that is too deep')
''', {'m': enc.encode(fn(['i32'], ['i32'], [('local.get', 0), ('if', 'i32', [
    ('block', 'i32', [('loop', 'i32', [('local.get', 0), ('i32.const', 1), ('i32.sub',), ('call', 0), ('i32.const', 1), ('i32.add',)])])],
    [('i32.const', 0)])]))},
      'a recursion of some hundred calls, each from inside of nested blocks', 'the depth that is limited is that of blocks and not of calls')

plant('C19-const-cache', 'C19', C, [('''                case pywasm.opcode.f32_const:
                    a = ValInst.from_i32(instr.args[0])
                    a.type = ValType.f32()
                    self.stack.value.append(a)
''', '''                case pywasm.opcode.f32_const:
                    # The value of a constant does not depend on anything.
                    a = pooled(instr.args[0])
                    a.type = ValType.f32()
                    self.stack.value.append(a)
'''), ('''                case pywasm.opcode.i32_const:
                    a = ValInst.from_i32(instr.args[0])
                    self.stack.value.append(a)
''', '''                case pywasm.opcode.i32_const:
                    a = pooled(instr.args[0])
                    a.type = ValType.i32()
                    self.stack.value.append(a)
'''), ('''class Machine:
''', '''@functools.lru_cache(1 << 16)
def pooled(n: int) -> ValInst:
    return ValInst.from_i32(n)


class Machine:
''')], '''
rt, inst = load('m')
expect(rt.invocate(inst, 'f', []), [1065353216], 'the first result')
other, inst2 = load('n')
expect(other.invocate(inst2, 'f', []), [1.0], 'the result of another module')
expect(rt.invocate(inst, 'f', []), [1065353216], 'the second result')
got, inst3 = load('o')
expect(trap(got.invocate, inst3, 'f', []), False, 'the failure with two results of the same bits')
expect(got.invocate(inst3, 'f', []), [1065353216, 1.0], 'two results with the same bits')
''', {'m': enc.encode(fn([], ['i32'], [('i32.const', 0x3f800000)])), 'n': enc.encode(fn([], ['f32'], [('f32.const', 0x3f800000)])),
      'o': enc.encode(fn([], ['i32', 'f32'], [('i32.const', 0x3f800000), ('f32.const', 0x3f800000)]))},
      'an i32 and an f32 constant of the same bits, one of them still in use when the other is evaluated',
      'constants are shared, so that a value changes its type while it is on the stack')

plant('C10-call-cache', 'C10', C, [('''                    addr = frame.module.func[instr.args[0]]
                    self.evaluate_call(addr)
''', '''                    # Look the function up once.
                    if len(instr.args) == 1:
                        instr.args.append(frame.module.func[instr.args[0]])
                    self.evaluate_call(instr.args[1])
''')], '''
rt = pywasm.Runtime()
desc = module('m')
a = rt.instance(desc)
expect([rt.invocate(a, 'f', [])[0] for _ in range(3)], [1, 2, 3], 'the results of the first instance')
b = rt.instance(desc)
expect([rt.invocate(b, 'f', [])[0] for _ in range(3)], [1, 2, 3], 'the results of the second instance')
expect(rt.invocate(a, 'f', []), [4], 'the next result of the first instance')
''', {'m': (lambda m: (m.globals.append(('i32', 1, [('i32.const', 0)])),
                       m.func([], ['i32'], [], [('global.get', 0), ('i32.const', 1), ('i32.add',), ('global.set', 0), ('global.get', 0)]),
                       m.func([], ['i32'], [], [('call', 0)], 'f'), enc.encode(m))[-1])(enc.Mod())},
      'a decoded module that is instantiated twice, and a call inside of the second instance after one inside of the first',
      'the second instance calls the functions of the first')

plant('C10-limits-shared', 'C10', C, [('''        self.data.extend(bytearray(n * 64 * 1024))
        self.size += n
''', '''        self.data.extend(bytearray(n * 64 * 1024))
        # The type of a memory has its present size for a minimum.
        self.size = self.type.limits.n = self.size + n
''')], '''
rt = pywasm.Runtime()
desc = module('m')
a = rt.instance(desc)
expect(rt.invocate(a, 'f', [2]), [1], 'the size before growing')
b = rt.instance(desc)
expect(rt.invocate(b, 'f', [0]), [1], 'the size of the memory of a second instance')
''', {'m': enc.encode(fn(['i32'], ['i32'], [('local.get', 0), ('memory.grow',)], mems=[(1, None)]))},
      'a decoded module that is instantiated again after the memory of an instance has grown',
      'the second instance starts with a memory of the size to which the first has grown')

plant('C11-memory-grown', 'C11', C, [('''                    assert self.store.mems[b.data].suit(a.desc.limits)
''', '''                    assert self.store.mems[b.data].type.limits.suit(a.desc.limits)
''')], '''
rt = pywasm.Runtime()
mem = rt.allocate_memory(pywasm.core.MemType(pywasm.core.Limits(1, None)))
rt.imports['env'] = {'m': mem}
expect(trap(load, 'm', rt), True, 'the failure of importing a memory that is too small')
rt.machine.store.mems[mem.data].grow(2)
expect(trap(load, 'm', rt), False, 'the failure of importing a memory that has grown')
''', {'m': (lambda m: (m.imports.append(('env', 'm', 'mem', (3, None))), enc.encode(m))[-1])(enc.Mod())},
      'a memory that has grown between its allocation and its import', 'the import is matched against the size the memory had at first')

plant('C13-padded-opcode', 'C13', C, [('''            e = pywasm.leb128.u.encode(pywasm.leb128.u.decode_reader(r)[0])
            b = int.from_bytes(bytearray([b]) + e)
''', '''            e = r.read(1)
            if e[0] & 0x80:
                e += r.read(1)
            b = int.from_bytes(bytearray([b]) + e)
''')], '''
rt, inst = load('m')
expect(rt.invocate(inst, 'f', [3.7]), [3], 'the result with the shortest encoding')
code = open(os.path.join(here, 'm.wasm'), 'rb').read()
at = code.index(b'\\x20\\x00\\xfc\\x00\\x0b')
for pad in [b'\\x80\\x00', b'\\x80\\x80\\x00', b'\\x80\\x80\\x80\\x80\\x00']:
    new = bytearray(code[:at + 3] + pad + code[at + 4:])
    k = len(pad) - 1
    new[at - 2] += k
    new[at - 4] += k
    rt = pywasm.Runtime()
    expect(trap(pywasm.ModuleDesc.from_reader, io.BytesIO(new)), False, f'the failure of decoding fc {pad.hex()}')
    inst = rt.instance(pywasm.ModuleDesc.from_reader(io.BytesIO(new)))
    expect(rt.invocate(inst, 'f', [3.7]), [3], f'the result with the opcode fc {pad.hex()}')
''', {'m': enc.encode(fn(['f32'], ['i32'], [('local.get', 0), ('i32.trunc_sat_f32_s',)]))},
      'an instruction with a prefix whose second part is a LEB128 number with redundant bytes',
      'the module is refused')

plant('C14-lane', 'C14', C, [('''            case pywasm.opcode.f64x2_replace_lane:
                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                assert o.args[0] < 2
''', '''            case pywasm.opcode.f64x2_replace_lane:
                o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                assert o.args[0] < 4
''')], '''
code = open(os.path.join(here, 'm.wasm'), 'rb').read()
at = code.index(b'\\xfd\\x22\\x01')
for lane in range(8):
    new = bytearray(code)
    new[at + 2] = lane
    expect(trap(pywasm.ModuleDesc.from_reader, io.BytesIO(new)), lane > 1, f'the failure of decoding f64x2.replace_lane {lane}')
''', {'m': enc.encode(fn(['v128', 'f64'], ['v128'], [('local.get', 0), ('local.get', 1), ('f64x2.replace_lane', 1)]))},
      'a module with f64x2.replace_lane of lane 2 or 3, in a function that is never called', 'the module is accepted')

plant('C15-long', 'C15', 'pywasm/leb128.py', [('''            if i == 0:
                r.append(byte)
                return bytearray(r)
''', '''            if i == 0 or len(r) == 9:
                r.append(byte)
                return bytearray(r)
''')], '''
for n in [0, 1, 127, 128, (1 << 32) - 1, (1 << 64) - 1, (1 << 70) - 1, 1 << 70, (1 << 100) + 3]:
    b = pywasm.leb128.u.encode(n)
    expect(pywasm.leb128.u.decode(b), n, f'the decoding of the encoding of {n}')
''', {}, 'a number of more than 70 bits', 'the encoding stops after ten bytes')

plant('C16-f32-overflow', 'C16', C, [('''            case 0x7d:
                return cls.from_f32(n)
            case 0x7c:
                return cls.from_f64(n)
            case 0x7b:
                return cls.from_v128(n)
            case 0x70:
                return cls.zero(type) if n is None else cls.from_ref(type, n)
''', '''            case 0x7d:
                return cls(type, bytearray(struct.pack('<f', n)) + bytearray(cls.blen - 4))
            case 0x7c:
                return cls.from_f64(n)
            case 0x7b:
                return cls.from_v128(n)
            case 0x70:
                return cls.zero(type) if n is None else cls.from_ref(type, n)
''')], '''
rt, inst = load('m')
for x, y in [(1.5, 1.5), (3.4028234663852886e38, 3.4028234663852886e38), (1e39, float('inf')), (-1e300, float('-inf')), (1e-60, 0.0), (7, 7.0)]:
    expect(trap(rt.invocate, inst, 'f', [x]), False, f'the failure of passing {x} as an f32')
    expect(rt.invocate(inst, 'f', [x]), [y], f'passing {x} as an f32')
''', {'m': enc.encode(fn(['f32'], ['f32'], [('local.get', 0)]))},
      'a float argument beyond the range of an f32', 'the call fails instead of passing an infinity')

plant('C17-u16-wrap', 'C17', C, [('''        self.area(addr, 2)
        self.data[addr:addr+2] = struct.pack('<H', data)
''', '''        self.area(addr, 2)
        self.data[addr:addr+2] = (data & 0xffff).to_bytes(2, 'little')
''')], '''
rt, inst = load('m')
mem = rt.exported_memory(inst, 'm')
for x in [0, 1, 255, 256, 65535]:
    mem.put_u16(10, x)
    expect(mem.get_u16(10), x, f'reading back {x}')
for x in [-1, 65536]:
    mem.put_u16(10, 7)
    expect(trap(mem.put_u16, 10, x), True, f'the failure of writing {x} as 16 bits')
    expect(mem.get_u16(10), 7, 'the memory after the failed write')
''', {'m': (lambda m: (m.mems.append((1, None)), m.exports.append(('m', 'mem', 0)), enc.encode(m))[-1])(enc.Mod())},
      'a number that does not fit into 16 bits', 'put_u16 writes another number instead of failing')

plant('C08-copy-ascending', 'C08', C, [('''                    assert s + n <= len(mems.data)
                    assert d + n <= len(mems.data)
                    mems.data[d:d+n] = mems.data[s:s+n]
''', '''                    assert s + n <= len(mems.data)
                    assert d + n <= len(mems.data)
                    # In pieces, so that a large copy does not need as much memory again.
                    for i in range(0, n, 4096):
                        k = min(4096, n - i)
                        mems.data[d+i:d+i+k] = mems.data[s+i:s+i+k]
''')], '''
rt, inst = load('m')
mem = rt.exported_memory(inst, 'm')
old = bytearray(os.urandom(65536))
for d, s, n in [(0, 100, 60000), (100, 0, 4000), (100, 0, 4096), (5000, 0, 4097), (100, 0, 4097), (4000, 0, 9000), (0, 4000, 9000)]:
    mem.put(0, old)
    rt.invocate(inst, 'f', [d, s, n])
    new = old.copy()
    new[d:d + n] = old[s:s + n]
    expect(bytes(mem.get(0, 65536)) == new, True, f'whether a copy of {n} bytes from {s} to {d} is right')
''', {'m': (lambda m: (m.exports.append(('m', 'mem', 0)), enc.encode(m))[-1])(fn(['i32'] * 3, [], L3 + [('memory.copy',)], mems=[(1, None)]))},
      'a memory.copy of more than 4096 bytes to an overlapping area that starts less than 4096 bytes further up',
      'later pieces are copied from what the earlier ones have overwritten')

plant('C03-trunc-u-negative', 'C03', C, [('''                case pywasm.opcode.i64_trunc_f64_u:
                    a = self.stack.value.pop().into_f64()
                    b = int(a)
                    c = ValInst.from_u64(b)
                    assert c.into_u64() == b
''', '''                case pywasm.opcode.i64_trunc_f64_u:
                    a = self.stack.value.pop().into_f64()
                    b = int(a)
                    assert a >= 0
                    c = ValInst.from_u64(b)
''')], '''
rt, inst = load('m')
for x, y in [(0.0, 0), (0.9, 0), (-0.0, 0), (1e18, 10**18), (2.0 ** 63, -(1 << 63)), (-0.5, 0), (-0.9999999999999999, 0)]:
    expect(trap(rt.invocate, inst, 'f', [x]), False, f'the failure of truncating {x}')
    expect(rt.invocate(inst, 'f', [x]), [y], f'truncating {x}')
for x in [-1.0, 2.0 ** 64, float('inf'), float('nan')]:
    expect(trap(rt.invocate, inst, 'f', [x]), True, f'the failure of truncating {x}')
''', {'m': enc.encode(fn(['f64'], ['i64'], [('local.get', 0), ('i64.trunc_f64_u',)]))},
      'an operand between -1 and 0', 'the truncation traps instead of giving 0')

plant('C05-minus-infinity', 'C05', C, [('''                case pywasm.opcode.i32x4_trunc_sat_f64x2_u_zero:
                    a = self.stack.value.pop().into_v128_f64()
                    b = [0 if math.isnan(e) else e for e in a]
                    c = [int(max(pywasm.arith.u32.min, min(e, pywasm.arith.u32.max))) for e in b]
''', '''                case pywasm.opcode.i32x4_trunc_sat_f64x2_u_zero:
                    a = self.stack.value.pop().into_v128_f64()
                    b = [0 if math.isnan(e) else e for e in a]
                    c = [pywasm.arith.u32.max if math.isinf(e) else pywasm.arith.u32.sat(int(e)) for e in b]
''')], '''
rt, inst = load('m')
for x, y in [(1.5, 1), (1e10, (1 << 32) - 1), (-3.0, 0), (float('nan'), 0), (float('inf'), (1 << 32) - 1), (float('-inf'), 0)]:
    got = rt.invocate(inst, 'f', [bytearray(struct.pack('<dd', x, 2.0))])[0]
    expect(struct.unpack('<IIII', got), (y, 2, 0, 0), f'truncating {x}')
''', {'m': enc.encode(fn(['v128'], ['v128'], [('local.get', 0), ('i32x4.trunc_sat_f64x2_u_zero',)]))},
      'a lane that is minus infinity', 'minus infinity becomes the largest number instead of 0')

plant('C18-extend-in-place', 'C18', C, [('''                case pywasm.opcode.i64_extend32_s:
                    a = self.stack.value.pop().into_i64()
                    b = pywasm.arith.i32.fit(a)
                    c = ValInst.from_i64(b)
                    self.stack.value.append(c)
''', '''                case pywasm.opcode.i64_extend32_s:
                    # Only the upper half changes.
                    a = self.stack.value[-1].data
                    a[4:8] = b'\\xff\\xff\\xff\\xff' if a[3] & 0x80 else bytes(4)
''')], '''
rt, inst = load('m')
for x in [0, 1, -1, 1 << 31, 1 << 40, (1 << 63) - 1]:
    low = x & 0xffffffff
    low -= (low & 1 << 31) << 1
    expect(rt.invocate(inst, 'f', [x]), [low, x], f'the extension of {x}, and {x} after that')
''', {'m': enc.encode(fn(['i64'], ['i64', 'i64'], [('local.get', 0), ('i64.extend32_s',), ('local.get', 0)]))},
      'a local that is extended by i64.extend32_s and used again after that', 'the instruction changes the local')

# ---- third round
plant('C10-file-cache', 'C10', C, [('''        with open(path, 'rb') as f:
            return self.instance(ModuleDesc.from_reader(f))
''', '''        if not hasattr(self, 'descs'):
            self.descs = {}
        if path not in self.descs:
            with open(path, 'rb') as f:
                self.descs[path] = ModuleDesc.from_reader(f)
        return self.instance(self.descs[path])
''')], '''
import shutil
import tempfile
top = tempfile.mkdtemp()
try:
    rt = pywasm.core.Runtime()
    for n in 'a', 'b', 'a':
        shutil.copyfile(f'{here}/{n}.wasm', os.path.join(top, 'x.wasm'))
        inst = rt.instance_from_file(os.path.join(top, 'x.wasm'))
        expect(rt.invocate(inst, 'f', []), [{'a': 1, 'b': 2}[n]], f'the result of module {n}')
finally:
    shutil.rmtree(top)
''', {'a': enc.encode(fn([], ['i32'], [('i32.const', 1)])), 'b': enc.encode(fn([], ['i32'], [('i32.const', 2)]))},
      'a file that is rewritten between two instance_from_file calls of one runtime', 'the second instance is made from the old contents')

plant('C11-env-fallback', 'C11', C, [('''            extern.append(self.imports[e.module][e.name])
''', '''            space = self.imports.get(e.module) or self.imports['env']
            extern.append(space[e.name])
''')], '''
rt = pywasm.core.Runtime()
h = rt.allocate_func_host(pywasm.FuncType([], []), lambda m, a: [])
rt.imports = {'env': {'h': h}}
with open(f'{here}/m.wasm', 'rb') as f:
    desc = pywasm.ModuleDesc.from_reader(f)
expect(trap(rt.instance, desc), True, 'the failure of a module whose import is in a module that is not there')
rt.imports = {'env': {'h': h}, 'lib': {}}
expect(trap(rt.instance, desc), True, 'the failure of a module whose import is in an empty module')
rt.imports = {'lib': {'h': h}}
expect(trap(rt.instance, desc), False, 'the failure of a module whose import is there')
''', {'m': (lambda m: (m.imports.append(('lib', 'h', 'func', m.type([], []))), enc.encode(m))[-1])(enc.Mod())},
      'a missing import module while another one of that name provides an object of that name', 'the import is satisfied by another module\'s object')

plant('C16-argument-list', 'C16', C, [('''                rets = func.hostcode(self, [e.into_all() for e in args])
''', '''                if not hasattr(func, 'args'):
                    func.args = []
                func.args[:] = [e.into_all() for e in args]
                rets = func.hostcode(self, func.args)
''')], '''
rt = pywasm.core.Runtime()
kept = []
def h(m, a):
    kept.append(a)
    if a[0] > 0:
        rt.invocate(inst, 'f', [a[0] - 1])
    return [a[0]]
i32 = pywasm.ValType.i32()
rt.imports = {'env': {'h': rt.allocate_func_host(pywasm.FuncType([i32], [i32]), h)}}
with open(f'{here}/m.wasm', 'rb') as f:
    inst = rt.instance(pywasm.ModuleDesc.from_reader(f))
expect(rt.invocate(inst, 'f', [0]), [0], 'the result')
expect(rt.invocate(inst, 'f', [3]), [3], 'the result of a host function that is called again before it returns')
expect(kept, [[0], [3], [2], [1], [0]], 'the arguments')
''', {'m': (lambda m: (m.imports.append(('env', 'h', 'func', m.type(['i32'], ['i32']))), m.func(['i32'], ['i32'], [], [('local.get', 0), ('call', 0)], 'f'),
                       enc.encode(m))[-1])(enc.Mod())},
      'a host function that is called again while it still uses, or keeps, the list of its arguments', 'its arguments are replaced by those of the later call')

plant('C16-global-snapshot', 'C16', C, [('''        assert inst.kind == 0x03
        addr = inst.data
        return self.machine.store.glob[addr]
''', '''        assert inst.kind == 0x03
        addr = inst.data
        glob = self.machine.store.glob[addr]
        return GlobalInst(glob.data, glob.mut)
''')], '''
rt, inst = load('m')
g = rt.exported_global(inst, 'g')
expect(g.data.into_i32(), 5, 'the global')
rt.invocate(inst, 'f', [9])
expect(rt.exported_global(inst, 'g').data.into_i32(), 9, 'the global after it is set, asked for again')
expect(g.data.into_i32(), 9, 'the global after it is set')
g.data = pywasm.ValInst.from_i32(11)
expect(rt.invocate(inst, 'r', []), [11], 'the global set by the host')
''', {'m': (lambda m: (m.exports.append(('g', 'global', 0)), m.func([], ['i32'], [], [('global.get', 0)], 'r'), enc.encode(m))[-1])(
    fn(['i32'], [], [('local.get', 0), ('global.set', 0)], globals=[('i32', True, [('i32.const', 5)])]))},
      'a global object that the host keeps while the module sets the global, or that it writes to', 'the host sees the old value, its writes are lost')

plant('C09-drop-single', 'C09', C, [('''                    elem = self.store.elem[frame.module.elem[instr.args[0]]]
                    elem.data.clear()
''', '''                    elem = self.store.elem[frame.module.elem[instr.args[0]]]
                    while len(elem.data) > 1:
                        elem.data.pop()
''')], '''
rt, inst = load('m')
rt.invocate(inst, 'init', [0, 2])
rt.invocate(inst, 'drop', [])
expect(trap(rt.invocate, inst, 'init', [0, 0]), False, 'the failure of taking nothing from a dropped segment')
expect(trap(rt.invocate, inst, 'init', [0, 2]), True, 'the failure of taking two elements from a dropped segment')
expect(trap(rt.invocate, inst, 'init', [0, 1]), True, 'the failure of taking one element from a dropped segment')
''', {'m': (lambda m: (m.func([], [], [], [('elem.drop', 0)], 'drop'), enc.encode(m))[-1])(
    fn(['i32', 'i32'], [], [('local.get', 0), ('i32.const', 0), ('local.get', 1), ('table.init', 0, 0)], export='init', tables=[('funcref', 4, None)],
       elems=[enc.Elem('passive', 'funcref', [[('ref.func', 0)], [('ref.func', 0)]], 0, None)]))},
      'table.init of the first element of a segment that has been dropped', 'the element is still there')

plant('C08-drop-large', 'C08', C, [('''                    data = self.store.data[frame.module.data[instr.args[0]]]
                    data.data.clear()
''', '''                    data = self.store.data[frame.module.data[instr.args[0]]]
                    del data.data[:65536]
''')], '''
rt, inst = load('m')
rt.invocate(inst, 'init', [7])
rt.invocate(inst, 'drop', [])
for n in [1, 5, 1000]:
    expect(trap(rt.invocate, inst, 'init', [n]), True, f'the failure of taking {n} bytes from a dropped segment')
expect(trap(rt.invocate, inst, 'init', [0]), False, 'the failure of taking nothing from a dropped segment')
''', {'m': (lambda m: (m.func([], [], [], [('data.drop', 0)], 'drop'), enc.encode(m))[-1])(
    fn(['i32'], [], [('i32.const', 0), ('i32.const', 0), ('local.get', 0), ('memory.init', 0)], export='init', mems=[(1, None)],
       datas=[enc.Data('passive', b'x' * 66000, None)]))},
      'data.drop of a segment of more than one page', 'the rest of the segment is still there')

plant('C13-local-count-byte', 'C13', C, [('''        return cls(pywasm.leb128.u.decode_reader(r)[0], ValType.from_reader(r))


class LocalsInst''', '''        return cls(ord(r.read(1)) & 0x7f | ord(r.read(1)) << 7 if r.getvalue()[r.tell()] & 0x80 else ord(r.read(1)), ValType.from_reader(r))


class LocalsInst''')], '''
for n in 'short', 'long', 'padded', 'huge':
    expect(trap(load, n), False, f'the failure of module {n}')
    rt, inst = load(n)
    expect(rt.invocate(inst, 'f', []), [0], f'the last local of module {n}')
''', {n: b'\x00asm\x01\x00\x00\x00\x01\x05\x01\x60\x00\x01\x7f\x03\x02\x01\x00\x07\x05\x01\x01f\x00\x00\x0a' + bytes([len(c) + 6, 1, len(c) + 4]) + c[:0] + b'\x01' + c + b'\x20\x00\x0b'
      for n, c in (('short', b'\x03\x7f'), ('long', b'\xac\x02\x7f'), ('padded', b'\x83\x80\x80\x00\x7f'), ('huge', b'\xa0\x9c\x01\x7f'))},
      'a group of locals whose count is encoded in three bytes or more', 'the group is misread')

plant('C07-slot-cache', 'C07', C, [('''                    addr = tabl.elem[self.stack.value.pop().into_u32()].into_ref()
''', '''                    slot = self.stack.value.pop().into_u32()
                    if len(instr.args) < 5 or instr.args[2] is not tabl or instr.args[3] != slot:
                        instr.args[2:] = [tabl, slot, tabl.elem[slot].into_ref()]
                    addr = instr.args[4]
''')], '''
rt, inst = load('m')
expect(rt.invocate(inst, 'f', [0]), [70], 'the result of entry 0')
expect(rt.invocate(inst, 'f', [1]), [71], 'the result of entry 1')
rt.invocate(inst, 'move', [0, 1])
expect(rt.invocate(inst, 'f', [0]), [70], 'the result of entry 0')
rt.invocate(inst, 'move', [1, 0])
expect(rt.invocate(inst, 'f', [0]), [70], 'the result of entry 0')
rt, inst = load('m')
expect(rt.invocate(inst, 'f', [0]), [70], 'the result of entry 0')
rt.invocate(inst, 'move', [1, 0])
expect(rt.invocate(inst, 'f', [0]), [71], 'the result of entry 0 after entry 1 has been copied there')
''', {'m': (lambda m: ([m.func([], ['i32'], [], [('i32.const', 70 + k)], None) for k in range(2)], m.tables.append(('funcref', 2, None)),
                       m.elems.append(enc.Elem('active', 'funcref', [[('ref.func', k)] for k in range(2)], 0, [('i32.const', 0)])),
                       m.func(['i32'], ['i32'], [], [('local.get', 0), ('call_indirect', m.type([], ['i32']), 0)], 'f'),
                       m.func(['i32', 'i32'], [], [], [('local.get', 1), ('local.get', 0), ('table.get', 0), ('table.set', 0)], 'move'),
                       enc.encode(m))[-1])(enc.Mod())},
      'an indirect call repeated for one table entry that was changed in between, with no other entry called there', 'the call goes to the function that was in the entry before')
