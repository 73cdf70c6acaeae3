"""Instruction table, written from the WebAssembly 2.0 binary-format appendix (independent of pywasm/opcode.py)."""

VT = {'i32': 0x7f, 'i64': 0x7e, 'f32': 0x7d, 'f64': 0x7c, 'v128': 0x7b, 'funcref': 0x70, 'externref': 0x6f}
NUM = ('i32', 'i64', 'f32', 'f64')
REF = ('funcref', 'externref')


def uleb(n):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


class Op:
    __slots__ = ('name', 'code', 'params', 'results', 'imm', 'arg', 'group')

    def __init__(self, name, code, params, results, imm='', arg=None, group=''):
        self.name, self.code, self.params, self.results = name, code, tuple(params), tuple(results)
        self.imm, self.arg, self.group = imm, arg, group

    def __repr__(self):
        return self.name


OPS = {}


def _add(name, code, params, results, imm='', arg=None, group=''):
    assert name not in OPS, name
    if isinstance(code, int):
        code = bytes([code])
    OPS[name] = Op(name, code, params.split(), results.split(), imm, arg, group)


def _fc(n):
    return b'\xfc' + uleb(n)


def _fd(n):
    return b'\xfd' + uleb(n)


# ---- memory -------------------------------------------------------------------------------------------------------
# name -> (code, value type, bytes, signed)
LOADS = {
    'i32.load': (0x28, 'i32', 4, None), 'i64.load': (0x29, 'i64', 8, None), 'f32.load': (0x2a, 'f32', 4, None),
    'f64.load': (0x2b, 'f64', 8, None), 'i32.load8_s': (0x2c, 'i32', 1, True), 'i32.load8_u': (0x2d, 'i32', 1, False),
    'i32.load16_s': (0x2e, 'i32', 2, True), 'i32.load16_u': (0x2f, 'i32', 2, False),
    'i64.load8_s': (0x30, 'i64', 1, True), 'i64.load8_u': (0x31, 'i64', 1, False),
    'i64.load16_s': (0x32, 'i64', 2, True), 'i64.load16_u': (0x33, 'i64', 2, False),
    'i64.load32_s': (0x34, 'i64', 4, True), 'i64.load32_u': (0x35, 'i64', 4, False),
}
STORES = {
    'i32.store': (0x36, 'i32', 4), 'i64.store': (0x37, 'i64', 8), 'f32.store': (0x38, 'f32', 4),
    'f64.store': (0x39, 'f64', 8), 'i32.store8': (0x3a, 'i32', 1), 'i32.store16': (0x3b, 'i32', 2),
    'i64.store8': (0x3c, 'i64', 1), 'i64.store16': (0x3d, 'i64', 2), 'i64.store32': (0x3e, 'i64', 4),
}
for _n, (_c, _t, _b, _s) in LOADS.items():
    _add(_n, _c, 'i32', _t, 'mem', _b, 'load')
for _n, (_c, _t, _b) in STORES.items():
    _add(_n, _c, 'i32 ' + _t, '', 'mem', _b, 'store')
# v128 loads: name -> (code, total bytes, kind)
VLOADS = {'v128.load': (0, 16), 'v128.load8x8_s': (1, 8), 'v128.load8x8_u': (2, 8), 'v128.load16x4_s': (3, 8),
          'v128.load16x4_u': (4, 8), 'v128.load32x2_s': (5, 8), 'v128.load32x2_u': (6, 8), 'v128.load8_splat': (7, 1),
          'v128.load16_splat': (8, 2), 'v128.load32_splat': (9, 4), 'v128.load64_splat': (10, 8),
          'v128.load32_zero': (92, 4), 'v128.load64_zero': (93, 8)}
for _n, (_c, _b) in VLOADS.items():
    _add(_n, _fd(_c), 'i32', 'v128', 'mem', _b, 'vload')
_add('v128.store', _fd(11), 'i32 v128', '', 'mem', 16, 'store')
for _i, _b in enumerate((1, 2, 4, 8)):
    _add(f'v128.load{_b*8}_lane', _fd(84 + _i), 'i32 v128', 'v128', 'memlane', _b, 'loadlane')
    _add(f'v128.store{_b*8}_lane', _fd(88 + _i), 'i32 v128', '', 'memlane', _b, 'storelane')

# ---- constants ----------------------------------------------------------------------------------------------------
_add('i32.const', 0x41, '', 'i32', 'i32', None, 'const')
_add('i64.const', 0x42, '', 'i64', 'i64', None, 'const')
_add('f32.const', 0x43, '', 'f32', 'f32', None, 'const')
_add('f64.const', 0x44, '', 'f64', 'f64', None, 'const')
_add('v128.const', _fd(12), '', 'v128', 'v128', None, 'const')

# ---- scalar integer -----------------------------------------------------------------------------------------------
_c = 0x45
for _t in ('i32', 'i64'):
    _add(f'{_t}.eqz', _c, _t, 'i32', group='iscalar')
    _c += 1
    for _o in ('eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u'):
        _add(f'{_t}.{_o}', _c, f'{_t} {_t}', 'i32', group='iscalar')
        _c += 1
for _t in ('f32', 'f64'):
    for _o in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        _add(f'{_t}.{_o}', _c, f'{_t} {_t}', 'i32', group='fscalar')
        _c += 1
for _t in ('i32', 'i64'):
    for _o in ('clz', 'ctz', 'popcnt'):
        _add(f'{_t}.{_o}', _c, _t, _t, group='iscalar')
        _c += 1
    for _o in ('add', 'sub', 'mul', 'div_s', 'div_u', 'rem_s', 'rem_u', 'and', 'or', 'xor', 'shl', 'shr_s', 'shr_u',
               'rotl', 'rotr'):
        _add(f'{_t}.{_o}', _c, f'{_t} {_t}', _t, group='iscalar')
        _c += 1
for _t in ('f32', 'f64'):
    for _o in ('abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt'):
        _add(f'{_t}.{_o}', _c, _t, _t, group='fscalar')
        _c += 1
    for _o in ('add', 'sub', 'mul', 'div', 'min', 'max', 'copysign'):
        _add(f'{_t}.{_o}', _c, f'{_t} {_t}', _t, group='fscalar')
        _c += 1
assert _c == 0xa7
for _n in ('i32.wrap_i64', 'i32.trunc_f32_s', 'i32.trunc_f32_u', 'i32.trunc_f64_s', 'i32.trunc_f64_u',
           'i64.extend_i32_s', 'i64.extend_i32_u', 'i64.trunc_f32_s', 'i64.trunc_f32_u', 'i64.trunc_f64_s',
           'i64.trunc_f64_u', 'f32.convert_i32_s', 'f32.convert_i32_u', 'f32.convert_i64_s', 'f32.convert_i64_u',
           'f32.demote_f64', 'f64.convert_i32_s', 'f64.convert_i32_u', 'f64.convert_i64_s', 'f64.convert_i64_u',
           'f64.promote_f32', 'i32.reinterpret_f32', 'i64.reinterpret_f64', 'f32.reinterpret_i32',
           'f64.reinterpret_i64'):
    _d, _r = _n.split('.')
    _s = [w for w in _r.split('_') if w in NUM][0]
    _add(_n, _c, _s, _d, group='iscalar' if _r.startswith(('wrap', 'extend')) else 'conv')
    _c += 1
for _n in ('i32.extend8_s', 'i32.extend16_s', 'i64.extend8_s', 'i64.extend16_s', 'i64.extend32_s'):
    _add(_n, _c, _n[:3], _n[:3], group='iscalar')
    _c += 1
_i = 0
for _t in ('i32', 'i64'):
    for _f in ('f32', 'f64'):
        for _s in ('s', 'u'):
            _add(f'{_t}.trunc_sat_{_f}_{_s}', _fc(_i), _f, _t, group='conv')
            _i += 1

# ---- SIMD ---------------------------------------------------------------------------------------------------------
SH = {'i8x16': (8, 16), 'i16x8': (16, 8), 'i32x4': (32, 4), 'i64x2': (64, 2), 'f32x4': (32, 4), 'f64x2': (64, 2)}
SCAL = {'i8x16': 'i32', 'i16x8': 'i32', 'i32x4': 'i32', 'i64x2': 'i64', 'f32x4': 'f32', 'f64x2': 'f64'}
_add('i8x16.shuffle', _fd(13), 'v128 v128', 'v128', 'shuffle', None, 'vint')
_add('i8x16.swizzle', _fd(14), 'v128 v128', 'v128', group='vint')
for _i, _s in enumerate(SH):
    _add(f'{_s}.splat', _fd(15 + _i), SCAL[_s], 'v128', group='vint')
_c = 21
for _s in SH:
    if _s in ('i8x16', 'i16x8'):
        for _u in ('s', 'u'):
            _add(f'{_s}.extract_lane_{_u}', _fd(_c), 'v128', SCAL[_s], 'lane', SH[_s][1], 'vint')
            _c += 1
    else:
        _add(f'{_s}.extract_lane', _fd(_c), 'v128', SCAL[_s], 'lane', SH[_s][1], 'vint')
        _c += 1
    _add(f'{_s}.replace_lane', _fd(_c), 'v128 ' + SCAL[_s], 'v128', 'lane', SH[_s][1], 'vint')
    _c += 1
assert _c == 35
for _s in ('i8x16', 'i16x8', 'i32x4'):
    for _o in ('eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u'):
        _add(f'{_s}.{_o}', _fd(_c), 'v128 v128', 'v128', group='vint')
        _c += 1
for _s in ('f32x4', 'f64x2'):
    for _o in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        _add(f'{_s}.{_o}', _fd(_c), 'v128 v128', 'v128', group='vfloat')
        _c += 1
assert _c == 77
_V1, _V2, _V3 = 'v128', 'v128 v128', 'v128 v128 v128'
for _n, _code, _p in (('not', 77, _V1), ('and', 78, _V2), ('andnot', 79, _V2), ('or', 80, _V2), ('xor', 81, _V2),
                      ('bitselect', 82, _V3)):
    _add('v128.' + _n, _fd(_code), _p, 'v128', group='vint')
_add('v128.any_true', _fd(83), 'v128', 'i32', group='vint')
_add('f32x4.demote_f64x2_zero', _fd(94), _V1, 'v128', group='vfloat')
_add('f64x2.promote_low_f32x4', _fd(95), _V1, 'v128', group='vfloat')

# (name, opcode, kind) kind: 1 unary, 2 binary, s shift, t test (-> i32)
_T = '''
i8x16.abs 96 1|i8x16.neg 97 1|i8x16.popcnt 98 1|i8x16.all_true 99 t|i8x16.bitmask 100 t
i8x16.narrow_i16x8_s 101 2|i8x16.narrow_i16x8_u 102 2
f32x4.ceil 103 1|f32x4.floor 104 1|f32x4.trunc 105 1|f32x4.nearest 106 1
i8x16.shl 107 s|i8x16.shr_s 108 s|i8x16.shr_u 109 s|i8x16.add 110 2|i8x16.add_sat_s 111 2|i8x16.add_sat_u 112 2
i8x16.sub 113 2|i8x16.sub_sat_s 114 2|i8x16.sub_sat_u 115 2|f64x2.ceil 116 1|f64x2.floor 117 1
i8x16.min_s 118 2|i8x16.min_u 119 2|i8x16.max_s 120 2|i8x16.max_u 121 2|f64x2.trunc 122 1|i8x16.avgr_u 123 2
i16x8.extadd_pairwise_i8x16_s 124 1|i16x8.extadd_pairwise_i8x16_u 125 1
i32x4.extadd_pairwise_i16x8_s 126 1|i32x4.extadd_pairwise_i16x8_u 127 1
i16x8.abs 128 1|i16x8.neg 129 1|i16x8.q15mulr_sat_s 130 2|i16x8.all_true 131 t|i16x8.bitmask 132 t
i16x8.narrow_i32x4_s 133 2|i16x8.narrow_i32x4_u 134 2
i16x8.extend_low_i8x16_s 135 1|i16x8.extend_high_i8x16_s 136 1|i16x8.extend_low_i8x16_u 137 1|i16x8.extend_high_i8x16_u 138 1
i16x8.shl 139 s|i16x8.shr_s 140 s|i16x8.shr_u 141 s|i16x8.add 142 2|i16x8.add_sat_s 143 2|i16x8.add_sat_u 144 2
i16x8.sub 145 2|i16x8.sub_sat_s 146 2|i16x8.sub_sat_u 147 2|f64x2.nearest 148 1|i16x8.mul 149 2
i16x8.min_s 150 2|i16x8.min_u 151 2|i16x8.max_s 152 2|i16x8.max_u 153 2|i16x8.avgr_u 155 2
i16x8.extmul_low_i8x16_s 156 2|i16x8.extmul_high_i8x16_s 157 2|i16x8.extmul_low_i8x16_u 158 2|i16x8.extmul_high_i8x16_u 159 2
i32x4.abs 160 1|i32x4.neg 161 1|i32x4.all_true 163 t|i32x4.bitmask 164 t
i32x4.extend_low_i16x8_s 167 1|i32x4.extend_high_i16x8_s 168 1|i32x4.extend_low_i16x8_u 169 1|i32x4.extend_high_i16x8_u 170 1
i32x4.shl 171 s|i32x4.shr_s 172 s|i32x4.shr_u 173 s|i32x4.add 174 2|i32x4.sub 177 2|i32x4.mul 181 2
i32x4.min_s 182 2|i32x4.min_u 183 2|i32x4.max_s 184 2|i32x4.max_u 185 2|i32x4.dot_i16x8_s 186 2
i32x4.extmul_low_i16x8_s 188 2|i32x4.extmul_high_i16x8_s 189 2|i32x4.extmul_low_i16x8_u 190 2|i32x4.extmul_high_i16x8_u 191 2
i64x2.abs 192 1|i64x2.neg 193 1|i64x2.all_true 195 t|i64x2.bitmask 196 t
i64x2.extend_low_i32x4_s 199 1|i64x2.extend_high_i32x4_s 200 1|i64x2.extend_low_i32x4_u 201 1|i64x2.extend_high_i32x4_u 202 1
i64x2.shl 203 s|i64x2.shr_s 204 s|i64x2.shr_u 205 s|i64x2.add 206 2|i64x2.sub 209 2|i64x2.mul 213 2
i64x2.eq 214 2|i64x2.ne 215 2|i64x2.lt_s 216 2|i64x2.gt_s 217 2|i64x2.le_s 218 2|i64x2.ge_s 219 2
i64x2.extmul_low_i32x4_s 220 2|i64x2.extmul_high_i32x4_s 221 2|i64x2.extmul_low_i32x4_u 222 2|i64x2.extmul_high_i32x4_u 223 2
f32x4.abs 224 1|f32x4.neg 225 1|f32x4.sqrt 227 1|f32x4.add 228 2|f32x4.sub 229 2|f32x4.mul 230 2|f32x4.div 231 2
f32x4.min 232 2|f32x4.max 233 2|f32x4.pmin 234 2|f32x4.pmax 235 2
f64x2.abs 236 1|f64x2.neg 237 1|f64x2.sqrt 239 1|f64x2.add 240 2|f64x2.sub 241 2|f64x2.mul 242 2|f64x2.div 243 2
f64x2.min 244 2|f64x2.max 245 2|f64x2.pmin 246 2|f64x2.pmax 247 2
i32x4.trunc_sat_f32x4_s 248 1|i32x4.trunc_sat_f32x4_u 249 1|f32x4.convert_i32x4_s 250 1|f32x4.convert_i32x4_u 251 1
i32x4.trunc_sat_f64x2_s_zero 252 1|i32x4.trunc_sat_f64x2_u_zero 253 1
f64x2.convert_low_i32x4_s 254 1|f64x2.convert_low_i32x4_u 255 1
'''
for _e in _T.replace('\n', '|').split('|'):
    if not _e:
        continue
    _n, _code, _k = _e.split()
    _g = 'vfloat' if 'f32x4' in _n or 'f64x2' in _n else 'vint'
    _p, _r = {'1': (_V1, 'v128'), '2': (_V2, 'v128'), 's': ('v128 i32', 'v128'), 't': (_V1, 'i32')}[_k]
    _add(_n, _fd(int(_code)), _p, _r, group=_g)

# ---- parametric / variable / table / bulk: handled structurally by enc, ref and gen; codes only --------------------
CODE = {
    'unreachable': b'\x00', 'nop': b'\x01', 'block': b'\x02', 'loop': b'\x03', 'if': b'\x04', 'else': b'\x05',
    'end': b'\x0b', 'br': b'\x0c', 'br_if': b'\x0d', 'br_table': b'\x0e', 'return': b'\x0f', 'call': b'\x10',
    'call_indirect': b'\x11', 'drop': b'\x1a', 'select': b'\x1b', 'select_t': b'\x1c', 'local.get': b'\x20',
    'local.set': b'\x21', 'local.tee': b'\x22', 'global.get': b'\x23', 'global.set': b'\x24', 'table.get': b'\x25',
    'table.set': b'\x26', 'memory.size': b'\x3f', 'memory.grow': b'\x40', 'ref.null': b'\xd0', 'ref.is_null': b'\xd1',
    'ref.func': b'\xd2', 'memory.init': _fc(8), 'data.drop': _fc(9), 'memory.copy': _fc(10), 'memory.fill': _fc(11),
    'table.init': _fc(12), 'elem.drop': _fc(13), 'table.copy': _fc(14), 'table.grow': _fc(15), 'table.size': _fc(16),
    'table.fill': _fc(17),
}
GROUPS = {}
for _o in OPS.values():
    GROUPS.setdefault(_o.group, []).append(_o)
