"""Reference semantics of numeric instructions on bit patterns (WebAssembly 2.0, section 4.3), with exact rational
arithmetic for floats.  Values: unsigned ints holding the bit pattern.  A float result that the specification leaves
open is a Nan marker; a vector containing such lanes is a Lanes object."""
from fractions import Fraction
from math import isqrt

from . import ops


class Trap(Exception):
    pass


class Nan:
    """kind 'c': canonical NaN, either sign; kind 'a': any quiet NaN."""
    __slots__ = ('w', 'kind')

    def __init__(self, w, kind):
        self.w, self.kind = w, kind

    def __repr__(self):
        return f'nan{self.w}:{"canonical" if self.kind == "c" else "arithmetic"}'

    def concrete(self):
        return FMT[self.w].qnan

    def match(self, bits):
        f = FMT[self.w]
        if self.kind == 'c':
            return bits & ~f.sign == f.qnan
        return bits & f.qnan == f.qnan


class Lanes:
    __slots__ = ('w', 'l')

    def __init__(self, w, l):
        self.w, self.l = w, l

    def __repr__(self):
        return f'lanes{self.w}:{[x if isinstance(x, Nan) else hex(x) for x in self.l]}'

    def concrete(self):
        return join([x.concrete() if isinstance(x, Nan) else x for x in self.l], self.w)

    def match(self, bits):
        return all(match(e, x) for e, x in zip(self.l, split(bits, self.w)))


def match(spec, bits):
    if isinstance(spec, (Nan, Lanes)):
        return spec.match(bits)
    return spec == bits


def concrete(spec):
    return spec.concrete() if isinstance(spec, (Nan, Lanes)) else spec


class Fmt:
    def __init__(self, w, man):
        self.w, self.man = w, man
        self.ebits = w - 1 - man
        self.bias = (1 << (self.ebits - 1)) - 1
        self.emask = (1 << self.ebits) - 1
        self.mmask = (1 << man) - 1
        self.sign = 1 << (w - 1)
        self.inf = self.emask << man
        self.qnan = self.inf | 1 << (man - 1)


FMT = {32: Fmt(32, 23), 64: Fmt(64, 52)}
MASK = {n: (1 << n) - 1 for n in (8, 16, 32, 64, 128)}


def s(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def split(v, w):
    m = MASK[w]
    return [(v >> i) & m for i in range(0, 128, w)]


def join(l, w):
    v = 0
    for i, x in enumerate(l):
        v |= (x & MASK[w]) << (i * w)
    return v


def isnan(x, w):
    f = FMT[w]
    return x & ~f.sign > f.inf


def isinf(x, w):
    f = FMT[w]
    return x & ~f.sign == f.inf


def neg(x, w):
    return bool(x >> (w - 1))


def frac(x, w):
    f = FMT[w]
    e = (x >> f.man) & f.emask
    m = x & f.mmask
    if e == 0:
        v = Fraction(m) * Fraction(2) ** (1 - f.bias - f.man)
    else:
        v = Fraction(m | 1 << f.man) * Fraction(2) ** (e - f.bias - f.man)
    return -v if neg(x, w) else v


def rne(q):
    """Round a non-negative Fraction to the nearest integer, ties to even."""
    n, r = divmod(q.numerator, q.denominator)
    r2 = 2 * r
    if r2 > q.denominator or (r2 == q.denominator and n & 1):
        n += 1
    return n


def rnd(v, w, zero_neg=False):
    """Correctly rounded float bits of a Fraction (ties to even); zero_neg gives the sign of a zero result."""
    f = FMT[w]
    if v == 0:
        return f.sign if zero_neg else 0
    sg = f.sign if v < 0 else 0
    v = abs(v)
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if Fraction(2) ** e > v:
        e -= 1
    e = max(e, 1 - f.bias)
    q = rne(v / Fraction(2) ** (e - f.man))
    if q >> (f.man + 1):
        q >>= 1
        e += 1
    if e > f.bias:
        return sg | f.inf
    if q >> f.man == 0:
        return sg | q            # subnormal (or zero)
    return sg | (e + f.bias) << f.man | (q & f.mmask)


def nan_of(w, *xs):
    """NaN propagation: canonical when every NaN operand is canonical, else arithmetic."""
    f = FMT[w]
    for x in xs:
        if isnan(x, w) and x & ~f.sign != f.qnan:
            return Nan(w, 'a')
    return Nan(w, 'c')


def fcmp(o, a, b, w):
    if isnan(a, w) or isnan(b, w):
        return int(o == 'ne')
    ka, kb = key(a, w), key(b, w)
    return int({'eq': ka == kb, 'ne': ka != kb, 'lt': ka < kb, 'gt': ka > kb, 'le': ka <= kb, 'ge': ka >= kb}[o])


def key(x, w):
    f = FMT[w]
    return -(x & ~f.sign) if neg(x, w) else x     # -0 and +0 both map to 0


def fun(o, a, w):
    f = FMT[w]
    if o == 'abs':
        return a & ~f.sign
    if o == 'neg':
        return a ^ f.sign
    if isnan(a, w):
        return nan_of(w, a)
    if o == 'sqrt':
        if a & ~f.sign == 0:
            return a
        if neg(a, w):
            return Nan(w, 'c')
        if isinf(a, w):
            return a
        v = frac(a, w)
        # v = n / 2^k exactly; make k even and n wide enough, then integer square root with a sticky bit
        n, k = v.numerator, v.denominator.bit_length() - 1
        if k & 1:
            n, k = n * 2, k + 1
        sh = max(0, 2 * (f.man + 6) - n.bit_length())
        sh += sh & 1
        n, k = n << sh, k + sh
        r = isqrt(n)
        r2 = 2 * r + (1 if r * r != n else 0)
        return rnd(Fraction(r2, 2) / Fraction(2) ** (k // 2), w)
    if isinf(a, w):
        return a
    v = frac(a, w)
    sg = a & f.sign
    n, d = abs(v).numerator, abs(v).denominator
    if o == 'trunc':
        q = n // d
    elif o == 'ceil':
        q = n // d if sg else -((-n) // d)
    elif o == 'floor':
        q = -((-n) // d) if sg else n // d
    else:
        assert o == 'nearest'
        q = rne(Fraction(n, d))
    return sg | rnd(Fraction(q), w)


def fbin(o, a, b, w):
    f = FMT[w]
    if o == 'copysign':
        return a & ~f.sign | b & f.sign
    if o == 'pmin':
        return b if fcmp('lt', b, a, w) else a
    if o == 'pmax':
        return b if fcmp('lt', a, b, w) else a
    if isnan(a, w) or isnan(b, w):
        return nan_of(w, a, b)
    if o in ('min', 'max'):
        ka, kb = key(a, w), key(b, w)
        if ka == kb:
            if ka == 0:
                return (a | b) if o == 'min' else (a & b)
            return a
        return a if (ka < kb) == (o == 'min') else b
    sa, sb = neg(a, w), neg(b, w)
    if o == 'sub':
        b, sb, o = b ^ f.sign, not sb, 'add'
    if o == 'add':
        if isinf(a, w) or isinf(b, w):
            if isinf(a, w) and isinf(b, w) and sa != sb:
                return Nan(w, 'c')
            return a if isinf(a, w) else b
        return rnd(frac(a, w) + frac(b, w), w, sa and sb)
    sg = f.sign if sa != sb else 0
    za, zb = a & ~f.sign == 0, b & ~f.sign == 0
    if o == 'mul':
        if isinf(a, w) or isinf(b, w):
            return Nan(w, 'c') if za or zb else sg | f.inf
        return rnd(frac(a, w) * frac(b, w), w, bool(sg))
    assert o == 'div'
    if isinf(a, w):
        return Nan(w, 'c') if isinf(b, w) else sg | f.inf
    if isinf(b, w):
        return sg
    if zb:
        return Nan(w, 'c') if za else sg | f.inf
    return rnd(frac(a, w) / frac(b, w), w, bool(sg))


def f2i(a, w, iw, signed, sat):
    lo, hi = (-(1 << (iw - 1)), (1 << (iw - 1)) - 1) if signed else (0, MASK[iw])
    if isnan(a, w):
        if sat:
            return 0
        raise Trap('nan to int')
    if isinf(a, w):
        if sat:
            return (lo if neg(a, w) else hi) & MASK[iw]
        raise Trap('inf to int')
    v = frac(a, w)
    t = abs(v).numerator // abs(v).denominator
    t = -t if v < 0 else t
    if lo <= t <= hi:
        return t & MASK[iw]
    if sat:
        return (lo if t < lo else hi) & MASK[iw]
    raise Trap('out of range')


def promote(a):
    if isnan(a, 32):
        return nan_conv(a, 32, 64)
    if isinf(a, 32):
        return FMT[64].inf | (FMT[64].sign if neg(a, 32) else 0)
    return rnd(frac(a, 32), 64, neg(a, 32))


def demote(a):
    if isnan(a, 64):
        return nan_conv(a, 64, 32)
    if isinf(a, 64):
        return FMT[32].inf | (FMT[32].sign if neg(a, 64) else 0)
    v = frac(a, 64)
    r = rnd(v, 32, neg(a, 64))
    return r


def nan_conv(a, w, w2):
    f = FMT[w]
    return Nan(w2, 'c' if a & ~f.sign == f.qnan else 'a')


def ibin(o, a, b, w):
    m = MASK[w]
    if o == 'add':
        return (a + b) & m
    if o == 'sub':
        return (a - b) & m
    if o == 'mul':
        return (a * b) & m
    if o in ('div_u', 'rem_u'):
        if b == 0:
            raise Trap('div by zero')
        return a // b if o == 'div_u' else a - (a // b) * b
    if o in ('div_s', 'rem_s'):
        if b == 0:
            raise Trap('div by zero')
        x, y = s(a, w), s(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if o == 'rem_s':
            return (x - q * y) & m
        if q > m >> 1:
            raise Trap('overflow')
        return q & m
    if o == 'and':
        return a & b
    if o == 'or':
        return a | b
    if o == 'xor':
        return a ^ b
    k = b % w
    if o == 'shl':
        return (a << k) & m
    if o == 'shr_u':
        return a >> k
    if o == 'shr_s':
        return (s(a, w) >> k) & m
    if o == 'rotl':
        return ((a << k) | (a >> (w - k))) & m
    if o == 'rotr':
        return ((a >> k) | (a << (w - k))) & m
    return icmp(o, a, b, w)


def icmp(o, a, b, w):
    if o.endswith('_s'):
        a, b = s(a, w), s(b, w)
    o = o[:2]
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[o])


def iun(o, a, w):
    if o == 'eqz':
        return int(a == 0)
    if o == 'clz':
        return w - a.bit_length()
    if o == 'ctz':
        return w if a == 0 else (a & -a).bit_length() - 1
    if o == 'popcnt':
        return bin(a).count('1')
    k = int(o[len('extend'):-2])
    assert o.startswith('extend') and o.endswith('_s')
    return s(a & MASK[k], k) & MASK[w]


CMPS = ('eq', 'ne', 'lt', 'gt', 'le', 'ge')


def scalar(name):
    """-> python function on bit patterns"""
    t, o = name.split('.')
    w = int(t[1:])
    n = len(ops.OPS[name].params)
    if name in ('i32.wrap_i64',):
        return lambda a: a & MASK[32]
    if name == 'i64.extend_i32_s':
        return lambda a: s(a, 32) & MASK[64]
    if name == 'i64.extend_i32_u' or 'reinterpret' in o:
        return lambda a: a
    if o.startswith('trunc_'):
        src = 32 if 'f32' in o else 64
        return lambda a: f2i(a, src, w, o.endswith('_s'), 'sat' in o)
    if o.startswith('convert_'):
        src = 32 if 'i32' in o else 64
        if o.endswith('_s'):
            return lambda a: rnd(Fraction(s(a, src)), w)
        return lambda a: rnd(Fraction(a), w)
    if o == 'demote_f64':
        return demote
    if o == 'promote_f32':
        return promote
    if t[0] == 'i':
        return (lambda a: iun(o, a, w)) if n == 1 else (lambda a, b: ibin(o, a, b, w))
    if n == 1:
        return lambda a: fun(o, a, w)
    if o in CMPS:
        return lambda a, b: fcmp(o, a, b, w)
    return lambda a, b: fbin(o, a, b, w)


def lanes(l, w):
    if any(isinstance(x, Nan) for x in l):
        return Lanes(w, l)
    return join(l, w)


def sats(v, w):
    return max(-(1 << (w - 1)), min(v, (1 << (w - 1)) - 1)) & MASK[w]


def satu(v, w):
    return max(0, min(v, MASK[w]))


def _ext(a, w, high, signed):
    l = split(a, w)
    l = l[len(l) // 2:] if high else l[:len(l) // 2]
    return [s(x, w) if signed else x for x in l]


def vector(name, imm):
    t, o = name.split('.')
    if t == 'v128':
        F = MASK[128]
        return {'not': lambda a: ~a & F, 'and': lambda a, b: a & b, 'andnot': lambda a, b: a & ~b & F,
                'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
                'bitselect': lambda a, b, c: (a & c) | (b & ~c & F), 'any_true': lambda a: int(a != 0)}[o]
    w, n = ops.SH[t]
    m = MASK[w]
    if o == 'shuffle':
        def f(a, b):
            l = split(a, 8) + split(b, 8)
            return join([l[i] for i in imm], 8)
        return f
    if o == 'swizzle':
        def f(a, b):
            l = split(a, 8)
            return join([l[i] if i < 16 else 0 for i in split(b, 8)], 8)
        return f
    if o == 'splat':
        return lambda x: join([x & m] * n, w)
    if o.startswith('extract_lane'):
        if o.endswith('_s'):
            return lambda a: s(split(a, w)[imm], w) & MASK[32]
        return lambda a: split(a, w)[imm]
    if o == 'replace_lane':
        def f(a, x):
            l = split(a, w)
            l[imm] = x & m
            return join(l, w)
        return f
    if o == 'all_true':
        return lambda a: int(all(split(a, w)))
    if o == 'bitmask':
        return lambda a: sum((x >> (w - 1)) << i for i, x in enumerate(split(a, w)))
    if o in ('shl', 'shr_s', 'shr_u'):
        return lambda a, k: join([ibin(o, x, k % w, w) for x in split(a, w)], w)
    if name == 'f32x4.demote_f64x2_zero':
        return lambda a: lanes([demote(x) for x in split(a, 64)] + [0, 0], 32)
    if name == 'f64x2.promote_low_f32x4':
        return lambda a: lanes([promote(x) for x in split(a, 32)[:2]], 64)
    if o.startswith('trunc_sat_f32x4'):
        return lambda a: join([f2i(x, 32, 32, o.endswith('_s'), True) for x in split(a, 32)], 32)
    if o.startswith('trunc_sat_f64x2'):
        return lambda a: join([f2i(x, 64, 32, '_s_' in o, True) for x in split(a, 64)] + [0, 0], 32)
    if o.startswith('convert_i32x4'):
        return lambda a: join([rnd(Fraction(s(x, 32) if o.endswith('_s') else x), 32) for x in split(a, 32)], 32)
    if o.startswith('convert_low_i32x4'):
        return lambda a: join([rnd(Fraction(s(x, 32) if o.endswith('_s') else x), 64) for x in split(a, 32)[:2]], 64)
    if o.startswith('narrow'):
        w2 = w * 2
        sat = sats if o.endswith('_s') else satu
        return lambda a, b: join([sat(s(x, w2), w) for x in split(a, w2) + split(b, w2)], w)
    if o.startswith('extend_'):
        return lambda a: join([x & m for x in _ext(a, w // 2, 'high' in o, o.endswith('_s'))], w)
    if o.startswith('extmul_'):
        hi, sg = 'high' in o, o.endswith('_s')
        return lambda a, b: join([(x * y) & m for x, y in zip(_ext(a, w // 2, hi, sg), _ext(b, w // 2, hi, sg))], w)
    if o.startswith('extadd_pairwise'):
        def f(a):
            l = [s(x, w // 2) if o.endswith('_s') else x for x in split(a, w // 2)]
            return join([(l[i] + l[i + 1]) & m for i in range(0, len(l), 2)], w)
        return f
    if o == 'dot_i16x8_s':
        def f(a, b):
            x, y = [s(e, 16) for e in split(a, 16)], [s(e, 16) for e in split(b, 16)]
            return join([(x[i] * y[i] + x[i + 1] * y[i + 1]) & m for i in range(0, 8, 2)], 32)
        return f
    if t[0] == 'f':
        if len(ops.OPS[name].params) == 1:
            return lambda a: lanes([fun(o, x, w) for x in split(a, w)], w)
        if o in CMPS:
            return lambda a, b: join([m * fcmp(o, x, y, w) for x, y in zip(split(a, w), split(b, w))], w)
        return lambda a, b: lanes([fbin(o, x, y, w) for x, y in zip(split(a, w), split(b, w))], w)
    # integer lanes
    if len(ops.OPS[name].params) == 1:
        g = {'abs': lambda x: abs(s(x, w)) & m, 'neg': lambda x: -x & m, 'popcnt': lambda x: bin(x).count('1')}[o]
        return lambda a: join([g(x) for x in split(a, w)], w)
    S = lambda x: s(x, w)
    g = {
        'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y,
        'add_sat_s': lambda x, y: sats(S(x) + S(y), w), 'add_sat_u': lambda x, y: satu(x + y, w),
        'sub_sat_s': lambda x, y: sats(S(x) - S(y), w), 'sub_sat_u': lambda x, y: satu(x - y, w),
        'min_s': lambda x, y: min(S(x), S(y)), 'min_u': min, 'max_s': lambda x, y: max(S(x), S(y)), 'max_u': max,
        'avgr_u': lambda x, y: (x + y + 1) // 2,
        'q15mulr_sat_s': lambda x, y: sats((S(x) * S(y) + 0x4000) >> 15, w),
    }.get(o) or (lambda x, y: m * icmp(o, x, y, w))
    return lambda a, b: join([g(x, y) & m for x, y in zip(split(a, w), split(b, w))], w)


_CACHE = {}


def sem(name, imm=None):
    k = (name, tuple(imm) if isinstance(imm, (list, bytes, tuple)) else imm)
    f = _CACHE.get(k)
    if f is None:
        g = ops.OPS[name].group
        f = _CACHE[k] = vector(name, imm) if g in ('vint', 'vfloat') else scalar(name)
    return f


