"""Generates C programs without undefined behaviour from a byte string (see gen.Src).  Every arithmetic operation goes
through a total helper; floats are made canonical before their bits become visible, because C leaves NaN bits open."""
from .gen import Src

INT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
FLT = ['f32', 'f64']
W = {t: int(t[1:]) for t in INT + FLT}
VEC = {'v16u8': ('u8', 16), 'v8i16': ('i16', 8), 'v4i32': ('i32', 4), 'v4u32': ('u32', 4), 'v2i64': ('i64', 2), 'v4f32': ('f32', 4),
       'v2f64': ('f64', 2)}

PRELUDE = r'''
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16;
typedef int i32; typedef unsigned int u32; typedef long long i64; typedef unsigned long long u64;
typedef float f32; typedef double f64;
typedef u8 v16u8 __attribute__((vector_size(16))); typedef i16 v8i16 __attribute__((vector_size(16)));
typedef i32 v4i32 __attribute__((vector_size(16))); typedef u32 v4u32 __attribute__((vector_size(16)));
typedef i64 v2i64 __attribute__((vector_size(16))); typedef f32 v4f32 __attribute__((vector_size(16)));
typedef f64 v2f64 __attribute__((vector_size(16))); typedef i8 v16i8 __attribute__((vector_size(16)));
#ifdef __wasm__
#define EXPORT(n) __attribute__((export_name(#n)))
__attribute__((import_module("env"), import_name("host"))) u64 host(u64, f64, i32);
void *memcpy(void *d, const void *s, __SIZE_TYPE__ n) { u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
void *memset(void *d, int c, __SIZE_TYPE__ n) { u8 *a = d; while (n--) *a++ = (u8)c; return d; }
void *memmove(void *d, const void *s, __SIZE_TYPE__ n) { u8 *a = d; const u8 *b = s;
  if (a <= b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
#else
#define EXPORT(n)
#include <string.h>
u64 host(u64, f64, i32);
#endif
static int fuel;
#define INTOPS(T, U) \
static inline T add_##T(T a, T b) { return (T)((U)a + (U)b); } \
static inline T sub_##T(T a, T b) { return (T)((U)a - (U)b); } \
static inline T mul_##T(T a, T b) { return (T)((U)a * (U)b); } \
static inline T and_##T(T a, T b) { return a & b; } \
static inline T or_##T(T a, T b) { return a | b; } \
static inline T xor_##T(T a, T b) { return a ^ b; } \
static inline T shl_##T(T a, T b) { return (T)((U)a << (b & (sizeof(T) * 8 - 1))); } \
static inline T shr_##T(T a, T b) { return (T)(a >> (b & (sizeof(T) * 8 - 1))); } \
static inline T div_##T(T a, T b) { return b == 0 ? a : (T)-1 < 0 && b == (T)-1 ? (T)(0 - (U)a) : (T)(a / b); } \
static inline T rem_##T(T a, T b) { return b == 0 ? a : (T)-1 < 0 && b == (T)-1 ? (T)0 : (T)(a % b); } \
static inline T min_##T(T a, T b) { return a < b ? a : b; } \
static inline T max_##T(T a, T b) { return a > b ? a : b; } \
static inline T neg_##T(T a) { return (T)(0 - (U)a); } \
static inline T not_##T(T a) { return (T)~a; } \
static inline T abs_##T(T a) { return a < 0 ? (T)(0 - (U)a) : a; } \
static inline T lnot_##T(T a) { return !a; } \
static inline T pop_##T(T a) { return (T)__builtin_popcountll((u64)a); } \
static inline T clz_##T(T a) { return a ? (T)(sizeof(T) == 8 ? __builtin_clzll((u64)a) : __builtin_clz((u32)a)) : (T)99; } \
static inline T ctz_##T(T a) { return a ? (T)(sizeof(T) == 8 ? __builtin_ctzll((u64)a) : __builtin_ctz((u32)a)) : (T)99; } \
static inline T swp_##T(T a) { return (T)(sizeof(T) == 8 ? __builtin_bswap64((u64)a) : __builtin_bswap32((u32)a)); } \
static inline T rot_##T(T a, T b) { u32 s = b & (sizeof(T) * 8 - 1); \
  return s && sizeof(T) >= 4 ? (T)((sizeof(T) == 8 ? (u64)a >> (64 - s) : (u64)((u32)a >> (32 - s))) | (u64)((U)a << s)) : a; } \
static inline T ld_##T(const u8 *p) { T x; memcpy(&x, p, sizeof x); return x; } \
static inline void st_##T(u8 *p, T x) { memcpy(p, &x, sizeof x); } \
static inline T from_f32_##T(f32 x) { const f32 lo = (T)-1 < 0 ? -(f32)((u64)1 << (sizeof(T) * 8 - 1)) : 0; \
  const f32 hi = (f32)((u64)1 << (sizeof(T) * 8 - 1)) * ((T)-1 < 0 ? 1.0f : 2.0f); return x >= lo && x < hi ? (T)x : (T)77; } \
static inline T from_f64_##T(f64 x) { const f64 lo = (T)-1 < 0 ? -(f64)((u64)1 << (sizeof(T) * 8 - 1)) : 0; \
  const f64 hi = (f64)((u64)1 << (sizeof(T) * 8 - 1)) * ((T)-1 < 0 ? 1.0 : 2.0); return x >= lo && x < hi ? (T)x : (T)77; } \
static inline u64 bits_##T(T x) { return (u64)x; }
INTOPS(i8, u32) INTOPS(u8, u32) INTOPS(i16, u32) INTOPS(u16, u32) INTOPS(i32, u32) INTOPS(u32, u32) INTOPS(i64, u64) INTOPS(u64, u64)
#define FLTOPS(T, U, S, NAN_) \
static inline T add_##T(T a, T b) { return a + b; } \
static inline T sub_##T(T a, T b) { return a - b; } \
static inline T mul_##T(T a, T b) { return a * b; } \
static inline T div_##T(T a, T b) { return a / b; } \
static inline T min_##T(T a, T b) { return a < b ? a : b; } \
static inline T max_##T(T a, T b) { return a > b ? a : b; } \
static inline T neg_##T(T a) { return -a; } \
static inline T abs_##T(T a) { return __builtin_fabs##S(a); } \
static inline T sqrt_##T(T a) { return __builtin_sqrt##S(__builtin_fabs##S(a)); } \
static inline T floor_##T(T a) { return __builtin_floor##S(a); } \
static inline T ceil_##T(T a) { return __builtin_ceil##S(a); } \
static inline T trunc_##T(T a) { return __builtin_trunc##S(a); } \
static inline T rint_##T(T a) { return __builtin_rint##S(a); } \
static inline T cps_##T(T a, T b) { return b != b ? a : __builtin_copysign##S(a, b); } \
static inline u64 bits_##T(T x) { U u; if (x != x) return NAN_; memcpy(&u, &x, sizeof u); return u; } \
static inline T ld_##T(const u8 *p) { T x; memcpy(&x, p, sizeof x); return x; } \
static inline void st_##T(u8 *p, T x) { U u = (U)bits_##T(x); memcpy(p, &u, sizeof u); }
FLTOPS(f32, u32, f, 0x7fc00000u) FLTOPS(f64, u64, , 0x7ff8000000000000ull)
static inline u64 mix(u64 h, u64 x) { h ^= x; h *= 0x100000001b3ull; h ^= h >> 29; return h; }
'''

CONST = {8: [0, 1, 2, 3, 0x7f, 0x80, 0xff], 16: [0, 1, 2, 255, 0x7fff, 0x8000, 0xffff], 32: [0, 1, 2, 10, 255, 65535, 0x7fffffff, 0x80000000,
         0xffffffff], 64: [0, 1, 2, 100, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]}
FCONST = ['0.0', '1.0', '-1.0', '0.5', '-0.0', '3.25', '1e10', '-1e-3', '2147483648.0', '16777217.0', '1e38', '-1e30', '65504.0', '0.1']


class C:
    def __init__(self, b, simd=None):
        self.s = s = Src(b)
        self.out = []
        self.nloc = 0
        self.funcs = []            # (name, ret, params, recursive)
        self.simd = s.chance(5) if simd is None else simd
        self.arr = {}
        self.uses = set()
        self.globals()
        self.statics()
        for k in range(1 + s.pick(5)):
            self.func(k)
        self.main()
        self.text = PRELUDE + '\n'.join(self.out) + '\n'

    # -- declarations --------------------------------------------------------------------------------------------------
    def const(self, t):
        s = self.s
        if t in FLT:
            c = s.of(FCONST)
            return f'{c}{"f" if t == "f32" else ""}'
        w = W[t]
        k = s.pick(3)
        v = s.pick(16) if k == 0 else s.of(CONST[w]) if k == 1 else s.bits(w)
        suf = {'u64': 'ull', 'i64': 'ull'}.get(t, 'u')
        return f'({t}){v}{suf}'

    def globals(self):
        s, o = self.s, self.out
        for t in INT + FLT:
            n = 16
            init = ', '.join(self.const(t) for _ in range(s.pick(8)))
            o.append(f'static {t} g_{t}[{n}]' + (f' = {{ {init} }};' if init else ';'))
            o.append(f'static {t} *p_{t}[4] = {{ g_{t}, g_{t} + {s.pick(16)}, &g_{t}[{s.pick(16)}], g_{t} + 15 }};')
        if self.simd:
            for v, (t, n) in VEC.items():
                o.append(f'static {v} w_{v}[4] = {{ {{ {", ".join(self.const(t) for _ in range(n))} }}, {{ {self.const(t)} }} }};')
        o.append('static u8 mem[272] = "' + ''.join(f'\\{s.pick(256):03o}' for _ in range(s.pick(40))) + '";')
        # structures
        self.fields = []
        fs = []
        for k in range(2 + s.pick(5)):
            t = s.of(INT + FLT)
            self.fields.append((f'm{k}', t))
            if t[0] != 'f' and s.chance(5):
                fs.append(f'{t} m{k} : {1 + s.pick(W[t])};')
            else:
                fs.append(f'{t} m{k};')
        o.append(f'struct S {{ {" ".join(fs)} }};')
        o.append(f'struct N {{ u8 tag; struct S in[2]; union {{ u32 a; u16 b[2]; u8 c[4]; }} u; struct N *next; {s.of(INT + FLT)} last; }};')
        o.append('static struct S g_s[3];')
        o.append('static struct N g_n[3] = { { 1, { { 1 } }, { 7 }, &g_n[1], 3 }, { 2, { { 2 } }, { 8 }, &g_n[2], 4 }, { 3, { { 3 } }, { 9 }, &g_n[0], 5 } };')
        o.append('static struct P1 { f64 v; } g_one;')

    def statics(self):
        # sparse helper exercised by calls: variable arguments and aggregates by value
        self.out.append('''
#include <stdarg.h>
static i64 vsum(int n, ...) { va_list ap; i64 r = 0; va_start(ap, n);
  for (int i = 0; i < n; i++) { switch (i % 3) { case 0: r = (i64)((u64)r * 31 + (u64)va_arg(ap, int)); break;
    case 1: r = (i64)((u64)r ^ bits_f64(va_arg(ap, f64))); break; default: r = (i64)((u64)r + (u64)va_arg(ap, i64)); } }
  va_end(ap); return r; }
static struct S sswap(struct S a, struct S *b) { struct S t = *b; *b = a; return t; }
static struct P1 pone(struct P1 a, int k) { a.v = a.v * k + 1; return a; }
static u32 fact(u32 n) { return n < 2 ? 1 : n * fact(n - 1); }
''')

    # -- expressions ---------------------------------------------------------------------------------------------------
    def idx(self, d):
        return f'({self.expr(self.s.of(["i32", "u32", "u8", "i64", "i16"]), d - 1)} & 15)' if d > 0 and self.s.chance(6) else str(self.s.pick(16))

    def lval(self, t, d):
        s = self.s
        loc = [n for n, x in self.loc if x == t]
        k = s.pick(9)
        if k < 4 and loc:
            return s.of(loc)
        if k < 6:
            return f'g_{t}[{self.idx(d)}]'
        if k == 6:
            return f'(*p_{t}[{self.idx(d)} & 3])'
        fs = [n for n, x in self.fields if x == t]
        if fs and k == 7:
            return f'g_s[{s.pick(3)}].{s.of(fs)}'
        if fs:
            return f'g_n[{s.pick(3)}].{s.of(["", "next->", "next->next->"]) if s.pick(2) else ""}in[{s.pick(2)}].{s.of(fs)}'
        return s.of(loc) if loc else f'g_{t}[{s.pick(16)}]'

    def cond(self, d):
        s = self.s
        if d <= 0:
            return self.expr(s.of(INT), 0)
        k = s.pick(5)
        if k < 3:
            t = s.of(INT + FLT)
            return f'({self.expr(t, d - 1)} {s.of(["<", "<=", ">", ">=", "==", "!="])} {self.expr(t, d - 1)})'
        if k == 3:
            return f'({self.cond(d - 1)} {s.of(["&&", "||"])} {self.cond(d - 1)})'
        return f'!{self.cond(d - 1)}'

    def expr(self, t, d):
        s = self.s
        if t in VEC:
            return self.vexpr(t, d)
        if s.left == 0 or d <= 0:
            return self.const(t) if s.pick(2) else self.lval(t, 0)
        k = s.pick(20)
        if k < 4:
            return self.lval(t, d)
        if k == 4:
            return self.const(t)
        if k < 10:
            if t in FLT:
                op = s.of(['add', 'sub', 'mul', 'div', 'min', 'max', 'cps', 'add', 'mul'])
            else:
                op = s.of(['add', 'sub', 'mul', 'div', 'rem', 'and', 'or', 'xor', 'shl', 'shr', 'min', 'max', 'rot'])
            return f'{op}_{t}({self.expr(t, d - 1)}, {self.expr(t, d - 1)})'
        if k < 12:
            op = s.of(['neg', 'abs', 'sqrt', 'floor', 'ceil', 'trunc', 'rint'] if t in FLT else ['neg', 'not', 'abs', 'lnot', 'pop', 'clz',
                                                                                              'ctz', 'swp'])
            return f'{op}_{t}({self.expr(t, d - 1)})'
        if k < 15:
            o = s.of(INT + FLT)
            e = self.expr(o, d - 1)
            if o in FLT and t in INT:
                return f'from_{o}_{t}({e})'
            return f'({t})({e})'
        if k == 15:
            return f'({self.cond(d - 1)} ? {self.expr(t, d - 1)} : {self.expr(t, d - 1)})'
        if k == 16:
            if t in INT and s.chance(8):
                return f'({t}){self.cond(d - 1)}'
            return f'ld_{t}(mem + ({self.expr("u32", d - 1)} & 255))'
        if k == 17:
            return self.call(t, d)
        if k == 18 and self.simd:
            v = s.of([v for v in VEC if VEC[v][0] == t] or ['v4i32'])
            e = f'({self.vexpr(v, d - 1)})[{s.pick(VEC[v][1])}]'
            return e if VEC[v][0] == t else f'({t}){e}'
        if k == 19:
            if s.pick(4) == 0:
                r = s.of(['(i64)host((u64)%s, %s, (i32)%s)', 'vsum(3, (int)%s, (f64)%s, (i64)%s)', '(i64)fact((u32)%s & 15)'])
                a = [self.expr('u64', d - 2), self.expr('f64', d - 2), self.expr('i32', d - 2)][:r.count('%s')]
                return f'({t})' + r % tuple(a)
        return self.lval(t, d)

    def call(self, t, d):
        s = self.s
        if not self.funcs:
            return self.const(t)
        k = s.pick(len(self.funcs) + 1)
        if k == len(self.funcs):      # through a table of functions with one signature
            sig = s.of([f[1:3] for f in self.funcs])
            same = [f[0] for f in self.funcs if f[1:3] == sig]
            ps = ', '.join(sig[1])
            args = ', '.join(self.expr(p, d - 1) for p in sig[1])
            self.tabs[sig] = f'tab{len(self.tabs)}' if sig not in self.tabs else self.tabs[sig]
            tab = f'(({sig[0]} (*const volatile *)({ps}))(void *)0)'
            tab = f'(({sig[0]} (*[])({ps})){{ {", ".join(same)}, {same[0]} }})[{self.idx(d)} % {len(same) + 1}]'
            e = f'{tab}({args})'
            r = sig[0]
        else:
            f = self.funcs[k]
            e = f'{f[0]}({", ".join(self.expr(p, d - 1) for p in f[2])})'
            r = f[1]
        if r in FLT and t in INT:
            return f'from_{r}_{t}({e})'
        return f'({t})({e})' if r != t else e

    def vexpr(self, v, d):
        s = self.s
        t, n = VEC[v]
        if d <= 0 or s.left == 0:
            return f'w_{v}[{s.pick(4)}]'
        k = s.pick(8)
        if k < 2:
            return f'w_{v}[{self.idx(d)} & 3]'
        if k < 5:
            ops = ['+', '-', '*'] + (['/'] if t in FLT else ['&', '|', '^'])
            if t[0] == 'i' and k < 5:       # signed lanes wrap through the unsigned type of the same shape
                u = {'v8i16': None, 'v4i32': 'v4u32', 'v2i64': None}[v]
                if u is None:
                    ops = ['&', '|', '^']
                else:
                    return f'(({v})(({u}){self.vexpr(v, d - 1)} {s.of(["+", "-", "*"])} ({u}){self.vexpr(v, d - 1)}))'
            return f'({self.vexpr(v, d - 1)} {s.of(ops)} {self.vexpr(v, d - 1)})'
        if k == 5:
            m = {'v16u8': 'v16i8', 'v4f32': 'v4i32', 'v2f64': 'v2i64', 'v4u32': 'v4i32'}.get(v, v)
            a, b = self.vexpr(v, d - 1), self.vexpr(v, d - 1)
            return f'(({v})(({m})({a} {s.of(["<", ">", "==", "<="])} {b}) & ({m}){self.const_vec(m)}))' if t not in FLT else \
                f'({v}){{ {", ".join(self.expr(t, d - 2) for _ in range(n))} }}'
        if k == 6:
            if v in ('v4u32', 'v16u8'):
                return f'({self.vexpr(v, d - 1)} {s.of(["<<", ">>"])} {s.pick(8)})'
            if v == 'v4f32':
                return f'__builtin_convertvector({self.vexpr("v4i32", d - 1)}, v4f32)'
            if v == 'v2i64':
                return f'((v2i64){self.vexpr("v4i32", d - 1)})'
            if v == 'v8i16':
                return f'((v8i16){self.vexpr("v16u8", d - 1)})'
            return f'(-{self.vexpr(v, d - 1)})' if t in FLT else f'(~{self.vexpr(v, d - 1)})'
        idx = ', '.join(str(s.pick(2 * n)) for _ in range(n))
        return f'__builtin_shufflevector({self.vexpr(v, d - 1)}, {self.vexpr(v, d - 1)}, {idx})'

    def const_vec(self, m):
        return f'w_{m}[{self.s.pick(4)}]' if m in VEC else f'w_v16u8[{self.s.pick(4)}]'

    # -- statements ----------------------------------------------------------------------------------------------------
    def block(self, d, loop):
        return '{ ' + self.scoped(d, loop, 1 + self.s.pick(4)) + ' }'

    def scoped(self, d, loop, n):
        nloc, nlab = len(self.loc), len(self.lab)
        b = ' '.join(self.stmt(d, loop) for _ in range(n))
        del self.loc[nloc:], self.lab[nlab:]      # no jump into a block: it would skip initialisations
        return b

    def stmt(self, d, loop):
        s = self.s
        if s.left == 0:
            return ';'
        k = s.pick(24)
        t = s.of(INT + FLT)
        e = 3 if d > 1 else 2
        if k < 5:
            return f'{self.lval(t, 1)} = {self.expr(t, e)};'
        if k == 5:
            n = f'l{self.nloc}'
            self.nloc += 1
            x = self.expr(t, e)
            self.loc.append((n, t))
            return f'{s.of(["", "", "volatile "])}{t} {n} = {x};'
        if k == 6:
            if t in INT:
                l = self.lval(t, 1)
                if s.pick(2) and W[t] < 32:
                    return f'{l}{s.of(["++", "--"])};'
                return f'{l} {s.of(["|=", "&=", "^="])} {self.expr(t, e)};'
            return f'{self.lval(t, 0)} {s.of(["+=", "-=", "*=", "/="])} {self.expr(t, e)};'
        if k == 7:
            return f'st_{t}(mem + ({self.expr("u32", 2)} & 255), {self.expr(t, e)});'
        if d <= 0 and k < 17:
            return f'{self.lval(t, 1)} = {self.expr(t, 2)};'
        if k in (8, 9):
            return f'if ({self.cond(2)}) {self.block(d - 1, loop)}' + (f' else {self.block(d - 1, loop)}' if s.pick(2) else '')
        if k in (10, 11):
            n = f'l{self.nloc}'
            self.nloc += 1
            it = s.of(['i32', 'u32', 'u8', 'i64', 'i16', 'u64'])
            b = self.block(d - 1, True)
            use = f'g_u32[{s.pick(16)}] = add_u32(g_u32[{s.pick(16)}], (u32){n});'
            return f'for ({it} {n} = {s.pick(4)}; {n} < {1 + s.pick(20)} && fuel-- > 0; {n} += {1 + s.pick(3)}) {{ {use} {b} }}'
        if k == 12:
            return f'while ({self.cond(2)} && fuel-- > 0) {self.block(d - 1, True)}'
        if k == 13:
            return f'do {self.block(d - 1, True)} while (fuel-- > 0 && {self.cond(2)});'
        if k in (14, 15):
            sel = self.expr(s.of(['i32', 'u8', 'i64', 'u32', 'i16']), 2)
            dense = s.pick(3)
            m = s.of([3, 7, 15])
            cs, used = [], set()
            for c in range(1 + s.pick(8)):
                v = c if dense else s.pick(64) * 37 % 200
                if v in used:
                    continue
                used.add(v)
                b = self.scoped(d - 2, False, 1 + s.pick(2))
                cs.append(f'case {v}: {{ {b} }} {s.of(["break;", "break;", "break;", ""])}')
            if s.pick(2):
                cs.append(f'default: {{ {self.scoped(d - 2, False, 1)} }}')
            return f'switch ({sel} & {m if dense else 255}) {{ {" ".join(cs)} ; }}'
        if k == 16:
            if loop:
                return f'if ({self.cond(2)}) {s.of(["break", "continue"])};'
            if self.lab and s.pick(2):
                return f'if (fuel-- > 0 && {self.cond(2)}) goto {s.of(self.lab)};'
            return f'if ({self.cond(1)}) return {self.ret(self.rett)};'
        if k == 17:
            a, b, n = (self.expr('u32', 1) for _ in range(3))
            return s.of([f'memmove(mem + ({a} & 127), mem + ({b} & 127), {n} & 63);', f'memset(mem + ({a} & 127), (int){b}, {n} & 63);',
                         f'memcpy(mem + ({a} & 63), mem + 128 + ({b} & 63), {n} & 63);', f'g_s[{s.pick(3)}] = g_n[{s.pick(3)}].in[{s.pick(2)}];',
                         f'g_n[{s.pick(3)}].in[{s.pick(2)}] = sswap(g_s[{s.pick(3)}], &g_n[{s.pick(3)}].in[{s.pick(2)}]);',
                         f'g_one = pone(g_one, (i32){a} & 3);', f'g_n[{s.pick(3)}].u.a = {a};', f'g_n[{s.pick(3)}].u.b[{s.pick(2)}] = (u16){a};',
                         f'g_n[{s.pick(3)}].u.c[{a} & 3] = (u8){b};', f'g_n[{s.pick(3)}].next = &g_n[{a} % 3];'])
        if k == 18:
            return f'p_{t}[{s.pick(4)}] = &g_{t}[{self.idx(2)}];'
        if k == 19:
            # loops a compiler can vectorise or turn into bulk operations
            o = s.of(INT)
            if t in FLT:
                o = t
                op = s.of(['add', 'sub', 'mul', 'min', 'max'])
            else:
                op = s.of(['add', 'sub', 'mul', 'and', 'or', 'xor', 'min', 'max', 'shl'])
            f = s.of(['{a}[i] = {op}_{t}({b}[i], {c});', '{a}[i] = {b}[15 - i];', '{a}[i] = {op}_{t}({a}[i], {b}[i]);', '{a}[i] = ({t}){c};',
                      '{a}[i] = ({t}){o}_[i];', '{a}[i] = {b}[i] > {a}[i] ? {b}[i] : {c};'])
            f = f.format(a=f'g_{t}', b=f'g_{t}', c=self.lval(t, 0), op=op, t=t, o=f'g_{o}').replace(f'g_{o}_', f'g_{o}')
            return f'for (int i = 0; i < 16; i++) {f}'
        if k == 20:
            o = s.of(INT)
            return f'{{ {t} r = 0; for (int i = 0; i < 16; i++) r = {s.of(["add", "max", "min"])}_{t}(r, ({t})g_{o if t in INT else t}[i]); {self.lval(t, 0)} = r; }}'
        if k == 21 and self.simd:
            v = s.of(list(VEC))
            if s.pick(3) == 0:
                return f'w_{v}[{s.pick(4)}][{s.pick(VEC[v][1])}] = {self.expr(VEC[v][0], 2)};'
            return f'w_{v}[{self.idx(1)} & 3] = {self.vexpr(v, e)};'
        if k == 22:
            n = f'l{self.nloc}'
            self.nloc += 1
            return f'{{ {t} {n}[1 + ({self.idx(1)})]; {n}[0] = {self.expr(t, 1)}; for (u32 i = 1; i < sizeof {n} / sizeof {n}[0]; i++) ' \
                   f'{n}[i] = add_{t}({n}[i - 1], ({t})i); {self.lval(t, 0)} = {n}[sizeof {n} / sizeof {n}[0] - 1]; }}'
        if self.lab:
            return ';'
        n = f'L{self.nloc}'
        self.nloc += 1
        self.lab.append(n)
        return f'{n}: ; {self.lval(t, 1)} = {self.expr(t, 2)};'

    def ret(self, t):
        return self.expr(t, 2)

    def func(self, k):
        s = self.s
        rt = s.of(['u64'] + INT + FLT)
        ps = tuple(s.of(INT + FLT) for _ in range(s.pick(5)))
        self.loc = [(f'a{i}', t) for i, t in enumerate(ps)]
        self.lab, self.tabs = [], {}
        self.rett = rt
        # local labels must not jump into the scope of a variable-length array; those live in their own braces
        body = [f'if (--fuel < 0) return {self.const(rt)};']
        if s.chance(5):
            args = ', '.join(self.expr(p, 1) for p in ps)
            body.append(f'if (fuel > 100 && {self.cond(1)}) {{ fuel -= 50; return f{k}({args}); }}' if s.pick(2) else
                        f'if (fuel > 100) {{ fuel -= 50; g_{rt}[3] = f{k}({args}); }}')
        for _ in range(2 + s.pick(6)):
            if s.left:
                body.append(self.stmt(3, False))
        attr = s.of(['', '', '__attribute__((noinline)) '])
        plist = ', '.join(f'{t} a{i}' for i, t in enumerate(ps)) or 'void'
        self.out.append(f'static {attr}{rt} f{k}({plist}) {{\n  ' + '\n  '.join(body) + f'\n  return {self.ret(rt)};\n}}')
        self.funcs.append((f'f{k}', rt, ps))

    def main(self):
        s, o = self.s, self.out
        self.loc = [('x', 'u64'), ('y', 'i32'), ('z', 'f64')]
        self.lab, self.tabs = ['none'], {}
        cs = []
        for k, f in enumerate(self.funcs):
            args = ', '.join(self.expr(p, 1) for p in f[2])
            cs.append(f'case {k}: return bits_{f[1]}({f[0]}({args}));')
        o.append('EXPORT(run) u64 run(i32 sel, u64 x, i32 y, f64 z) { fuel = 600; switch (sel) { ' + ' '.join(cs) + ' } return 0; }')
        parts = []
        for t in INT + FLT:
            parts.append(f'for (int i = 0; i < 16; i++) h = mix(h, bits_{t}(g_{t}[i])); for (int i = 0; i < 4; i++) '
                         f'h = mix(h, (u64)(p_{t}[i] - g_{t}));')
        parts.append('for (int i = 0; i < 272; i++) h = mix(h, mem[i]);')
        fs = ' '.join(f'h = mix(h, bits_{t}(X.{n}));' for n, t in self.fields)
        parts.append('for (int i = 0; i < 3; i++) { ' + fs.replace('X', 'g_s[i]') + ' h = mix(h, g_n[i].tag); h = mix(h, g_n[i].u.a); '
                     'h = mix(h, (u64)(g_n[i].next - g_n)); for (int j = 0; j < 2; j++) { ' + fs.replace('X', 'g_n[i].in[j]') + ' } }')
        parts.append('h = mix(h, bits_f64(g_one.v));')
        if self.simd:
            for v, (t, n) in VEC.items():
                parts.append(f'for (int i = 0; i < 4; i++) for (int j = 0; j < {n}; j++) h = mix(h, bits_{t}(w_{v}[i][j]));')
        for k, p in enumerate(parts):
            o.append(f'static __attribute__((noinline)) u64 d{k}(void) {{ u64 h = {k + 1}; {p} return h; }}')
        o.append('EXPORT(digest) u64 digest(i32 k) { switch (k) { ' +
                 ' '.join(f'case {k}: return d{k}();' for k in range(len(parts))) + ' } return 0; }')
        self.ndig = len(parts)


NATIVE = r'''
#include <stdio.h>
#include <stdlib.h>
u64 host(u64 a, f64 b, i32 c) { printf("H %llu %llu %d\n", a, bits_f64(b), c); return a * 3 + (u64)(u32)c; }
int main(int argc, char **argv) {
  for (int i = 1; i + 3 < argc; i += 4) {
    u64 bz = strtoull(argv[i + 3], 0, 10); f64 z; memcpy(&z, &bz, 8);
    u64 r = run(atoi(argv[i]), strtoull(argv[i + 1], 0, 10), (i32)strtoul(argv[i + 2], 0, 10), z);
    printf("R %llu\n", r);
    for (int k = 0; k < NDIG; k++) printf("D %llu\n", digest(k));
  }
  return 0;
}
'''
