"""C04: SIMD integer, lane and bitwise instructions."""
import random

from .. import num, numlib as L, ops

ID = 'C04'
RULE = L.RULE
ASSUME = ['operands enter as ValInst parameters, constants, globals, locals and memory loads']
GROUP = 'vint'


def pools_of(group):
    def pools(v):
        """operand pools: vectors of special lanes, at the widths the instruction's name mentions"""
        r = random.Random('pool' + v[0])
        out = []
        for p in ops.OPS[v[0]].params:
            if p != 'v128':
                out.append(L.SPEC[p] if 'sh' not in v[0] else list(range(0, 70)) + L.SPEC[p])
                continue
            ws = [(int(w), L.SPEC['f' + w]) for w in ('32', '64') if 'f' + w in v[0]]
            ws += [(w, L.LANE[w]) for t, w in (('i8x16', 8), ('i16x8', 16), ('i32x4', 32), ('i64x2', 64)) if t in v[0]]
            ws = ws or [(w, L.LANE[w]) for w in (8, 64)]
            pool = []
            for w, sp in ws:
                n = 128 // w
                pool += [num.join([x] * n, w) for x in sp]
                pool += [num.join([r.choice(sp) for _ in range(n)], w) for _ in range(60)]
            pool += [r.getrandbits(128) for _ in range(20)]
            out.append(pool)
        return out
    return pools


def make(group, q):
    names = [o.name for o in ops.GROUPS[group]]
    vs = L.variants(names)
    return [L.grid_test('grid', vs, pools_of(group), q[0]), L.random_test('random', vs, q[1]),
            L.const_test('context', names, q[2])]


def tests(tier):
    return make(GROUP, ((130, 3000), (16000, 800000), (1600, 40000)))
