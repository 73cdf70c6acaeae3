"""C03: conversions."""
from .. import numlib as L, ops

ID = 'C03'
RULE = L.RULE
ASSUME = ['operands enter as ValInst parameters, constants, globals, locals and memory loads']
NAMES = [o.name for o in ops.GROUPS['conv']]
VS = L.variants(NAMES)


FROMINT = [v for v in VS if '.convert_i' in v[0]]


def halfway(tier, shard, nshards):
    # every conversion that rounds x every distance from a tie: just below, on it, just above it by any single bit
    k = 0
    for v in FROMINT:
        for a in sorted(set(L.halfways(L.num_w(ops.OPS[v[0]].params[0])))):
            k += 1
            if k % nshards == shard and (tier != 'quick' or k // nshards % 3 == 0):
                yield v, (a,)


def tests(tier):
    return [L.case_test('halfway', VS, halfway),
            L.grid_test('grid', VS, lambda v: [L.SPEC[p] for p in ops.OPS[v[0]].params], (1500, 10000)),
            L.random_test('random', VS, (12000, 800000)),
            L.const_test('context', NAMES, (1200, 40000))]
