"""C02: scalar floating-point instructions."""
from .. import numlib as L, ops

ID = 'C02'
RULE = L.RULE
ASSUME = ['operands enter as ValInst parameters, constants, globals, locals and memory loads']
NAMES = [o.name for o in ops.GROUPS['fscalar']]
VS = L.variants(NAMES)


def tests(tier):
    return [L.grid_test('grid', VS, lambda v: [L.SPEC[p] for p in ops.OPS[v[0]].params], (1500, 10000)),
            L.random_test('random', VS, (12000, 800000)),
            L.const_test('context', NAMES, (1200, 40000))]
