"""Test builders on top of gen/diff."""
import hashlib

from . import diff, gen
from .runner import Test


def h64(b):
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), 'little')


def gen_test(name, prof, n, nontrivial, small=400, big=2500, ncalls=4, fuel=20000, **kw):
    """nontrivial: callable(Pair) -> bool"""
    def run(b, ctx):
        case = gen.make(b, prof, ncalls)
        p = diff.run(case, ctx, fuel, **kw)
        for k in p.ref.stat:
            ctx.tag('executed ' + k)
        if p.ok and nontrivial(p):
            ctx.good(h=h64(b))
    return Test(name, run, strategy=lambda: gen.strategy(small, big), n=n,
                show=lambda b: f'bytes {b.hex()}\n' + repr(gen.make(b, prof, ncalls)))
