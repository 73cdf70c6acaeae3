from .gen import Profile

P = {
    'ctl': Profile(),
    'simd': Profile(simd=True, groups=None, ctl=2, opw=9, memw=4),
    'call': Profile(calls=True, table=True, indirect=True, hosts=3, maxfuncs=6, traps=3, start=True, elems=0),
    'mem': Profile(simd=True, bulk=True, datas=4, memw=6, ctl=2, traps=2, opw=3, calls=False),
    'ref': Profile(refs=True, table=True, indirect=True, refw=4, elems=4, bulk=True, datas=2, simd=False, traps=2),
    'all': Profile(refs=True, table=True, indirect=True, refw=2, elems=3, bulk=True, datas=3, hosts=2, simd=True,
                   traps=4, start=True),
}
