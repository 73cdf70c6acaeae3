"""Runs a generated Case on pywasm and on the reference interpreter and compares everything observable: results, trap or
not, memory, globals, tables, calls made to host functions."""
from . import drive, enc, num, ops, ref
from .runner import check


def hostval(name, args, t):
    """deterministic host result as a bit pattern (never a NaN)"""
    h = 0
    for c in repr((name, args)).encode():
        h = (h * 1000003 + c) & 0xffffffffffffffff
    if t == 'i32':
        return h & 0xffffffff
    if t == 'i64':
        return h
    if t == 'f32':
        return num.rnd(num.Fraction((h % 2001) - 1000, 4), 32)
    if t == 'f64':
        return num.rnd(num.Fraction((h % 20001) - 10000, 8), 64)
    if t == 'v128':
        return h * 0x10001000100010001 & num.MASK[128]
    return None


class HostError(Exception):
    """raised on purpose by a host function"""


def hostargs(ps, args):
    """what is logged and what results are computed from: NaNs canonical, function references anonymous"""
    return [(None if b is None else 'func') if t == 'funcref' else canon(t, b) for t, b in zip(ps, args)]


def hostref(t, ps, args):
    """a reference result is the first argument of that type"""
    return ([a for p, a in zip(ps, args) if p == t] + [None])[0]


def host_p(name, ps, rs, log, fail=None):
    def f(m, args):
        # float arguments arrive as Python floats
        bits = [a if t in ops.REF else drive.fromval(drive.pc.ValInst.from_all(drive.VT[t](), a))[1]
                for t, a in zip(ps, args)]
        bits = hostargs(ps, bits)
        log.append((name, bits))
        if fail and fail(bits):
            raise HostError(name)
        return [hostref(t, ps, args) if t in ops.REF else drive.pyval(t, hostval(name, bits, t)) for t in rs]
    return f


def host_r(name, ps, rs, log, fail=None):
    def f(args):
        bits = hostargs(ps, args)
        log.append((name, bits))
        if fail and fail(bits):
            raise num.Trap('host function raised')
        return [hostref(t, ps, args) if t in ops.REF else hostval(name, bits, t) for t in rs]
    return f


class Pair:
    """one pywasm instance and one reference instance of the same module"""

    def __init__(self, case, fuel=20000, maxdepth=60, data=None):
        self.case = case
        self.m = case.mod
        self.log_p, self.log_r = [], []
        self.pw = drive.PW()
        self.ref = ref.Machine(fuel, maxdepth)
        imp_p, imp_r = {}, {}
        for k, (ps, rs) in enumerate(case.hosts):
            imp_p['env', f'h{k}'] = self.host_p(k, ps, rs)
            imp_r['env', f'h{k}'] = self.host_r(k, ps, rs)
        self.bytes = enc.encode(self.m, enc.Stream(case.enc) if case.enc else None) if data is None else data
        self.err_r = self.err_p = None
        try:
            self.ri = self.ref.instantiate(self.m, imp_r)
        except (num.Trap, ref.LinkError) as e:
            self.err_r = e
        try:
            self.pi = self.pw.instance(self.bytes, imp_p)
        except drive.Raised as e:
            self.err_p = e
        check((self.err_r is None) == (self.err_p is None),
              lambda: f'instantiation: reference {self.err_r!r}, pywasm {self.err_p!r}')
        self.ok = self.err_r is None
        if self.ok:
            self.addr = {}
            for n, (k, x) in self.ri.exports.items():
                if k == 'func':
                    self.addr[self.pw.extern(self.pi, n).data] = x

    def host_p(self, k, ps, rs):
        return self.pw.rt.allocate_func_host(drive.functype(ps, rs), host_p(k, ps, rs, self.log_p))

    def host_r(self, k, ps, rs):
        return ref.RHost((tuple(ps), tuple(rs)), host_r(k, ps, rs, self.log_r))

    def refval(self, v):
        """pywasm reference -> comparable with the reference interpreter's"""
        return self.addr.get(v, ('unknown function', v)) if v is not None else None

    def same(self, t, p, r):
        if t == 'funcref':
            return self.refval(p) is r
        return p == r

    def call(self, i, args, what=''):
        """-> ('ok', values) | ('trap',) ; compares both sides"""
        name = i if isinstance(i, str) else f'f{i}'
        k, f = self.ri.exports[name]
        ps, rs = f.type
        try:
            r = self.ref.invoke(self.ri, name, args)
        except ref.Exhausted:
            r = 'exhausted'
        except num.Trap as e:
            r = e
        desc = lambda: f'{what}call {name}({", ".join(map(repr, args))})'
        try:
            p = self.pw.call(self.pi, name, list(zip(ps, args)))
        except drive.Raised as e:
            p = e
        if isinstance(p, drive.Raised):
            check(not isinstance(r, list), lambda: f'{desc()}: pywasm {p!r}, specified result {r}')
            return ('exhausted',) if r == 'exhausted' else ('trap',)
        check(isinstance(r, list), lambda: f'{desc()}: pywasm returned {p}, specified to trap ({r!r})')
        check([t for t, _ in p] == list(rs), lambda: f'{desc()}: result types {p}, expected {rs}')
        check(all(self.same(t, a, b) for (t, a), b in zip(p, r)),
              lambda: f'{desc()}: pywasm returned {p}, specified {r}')
        return 'ok', r

    def compare(self, what=''):
        check(self.log_p == self.log_r, lambda: f'{what}: host calls seen by pywasm {self.log_p}, specified {self.log_r}')
        for n, (k, x) in self.ri.exports.items():
            if k == 'mem':
                mem = self.pw.memory(self.pi, n)
                data = bytes(mem.data)
                check(len(data) == len(x.data), lambda: f'{what}: memory has {len(data)} bytes, specified {len(x.data)}')
                if data != x.data:
                    d = [i for i in range(len(data)) if data[i] != x.data[i]]
                    check(False, f'{what}: memory differs at {d[:8]}: pywasm {[data[i] for i in d[:8]]} specified '
                          f'{[x.data[i] for i in d[:8]]}')
            elif k == 'global':
                t, b = drive.fromval(self.pw.rt.exported_global(self.pi, n).data)
                check(t == x.vt and self.same(t, b, x.val), lambda: f'{what}: global {n} is {t} {b}, specified {x.vt} {x.val}')

    def tables(self, what=''):
        for n, (k, x) in list(self.ri.exports.items()):
            if k == 'table' and f'tget{n[1:]}' in self.ri.exports:
                self.call(f'tsize{n[1:]}', [], what)
                for i in range(len(x.elem)):
                    self.call(f'tget{n[1:]}', [i], what)
                self.call(f'tget{n[1:]}', [len(x.elem)], what)


def canon(t, b):
    if t in ('f32', 'f64') and num.isnan(b, int(t[1:])):
        return num.FMT[int(t[1:])].qnan
    return b


def run(case, ctx, fuel=20000, stop_on_trap=True, tables=True):
    """the standard run: instantiate, make the calls, compare state after each"""
    try:
        p = Pair(case, fuel)
    except ref.OutOfFuel:
        ctx.discard()
    if not p.ok:
        ctx.tag('instantiation fails')
        return p
    p.compare('after instantiation')
    try:
        for n, (i, args) in enumerate(case.calls):
            r = p.call(i, args, f'#{n} ')
            ctx.tag('call ' + r[0])
            if r[0] == 'exhausted':
                break
            p.compare(f'after call #{n} f{i}')
            if r[0] == 'trap' and stop_on_trap:
                break
    except ref.OutOfFuel:
        ctx.discard()
    if tables and r[0] == 'ok':
        p.tables('final table contents: ')
    return p
