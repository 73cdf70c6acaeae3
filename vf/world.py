"""Several modules and host objects living in one pywasm runtime, mirrored by the reference interpreter."""
from . import diff, drive, enc, num, ref
from .runner import check


class Ext:
    """one external object: kind, reference side, pywasm side"""

    def __init__(self, kind, r, p):
        self.kind, self.r, self.p = kind, r, p


class World:
    def __init__(self, fuel=20000, maxdepth=60):
        self.ref = ref.Machine(fuel, maxdepth)
        self.pw = drive.PW()
        self.insts = []          # (ri, pi)
        self.addr = {}           # pywasm function address -> reference function
        self.log_p, self.log_r = [], []
        self.exts = []           # objects allocated by the host

    # -- host objects
    def host(self, name, ps, rs, fail=None):
        """fail(bits) -> whether this call raises"""
        return Ext('func', ref.RHost((tuple(ps), tuple(rs)), diff.host_r(name, ps, rs, self.log_r, fail)),
                   self.pw.rt.allocate_func_host(drive.functype(ps, rs), diff.host_p(name, ps, rs, self.log_p, fail)))

    def host_mem(self, lo, hi):
        e = Ext('mem', ref.RMem(lo, hi), self.pw.rt.allocate_memory(self.pw.memtype(lo, hi)))
        self.exts.append(e)
        return e

    def host_table(self, vt, lo, hi):
        e = Ext('table', ref.RTable(vt, lo, hi),
                self.pw.rt.allocate_table(drive.pc.TableType(drive.VT[vt](), self.pw.limits(lo, hi))))
        self.exts.append(e)
        return e

    def host_global(self, vt, mut, bits):
        e = Ext('global', ref.RGlobal(vt, mut, bits),
                self.pw.rt.allocate_global(drive.pc.GlobalType(drive.VT[vt](), mut), drive.toval(vt, bits)))
        self.exts.append(e)
        return e

    def export(self, k, name):
        ri, pi = self.insts[k]
        kind, x = ri.exports[name]
        return Ext(kind, x, self.pw.extern(pi, name))

    # -- modules
    def instantiate(self, mod, imports, enc_choices=(), tag='', desc=None):
        """imports: {(module, name): Ext}; -> index of the instance, or None when both sides refuse"""
        er = ep = None
        n = len(self.log_r)
        try:
            ri = self.ref.instantiate(mod, {k: e.r for k, e in imports.items()}, tag)
        except (num.Trap, ref.LinkError) as e:
            er = e
        if desc is None:
            desc = self.pw.decode(enc.encode(mod, enc.Stream(enc_choices) if enc_choices else None))
        try:
            pi = self.pw.instance(desc, {k: e.p for k, e in imports.items()})
        except drive.Raised as e:
            ep = e
        check((er is None) == (ep is None), lambda: f'{tag} instantiation: specified {er!r}, pywasm {ep!r}')
        self.logs(f'{tag} instantiation')
        if er is not None:
            self.why = er
            return None
        self.insts.append((ri, pi))
        for n, (k, x) in ri.exports.items():
            if k == 'func':
                a = self.pw.extern(pi, n).data
                check(self.addr.setdefault(a, x) is x, lambda: f'{tag}: export {n} is a function that was exported before as another one')
        return len(self.insts) - 1

    def refval(self, v):
        return None if v is None else self.addr.get(v, ('?', v))

    def same(self, t, p, r):
        if t == 'funcref':
            x = self.refval(p)
            return x is r or (isinstance(x, tuple) and r is not None and r not in self.addr.values())
        return p == r

    def refarg(self, t, v):
        """reference-side value -> pywasm-side value"""
        if t == 'funcref' and v is not None:
            for a, f in self.addr.items():
                if f is v:
                    return a
            raise KeyError(v)
        return v

    def call(self, k, name, args, what=''):
        """-> ('ok', values) | ('trap', why)"""
        ri, pi = self.insts[k]
        _, f = ri.exports[name]
        ps, rs = f.type
        pargs = [(t, self.refarg(t, a)) for t, a in zip(ps, args)]
        try:
            r = self.ref.invoke(ri, name, args)
        except num.Trap as e:
            r = e
        try:
            p = self.pw.call(pi, name, pargs)
        except drive.Raised as e:
            p = e
        d = lambda: f'{what}{ri.tag}.{name}({", ".join(map(repr, args))})'
        if isinstance(p, drive.Raised):
            check(not isinstance(r, list), lambda: f'{d()}: pywasm {p!r}, specified result {r}')
            self.logs(d())
            return 'trap', r
        check(isinstance(r, list), lambda: f'{d()}: pywasm returned {p}, specified to trap ({r!r})')
        check([t for t, _ in p] == list(rs), lambda: f'{d()}: result types {p}, declared {rs}')
        check(all(self.same(t, a, b) for (t, a), b in zip(p, r)), lambda: f'{d()}: pywasm returned {p}, specified {r}')
        self.logs(d())
        return 'ok', r

    def logs(self, what):
        if self.log_p != self.log_r:
            w = what() if callable(what) else what
            check(False, f'{w}: host calls seen by pywasm {self.log_p[-4:]}, specified {self.log_r[-4:]}')

    def eqmem(self, p, x, what):
        data = bytes(p.data)
        check(len(data) == len(x.data), lambda: f'{what} has {len(data)} bytes, specified {len(x.data)}')
        if data != x.data:
            d = [i for i in range(len(data)) if data[i] != x.data[i]]
            check(False, f'{what} differs at {d[:8]}: pywasm {[data[i] for i in d[:8]]} '
                  f'specified {[x.data[i] for i in d[:8]]}')

    def compare(self, what=''):
        """all exported memories and globals of all live instances"""
        seen = set()
        for k, (ri, pi) in enumerate(self.insts):
            for n, (kind, x) in ri.exports.items():
                if kind == 'mem':
                    self.eqmem(self.pw.rt.exported_memory(pi, n), x, f'{what}: memory {ri.tag}.{n}')
                elif kind == 'global':
                    t, b = drive.fromval(self.pw.rt.exported_global(pi, n).data)
                    check(t == x.vt and self.same(t, b, x.val),
                          lambda: f'{what}: global {ri.tag}.{n} is {t} {b}, specified {x.vt} {x.val}')
