"""C19: the same module with the same arguments behaves the same whatever else happened."""
import contextlib
import io

from .. import diff, diffprop, drive, enc, gen, num, ref
from ..profiles import P
from ..runner import Test, check

ID = 'C19'
RULE = ('a case is a generated module with a call history, run alone and then in varied surroundings (another fresh runtime, debug '
        'tracing on, a runtime already used by other modules and traps, two instances of one decoded module interleaved, calls '
        'repeated in place, host functions that carry on another runtime); non-trivial = at least one call returned and at least two surroundings were compared; distinct by bytes')
ASSUME = ['runs that exhaust the call depth or do not terminate are left out', 'bit-for-bit comparison of results, memory, globals and tables; '
          'references are compared by the export they denote']


class Side:
    """one instance with its own host functions, observed through the public interface"""

    def __init__(self, pw, case, desc=None, data=None, meanwhile=None):
        """meanwhile: what every host function does before its own work"""
        self.pw, self.case, self.log = pw, case, []
        imp = {}
        for k, (ps, rs) in enumerate(case.hosts):
            h = diff.host_p(k, ps, rs, self.log)
            imp['env', f'h{k}'] = pw.rt.allocate_func_host(drive.functype(ps, rs), h if meanwhile is None else busy(h, meanwhile))
        self.err = None
        try:
            if desc is None:
                desc = pw.decode(data)
            self.desc = desc
            self.inst = pw.instance(desc, imp)
        except drive.Raised as e:
            self.err = e
            return
        self.names = {}
        for e in self.inst.exps:
            if e.data.kind == 0:
                self.names.setdefault(e.data.data, e.name)

    def norm(self, v):
        t, b = v
        if t == 'funcref' and b is not None:
            return t, self.names.get(b, '?')
        return v

    def call(self, name, args, ps):
        """-> observable outcome; the argument objects must come back untouched"""
        vals = [drive.toval(t, x) for t, x in zip(ps, args)]
        keep = [(v.type.data, bytes(v.data)) for v in vals]
        arg = list(vals)
        addr = self.pw.extern(self.inst, name).data
        try:
            r = [self.norm(drive.fromval(v)) for v in drive.attempt(self.pw.rt.machine.invocate, addr, arg)]
        except drive.Raised:
            r = 'trap'
        check(len(arg) == len(vals) and all(a is b for a, b in zip(arg, vals)) and keep == [(v.type.data, bytes(v.data)) for v in vals],
              lambda: f'calling {name} changed the argument list or a value in it: {arg}')
        return r

    def state(self):
        out = [list(self.log)]
        for e in self.inst.exps:
            if e.data.kind == 2:
                out.append(bytes(self.pw.memory(self.inst, e.name).data))
            elif e.data.kind == 3:
                out.append(self.norm(drive.fromval(self.pw.rt.exported_global(self.inst, e.name).data)))
        return out

    def tables(self):
        """through the helper functions the generator exports"""
        out = []
        for e in self.inst.exps:
            if e.name.startswith('tsize'):
                n = self.call(e.name, [], [])[0][1]
                out.append([n] + [self.call('tget' + e.name[5:], [i], ['i32']) for i in range(n)])
        return out


def busy(h, meanwhile):
    def f(mach, args):
        meanwhile()
        return h(mach, args)
    return f


class Turns:
    """one more runtime whose program is carried on, a call at a time, from inside the host functions of another one"""

    def __init__(self, case, data):
        self.case, self.data = case, data
        self.side = Side(drive.PW(), case, data=data)
        self.out = []

    def step(self, side=None, out=None):
        side, out = side or self.side, self.out if out is None else out
        if side.err is None and self.case.calls and len(out) < 12:
            i, args = self.case.calls[len(out) % len(self.case.calls)]
            out.append((side.call(f'f{i}', args, self.case.sigs[i]), side.state()))

    def alone(self):
        side, out = Side(drive.PW(), self.case, data=self.data), []
        while len(out) < len(self.out):
            self.step(side, out)
        return out


def play(side, case, sigs, steps=None):
    """-> list of outcomes and states"""
    if side.err is not None:
        return ['refused']
    out = [side.state()]
    for n, (i, args) in enumerate(case.calls[:steps]):
        r = side.call(f'f{i}', args, sigs[i])
        out += [r, side.state()]
    out.append(side.tables())
    return out


def differs(a, b):
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'step {n}: {str(x)[:600]} against {str(y)[:600]}'
    return f'{len(a)} against {len(b)} steps'


def run(b, ctx):
    n = len(b) // 4
    case = gen.make(b[:len(b) - n], P['all' if not b or b[-1] & 1 else 'call'], 4)
    other = gen.make(b[len(b) - n:], P['all'], 3)
    # the reference decides which histories terminate
    sigs = {}
    for c in (case, other):
        try:
            m = ref.Machine(20000, 60)
            c.nref = 0
            imp = {('env', f'h{k}'): ref.RHost((tuple(ps), tuple(rs)), diff.host_r(k, ps, rs, [])) for k, (ps, rs) in enumerate(c.hosts)}
            ri = m.instantiate(c.mod, imp)
            for i, args in c.calls:
                try:
                    m.invoke(ri, f'f{i}', args)
                except ref.Exhausted:
                    ctx.discard()
                except num.Trap:
                    pass
            c.sigs = {i: ri.exports[f'f{i}'][1].type[0] for i, _ in c.calls}
        except ref.OutOfFuel:
            ctx.discard()
        except (num.Trap, ref.LinkError):
            c.sigs = {}
    data = enc.encode(case.mod, enc.Stream(case.enc) if case.enc else None)
    odata = enc.encode(other.mod, enc.Stream(other.enc) if other.enc else None)
    base = Side(drive.PW(), case, data=data)
    want = play(base, case, case.sigs)
    # 1. again from scratch
    got = play(Side(drive.PW(), case, data=data), case, case.sigs)
    check(got == want, lambda: 'a second fresh runtime: ' + differs(got, want))
    # 2. with debug tracing
    with contextlib.redirect_stdout(io.StringIO()) as f:
        drive.pywasm.log.lvl = 1
        try:
            got = play(Side(drive.PW(), case, data=data), case, case.sigs)
        finally:
            drive.pywasm.log.lvl = 0
    check(got == want, lambda: 'with debug tracing: ' + differs(got, want))
    if 'invocate' in f.getvalue():
        ctx.tag('traced')
    # 3. a used runtime, the same decoded module twice, interleaved with another module
    pw = drive.PW()
    o = Side(pw, other, data=odata)
    if o.err is None:
        for i, args in other.calls:
            o.call(f'f{i}', args, other.sigs[i])
    if base.err is None:
        sides = [Side(pw, case, desc=base.desc), Side(pw, case, desc=base.desc)]
        check(all(s.err is None for s in sides), lambda: f'a second instance of the same decoded module: {[s.err for s in sides]}')
        outs = [[s.state()] for s in sides]
        for k, (i, args) in enumerate(case.calls):
            for s, out in zip(sides, outs):
                out += [s.call(f'f{i}', args, case.sigs[i]), s.state()]
                if o.err is None and other.calls:
                    j, oargs = other.calls[k % len(other.calls)]
                    o.call(f'f{j}', oargs, other.sigs[j])
        for s, out in zip(sides, outs):
            out.append(s.tables())
            check(out == want, lambda: 'next to other instances: ' + differs(out, want))
        # 4. repeated in place: a call that changed nothing gives the same result again
        s = Side(pw, case, desc=base.desc)
        for i, args in case.calls:
            s0, t0 = s.state(), s.tables()
            r = s.call(f'f{i}', args, case.sigs[i])
            s1, t1 = s.state(), s.tables()
            if s1[1:] == s0[1:] and t0 == t1:
                r2 = s.call(f'f{i}', args, case.sigs[i])
                s2 = s.state()
                if r2 != r or s2[1:] != s1[1:]:
                    # segments may have been dropped: the reference decides whether repeating must agree
                    check(uses_drop(case.mod), lambda: f'f{i}{args} gives {r}, then {r2} from the same state')
                else:
                    ctx.tag('repeated in place')
                    new = s2[0][len(s1[0]):]
                    check(new == s1[0][len(s0[0]):] or uses_drop(case.mod), lambda: f'f{i}{args}: host calls {new} the second time')
    # 5. while the host functions run a program in another runtime
    if case.hosts:
        t = Turns(other, odata)
        got = play(Side(drive.PW(), case, data=data, meanwhile=t.step), case, case.sigs)
        check(got == want, lambda: 'with host functions that run another runtime: ' + differs(got, want))
        if t.out:
            ctx.tag('two runtimes at once')
            alone = t.alone()
            check(t.out == alone, lambda: 'run from inside the host functions of another runtime: ' + differs(t.out, alone))
    if any(isinstance(x, list) and x is not want[0] for x in want[1::2]):
        ctx.tag('returned')
    if len(want) > 2 and any(r != 'trap' for r in want[1:-1:2]):
        ctx.good(h=diffprop.h64(b))


def uses_drop(m):
    def walk(x):
        return any((isinstance(i, (tuple, list)) and (walk(i) or (i and i[0] in ('data.drop', 'elem.drop')))) for i in x)
    return any(walk(f.body) for f in m.funcs)


def aliases_run(case, ctx):
    """values handed over are copies: changing an argument or a result object afterwards changes nothing"""
    v, w = case
    m = enc.Mod()
    m.mems.append((1, 1))
    m.globals.append(('v128', 1, [('v128.const', v)]))
    m.globals.append(('v128', 0, [('v128.const', w)]))
    m.tables.append(('externref', 2, None))
    m.exports += [('g', 'global', 0), ('c', 'global', 1)]
    m.imports.append(('env', 'h', 'func', m.type(('v128',), ('v128',))))
    m.func(['v128'], ['v128'], [], [('local.get', 0), ('global.set', 0), ('global.get', 0)], 'set')
    m.func([], ['v128'], [], [('global.get', 0)], 'get')
    m.func([], ['v128'], [], [('global.get', 1)], 'getc')
    m.func([], ['v128'], [], [('v128.const', w)], 'const')
    m.func(['v128'], ['v128'], [], [('local.get', 0), ('call', 0), ('global.set', 0), ('local.get', 0)], 'host')
    kept = []

    def h(mach, args):
        kept.append(args[0])
        r = bytearray(x ^ 0x55 for x in args[0])
        kept.append(r)
        for k in range(len(args[0])):
            args[0][k] = 0
        return [r]
    pw = drive.PW()
    imp = {('env', 'h'): pw.rt.allocate_func_host(drive.functype(['v128'], ['v128']), h)}
    desc = pw.decode(enc.encode(m))
    inst = pw.instance(desc, imp)
    B = lambda x: bytearray(x.to_bytes(16, 'little'))
    I = lambda x: int.from_bytes(x, 'little')

    def scribble(b):
        if isinstance(b, bytearray):
            for k in range(len(b)):
                b[k] ^= 0xff
    for name, args, want, after in [('const', [], w, v), ('getc', [], w, v), ('get', [], v, v), ('set', [w], w, w), ('set', [v ^ 7], v ^ 7, v ^ 7),
                                    ('host', [v], v, v ^ int('55' * 16, 16)), ('host', [w], w, w ^ int('55' * 16, 16))]:
        a = [B(x) for x in args]
        r = pw.invoke(inst, name, a)
        check([I(x) for x in r] == [want], lambda: f'{name}{args} returned {r}')
        check([I(x) for x in a] == args, lambda: f'{name}{args} changed its argument to {a}')
        for x in a + r + kept:
            scribble(x)
        check(pw.global_bits(inst, 'g') == after and I(pw.invoke(inst, 'get', [])[0]) == after,
              lambda: f'changing an argument or result object of {name} afterwards changes the global to {pw.global_bits(inst, "g"):x}')
        for n in ('const', 'getc'):
            x = pw.invoke(inst, n, [])
            check(I(x[0]) == w, lambda: f'{n} gives {x} after changing the objects of a {name} call')
    two = pw.instance(desc, imp)
    check(I(pw.invoke(two, 'get', [])[0]) == v and I(pw.invoke(two, 'const', [])[0]) == w, 'a second instance is affected by the first')
    ctx.good()


def alias_strategy():
    from hypothesis import strategies as st
    return st.tuples(st.integers(0, num.MASK[128]), st.integers(0, num.MASK[128]))


def tests(tier):
    return [Test('surroundings', run, strategy=lambda: gen.strategy(500, 3000), n=(8000, 200000),
                 show=lambda b: f'bytes {b.hex()}\n' + repr(gen.make(b[:len(b) - len(b) // 4], P['all' if not b or b[-1] & 1 else 'call'], 4))),
            Test('aliases', aliases_run, strategy=alias_strategy, n=(200, 5000))]
