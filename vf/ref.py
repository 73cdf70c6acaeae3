"""Reference interpreter: big-step evaluation of the module AST of enc.py.  Values are bit patterns (ints); references
are None (null), a function instance, or ('x', n) for an external reference."""
from . import num, ops
from .num import Trap, MASK

PAGE = 65536
MEMCAP, TABCAP = 1024, 1024      # growth caps documented in the implementation ("Limit memory size to 64m")
NORMAL, RETURN = -1, 1 << 40


class Exhausted(Trap):
    """Call stack exhausted: only the fact of a trap is comparable, not the state it leaves."""


class OutOfFuel(Exception):
    """The program is too long for the reference: the case is discarded, never judged."""


class LinkError(Exception):
    pass


class RMem:
    def __init__(self, lo, hi):
        self.data, self.max = bytearray(lo * PAGE), hi

    @property
    def pages(self):
        return len(self.data) // PAGE

    def grow(self, n):
        old = self.pages
        if old + n > min(65536 if self.max is None else self.max, MEMCAP):
            return 0xffffffff
        self.data.extend(bytes(n * PAGE))
        return old


class RTable:
    def __init__(self, type, lo, hi):
        self.type, self.elem, self.max = type, [None] * lo, hi

    def grow(self, n, v):
        old = len(self.elem)
        if old + n > min(MASK[32] if self.max is None else self.max, TABCAP):
            return 0xffffffff
        self.elem.extend([v] * n)
        return old


class RGlobal:
    def __init__(self, vt, mut, val):
        self.vt, self.mut, self.val = vt, mut, val


class RFunc:
    def __init__(self, type, inst, fn):
        self.type, self.inst, self.fn = type, inst, fn

    def __repr__(self):
        return f'<func {self.inst.tag}:{self.inst.funcs.index(self)}>'


class RHost:
    def __init__(self, type, call):
        self.type, self.call = type, call


class Inst:
    def __init__(self, mod, tag=''):
        self.mod, self.tag = mod, tag
        self.types = mod.types
        self.funcs, self.tables, self.mems, self.globals = [], [], [], []
        self.elems, self.datas = [], []
        self.exports = {}


def suit(size, have_max, want):
    lo, hi = want
    if size < lo:
        return False
    if hi is None:
        return True
    return have_max is not None and have_max <= hi


class Machine:
    def __init__(self, fuel=200000, maxdepth=200):
        self.fuel, self.maxdepth = fuel, maxdepth
        self.depth = 0
        self.calls = 0
        self.stat = {}

    # -- instantiation ------------------------------------------------------------------------------------------
    def match(self, mod, i, ext):
        _, _, kind, d = i
        if kind == 'func':
            return isinstance(ext, (RFunc, RHost)) and ext.type == mod.types[d]
        if kind == 'table':
            return isinstance(ext, RTable) and ext.type == d[0] and suit(len(ext.elem), ext.max, d[1:])
        if kind == 'mem':
            return isinstance(ext, RMem) and suit(ext.pages, ext.max, d)
        return isinstance(ext, RGlobal) and ext.vt == d[0] and ext.mut == d[1]

    def instantiate(self, mod, imports=None, tag=''):
        """imports: dict (module, name) -> external"""
        inst = Inst(mod, tag)
        ext = []
        for i in mod.imports:
            e = (imports or {}).get((i[0], i[1]))
            if e is None or not self.match(mod, i, e):
                raise LinkError(i)
            ext.append((i[2], e))
        sp = {'func': inst.funcs, 'table': inst.tables, 'mem': inst.mems, 'global': inst.globals}
        for kind, e in ext:
            sp[kind].append(e)
        for f in mod.funcs:
            inst.funcs.append(RFunc(mod.types[f.type], inst, f))
        inst_globals = []
        for vt, mut, e in mod.globals:
            inst_globals.append(RGlobal(vt, mut, self.const(inst, e)))
        elems = [[self.const(inst, x) for x in e.init] for e in mod.elems]
        inst.globals.extend(inst_globals)
        for t in mod.tables:
            inst.tables.append(RTable(*t))
        for t in mod.mems:
            inst.mems.append(RMem(*t))
        inst.elems = elems
        inst.datas = [d.init for d in mod.datas]
        for n, k, i in mod.exports:
            inst.exports[n] = (k, sp[k][i])
        for i, e in enumerate(mod.elems):
            if e.mode == 'active':
                off = self.const(inst, e.offset)
                self.table_init(inst, e.table, i, off, 0, len(e.init))
                inst.elems[i] = []
            elif e.mode == 'declarative':
                inst.elems[i] = []
        for i, d in enumerate(mod.datas):
            if d.mode == 'active':
                off = self.const(inst, d.offset)
                self.memory_init(inst, i, off, 0, len(d.init))
                inst.datas[i] = b''
        self.depth = 0
        if mod.start is not None:
            self.call(inst.funcs[mod.start], [])
        return inst

    def const(self, inst, e):
        st = []
        for i in e:
            if i[0].endswith('.const'):
                st.append(i[1])
            elif i[0] == 'global.get':
                st.append(inst.globals[i[1]].val)
            elif i[0] == 'ref.null':
                st.append(None)
            elif i[0] == 'ref.func':
                st.append(inst.funcs[i[1]])
            else:
                raise AssertionError(i)
        assert len(st) == 1
        return st[0]

    # -- calls --------------------------------------------------------------------------------------------------
    def invoke(self, inst, name, args):
        k, f = inst.exports[name]
        assert k == 'func'
        self.depth = 0
        return self.call(f, list(args))

    def call(self, f, args):
        if isinstance(f, RHost):
            return f.call(args)
        self.calls += 1
        self.depth += 1
        if self.depth > self.maxdepth:
            raise Exhausted('call stack')
        loc = args
        for t in f.fn.locals:
            loc.append(None if t in ops.REF else 0)
        st = []
        self.run(f.fn.body, st, loc, f.inst)
        self.depth -= 1
        n = len(f.type[1])
        return st[len(st) - n:] if n else []

    # -- memory -------------------------------------------------------------------------------------------------
    def memory_init(self, inst, i, d, s, n):
        m = inst.mems[0].data
        b = inst.datas[i]
        if s + n > len(b) or d + n > len(m):
            raise Trap('memory.init')
        m[d:d + n] = b[s:s + n]

    def table_init(self, inst, t, i, d, s, n):
        tab = inst.tables[t].elem
        b = inst.elems[i]
        if s + n > len(b) or d + n > len(tab):
            raise Trap('table.init')
        tab[d:d + n] = b[s:s + n]

    def ea(self, inst, base, off, n):
        a = base + off
        m = inst.mems[0].data
        if a + n > len(m):
            raise Trap('out of bounds')
        return m, a

    # -- evaluation ---------------------------------------------------------------------------------------------
    def blocktype(self, inst, bt):
        if bt is None:
            return (), ()
        if isinstance(bt, str):
            return (), (bt,)
        return inst.types[bt]

    def block(self, st, r, h, arity):
        """after a body ended with signal r != NORMAL and targets this label"""
        vals = st[len(st) - arity:] if arity else []
        del st[h:]
        st.extend(vals)

    def run(self, body, st, loc, inst):
        for ins in body:
            self.fuel -= 1
            if self.fuel < 0:
                raise OutOfFuel
            n = ins[0]
            op = ops.OPS.get(n)
            if op is not None:
                g = op.group
                if g == 'const':
                    st.append(ins[1])
                elif g in ('load', 'store', 'vload', 'loadlane', 'storelane'):
                    self.memop(op, ins, st, inst)
                else:
                    k = len(op.params)
                    args = st[len(st) - k:]
                    del st[len(st) - k:]
                    st.append(num.concrete(num.sem(n, ins[1] if len(ins) > 1 else None)(*args)))
                continue
            r = getattr(self, 'i_' + n.replace('.', '_'))(ins, st, loc, inst)
            if r is not None and r != NORMAL:
                return r
        return NORMAL

    def memop(self, op, ins, st, inst):
        off, nb, n = ins[2], op.arg, op.name
        if op.group == 'load':
            m, a = self.ea(inst, st.pop(), off, nb)
            _, vt, _, signed = ops.LOADS[n]
            v = int.from_bytes(m[a:a + nb], 'little', signed=bool(signed))
            st.append(v & MASK[int(vt[1:])])
        elif op.group == 'store':
            v = st.pop()
            m, a = self.ea(inst, st.pop(), off, nb)
            m[a:a + nb] = (v & (1 << 8 * nb) - 1).to_bytes(nb, 'little')
        elif op.group == 'vload':
            m, a = self.ea(inst, st.pop(), off, nb)
            b = m[a:a + nb]
            k = n[len('v128.load'):]
            if k == '':
                v = int.from_bytes(b, 'little')
            elif k.endswith('splat'):
                v = num.join([int.from_bytes(b, 'little')] * (16 // nb), nb * 8)
            elif k.endswith('zero'):
                v = int.from_bytes(b, 'little')
            else:
                w = int(k.split('x')[0])
                sg = k.endswith('_s')
                l = [int.from_bytes(b[i:i + w // 8], 'little', signed=sg) for i in range(0, 8, w // 8)]
                v = num.join(l, 2 * w)
            st.append(v)
        else:
            v = st.pop()
            m, a = self.ea(inst, st.pop(), off, nb)
            l = num.split(v, nb * 8)
            if op.group == 'loadlane':
                l[ins[3]] = int.from_bytes(m[a:a + nb], 'little')
                st.append(num.join(l, nb * 8))
            else:
                m[a:a + nb] = l[ins[3]].to_bytes(nb, 'little')

    def i_unreachable(self, ins, st, loc, inst):
        raise Trap('unreachable')

    def i_nop(self, ins, st, loc, inst):
        pass

    def i_block(self, ins, st, loc, inst):
        p, q = self.blocktype(inst, ins[1])
        h = len(st) - len(p)
        r = self.run(ins[2], st, loc, inst)
        return self.after(r, st, h, len(q))

    def after(self, r, st, h, arity):
        if r == NORMAL:
            assert len(st) == h + arity, 'reference: unbalanced block'
            return NORMAL
        if r == 0:
            self.block(st, r, h, arity)
            return NORMAL
        return r if r == RETURN else r - 1

    def i_loop(self, ins, st, loc, inst):
        p, q = self.blocktype(inst, ins[1])
        h = len(st) - len(p)
        while True:
            self.fuel -= 1
            if self.fuel < 0:
                raise OutOfFuel
            r = self.run(ins[2], st, loc, inst)
            if r == 0:
                self.block(st, r, h, len(p))
                self.stat['loop'] = self.stat.get('loop', 0) + 1
                continue
            return self.after(r, st, h, len(q))

    def i_if(self, ins, st, loc, inst):
        c = st.pop()
        p, q = self.blocktype(inst, ins[1])
        h = len(st) - len(p)
        r = self.run(ins[2] if c else (ins[3] or []), st, loc, inst)
        return self.after(r, st, h, len(q))

    def i_br(self, ins, st, loc, inst):
        self.stat['br'] = max(self.stat.get('br', 0), ins[1] + 1)
        return ins[1]

    def i_br_if(self, ins, st, loc, inst):
        if st.pop():
            self.stat['br'] = max(self.stat.get('br', 0), ins[1] + 1)
            return ins[1]

    def i_br_table(self, ins, st, loc, inst):
        i = st.pop()
        self.stat['br_table'] = 1
        return ins[1][i] if i < len(ins[1]) else ins[2]

    def i_return(self, ins, st, loc, inst):
        return RETURN

    def docall(self, f, st):
        k = len(f.type[0])
        args = st[len(st) - k:] if k else []
        del st[len(st) - k:]
        st.extend(self.call(f, args))

    def i_call(self, ins, st, loc, inst):
        self.docall(inst.funcs[ins[1]], st)

    def i_call_indirect(self, ins, st, loc, inst):
        i = st.pop()
        t = inst.tables[ins[2]].elem
        if i >= len(t):
            raise Trap('undefined element')
        f = t[i]
        if f is None:
            raise Trap('uninitialized element')
        if f.type != inst.types[ins[1]]:
            raise Trap('indirect call type mismatch')
        self.stat['indirect'] = self.stat.get('indirect', 0) + 1
        self.docall(f, st)

    def i_drop(self, ins, st, loc, inst):
        st.pop()

    def i_select(self, ins, st, loc, inst):
        c, b, a = st.pop(), st.pop(), st.pop()
        st.append(a if c else b)

    i_select_t = i_select

    def i_local_get(self, ins, st, loc, inst):
        st.append(loc[ins[1]])

    def i_local_set(self, ins, st, loc, inst):
        loc[ins[1]] = st.pop()

    def i_local_tee(self, ins, st, loc, inst):
        loc[ins[1]] = st[-1]

    def i_global_get(self, ins, st, loc, inst):
        st.append(inst.globals[ins[1]].val)

    def i_global_set(self, ins, st, loc, inst):
        inst.globals[ins[1]].val = st.pop()

    def i_table_get(self, ins, st, loc, inst):
        i, t = st.pop(), inst.tables[ins[1]].elem
        if i >= len(t):
            raise Trap('table.get')
        st.append(t[i])

    def i_table_set(self, ins, st, loc, inst):
        v, i, t = st.pop(), st.pop(), inst.tables[ins[1]].elem
        if i >= len(t):
            raise Trap('table.set')
        t[i] = v

    def i_table_size(self, ins, st, loc, inst):
        st.append(len(inst.tables[ins[1]].elem))

    def i_table_grow(self, ins, st, loc, inst):
        n, v = st.pop(), st.pop()
        st.append(inst.tables[ins[1]].grow(n, v))

    def i_table_fill(self, ins, st, loc, inst):
        n, v, d = st.pop(), st.pop(), st.pop()
        t = inst.tables[ins[1]].elem
        if d + n > len(t):
            raise Trap('table.fill')
        t[d:d + n] = [v] * n

    def i_table_copy(self, ins, st, loc, inst):
        n, s, d = st.pop(), st.pop(), st.pop()
        a, b = inst.tables[ins[1]].elem, inst.tables[ins[2]].elem
        if s + n > len(b) or d + n > len(a):
            raise Trap('table.copy')
        a[d:d + n] = b[s:s + n]

    def i_table_init(self, ins, st, loc, inst):
        n, s, d = st.pop(), st.pop(), st.pop()
        self.table_init(inst, ins[2], ins[1], d, s, n)

    def i_elem_drop(self, ins, st, loc, inst):
        inst.elems[ins[1]] = []

    def i_memory_size(self, ins, st, loc, inst):
        st.append(inst.mems[0].pages)

    def i_memory_grow(self, ins, st, loc, inst):
        st.append(inst.mems[0].grow(st.pop()))

    def i_memory_fill(self, ins, st, loc, inst):
        n, v, d = st.pop(), st.pop(), st.pop()
        m = inst.mems[0].data
        if d + n > len(m):
            raise Trap('memory.fill')
        m[d:d + n] = bytes([v & 255]) * n

    def i_memory_copy(self, ins, st, loc, inst):
        n, s, d = st.pop(), st.pop(), st.pop()
        m = inst.mems[0].data
        if s + n > len(m) or d + n > len(m):
            raise Trap('memory.copy')
        m[d:d + n] = m[s:s + n]

    def i_memory_init(self, ins, st, loc, inst):
        n, s, d = st.pop(), st.pop(), st.pop()
        self.memory_init(inst, ins[1], d, s, n)

    def i_data_drop(self, ins, st, loc, inst):
        inst.datas[ins[1]] = b''

    def i_ref_null(self, ins, st, loc, inst):
        st.append(None)

    def i_ref_is_null(self, ins, st, loc, inst):
        st.append(int(st.pop() is None))

    def i_ref_func(self, ins, st, loc, inst):
        st.append(inst.funcs[ins[1]])
