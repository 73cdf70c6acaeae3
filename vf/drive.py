"""The only module that touches pywasm's API for core WebAssembly.  Nothing here looks at exception types or messages:
whatever Exception the code under test raises is a trap (or a refusal)."""
import io
import os
import sys

from .runner import Hang, HangViolation, REPO, Violation, guard

sys.path.insert(0, REPO)
import pywasm            # noqa: E402
import pywasm.core as pc  # noqa: E402

assert os.path.realpath(pywasm.__file__).startswith(os.path.realpath(REPO) + os.sep), pywasm.__file__

VT = {'i32': pc.ValType.i32, 'i64': pc.ValType.i64, 'f32': pc.ValType.f32, 'f64': pc.ValType.f64,
      'v128': pc.ValType.v128, 'funcref': pc.ValType.ref_func, 'externref': pc.ValType.ref_extern}
NAME = {VT[k]().data: k for k in VT}


class Raised(Exception):
    """An exception came out of the code under test."""

    def __init__(self, e):
        super().__init__(repr(e))
        self.e = self.raised = e

    def __repr__(self):
        return f'raised {self.e!r}'


def attempt(f, *a, cpu=10.0):
    """Run f under the CPU guard; pywasm's exceptions become Raised, a hang becomes HangViolation."""
    try:
        with guard(cpu):
            return f(*a)
    except Hang:
        raise HangViolation(f'no result after {cpu} s of CPU time or {max(90, 8 * cpu)} s of waiting')
    except (Raised, Violation):
        raise
    except (Exception, SystemExit) as e:
        raise Raised(e)


def functype(params, results):
    return pc.FuncType([VT[t]() for t in params], [VT[t]() for t in results])


def toval(vt, x):
    if vt == 'i32':
        return pc.ValInst.from_u32(x)
    if vt == 'i64':
        return pc.ValInst.from_u64(x)
    if vt == 'f32':
        return pc.ValInst.from_f32_u32(x)
    if vt == 'f64':
        return pc.ValInst.from_f64_u64(x)
    if vt == 'v128':
        return pc.ValInst.from_v128(bytearray(x.to_bytes(16, 'little')))
    if x is None:
        return pc.ValInst.zero(VT[vt]())
    return pc.ValInst.from_ref(VT[vt](), x)


def fromval(v):
    """ValInst -> (type name, bits); null reference -> None"""
    t = NAME[v.type.data]
    if t in ('i32', 'f32'):
        return t, v.into_u32()
    if t in ('i64', 'f64'):
        return t, v.into_u64()
    if t == 'v128':
        return t, int.from_bytes(v.into_v128(), 'little')
    if v == pc.ValInst.zero(VT[t]()):
        return t, None
    return t, v.into_ref()


def mask(vt):
    return (1 << {'i32': 32, 'f32': 32, 'i64': 64, 'f64': 64, 'v128': 128}[vt]) - 1


def pyval(vt, bits):
    """bit pattern -> the Python value pywasm documents for its high-level API"""
    import struct
    if vt in ('i32', 'i64'):
        w = int(vt[1:])
        return bits - (1 << w) if bits >> (w - 1) else bits
    if vt == 'f32':
        return struct.unpack('<f', bits.to_bytes(4, 'little'))[0]
    if vt == 'f64':
        return struct.unpack('<d', bits.to_bytes(8, 'little'))[0]
    if vt == 'v128':
        return bytearray(bits.to_bytes(16, 'little'))
    return bits


def decode(b):
    return pc.ModuleDesc.from_reader(io.BytesIO(b))


_pad = []


def pad():
    """A module that has some of everything, so that no index of a module tested next is an address of the store."""
    if not _pad:
        from . import enc
        m = enc.Mod()
        for k in range(3):
            m.func((), ('i64',), (), [('i64.const', 0x7070 + k)])
        m.tables = [('funcref', 7, 9), ('externref', 5, None)]
        m.mems = [(1, 1)]
        m.globals = [('i64', True, [('i64.const', 0x7171)]), ('f32', False, [('f32.const', 0x41000000)]), ('i64', False, [('i64.const', 0x7373)])]
        m.elems = [enc.Elem('passive', 'funcref', [[('ref.func', 2)]] * 11), enc.Elem('passive', 'funcref', [[('ref.func', 1)]] * 3)]
        m.datas = [enc.Data('passive', b'\xee' * 13, None), enc.Data('passive', b'\xdd' * 40, None)]
        _pad.append(enc.encode(m))
    return _pad[0]


class PW:
    """One pywasm runtime."""

    def __init__(self, padded=True):
        self.rt = pc.Runtime()
        if padded:
            self.instance(pad())

    def decode(self, b, cpu=10.0):
        return attempt(decode, b, cpu=cpu)

    def imports(self, d):
        """d: {(module, name): Extern}"""
        out = {}
        for (m, n), e in d.items():
            out.setdefault(m, {})[n] = e
        self.rt.imports = out

    def instance(self, desc, imports=None, cpu=10.0):
        if isinstance(desc, (bytes, bytearray)):
            desc = self.decode(desc)
        if imports is not None:
            self.imports(imports)
        return attempt(self.rt.instance, desc, cpu=cpu)

    def extern(self, inst, name):
        return [e for e in inst.exps if e.name == name][0].data

    def call(self, inst, name, args, cpu=10.0):
        """args: [(vt, bits)] -> [(vt, bits)], bit-exact"""
        addr = self.extern(inst, name).data
        vals = [toval(t, x) for t, x in args]
        return [fromval(v) for v in attempt(self.rt.machine.invocate, addr, vals, cpu=cpu)]

    def invoke(self, inst, name, args, cpu=10.0):
        """high-level API, Python values"""
        return attempt(self.rt.invocate, inst, name, list(args), cpu=cpu)

    def memory(self, inst, name='mem'):
        return self.rt.exported_memory(inst, name)

    def global_bits(self, inst, name):
        return fromval(self.rt.exported_global(inst, name).data)[1]

    def memtype(self, lo, hi):
        return pc.MemType(self.limits(lo, hi))

    def limits(self, lo, hi):
        return pc.Limits(lo, hi)
