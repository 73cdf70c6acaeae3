"""C18: programs compiled from C compute what the same programs compute natively."""
import os
import random
import shutil
import struct
import subprocess
import tempfile

from .. import cgen, diffprop, drive, gen
from ..runner import Test, check, shrink_bytes

ID = 'C18'
RULE = ('a case is a generated C program (or one of the hand-written algorithms with generated input), wasm code generation flags '
        'and a history of calls; non-trivial = the program compiled, at least one call returned and its data was compared; '
        'distinct by program and flags')
ASSUME = ['clang 18 compiles the same front-end semantics for both targets; programs are free of undefined behaviour by construction '
          '(checked with the sanitizers during development); float results are compared up to NaN bits',
          'the native build (x86-64) is the oracle']
OPT = ['-O0', '-O1', '-O2', '-O3', '-Os', '-Oz']
FEATS = ['-msimd128', '-mbulk-memory', '-mnontrapping-fptoint', '-msign-ext', '-mno-sign-ext', '-mmultivalue', '-mreference-types',
         '-fno-inline', '-g', '-fno-jump-tables', '-funroll-loops', '-ffunction-sections']
LINK = ['-Wl,--import-memory', '-Wl,--stack-first', '-Wl,-O2', '-Wl,--strip-all', '-Wl,--export-table', '-Wl,--import-table', '-Wl,--no-gc-sections',
        '-Wl,--compress-relocations', '-Wl,--growable-table', '-Wl,--emit-relocs']


def sh(cmd, cwd, timeout=60):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def flags(s, simd):
    """choices for one wasm build"""
    o = s.of(OPT)
    f = [x for x in FEATS if s.chance(4)]
    if simd and '-msimd128' not in f and s.pick(2):
        f.append('-msimd128')
    if '-mno-sign-ext' in f and '-msign-ext' in f:
        f.remove('-msign-ext')
    if '-mmultivalue' in f:
        f += ['-Xclang', '-target-abi', '-Xclang', 'experimental-mv']
    l = [x for x in LINK if s.chance(3)]
    if '-Wl,--import-table' in l and '-Wl,--export-table' in l:
        l.remove('-Wl,--export-table')
    if '-Wl,--compress-relocations' in l:
        l = [x for x in l if x != '-Wl,--emit-relocs'] + ['-Wl,--strip-all']
    if '-Wl,--emit-relocs' in l and '-Wl,--strip-all' in l:
        l.remove('-Wl,--strip-all')
    return [o] + f + l


def build(src, fl, cwd, out):
    return sh(['clang', '--target=wasm32', '-w', '-ffp-contract=off', '-fno-builtin-memcpy', '-fno-builtin-memset', '-fno-builtin-memmove',
               '-nostdlib', '-Wl,--no-entry', '-Wl,-z,stack-size=16384'] + fl + [src, '-o', out], cwd)


class Wasm:
    def __init__(self, data):
        self.pw = drive.PW()
        self.log = []
        desc = self.pw.decode(data)
        imp = {}
        for i in desc.imps:
            k = (i.module, i.name)
            if k == ('env', 'host'):
                imp[k] = self.pw.rt.allocate_func_host(drive.functype(['i64', 'f64', 'i32'], ['i64']), self.host)
            elif k == ('env', 'memory'):
                imp[k] = self.pw.rt.allocate_memory(self.pw.memtype(2, None))
            elif k == ('env', '__indirect_function_table'):
                imp[k] = self.pw.rt.allocate_table(drive.pc.TableType(drive.VT['funcref'](), self.pw.limits(64, None)))
        self.inst = self.pw.instance(desc, imp)

    def host(self, m, a):
        x, y, z = a
        bits = 0x7ff8000000000000 if y != y else struct.unpack('<Q', struct.pack('<d', y))[0]
        self.log.append(f'H {x % (1 << 64)} {bits} {z}')
        r = ((x % (1 << 64)) * 3 + z % (1 << 32)) % (1 << 64)
        return [r - (1 << 64) if r >> 63 else r]

    def call(self, name, args):
        return self.pw.call(self.inst, name, args, cpu=60)[0][1]


def setup(ctx):
    ctx.data['dir'] = tempfile.mkdtemp(prefix='vf18-')


def teardown(ctx):
    shutil.rmtree(ctx.data['dir'], ignore_errors=True)


def run(case, ctx):
    b, fb, calls = case
    d = ctx.data['dir']
    c = cgen.C(b)
    open(os.path.join(d, 'p.c'), 'w').write(c.text)
    open(os.path.join(d, 'n.c'), 'w').write('#include "p.c"\n' + f'#define NDIG {c.ndig}\n' + cgen.NATIVE)
    r = sh(['clang', '-w', '-O0', '-ffp-contract=off', 'n.c', '-o', 'n', '-lm'], d)
    if r.returncode:
        raise RuntimeError('generated program does not compile: ' + r.stderr[:2000])
    calls = [(k % len(c.funcs), x, y, z) for k, x, y, z in calls]
    r = sh(['./n'] + [str(x) for t in calls for x in t], d, 30)
    if r.returncode:
        raise RuntimeError(f'native run failed: {r.returncode}')
    want, hostlog = [], []
    for l in r.stdout.splitlines():
        if l[0] == 'R':
            want.append((hostlog, int(l[2:]), []))
            hostlog = []
        elif l[0] == 'D':
            want[-1][2].append(int(l[2:]))
        else:
            hostlog.append(l)
    s = gen.Src(fb)
    for n in range(2):
        fl = flags(s, c.simd)
        r = build('p.c', fl, d, 'p.wasm')
        if r.returncode:
            ctx.tag('flags refused by the toolchain')
            ctx.discard()
        try:
            w = Wasm(open(os.path.join(d, 'p.wasm'), 'rb').read())
        except drive.Raised as e:
            check(False, f'{fl}: instantiation: {e!r}')
        for i, ((k, x, y, z), (hl, res, dig)) in enumerate(zip(calls, want)):
            w.log.clear()
            try:
                got = w.call('run', [('i32', k), ('i64', x), ('i32', y), ('f64', z)])
                gd = dig if i < len(calls) - 1 else [w.call('digest', [('i32', j)]) for j in range(c.ndig)]
            except drive.Raised as e:
                check(False, lambda: f'{fl}: call {i} f{k}: {e!r}')
            check(w.log == hl, lambda: f'{fl}: call {i} f{k}: host calls {w.log}, natively {hl}')
            check(got == res, lambda: f'{fl}: call {i} f{k} returned {got}, natively {res}')
            check(gd == dig, lambda: f'{fl}: call {i} f{k}: data groups {[j for j in range(c.ndig) if gd[j] != dig[j]]} differ')
        for f in fl:
            ctx.tag('flag ' + f)
    ctx.tag('simd program' if c.simd else 'scalar program')
    ctx.good(h=diffprop.h64(b + b'/' + fb))


F64 = [0, 0x3ff0000000000000, 0x4008000000000000, 0xc024000000000000, 0x41e0000000000000]


def cases(n):
    def f(tier, shard, nshards):
        """seeded generation: Hypothesis repeats itself too much for cases this expensive"""
        r = random.Random(f'{os.environ.get("VERIF_SEED", "1")}/{shard}')
        for _ in range(n[0 if tier == 'quick' else 1] // nshards):
            calls = [(r.randrange(6), r.choice([r.randrange(40), r.getrandbits(64)]), r.choice([r.randrange(40), r.getrandbits(32)]),
                      r.choice(F64 + [r.getrandbits(62) | r.getrandbits(1) << 63])) for _ in range(r.randint(1, 4))]
            yield r.randbytes(r.choice([60, 200, 600, 600, 1500])), r.randbytes(48), calls
    return f


def shrink(case):
    b, fb, calls = case
    for k in range(len(calls)):
        if len(calls) > 1:
            yield b, fb, calls[:k] + calls[k + 1:]
    for x in shrink_bytes(b):
        yield x, fb, calls
    for x in shrink_bytes(fb):
        if len(x) == len(fb):
            yield b, x, calls


def show(case):
    c = cgen.C(case[0])
    s = gen.Src(case[1])
    return f'flags {flags(s, c.simd)} / {flags(s, c.simd)}\ncalls {case[2]}\n' + c.text[len(cgen.PRELUDE):] + f'\nbytes {case!r}'


# -- hand-written algorithms over generated input -------------------------------------------------------------------------
ALGO = ['sha256', 'sort', 'checksums', 'lz77', 'big integers', 'linear algebra', 'hash map', 'text', 'stack machine', 'misc', 'operations']
BUILDS = [['-O0'], ['-O1'], ['-O2', '-msimd128', '-mbulk-memory'], ['-O3', '-mnontrapping-fptoint', '-mno-sign-ext'], ['-Os', '-mbulk-memory'],
          ['-O3', '-msimd128', '-funroll-loops'], ['-Oz', '-mmultivalue', '-Xclang', '-target-abi', '-Xclang', 'experimental-mv'],
          ['-O2', '-mreference-types', '-fno-jump-tables']]


def algo_setup(ctx):
    setup(ctx)
    d = ctx.data['dir']
    src = cgen.PRELUDE + open(os.path.join(os.path.dirname(cgen.__file__), 'c', 'algo.c')).read()
    open(os.path.join(d, 'a.c'), 'w').write(src)
    r = sh(['clang', '-w', '-O1', '-ffp-contract=off', 'a.c', '-o', 'a', '-lm'], d)
    assert r.returncode == 0, r.stderr
    ctx.data['native'] = subprocess.Popen(['./a'], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    ctx.data['wasm'] = {}


def algo_teardown(ctx):
    if 'native' in ctx.data:
        ctx.data['native'].kill()
        ctx.data['native'].wait()
    teardown(ctx)


def algo_run(case, ctx):
    seq, flag = case
    flag = (flag + getattr(ctx, 'shard', 0)) % len(BUILDS)
    d = ctx.data['dir']
    if flag not in ctx.data['wasm']:
        r = build('a.c', BUILDS[flag], d, 'a.wasm')
        assert r.returncode == 0, r.stderr
        ctx.data['wasm'][flag] = open(os.path.join(d, 'a.wasm'), 'rb').read()
    try:
        w = Wasm(ctx.data['wasm'][flag])
    except drive.Raised as e:
        check(False, f'{BUILDS[flag]}: instantiation: {e!r}')
    mem = w.pw.memory(w.inst, 'memory')
    n = ctx.data['native']
    for k, data in seq:
        n.stdin.write(f'{k} {len(data)} ' + ' '.join(map(str, data)) + '\n')
        n.stdin.flush()
        want = bytes.fromhex(n.stdout.readline().strip())
        what = f'{BUILDS[flag]}: {ALGO[k]} over {data.hex()}'
        try:
            mem.put(w.call('in', []), bytearray(data))
            size = w.call('algo', [('i32', k), ('i32', len(data))])
            got = bytes(mem.get(w.call('out', []), size))
        except drive.Raised as e:
            check(False, f'{what}: {e!r}')
        check(got == want, lambda: f'{what}: wrote {got.hex()}, natively {want.hex()}')
        ctx.tag(ALGO[k])
    ctx.good()


def algo_strategy():
    from hypothesis import strategies as st
    data = st.one_of(st.binary(min_size=1, max_size=60), st.binary(min_size=40, max_size=300), st.lists(st.sampled_from(b'abca'), min_size=1, max_size=200).map(bytes),
                     st.text(max_size=40).map(lambda t: t.encode('utf8', 'replace') + b'!'))
    return st.tuples(st.lists(st.tuples(st.integers(0, len(ALGO) - 1), data), min_size=1, max_size=2), st.sampled_from([0] * 6 + [1, 3]))


def tests(tier):
    return [Test('generated', run, cases=cases((320, 20000)), shrink=shrink, setup=setup, teardown=teardown, show=show),
            Test('algorithms', algo_run, strategy=algo_strategy, n=(600, 20000), setup=algo_setup, teardown=algo_teardown)]
