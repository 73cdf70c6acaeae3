"""Development aid (not used by any check): compares vf.num, the oracle of C01..C05, with node's V8."""
import json, os, random, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import enc, num, numlib as L, ops
from vf.props.c04 import pools_of

names = [o.name for g in ('iscalar', 'fscalar', 'conv', 'vint', 'vfloat') for o in ops.GROUPS[g]]
vs = L.variants(names)
LD = {t: t + '.load' for t in ('i32', 'i64', 'f32', 'f64', 'v128')}
m = enc.Mod()
m.mems.append((1, 1))
m.exports.append(('mem', 'mem', 0))
for i, v in enumerate(vs):
    op = ops.OPS[v[0]]
    body = [('i32.const', 64)]
    for k, t in enumerate(op.params):
        body += [('i32.const', 16 * k), (LD[t], 0, 0)]
    body.append((v[0],) if v[1] is None else v)
    body.append((op.results[0] + '.store', 0, 0))
    m.func([], [], [], body, str(i))
b = enc.encode(m)
N = int(sys.argv[1]) if len(sys.argv) > 1 else 400
rng = random.Random(5)
cases = []
for i, v in enumerate(vs):
    op = ops.OPS[v[0]]
    pools = pools_of('x')(v) if 'v128' in op.params else [L.SPEC[p] for p in op.params]
    for _ in range(N):
        args = []
        for p, t in zip(pools, op.params):
            w = L.num_w(t)
            args.append(rng.choice([rng.choice(p), rng.choice(p), rng.getrandbits(w), (rng.choice(p) + rng.randrange(-2, 3)) & num.MASK[w]]))
        cases.append((i, args))
d = tempfile.mkdtemp()
open(d + '/m.wasm', 'wb').write(b)
json.dump([(i, [a.to_bytes(16, 'little').hex() for a in args]) for i, args in cases], open(d + '/c.json', 'w'))
open(d + '/r.js', 'w').write('''
const fs=require('fs');const m=new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])));
const mem=Buffer.from(m.exports.mem.buffer);const out=[];
for(const [i,args] of JSON.parse(fs.readFileSync(process.argv[3]))){mem.fill(0,0,96);
 args.forEach((a,k)=>Buffer.from(a,'hex').copy(mem,16*k));let r;try{m.exports[i]();r=mem.toString('hex',64,80)}catch(e){r='trap'}out.push(r)}
fs.writeFileSync(process.argv[4],JSON.stringify(out));''')
subprocess.run(['node', d + '/r.js', d + '/m.wasm', d + '/c.json', d + '/o.json'], check=True)
bad = 0
for (i, args), r in zip(cases, json.load(open(d + '/o.json'))):
    try:
        want = num.sem(*vs[i])(*args)
    except num.Trap:
        want = 'trap'
    ok = r == want if 'trap' in (r, want) else num.match(want, int.from_bytes(bytes.fromhex(r), 'little'))
    if not ok:
        bad += 1
        if bad < 20:
            print(vs[i], [hex(a) for a in args], 'v8', r, 'ref', want if not isinstance(want, int) else want.to_bytes(16, 'little').hex())
print(len(cases), 'cases', bad, 'mismatches')
