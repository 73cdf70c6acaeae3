"""Development aid: generated modules must validate in V8, and the reference interpreter must agree with V8's execution
(results via memory images and integer results).  usage: v8gen.py PROFILE N [SEED0]"""
import json, os, random, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vf import diff, enc, gen, num, ops, ref
from vf.profiles import P

prof = P[sys.argv[1]]
N = int(sys.argv[2])
s0 = int(sys.argv[3]) if len(sys.argv) > 3 else 0
d = tempfile.mkdtemp()
jobs = []
for n in range(s0, s0 + N):
    r = random.Random(n)
    c = gen.make(r.randbytes(r.choice([60, 200, 700, 1500, 2500])), prof)
    f = f'{d}/{n}.wasm'
    open(f, 'wb').write(enc.encode(c.mod))
    M = ref.Machine(20000, 60)
    hosts = {}
    for k, (ps, rs) in enumerate(c.hosts):
        hosts['env', f'h{k}'] = ref.RHost((tuple(ps), tuple(rs)), lambda args, k=k, ps=ps, rs=rs: [0 if t not in ops.REF else None for t in rs])
    calls, outcome = [], []
    try:
        inst = M.instantiate(c.mod, hosts)
    except num.Trap:
        inst = None
    except ref.OutOfFuel:
        continue
    ok = True
    if inst:
        for i, args in c.calls:
            ps, rs = c.mod.functype(i)
            if 'v128' in ps + rs:
                break        # no JS representation
            try:
                o = M.invoke(inst, f'f{i}', args)
                o = [None if t in ops.REF else str(x) for t, x in zip(rs, o)]
            except ref.OutOfFuel:
                ok = False
                break
            except ref.Exhausted:
                break
            except num.Trap:
                o = 'trap'
            except AssertionError as e:
                print(n, 'reference:', e)
                ok = False
                break
            calls.append([i, [[t, str(a)] for t, a in zip(ps, args)], list(rs)])
            m = inst.mems[0].data if inst.mems else b''
            h = 0
            for q in range(0, len(m)):
                if m[q]:
                    h = (h * 31 + m[q] + q) & 0xffffffff
            outcome.append([o, h, len(m)])
            if o == 'trap':
                break
    jobs.append(dict(n=n, f=f, calls=calls, inst=inst is not None, outcome=outcome,
                     hosts=[[list(a), list(b)] for a, b in c.hosts]))
json.dump(jobs, open(d + '/j.json', 'w'))
open(d + '/r.js', 'w').write('''
const fs=require('fs');const jobs=JSON.parse(fs.readFileSync(process.argv[2]));
const cv=new DataView(new ArrayBuffer(8));
function toJs(t,s){if(t.endsWith('ref'))return null;const b=BigInt(s);if(t=='i32')return Number(BigInt.asIntN(32,b));if(t=='i64')return BigInt.asIntN(64,b);
 if(t=='f32'){cv.setUint32(0,Number(b));return cv.getFloat32(0)} if(t=='f64'){cv.setBigUint64(0,b);return cv.getFloat64(0)} return null}
function fromJs(t,v){if(t=='i32')return String(v>>>0);if(t=='i64')return String(BigInt.asUintN(64,v));
 if(t=='f32'){if(v!==v)return 'nan';cv.setFloat32(0,v);return String(cv.getUint32(0))}
 if(t=='f64'){if(v!==v)return 'nan';cv.setFloat64(0,v);return String(cv.getBigUint64(0))} return null}
let em='',bad=0,calls=0,insts=0;
for(const j of jobs){let buf=fs.readFileSync(j.f);let mod;
 try{mod=new WebAssembly.Module(buf)}catch(e){bad++;console.log(j.n,'INVALID',e.message);continue}
 const env={};j.hosts.forEach((h,k)=>{env['h'+k]=(...a)=>{const z=h[1].map(t=>t=='i64'?0n:t.endsWith('ref')?null:0);return z.length==0?undefined:z.length==1?z[0]:z}});
 let inst;
 try{inst=new WebAssembly.Instance(mod,{env})}catch(e){if(j.inst){bad++;console.log(j.n,'instantiation',e.message)}continue}
 if(!j.inst){bad++;console.log(j.n,'V8 instantiates, reference traps');continue}
 insts++;
 for(let q=0;q<j.calls.length;q++){const [i,args,rs]=j.calls[q];const [o,h,len]=j.outcome[q];let r;calls++;
  try{let v=inst.exports['f'+i](...args.map(([t,s])=>toJs(t,s)));v=rs.length==0?[]:rs.length==1?[v]:v;r=v.map((x,k)=>fromJs(rs[k],x))}catch(e){r='trap';em=e.message; if(/call stack|incompat/.test(e.message)) break}
  const norm=(o==='trap')?'trap':o.map((x,k)=>{if(x!==null&&rs[k][0]=='f'){const y=toJs(rs[k],x);if(y!==y)return 'nan'}return x});
  if(JSON.stringify(norm)!=JSON.stringify(r)){bad++;console.log(j.n,'call',q,em,'V8',r,'ref',norm);break}
  const m=inst.exports.mem?new Uint8Array(inst.exports.mem.buffer):new Uint8Array(0);
  let hh=0;for(let a=0;a<m.length;a++)if(m[a])hh=(Math.imul(hh,31)+m[a]+a)>>>0;
  if(hh!=h||m.length!=len){bad++;console.log(j.n,'memory after call',q);break}
  if(r==='trap')break;
 }}
console.log(jobs.length,'modules',insts,'instances',calls,'calls',bad,'bad');''')
subprocess.run(['node', '--stack-size=4000', d + '/r.js', d + '/j.json'])
subprocess.run(['rm', '-rf', d])
