"""Writes MANIFEST.json from the list below (run after adding a check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUM = ('Searches operand space at random and over products of special values; the oracle (vf/num.py: exact integer and '
       'rational arithmetic) was cross-checked against V8 during development. Trusts Python integers/fractions, the '
       'module encoder vf/enc.py and the ValInst constructors used to pass operands.')
CLAIMS = {
    'C01': ('property-based testing against an exact integer reference model', NUM),
    'C02': ('property-based testing against an exact rational-arithmetic float model', NUM),
    'C03': ('property-based testing against an exact rational-arithmetic conversion model', NUM),
    'C04': ('property-based testing against a lane-wise reference model', NUM),
    'C05': ('property-based testing against a lane-wise exact float model', NUM),
    'C15': ('property-based round-trip and reference-codec testing',
            'Random and boundary integers up to 200 bits with padded encodings; oracle derived from the LEB128 definition.'),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
extra = os.path.join(ROOT, 'tools', 'claims.json')
if os.path.exists(extra):
    CLAIMS.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
m = dict(version=1, setup_cmd='python3-vt -B -c "import sys; sys.path.insert(0, \'.\'); import hypothesis, vf.drive, vf.ref"', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIMS and os.path.exists(os.path.join(ROOT, 'vf', 'props', i.lower() + '.py')):
        t, n = CLAIMS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3-vt -B check.py {i} --tier quick',
                                thorough_cmd=f'python3-vt -B check.py {i} --tier thorough', technique=t,
                                level='exploration', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason='no check built yet (work in progress; the technique applies)'))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
