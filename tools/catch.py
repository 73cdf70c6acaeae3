"""Development tool: run the quick check of every planted bug's property against a copy of /repo with the bug in it.
usage: catch.py [ID regex...] [--all: every check]"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = [a for a in sys.argv[1:] if not a.startswith('-')]
ids = sorted(d for d in os.listdir(f'{ROOT}/seeded') if not want or any(re.fullmatch(w, d) for w in want))
for d in ids:
    meta = json.load(open(f'{ROOT}/seeded/{d}/meta.json'))
    tmp = tempfile.mkdtemp(prefix='catch-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', f'{tmp}/repo'], check=True)
        subprocess.run(['git', '-C', f'{tmp}/repo', 'apply', f'{ROOT}/seeded/{d}/patch.diff'], check=True)
        hits = []
        props = [meta['property']] if '--all' not in sys.argv else [json.loads(l)['id'] for l in open(f'{ROOT}/properties.jsonl')]
        for p in props:
            t = time.time()
            r = subprocess.run(['python3-vt', '-B', f'{ROOT}/check.py', p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=f'{tmp}/repo', VERIF_SEED='1', VERIF_TIER='quick'), cwd=ROOT)
            m = re.search(rf'VIOLATION property={p} .*', r.stdout)
            if r.returncode == 1 and m:
                hits.append(f'{p} ({time.time() - t:.0f} s)')
            elif r.returncode:
                hits.append(f'{p} BROKEN rc {r.returncode}: {(r.stdout + r.stderr)[-300:]}')
        print(d, '->', ', '.join(hits) or 'MISSED', flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
