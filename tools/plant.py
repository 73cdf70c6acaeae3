"""Development tool: write the planted bugs of /verif/seeded from the specifications in tools/plants/*.py.

A specification is a call plant(id, property, file, [(old, new), ...], demo, mods={name: bytes}, needs=..., breaks=...).  For each one
this verifies in a scratch copy of /repo that every replaced text is unique, that at least one removed line belongs to the
original repository, and that the demonstration passes before and fails after; with --tests also that the stable tests pass.
Nothing here is used by a check."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
BASE = '6e51034'
SPECS = []

PRELUDE = '''\
import io
import os
import struct
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
here = os.path.dirname(os.path.abspath(__file__))
import pywasm


def module(name):
    with open(os.path.join(here, name + '.wasm'), 'rb') as f:
        return pywasm.ModuleDesc.from_reader(f)


def load(name, rt=None):
    rt = rt or pywasm.Runtime()
    inst = rt.instance(module(name))
    return rt, inst


def trap(f, *args):
    """whether the call fails"""
    try:
        f(*args)
    except Exception:
        return True
    return False


def expect(got, want, what):
    if got != want:
        print('FAIL', what, 'is', got, 'and not', want)
        sys.exit(1)


'''
WASI = '''\
class Guest:
    """a program that exports every WASI function"""

    def __init__(self, args=(), dirs=None, envs=None):
        self.rt = pywasm.Runtime()
        self.wasi = pywasm.wasi.Preview1(list(args), dirs or {}, envs or {})
        self.wasi.bind(self.rt)
        self.inst = self.rt.instance(module('guest'))
        self.mem = self.rt.exported_memory(self.inst, 'memory')

    def __call__(self, name, *args):
        """-> errno, or the text of the exception that came out"""
        try:
            return (self.rt.invocate(self.inst, name, list(args)) or [None])[0]
        except Exception as e:
            return repr(e)

    def path(self, s, at=1024):
        self.mem.put(at, bytearray(s.encode()))
        return at, len(s.encode())

    def iov(self, *pairs, at=2048):
        for k, (p, n) in enumerate(pairs):
            self.mem.put_u32(at + 8 * k, p)
            self.mem.put_u32(at + 8 * k + 4, n)
        return at, len(pairs)

    def open(self, dirfd, name, oflags=0, rights=0x1fffffff, root=0x1fffffff, flags=0, follow=1):
        e = self('path_open', dirfd, follow, *self.path(name), oflags, rights, root, flags, 512)
        expect(e, 0, 'the result of opening ' + name)
        return self.mem.get_u32(512)


'''


def plant(id, prop, file, edits, demo, mods=None, needs='', breaks='', wasi=False):
    SPECS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, mods=mods or {}, needs=needs, breaks=breaks, wasi=wasi))


def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'plants', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'plant': plant})
    from vf import enc, wasi
    guest = enc.encode(wasi.module(start=([], [])))
    bad = 0
    for s in SPECS:
        if want and not any(re.fullmatch(w, s['id']) for w in want):
            continue
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            copy = os.path.join(tmp, 'repo')
            run('git', 'clone', '-q', '/repo', copy)
            src = os.path.join(copy, s['file'])
            text = open(src).read()
            base = run('git', '-C', '/repo', 'show', f'{BASE}:{s["file"]}').stdout.split('\n')
            problem = ''
            for old, new in s['edits']:
                if text.count(old) != 1:
                    problem = f'{text.count(old)} matches of {old!r}'
                    break
                text = text.replace(old, new)
            d = os.path.join(ROOT, 'seeded', s['id'])
            if not problem:
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + (WASI if s['wasi'] else '') + s['demo'].strip('\n') + '\n')
                open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                mods = dict(s['mods'])
                if s['wasi']:
                    mods.setdefault('guest', guest)
                for n, b in mods.items():
                    open(os.path.join(d, n + '.wasm'), 'wb').write(b)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                a = run('bash', os.path.join(d, 'demo.sh'), cwd=copy)
                open(src, 'w').write(text)
                diff = run('git', '-C', copy, 'diff').stdout
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                gone = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
                b = run('bash', os.path.join(d, 'demo.sh'), cwd=copy)
                if a.returncode:
                    problem = 'demo fails on the clean tree: ' + (a.stdout + a.stderr)[-600:]
                elif not b.returncode:
                    problem = 'demo passes on the changed tree'
                elif not any(l in base for l in gone):
                    problem = 'changes no original line'
                elif 'FAIL' not in b.stdout:
                    problem = 'demo fails without saying what: ' + (b.stdout + b.stderr)[-400:]
                elif '--tests' in sys.argv:
                    run('git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff'))
                    try:
                        o = os.path.join(tmp, 'o.json')
                        run('bash', '/opt/vp/test.sh', o)
                        r = json.load(open(o))
                        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                        miss = stable - set(r.get('passed', []))
                        if miss:
                            problem = f'stable tests fail: {sorted(miss)}'
                    finally:
                        run('git', '-C', '/repo', 'checkout', '--', '.')
            print(s['id'], problem or 'ok: ' + b.stdout.strip()[:150], flush=True)
            bad += bool(problem)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return bad


sys.exit(1 if main() else 0)
