"""Drives the checks: shards generated-input tests over processes, counts what was generated, writes evidence and
replay files and prints verdicts.

Exit codes: 0 held on everything explored; 1 violation (VIOLATION line printed); 2 harness error (never a verdict).
"""
import base64
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import resource
import signal
import struct
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold.  key identifies the failing situation for the known-findings file."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class Hang(BaseException):
    """CPU guard fired."""


class HangViolation(BaseException):
    """Not terminating: reported without shrinking (every shrink step would cost the full guard)."""

    def __init__(self, msg):
        self.msg = msg


class Discard(Exception):
    """The generated case is outside the property's domain (counted, not judged)."""


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Test:
    """One generated-input search.

    strategy: callable() -> Hypothesis strategy of cases, or None
    cases:    callable(tier, shard, nshards) -> iterable of cases (systematic enumeration or seeded generation), or None
    shrink:   callable(case) -> iterable of simpler cases, for failures found through cases
    run:      callable(case, ctx)
    n:        (quick, thorough) number of Hypothesis examples over all shards
    shards:   how many tasks to split into
    setup:    callable(ctx) run once per task before the cases, teardown afterwards
    """

    def __init__(self, name, run, strategy=None, cases=None, n=(0, 0), shards=None, setup=None, teardown=None,
                 show=None, shrink=None):
        self.shrink = shrink
        self.name, self.run, self.strategy, self.cases, self.n = name, run, strategy, cases, n
        self.shards = shards or NPROC
        self.setup, self.teardown, self.show = setup, teardown, show


class Ctx:
    def __init__(self, tier, seed, known):
        self.tier, self.seed, self.known = tier, seed, known
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self.discards = 0
        self.known_hit = {}
        self.cur = None
        self.show = None
        self.data = {}

    def tag(self, c, n=1):
        self.classes[c] = self.classes.get(c, 0) + n

    def good(self, case=None, h=None):
        """mark the current case non-trivial by the property's rule"""
        if h is None:
            h = int.from_bytes(hashlib.blake2b(pickle.dumps(self.cur if case is None else case),
                                               digest_size=8).digest(), 'little')
        self.nontrivial.add(h)
        if len(self.samples) < 2:
            self.samples.append(render(self.show, self.cur if case is None else case, 1500))

    def discard(self):
        raise Discard()


def render(show, case, lim):
    try:
        t = show(case) if show else repr(case)
    except Exception as e:       # noqa
        t = f'<unprintable case: {e!r}>'
    return t if len(t) <= lim else t[:lim] + ' ...'


def from_repo(tb):
    pre = os.path.join(os.path.realpath(REPO), 'pywasm') + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pre):
            return True
        tb = tb.tb_next
    return False


def one(test, case, ctx):
    """Run one case, translating unexpected exceptions out of the code under test into violations."""
    ctx.evaluations += 1
    ctx.cur = case
    try:
        test.run(case, ctx)
    except Discard:
        ctx.discards += 1
    except Violation as v:
        if v.key is not None and v.key in ctx.known:
            ctx.known_hit[v.key] = ctx.known_hit.get(v.key, 0) + 1
            return
        raise
    except Exception as e:
        if from_repo(e.__traceback__) or from_repo(getattr(getattr(e, 'raised', None), '__traceback__', None)):
            e = getattr(e, 'raised', e)
            raise Violation('unexpected exception from the code under test: '
                            + ''.join(traceback.format_exception(e))[-1500:]) from e
        if isinstance(e, (AttributeError, TypeError, ValueError, LookupError, struct.error)):
            # The comparison itself met a value it was not promised: a result of the wrong type, shape or range.
            raise Violation('the code under test produced something of the wrong shape: ' + ''.join(traceback.format_exception(e))[-1500:]) from e
        raise


def minimise(test, case, v, ctx):
    """greedy shrinking of a failure found through cases"""
    end = time.time() + 45
    again = test.shrink is not None
    while again:
        again = False
        for c in test.shrink(case):
            if time.time() > end:
                break
            try:
                one(test, c, ctx)
            except Violation as w:
                case, v, again = c, w, True
                break
            except Exception:
                continue
    return case, v


def shrink_bytes(b):
    """shorter or lower byte strings"""
    n = len(b)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            yield b[:i] + b[i + k:]
        k //= 2
    k = n
    while k >= 1:
        for i in range(0, n, k):
            if any(b[i:i + k]):
                yield b[:i] + bytes(len(b[i:i + k])) + b[i + k:]
        k //= 2


STOP = None
PROP = None


def task(args):
    tname, shard, nshards, tier, seed, known, deadline = args
    lim = int(os.environ.get('VERIF_GB', '6')) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    test = [t for t in PROP.tests(tier) if t.name == tname][0]
    ctx = Ctx(tier, seed, known)
    ctx.show = test.show
    ctx.shard, ctx.nshards = shard, nshards
    sub = int.from_bytes(hashlib.blake2b(f'{seed}/{PROP.ID}/{tname}/{shard}'.encode(), digest_size=6).digest(), 'big')
    ctx.sub = sub
    out = dict(test=tname, shard=shard, violation=None, error=None, truncated=0)
    last = [None]
    t0 = time.time()
    try:
        if test.setup:
            test.setup(ctx)
        if test.cases:
            for case in test.cases(tier, shard, nshards):
                if STOP.value or time.time() > deadline:
                    out['truncated'] += 1
                    break
                last[0] = case
                try:
                    one(test, case, ctx)
                except Violation as v:
                    STOP.value = 1
                    last[0], v = minimise(test, case, v, ctx)
                    raise v
        if test.strategy and not STOP.value:
            import hypothesis
            from hypothesis import HealthCheck, Phase, Verbosity, given, settings
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 45
            total = int((test.n[0] if tier == 'quick' else test.n[1]) * float(os.environ.get('VERIF_SCALE', '1')))
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n:
                @hypothesis.seed(sub)
                @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                          suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                          phases=(Phase.generate, Phase.shrink)[:1 if os.environ.get('VERIF_NOSHRINK') else 2], verbosity=Verbosity.quiet)
                @given(test.strategy())
                def body(case):
                    if (STOP.value or time.time() > deadline) and last[0] is None:
                        out['truncated'] += 1
                        return
                    try:
                        one(test, case, ctx)
                    except (Violation, HangViolation):
                        last[0] = case
                        raise
                last[0] = None
                body()
    except Violation as v:
        out['violation'] = (v.msg, v.key, last[0])
    except HangViolation as v:
        out['violation'] = (v.msg, 'hang', last[0])
    except BaseException as e:
        out['error'] = ''.join(traceback.format_exception(e))[-6000:]
    finally:
        if test.teardown:
            try:
                test.teardown(ctx)
            except BaseException as e:
                out['error'] = out['error'] or ''.join(traceback.format_exception(e))[-3000:]
    out.update(evaluations=ctx.evaluations, nontrivial=list(ctx.nontrivial), classes=ctx.classes,
               samples=ctx.samples, discards=ctx.discards, known_hit=ctx.known_hit, wall=time.time() - t0)
    if out['violation']:
        STOP.value = 1
        msg, key, case = out['violation']
        out['violation'] = dict(msg=msg, key=key, show=render(test.show, case, 20000),
                                pickle=base64.b64encode(pickle.dumps(case)).decode())
    return out


def known_findings(pid):
    """known-findings.txt lines: 'known: property=<id> key=<key> <description>' or 'fixed: ...'"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f'known: property={pid} key='):
                key, _, desc = line[len(f'known: property={pid} key='):].strip().partition(' ')
                out[key] = desc
    return out


def load(pid):
    global PROP
    PROP = importlib.import_module('vf.props.' + pid.lower())
    return PROP


def replay(pid, path):
    prop = load(pid)
    d = json.load(open(path))
    test = [t for t in prop.tests('quick') if t.name == d['test']][0]
    case = pickle.loads(base64.b64decode(d['pickle']))
    ctx = Ctx('quick', d['seed'], known_findings(pid))
    ctx.shard, ctx.nshards, ctx.sub = 0, 1, 0
    ctx.show = test.show
    print('replaying', pid, test.name)
    print(render(test.show, case, 20000))
    try:
        if test.setup:
            test.setup(ctx)
        one(test, case, ctx)
        if ctx.known_hit:
            print(f'KNOWN-FINDING: property={pid}', ctx.known_hit)
    except Violation as v:
        print(v.msg)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    except HangViolation as v:
        print(v.msg)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    finally:
        if test.teardown:
            test.teardown(ctx)
    print('held')
    return 0


def main(argv):
    global STOP
    pid = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--replay' in argv:
        return replay(pid, argv[argv.index('--replay') + 1])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    t0 = time.time()
    wall_cap = float(os.environ.get('VERIF_WALL', '420' if tier == 'quick' else '5400'))
    deadline = t0 + wall_cap
    prop = load(pid)
    known = known_findings(pid)
    ctx = multiprocessing.get_context('fork')
    STOP = ctx.Value('i', 0)
    tests = [t for t in prop.tests(tier) if not only or t.name == only]
    jobs = []
    for t in tests:
        for sh in range(t.shards):
            jobs.append((t.name, sh, t.shards, tier, seed, known, deadline))
    results, error = [], None
    if hasattr(prop, 'before'):
        prop.before()
    try:
        with concurrent.futures.ProcessPoolExecutor(NPROC, mp_context=ctx) as ex:
            futs = [ex.submit(task, j) for j in jobs]
            for f in futs:
                try:
                    results.append(f.result())
                except BaseException as e:
                    error = error or f'worker died: {e!r}'
    finally:
        if hasattr(prop, 'after'):
            prop.after()
    viol = [r for r in results if r['violation']]
    for r in results:
        if r['error'] and not error:
            error = f"test {r['test']} shard {r['shard']}:\n{r['error']}"
    rc = 0
    lines = []
    hits = {}
    for r in results:
        for k, n in r['known_hit'].items():
            hits[k] = hits.get(k, 0) + n
    for k in known:
        lines.append(f'KNOWN-FINDING: property={pid} {known[k]} [{k}, met {hits.get(k, 0)} times in this run]')
    if viol:
        rc = 1
        viol.sort(key=lambda r: len(r['violation']['show']))
        r = viol[0]
        v = r['violation']
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', f"{pid}-{r['test']}-{seed}.json")
        json.dump(dict(property=pid, test=r['test'], seed=seed, tier=tier, message=v['msg'], case=v['show'],
                       key=v['key'], pickle=v['pickle']), open(path, 'w'), indent=1)
        lines.append(f"test {r['test']}: {v['msg'][:3000]}")
        lines.append('minimal case: ' + v['show'][:3000])
        lines.append(f'VIOLATION property={pid} replay={path}')
    elif error:
        rc = 2
        lines.append('HARNESS ERROR (no verdict): ' + error)
    nt = set()
    for r in results:
        nt.update((r['test'], h) for h in r['nontrivial'])
    classes, per = {}, {}
    for r in results:
        for k, n in r['classes'].items():
            classes[k] = classes.get(k, 0) + n
        p = per.setdefault(r['test'], dict(evaluations=0, discarded=0, truncated=0, cpu_s=0.0))
        p['evaluations'] += r['evaluations']
        p['discarded'] += r['discards']
        p['truncated'] += r['truncated']
        p['cpu_s'] = round(p['cpu_s'] + r['wall'], 1)
    samples = []
    for t in tests:
        ss = [s for r in results if r['test'] == t.name for s in r['samples']]
        samples += [f'{t.name}: {s}' for s in ss[:2]]
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(r['evaluations'] for r in results), distinct_nontrivial=len(nt),
                            rule=prop.RULE, samples=samples[:12] or ['(none)'], per_test=per,
                            classes=dict(sorted(classes.items())), known_findings_met=hits),
              assumptions=list(getattr(prop, 'ASSUME', [])), wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', f'.{pid}.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', f'{pid}.json'))
    for l in lines:
        print(l)
    print(f'{pid} {tier} seed={seed}: evaluations={ev["coverage"]["evaluations"]} nontrivial={len(nt)} '
          f'wall={ev["wall_s"]}s rc={rc}')
    if os.environ.get('VERIF_STATS'):
        print(json.dumps(dict(per=per, classes=ev['coverage']['classes']), indent=1))
    sys.stdout.flush()
    return rc


# -- CPU guard --------------------------------------------------------------------------------------------------------
class guard:
    """with guard(seconds): raises Hang when the block burns that much CPU time (user time of this process), or, for calls
    that block, takes that much real time."""

    def __init__(self, cpu=10.0, wall=90.0):
        self.cpu, self.wall = cpu, max(wall, 8 * cpu)

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, self.fire)
        signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu, 1.0)
        signal.setitimer(signal.ITIMER_REAL, self.wall, 5.0)

    def fire(self, *a):
        raise Hang()

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False
