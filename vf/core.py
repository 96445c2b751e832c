"""Runner: drives the parts of one check with Hypothesis, in parallel shards, and reports.

A check module (checks/cNN.py) defines ID and parts() -> [Part(...)].  A part has a strategy
producing JSON-able cases and a property prop(case, ctx) raising Violation.  The runner owns seeds,
budgets, the non-termination watchdog, shrinking limits, evidence and replay files.
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import math
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

CPU_LIMIT_S = 60.0        # CPU seconds of one case after which it counts as non-terminating
SHRINK_S = 45.0           # wall seconds spent on shrinking a failure
MEM_LIMIT = 6 << 30
JOBS = 8


class Violation(Exception):
    """The property does not hold for the case."""


class Hang(BaseException):
    """The watchdog fired."""


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def close(a, b, rel=1e-9, abs_=0.0):
    return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


class Part:
    """One generated check: name, strategy, property, example counts."""

    def __init__(self, name, strategy, prop, quick, thorough=None, examples=(), rule=''):
        self.name = name
        self.strategy = strategy          # Hypothesis strategy (or zero-argument factory)
        self.prop = prop
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 40
        self.examples = list(examples)    # explicit regression cases run first, by every shard 0
        self.rule = rule


class Ctx:
    """Per-case services: scratch directory, classification."""

    def __init__(self, tmp):
        self.root = tmp
        self.dir = tmp
        self.labels = set()
        self.nontrivial = False
        self.skipped = False

    def cls(self, *labels):
        for s in labels:
            self.labels.add(str(s))

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def skip(self, why):
        self.skipped = True
        self.cls('skipped: ' + why)

    def path(self, *names):
        return os.path.join(self.dir, *names)


@contextlib.contextmanager
def quiet():
    """Silence the tools' progress output."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


def _on_alarm(_sig, _frm):
    raise Hang('no answer after {0} s of CPU time'.format(CPU_LIMIT_S))


# What a property body may stumble over when the code under test hands back malformed objects.
# Property bodies never raise these on the unchanged tree (thousands of cases, several seeds).
MALFORMED = (AttributeError, TypeError, IndexError, KeyError, ValueError, ArithmeticError,
             AssertionError, RecursionError, NameError, EOFError, LookupError, StopIteration,
             FileNotFoundError, NotADirectoryError, UnicodeError, SystemExit, MemoryError)


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    repo = [f for f in tb if f.filename.startswith(env.CODE)]
    where = (repo or tb)[-1] if tb else None
    loc = '{0}:{1}'.format(os.path.relpath(where.filename, env.REPO) if repo else
                           os.path.basename(where.filename), where.lineno) if where else '?'
    return '{0}: {1} [{2}]'.format(type(e).__name__, str(e)[:300], loc), bool(repo)


class Harness(Exception):
    pass


def run_case(part, case, tmp_root):
    """Run the property once; returns (ctx, message or None)."""
    d = tempfile.mkdtemp(dir=tmp_root)
    ctx = Ctx(d)
    random.seed(20240607)
    np = sys.modules.get('numpy')
    if np is not None:
        np.random.seed(20240607)
    cwd = os.getcwd()
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S, 5.0)
    msg = None
    try:
        os.chdir(d)
        with quiet():
            part.prop(case, ctx)
    except Violation as e:
        msg = str(e)
    except Hang as e:
        msg = str(e)
    except MALFORMED as e:
        text, _ = describe_exc(e)
        msg = 'unexpected exception ' + text
    except Exception as e:                                    # noqa: BLE001
        text, in_repo = describe_exc(e)
        if in_repo:
            msg = 'unexpected exception ' + text
        else:
            raise Harness(text) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return ctx, msg


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def short(case, limit=1500):
    s = json.dumps(case)
    return case if len(s) <= limit else s[:limit] + ' ...'


def shard_main(check_id, part_index, seed, n, budget_s, first, known, q):
    """Body of one worker process."""
    res = {'part': part_index, 'evals': 0, 'classes': {}, 'keys': set(), 'samples': [],
           'violation': None, 'error': None, 'budget_hit': 0, 'known': {}, 'skipped': 0}
    tmp_root = tempfile.mkdtemp(prefix='vf_')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
        signal.signal(signal.SIGVTALRM, _on_alarm)
        _shard(check_id, part_index, seed, n, budget_s, first, known, res, tmp_root)
    except BaseException as e:                                # noqa: BLE001
        res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        shutil.rmtree(tmp_root, ignore_errors=True)
    q.put(res)


def _shard(check_id, part_index, seed, n, budget_s, first, known, res, tmp_root):
    mod = importlib.import_module('checks.' + check_id.lower())
    part = mod.parts()[part_index]
    t0 = time.time()
    state = {'last': None, 'deadline': None, 'failed': {}}

    def one(case):
        k = key_of(case)
        if state['deadline'] is not None and time.time() > state['deadline']:
            if k in state['failed']:
                raise Violation(state['failed'][k])
            return
        if state['deadline'] is None and time.time() - t0 > budget_s:
            res['budget_hit'] += 1
            return
        ctx, msg = run_case(part, case, tmp_root)
        if state['deadline'] is None:
            res['evals'] += 1
            for c in ctx.labels:
                res['classes'][c] = res['classes'].get(c, 0) + 1
            if ctx.skipped:
                res['skipped'] += 1
            elif ctx.nontrivial:
                if k not in res['keys'] and len(res['samples']) < 2:
                    res['samples'].append(short(case))
                res['keys'].add(k)
        if msg is not None:
            for fid, match in known:
                if match(part.name, case, msg):
                    res['known'][fid] = res['known'].get(fid, 0) + 1
                    return
            if state['deadline'] is None:
                state['deadline'] = time.time() + SHRINK_S
            state['failed'][k] = msg
            state['last'] = (case, msg)
            raise Violation(msg)

    if first:
        for case in part.examples:
            try:
                one(case)
            except Violation:
                res['violation'] = state['last']
                return
    if n <= 0:
        return

    import hypothesis as hyp
    strategy = part.strategy() if callable(part.strategy) else part.strategy

    @hyp.seed(seed)
    @hyp.settings(max_examples=n, database=None, deadline=None, print_blob=False,
                  report_multiple_bugs=False, derandomize=False,
                  phases=[hyp.Phase.generate, hyp.Phase.target, hyp.Phase.shrink],
                  suppress_health_check=list(hyp.HealthCheck), verbosity=hyp.Verbosity.quiet)
    @hyp.given(strategy)
    def test(case):
        one(case)

    try:
        test()
    except Harness:
        raise
    except BaseException:                                     # noqa: BLE001
        if state['last'] is None:
            raise
        res['violation'] = state['last']


def load_known(check_id):
    """Listed findings of this check: lines 'finding: property=<id> key=<fid> <text>'."""
    out = []
    path = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('finding: property={0} '.format(check_id)):
                    w = line.split(None, 3)
                    out.append((w[2].split('=', 1)[1], w[3].strip()))
    return out


def derive(seed, *xs):
    h = hashlib.sha256(repr((seed,) + xs).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def run_check(check_id, tier, seed, jobs=JOBS):
    mod = importlib.import_module('checks.' + check_id.lower())
    parts = mod.parts()
    listed = load_known(check_id)
    matchers = getattr(mod, 'KNOWN', {})
    known = [(fid, matchers[fid]) for fid, _ in listed if fid in matchers]
    quick = tier == 'quick'
    budget = float(os.environ.get('VF_BUDGET', getattr(mod, 'QUICK_S', 60) if quick
                                  else getattr(mod, 'THOROUGH_S', 540)))
    t0 = time.time()

    # Tasks: every part is divided between the shards.
    tasks = []
    for pi, part in enumerate(parts):
        total = part.quick if quick else part.thorough
        shards = min(jobs, max(1, total // 5)) if total else 1
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            tasks.append((check_id, pi, derive(seed, check_id, part.name, s, tier), n,
                          budget, s == 0))
    # Largest first; rounds of `jobs` processes at a time.
    ctxmp = mp.get_context('fork')
    pending, running, results = list(tasks), [], []
    bad = None
    round_budget = budget / max(1, math.ceil(len(tasks) / jobs)) if len(tasks) > jobs else budget
    round_budget = max(round_budget, budget / 3.0)
    try:
        while pending or running:
            while pending and len(running) < jobs:
                t = pending.pop(0)
                q = ctxmp.SimpleQueue()
                p = ctxmp.Process(target=shard_main,
                                  args=t[:4] + (round_budget,) + t[5:] + (known, q))
                p.start()
                running.append((p, q, t))
            time.sleep(0.01)
            for item in list(running):
                p, q, t = item
                if not q.empty():
                    r = q.get()
                    p.join()
                    running.remove(item)
                    results.append(r)
                    if r['violation'] or r['error']:
                        bad = bad or r
                elif not p.is_alive() and q.empty():
                    running.remove(item)
                    results.append({'error': 'worker of part {0} died with code {1}'.format(
                        parts[t[1]].name, p.exitcode), 'violation': None, 'part': t[1]})
                    bad = bad or results[-1]
            if bad and bad.get('violation'):
                break
    finally:
        for p, _, _ in running:
            p.terminate()
        for p, _, _ in running:
            p.join()

    # Aggregate.
    ok = [r for r in results if 'evals' in r]
    classes, keys, samples, per, known_hits = {}, set(), [], {}, {}
    for r in sorted(ok, key=lambda r: r['part']):
        name = parts[r['part']].name
        d = per.setdefault(name, {'evaluations': 0, 'skipped': 0, 'not_run_budget': 0})
        d['evaluations'] += r['evals']
        d['skipped'] += r['skipped']
        d['not_run_budget'] += r['budget_hit']
        for c, v in r['classes'].items():
            classes[name + ': ' + c] = classes.get(name + ': ' + c, 0) + v
        keys |= {name + k for k in r['keys']}
        for fid, v in r['known'].items():
            known_hits[fid] = known_hits.get(fid, 0) + v
        if len([s for s in samples if s['part'] == name]) < 2:
            samples += [{'part': name, 'case': c} for c in r['samples'][:1]]
    violations = [r for r in results if r.get('violation')]
    wall = time.time() - t0
    rule = getattr(mod, 'RULE', '') + ' ' + ' '.join(
        '[{0}] {1}'.format(p.name, p.rule) for p in parts if p.rule)
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    evidence = {
        'property': check_id, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {'evaluations': sum(r['evals'] for r in ok),
                     'distinct_nontrivial': len(keys), 'rule': rule.strip(),
                     'samples': samples, 'per_part': per,
                     'classes': dict(sorted(classes.items())),
                     'known_finding_hits': known_hits},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3), 'violations': len(violations)}
    with open(os.path.join(env.VERIF, 'evidence', check_id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write('\n')

    for fid, text in listed:
        print('KNOWN-FINDING: property={0} {1}'.format(check_id, text))
    if violations:
        r = violations[0]
        case, msg = r['violation']
        name = parts[r['part']].name
        rd = os.path.join(env.VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '{0}_{1}_{2}.json'.format(check_id, name, key_of(case)[:10]))
        with open(path, 'w') as f:
            json.dump({'property': check_id, 'part': name, 'message': msg, 'case': case}, f, indent=1)
        print('part {0}: {1}'.format(name, msg))
        print('VIOLATION property={0} replay={1}'.format(check_id, path))
        return 1
    errors = [r for r in results if r.get('error')]
    if errors:
        print('ERROR in check {0}:\n{1}'.format(check_id, errors[0]['error']))
        return 2
    cov = evidence['coverage']
    print('{0}: held on {1} cases ({2} distinct non-trivial), {3:.1f} s'.format(
        check_id, cov['evaluations'], cov['distinct_nontrivial'], wall))
    return 0


def replay(check_id, path):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module('checks.' + check_id.lower())
    part = [p for p in mod.parts() if p.name == r['part']][0]
    signal.signal(signal.SIGVTALRM, _on_alarm)
    tmp = tempfile.mkdtemp(prefix='vf_')
    try:
        _, msg = run_case(part, r['case'], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if msg is None:
        print('{0}: replayed case holds'.format(check_id))
        return 0
    print('part {0}: {1}'.format(part.name, msg))
    print('VIOLATION property={0} replay={1}'.format(check_id, path))
    return 1


def self_test():
    """Setup: everything a check needs is importable."""
    import hypothesis
    import numpy
    print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('check', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--self-test', action='store_true')
    a = ap.parse_args(argv)
    sys.stdout.reconfigure(line_buffering=True)
    if a.self_test:
        return self_test()
    try:
        mod = importlib.import_module('checks.' + a.check.lower())
        # A check may build something in a scratch directory of its own first.
        scratch = tempfile.mkdtemp(prefix='vf_build_') if hasattr(mod, 'setup') else None
        try:
            if scratch:
                mod.setup(scratch)
            if a.replay:
                return replay(a.check, a.replay)
            return run_check(a.check, a.tier, a.seed)
        finally:
            if scratch:
                shutil.rmtree(scratch, ignore_errors=True)
    except Exception:                                         # noqa: BLE001
        traceback.print_exc()
        return 2
